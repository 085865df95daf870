//go:build go1.22

package verifsim

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/txscript"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
)

// Key is a P2WPKH key with a blinding key, owned by the harness.
type Key struct {
	priv, blind *btcec.PrivateKey
	script      []byte // output script
	sigScript   []byte
	addr        string
}

func (w *World) NewKey(name string) *Key {
	s := rt.HashString(w.Seed, "key/"+name)
	r := simReader{&s}
	var a, b [32]byte
	r.Read(a[:])
	r.Read(b[:])
	k := &Key{}
	k.priv, _ = btcec.PrivKeyFromBytes(btcec.S256(), a[:])
	k.blind, _ = btcec.PrivKeyFromBytes(btcec.S256(), b[:])
	p := payment.FromPublicKey(k.priv.PubKey(), net, k.blind.PubKey())
	k.script, k.sigScript = p.WitnessScript, p.Script
	k.addr, _ = p.ConfidentialWitnessPubKeyHash()
	return k
}

func (k *Key) scriptHex() string { return hex.EncodeToString(k.script) }
func (k *Key) blindPub() []byte  { return k.blind.PubKey().SerializeCompressed() }

// Trader is a counter-party: every proposal uses fresh keys.
type Trader struct {
	w     *World
	chain *Chain
	n     int
}

type outSpec struct {
	asset  string
	value  uint64
	script []byte
}

func assetBytes(a string) []byte {
	b, _ := hex.DecodeString(a)
	return append([]byte{1}, elementsutil.ReverseBytes(b)...)
}

func plainOut(o outSpec) *transaction.TxOutput {
	v, err := elementsutil.SatoshiToElementsValue(o.value)
	must(err)
	return transaction.NewTxOutput(assetBytes(o.asset), v, o.script)
}

// buildPset makes an unsigned partial transaction.
func buildPset(ins []*simTxOut, outs []outSpec) string {
	p, err := pset.New([]*transaction.TxInput{}, []*transaction.TxOutput{}, 2, 0)
	must(err)
	u, err := pset.NewUpdater(p)
	must(err)
	for i, in := range ins {
		h, _ := hex.DecodeString(in.Op.Txid)
		u.AddInput(transaction.NewTxInput(elementsutil.ReverseBytes(h), in.Op.Vout))
		must(u.AddInWitnessUtxo(in.Raw, i))
	}
	for _, o := range outs {
		u.AddOutput(plainOut(o))
	}
	b, err := p.ToBase64()
	must(err)
	return b
}

// signPset adds the signatures of a key to the inputs it owns.
func signPset(b64 string, k *Key) (string, error) {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		return "", err
	}
	u, err := pset.NewUpdater(p)
	if err != nil {
		return "", err
	}
	for i, in := range p.Inputs {
		if in.WitnessUtxo == nil || !bytes.Equal(in.WitnessUtxo.Script, k.script) {
			continue
		}
		h := p.UnsignedTx.HashForWitnessV0(i, k.sigScript, in.WitnessUtxo.Value, txscript.SigHashAll)
		s, err := k.priv.Sign(h[:])
		if err != nil {
			return "", err
		}
		if _, err := u.Sign(i, append(s.Serialize(), byte(txscript.SigHashAll)), k.priv.PubKey().SerializeCompressed(), nil, nil); err != nil {
			return "", err
		}
	}
	return p.ToBase64()
}

// finalTx finalizes a fully signed pset and extracts the raw transaction.
func finalTx(b64 string) (string, error) {
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil {
		return "", err
	}
	if err := pset.FinalizeAll(p); err != nil {
		return "", err
	}
	tx, err := pset.Extract(p)
	if err != nil {
		return "", err
	}
	return tx.ToHex()
}

func psetTx(b64 string) (*pset.Pset, error) { return pset.NewPsetFromBase64(b64) }

// spendPlain makes a signed transaction of harness coins.
func (c *Chain) spendKey(k *Key, ins []*simTxOut, outs []outSpec) (string, error) {
	p := buildPset(ins, outs)
	s, err := signPset(p, k)
	if err != nil {
		return "", err
	}
	return finalTx(s)
}

// proposal is a swap request built by a trader.
type proposal struct {
	key     *Key
	ins     []*simTxOut
	req     *pbswap.SwapRequest
	market  string
	sell    bool
	outs    []outSpec
	psetIns []outpoint
	invalid bool // no acceptance can make its transaction valid
}

// propose builds a swap request: pay amountP of assetP, get amountR of assetR.
func (t *Trader) propose(assetP string, amountP uint64, assetR string, amountR uint64, nIns int) *proposal {
	t.n++
	k := t.w.NewKey(fmt.Sprintf("trader%d", t.n))
	pr := &proposal{key: k}
	if nIns < 1 {
		nIns = 1
	}
	left := amountP
	extra := uint64(0)
	if t.n%3 != 0 {
		extra = 1000 + uint64(t.n)
	}
	for i := 0; i < nIns; i++ {
		v := left / uint64(nIns-i)
		if i == nIns-1 {
			v = left + extra
		}
		if v == 0 {
			continue
		}
		left -= v - b2u(i == nIns-1)*extra
		pr.ins = append(pr.ins, t.chain.Fund(k.script, k.blindPub(), assetP, v))
	}
	pr.outs = []outSpec{{assetR, amountR, k.script}}
	if extra > 0 {
		pr.outs = append(pr.outs, outSpec{assetP, extra, k.script})
	}
	key := map[string][]byte{k.scriptHex(): k.blind.Serialize()}
	pr.req = &pbswap.SwapRequest{
		Id: fmt.Sprintf("req%d", t.n), AssetP: assetP, AmountP: amountP, AssetR: assetR, AmountR: amountR,
		Transaction: buildPset(pr.ins, pr.outs), InputBlindingKey: key,
		OutputBlindingKey: map[string][]byte{k.scriptHex(): k.blind.Serialize()},
	}
	for _, i := range pr.ins {
		pr.psetIns = append(pr.psetIns, i.Op)
	}
	return pr
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
