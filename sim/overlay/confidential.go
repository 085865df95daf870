// Package confidential: stand-in used by the simulator. Commitments, range
// proofs and surjection proofs are hash based but keep the algebra the daemon
// relies on (openings, balance of blinding factors, unblinding only with the
// right key). A global registry records every opening, so that the simulated
// chain can check conservation exactly.
package confidential

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"math/big"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"github.com/vulpemventures/go-elements/transaction"
)

// Opening of a value commitment.
type SimOpening struct {
	Value    uint64
	Asset    [32]byte
	Abf, Vbf [32]byte
}

var (
	simMu     sync.Mutex
	simGens   = map[[33]byte]SimOpening{}
	simValues = map[[33]byte]SimOpening{}
	order     = btcec.S256().N
)

// SimOpenValue returns the opening of a value commitment made with ValueCommitment.
func SimOpenValue(c []byte) (SimOpening, bool) {
	if len(c) != 33 {
		return SimOpening{}, false
	}
	simMu.Lock()
	defer simMu.Unlock()
	o, ok := simValues[to33(c)]
	return o, ok
}

// SimOpenAsset returns the opening of an asset commitment.
func SimOpenAsset(c []byte) (SimOpening, bool) {
	if len(c) != 33 {
		return SimOpening{}, false
	}
	simMu.Lock()
	defer simMu.Unlock()
	o, ok := simGens[to33(c)]
	return o, ok
}

// SimTerm is value*abf+vbf modulo the group order.
func SimTerm(o SimOpening) *big.Int {
	v := new(big.Int).SetUint64(o.Value)
	v.Mul(v, new(big.Int).SetBytes(o.Abf[:]))
	v.Add(v, new(big.Int).SetBytes(o.Vbf[:]))
	return v.Mod(v, order)
}

// SimOrder is the group order.
func SimOrder() *big.Int { return order }

// SimRangeProofOk checks that proof is a range proof for the commitment and script.
func SimRangeProofOk(commit, gen, script, proof []byte) bool {
	if len(proof) != rangeProofSize {
		return false
	}
	want := tag("pub", proof[32:64], commit, gen, script)
	return bytes.Equal(want[:], proof[:32])
}

// SimSurjectionOk checks a surjection proof against the generators of the inputs.
func SimSurjectionOk(proof []byte, inGens [][]byte, outGen []byte) bool {
	return verifySurj(proof, inGens, outGen)
}

const rangeProofSize = 4174

func to33(b []byte) (r [33]byte) { copy(r[:], b); return }
func to32(b []byte) (r [32]byte) { copy(r[:], b); return }

func tag(name string, parts ...[]byte) [32]byte {
	h := sha256.New()
	h.Write([]byte("sim/" + name))
	var l [8]byte
	for _, p := range parts {
		binary.BigEndian.PutUint64(l[:], uint64(len(p)))
		h.Write(l[:])
		h.Write(p)
	}
	var r [32]byte
	h.Sum(r[:0])
	return r
}

// NonceHash method generates hashed secret based on ecdh.
func NonceHash(pubKey, privKey []byte) (result [32]byte, err error) {
	pk, err := btcec.ParsePubKey(pubKey, btcec.S256())
	if err != nil {
		return
	}
	if len(privKey) != 32 {
		err = errors.New("private key must be exactly 32 bytes")
		return
	}
	x, y := btcec.S256().ScalarMult(pk.X, pk.Y, privKey)
	p := btcec.PublicKey{Curve: btcec.S256(), X: x, Y: y}
	ecdh := sha256.Sum256(p.SerializeCompressed())
	result = sha256.Sum256(ecdh[:])
	return
}

type UnblindOutputResult struct {
	Value               uint64
	Asset               []byte
	ValueBlindingFactor []byte
	AssetBlindingFactor []byte
}

func UnblindOutputWithKey(out *transaction.TxOutput, blindKey []byte) (*UnblindOutputResult, error) {
	if !out.IsConfidential() {
		return nil, nil
	}
	nonce, err := NonceHash(out.Nonce, blindKey)
	if err != nil {
		return nil, err
	}
	return unblindOutput(out, nonce)
}

func UnblindOutputWithNonce(out *transaction.TxOutput, nonce []byte) (*UnblindOutputResult, error) {
	if !out.IsConfidential() {
		return nil, nil
	}
	var nonce32 [32]byte
	copy(nonce32[:], nonce)
	return unblindOutput(out, nonce32)
}

type UnblindIssuanceResult struct {
	Asset *UnblindOutputResult
	Token *UnblindOutputResult
}

func UnblindIssuance(in *transaction.TxInput, blindKeys [][]byte) (*UnblindIssuanceResult, error) {
	return nil, errors.New("issuances are not simulated")
}

type FinalValueBlindingFactorArgs struct {
	InValues      []uint64
	OutValues     []uint64
	InGenerators  [][]byte
	OutGenerators [][]byte
	InFactors     [][]byte
	OutFactors    [][]byte
}

// FinalValueBlindingFactor: the last factor f such that
// sum_in(v*g+b) = sum_out(v*g+b), the last output's b being f.
func FinalValueBlindingFactor(args FinalValueBlindingFactorArgs) ([32]byte, error) {
	var res [32]byte
	values := append(append([]uint64{}, args.InValues...), args.OutValues...)
	gens := append(append([][]byte{}, args.InGenerators...), args.OutGenerators...)
	facs := append(append([][]byte{}, args.InFactors...), args.OutFactors...)
	if len(gens) != len(values) || len(facs) < len(values)-1 {
		return res, errors.New("bad argument lengths")
	}
	sum := new(big.Int)
	for i, v := range values {
		t := new(big.Int).SetUint64(v)
		t.Mul(t, new(big.Int).SetBytes(gens[i]))
		if i < len(values)-1 {
			t.Add(t, new(big.Int).SetBytes(facs[i]))
		}
		if i < len(args.InValues) {
			sum.Add(sum, t)
		} else {
			sum.Sub(sum, t)
		}
	}
	sum.Mod(sum, order)
	sum.FillBytes(res[:])
	return res, nil
}

// AssetCommitment method generates asset commitment
func AssetCommitment(asset, factor []byte) ([]byte, error) {
	if len(asset) != 32 || len(factor) != 32 {
		return nil, errors.New("asset and factor must be 32 bytes")
	}
	h := tag("asset", asset, factor)
	c := append([]byte{0x0a | h[0]&1}, h[:]...)
	simMu.Lock()
	simGens[to33(c)] = SimOpening{Asset: to32(asset), Abf: to32(factor)}
	simMu.Unlock()
	return c, nil
}

// ValueCommitment method generates value commitment
func ValueCommitment(value uint64, generator, factor []byte) ([]byte, error) {
	if len(generator) != 33 || len(factor) != 32 {
		return nil, errors.New("bad generator or factor")
	}
	simMu.Lock()
	defer simMu.Unlock()
	g, ok := simGens[to33(generator)]
	if !ok {
		return nil, errors.New("invalid generator")
	}
	var v [8]byte
	binary.BigEndian.PutUint64(v[:], value)
	h := tag("value", v[:], generator, factor)
	c := append([]byte{0x08 | h[0]&1}, h[:]...)
	g.Value = value
	g.Vbf = to32(factor)
	simValues[to33(c)] = g
	return c, nil
}

type RangeProofArgs struct {
	Value               uint64
	Nonce               [32]byte
	Asset               []byte
	AssetBlindingFactor []byte
	ValueBlindFactor    [32]byte
	ValueCommit         []byte
	ScriptPubkey        []byte
	MinValue            uint64
	Exp                 int
	MinBits             int
}

func keystream(nonce, seed []byte, n int) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := tag("ks", nonce, seed, []byte{byte(i)})
		out = append(out, h[:]...)
	}
	return out[:n]
}

// RangeProof layout: public tag (32) | salt (32) | mac (32) | ciphertext (104) | padding
func RangeProof(args RangeProofArgs) ([]byte, error) {
	min := args.MinValue
	if min == 0 {
		min = 1
	}
	if args.Value < min {
		return nil, errors.New("failed to sign range proof")
	}
	gen, err := AssetCommitment(args.Asset, args.AssetBlindingFactor)
	if err != nil {
		return nil, err
	}
	want, err := ValueCommitment(args.Value, gen, args.ValueBlindFactor[:])
	if err != nil {
		return nil, err
	}
	if !bytes.Equal(want, args.ValueCommit) {
		return nil, errors.New("failed to sign range proof")
	}
	salt := tag("salt", args.ValueCommit, args.Nonce[:], args.ScriptPubkey)
	msg := make([]byte, 8, 104)
	binary.BigEndian.PutUint64(msg, args.Value)
	msg = append(msg, args.Asset...)
	msg = append(msg, args.AssetBlindingFactor...)
	msg = append(msg, args.ValueBlindFactor[:]...)
	ks := keystream(args.Nonce[:], salt[:], len(msg))
	for i := range msg {
		msg[i] ^= ks[i]
	}
	mac := hmac.New(sha256.New, args.Nonce[:])
	mac.Write(salt[:])
	mac.Write(args.ValueCommit)
	mac.Write(args.ScriptPubkey)
	mac.Write(msg)
	pub := tag("pub", salt[:], args.ValueCommit, gen, args.ScriptPubkey)
	out := make([]byte, 0, rangeProofSize)
	out = append(out, pub[:]...)
	out = append(out, salt[:]...)
	out = mac.Sum(out)
	out = append(out, msg...)
	return out[:rangeProofSize], nil
}

func unblindOutput(out *transaction.TxOutput, nonce [32]byte) (*UnblindOutputResult, error) {
	if len(out.Value) != 33 || len(out.RangeProof) != rangeProofSize {
		return nil, errors.New("failed to rewind range proof")
	}
	p := out.RangeProof
	mac := hmac.New(sha256.New, nonce[:])
	mac.Write(p[32:64])
	mac.Write(out.Value)
	mac.Write(out.Script)
	mac.Write(p[96:200])
	if !hmac.Equal(mac.Sum(nil), p[64:96]) {
		return nil, errors.New("failed to rewind range proof")
	}
	msg := append([]byte{}, p[96:200]...)
	ks := keystream(nonce[:], p[32:64], len(msg))
	for i := range msg {
		msg[i] ^= ks[i]
	}
	return &UnblindOutputResult{
		Value:               binary.BigEndian.Uint64(msg[:8]),
		Asset:               msg[8:40],
		AssetBlindingFactor: msg[40:72],
		ValueBlindingFactor: msg[72:104],
	}, nil
}

type SurjectionProofArgs struct {
	OutputAsset               []byte
	OutputAssetBlindingFactor []byte
	InputAssets               [][]byte
	InputAssetBlindingFactors [][]byte
	Seed                      []byte
}

func gensOf(assets, factors [][]byte) ([][]byte, error) {
	var r [][]byte
	for i, a := range assets {
		if i >= len(factors) {
			return nil, errors.New("missing factor")
		}
		g, err := AssetCommitment(a, factors[i])
		if err != nil {
			return nil, err
		}
		r = append(r, g)
	}
	return r, nil
}

// SurjectionProof method generates surjection proof
func SurjectionProof(args SurjectionProofArgs) ([]byte, bool) {
	found := false
	for _, a := range args.InputAssets {
		if bytes.Equal(a, args.OutputAsset) {
			found = true
		}
	}
	if !found || len(args.Seed) != 32 {
		return nil, false
	}
	in, err := gensOf(args.InputAssets, args.InputAssetBlindingFactors)
	if err != nil {
		return nil, false
	}
	out, err := AssetCommitment(args.OutputAsset, args.OutputAssetBlindingFactor)
	if err != nil {
		return nil, false
	}
	return surj(in, out), true
}

func surj(in [][]byte, out []byte) []byte {
	parts := append([][]byte{out}, in...)
	a := tag("surj0", parts...)
	b := tag("surj1", parts...)
	c := tag("surj2", parts...)
	r := []byte{byte(len(in)), 0, 7}
	r = append(r, a[:]...)
	r = append(r, b[:]...)
	return append(r, c[:]...)
}

func verifySurj(proof []byte, in [][]byte, out []byte) bool {
	return bytes.Equal(proof, surj(in, out))
}

type VerifySurjectionProofArgs struct {
	InputAssets               [][]byte
	InputAssetBlindingFactors [][]byte
	OutputAsset               []byte
	OutputAssetBlindingFactor []byte
	Proof                     []byte
}

// VerifySurjectionProof method verifies the validity of a surjection proof
func VerifySurjectionProof(args VerifySurjectionProofArgs) bool {
	in, err := gensOf(args.InputAssets, args.InputAssetBlindingFactors)
	if err != nil {
		return false
	}
	out, err := AssetCommitment(args.OutputAsset, args.OutputAssetBlindingFactor)
	if err != nil {
		return false
	}
	return verifySurj(args.Proof, in, out)
}
