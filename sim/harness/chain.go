//go:build go1.22

package verifsim

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcutil"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/confidential"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/payment"
	"github.com/vulpemventures/go-elements/transaction"
)

var net = &network.Regtest

const LBTC = "5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225"

func assetN(i int) string { return fmt.Sprintf("%02x", 0x10+i) + strings.Repeat("ab", 31) }

type outpoint struct {
	Txid string
	Vout uint32
}

func (o outpoint) String() string { return fmt.Sprintf("%s:%d", short(o.Txid), o.Vout) }

// simTxOut is a transaction output with its opening.
type simTxOut struct {
	Op      outpoint
	Script  string // hex
	Asset   string
	Value   uint64
	Conf    bool
	Raw     *transaction.TxOutput
	SpentBy string // txid
	// openings for unblinded signing by harness actors
	Abf, Vbf []byte
}

type simTx struct {
	Txid   string
	Hex    string
	Tx     *transaction.Transaction
	Height int64 // 0: mempool
	Time   int64 // block time
	Hash   string
	Outs   []*simTxOut
	By     string // tag of the broadcaster
}

// Chain is the simulated network.
type Chain struct {
	Txs     map[string]*simTx
	Utxo    map[outpoint]*simTxOut // all outputs, spent ones included
	Scripts map[string][]*simTxOut
	Mempool []string
	Height  int64
	Last    int64
	order   []string
}

func NewChain() *Chain {
	return &Chain{Txs: map[string]*simTx{}, Utxo: map[outpoint]*simTxOut{}, Scripts: map[string][]*simTxOut{}, Height: 100}
}

func assetHex(b []byte) string {
	return hex.EncodeToString(elementsutil.ReverseBytes(append([]byte{}, b...)))
}

func openOut(o *transaction.TxOutput) (asset string, value uint64, conf bool, opn confidential.SimOpening, err error) {
	if len(o.Asset) != 33 {
		err = errors.New("bad-asset")
		return
	}
	if o.Asset[0] == 1 {
		asset = assetHex(o.Asset[1:])
		copy(opn.Asset[:], o.Asset[1:])
		if len(o.Value) != 9 || o.Value[0] != 1 {
			err = errors.New("mixed confidentiality")
			return
		}
		value, err = elementsutil.ElementsToSatoshiValue(o.Value)
		opn.Value = value
		return
	}
	conf = true
	opv, ok := confidential.SimOpenValue(o.Value)
	if !ok {
		err = errors.New("unknown value commitment")
		return
	}
	opa, ok := confidential.SimOpenAsset(o.Asset)
	if !ok || opa.Asset != opv.Asset || opa.Abf != opv.Abf {
		err = errors.New("value commitment does not match asset commitment")
		return
	}
	return assetHex(opv.Asset[:]), opv.Value, true, opv, nil
}

// Decode parses a transaction and opens its outputs.
func decodeTx(txhex string) (*simTx, error) {
	t, err := transaction.NewTxFromHex(txhex)
	if err != nil {
		return nil, err
	}
	st := &simTx{Txid: t.TxHash().String(), Hex: txhex, Tx: t}
	for i, o := range t.Outputs {
		a, v, c, opn, err := openOut(o)
		if err != nil {
			return nil, fmt.Errorf("output %d: %v", i, err)
		}
		st.Outs = append(st.Outs, &simTxOut{Op: outpoint{st.Txid, uint32(i)}, Script: hex.EncodeToString(o.Script),
			Asset: a, Value: v, Conf: c, Raw: o, Abf: append([]byte{}, opn.Abf[:]...), Vbf: append([]byte{}, opn.Vbf[:]...)})
	}
	return st, nil
}

func inOutpoint(in *transaction.TxInput) outpoint {
	return outpoint{hex.EncodeToString(elementsutil.ReverseBytes(append([]byte{}, in.Hash...))), in.Index}
}

// validate checks a transaction like a node would. checkSigs false skips
// witnesses.
func (c *Chain) validate(t *simTx, checkSigs bool) error {
	sumIn := map[string]uint64{}
	term := new(big.Int)
	var gens [][]byte
	seen := map[outpoint]bool{}
	if len(t.Tx.Inputs) == 0 || len(t.Outs) == 0 {
		return errors.New("bad-txns-vin-empty")
	}
	for i, in := range t.Tx.Inputs {
		op := inOutpoint(in)
		if seen[op] {
			return errors.New("bad-txns-inputs-duplicate")
		}
		seen[op] = true
		prev, ok := c.Utxo[op]
		if !ok {
			return errors.New("bad-txns-inputs-missingorspent")
		}
		if prev.SpentBy != "" {
			if c.Txs[prev.SpentBy].Height == 0 {
				return errors.New("txn-mempool-conflict")
			}
			return errors.New("bad-txns-inputs-missingorspent")
		}
		sumIn[prev.Asset] += prev.Value
		_, _, _, opn, _ := openOut(prev.Raw)
		term.Add(term, confidential.SimTerm(opn))
		g := prev.Raw.Asset
		if g[0] == 1 { // an explicit asset is a generator that is not blinded
			if g, _ = confidential.AssetCommitment(g[1:], make([]byte, 32)); g == nil {
				return errors.New("bad asset")
			}
		}
		gens = append(gens, g)
		if checkSigs {
			if err := checkWitness(t.Tx, i, prev.Raw); err != nil {
				return err
			}
		}
	}
	fee := uint64(0)
	for i, o := range t.Outs {
		if len(o.Raw.Script) == 0 {
			if o.Conf || o.Asset != LBTC {
				return errors.New("bad-fee")
			}
			fee += o.Value
		}
		if o.Value == 0 {
			return errors.New("bad-txns-vout-zero")
		}
		if o.Conf {
			if !confidential.SimRangeProofOk(o.Raw.Value, o.Raw.Asset, o.Raw.Script, o.Raw.RangeProof) {
				return fmt.Errorf("bad-txns-rangeproof %d", i)
			}
			if !confidential.SimSurjectionOk(o.Raw.SurjectionProof, gens, o.Raw.Asset) {
				return fmt.Errorf("bad-txns-surjection %d", i)
			}
		}
		if sumIn[o.Asset] < o.Value {
			return errors.New("bad-txns-in-ne-out, value in != value out")
		}
		sumIn[o.Asset] -= o.Value
		_, _, _, opn, _ := openOut(o.Raw)
		term.Sub(term, confidential.SimTerm(opn))
	}
	for _, v := range sumIn {
		if v != 0 {
			return errors.New("bad-txns-in-ne-out, value in != value out")
		}
	}
	if term.Mod(term, confidential.SimOrder()).Sign() != 0 {
		return errors.New("bad-txns-in-ne-out, blinders do not balance")
	}
	if fee == 0 {
		return errors.New("min relay fee not met")
	}
	return nil
}

func checkWitness(tx *transaction.Transaction, i int, prev *transaction.TxOutput) error {
	in := tx.Inputs[i]
	s := prev.Script
	if len(s) != 22 || s[0] != 0 || s[1] != 20 {
		return errors.New("non-standard input")
	}
	if len(in.Witness) != 2 || len(in.Script) != 0 {
		return errors.New("mandatory-script-verify-flag-failed (witness program hash mismatch)")
	}
	sig, pub := in.Witness[0], in.Witness[1]
	if !bytes.Equal(btcutil.Hash160(pub), s[2:]) || len(sig) < 2 {
		return errors.New("mandatory-script-verify-flag-failed (witness program hash mismatch)")
	}
	pk, err := btcec.ParsePubKey(pub, btcec.S256())
	if err != nil {
		return err
	}
	sg, err := btcec.ParseDERSignature(sig[:len(sig)-1], btcec.S256())
	if err != nil {
		return err
	}
	p := payment.FromPublicKey(pk, net, nil)
	h := tx.HashForWitnessV0(i, p.Script, prev.Value, 1)
	if sig[len(sig)-1] != 1 || !sg.Verify(h[:], pk) {
		return errors.New("mandatory-script-verify-flag-failed (Signature must be zero for failed CHECK(MULTI)SIG operation)")
	}
	return nil
}

func (c *Chain) add(t *simTx) {
	c.Txs[t.Txid] = t
	c.order = append(c.order, t.Txid)
	for _, in := range t.Tx.Inputs {
		if o := c.Utxo[inOutpoint(in)]; o != nil {
			o.SpentBy = t.Txid
		}
	}
	for _, o := range t.Outs {
		c.Utxo[o.Op] = o
		if o.Script != "" {
			c.Scripts[o.Script] = append(c.Scripts[o.Script], o)
		}
	}
	c.Mempool = append(c.Mempool, t.Txid)
}

// Broadcast submits a transaction to the network.
func (c *Chain) Broadcast(txhex, by string) (string, error) {
	t, err := decodeTx(strings.TrimSpace(txhex))
	if err != nil {
		return "", fmt.Errorf("TX decode failed: %v", err)
	}
	if old, ok := c.Txs[t.Txid]; ok {
		if old.Height > 0 {
			return "", errors.New("sendrawtransaction RPC error: Transaction already in block chain")
		}
		return t.Txid, nil
	}
	if err := c.validate(t, true); err != nil {
		return "", fmt.Errorf("sendrawtransaction RPC error: %v", err)
	}
	t.By = by
	c.add(t)
	return t.Txid, nil
}

// Mine confirms the whole mempool in a block.
func (c *Chain) Mine() int {
	c.Height++
	c.Last = time.Now().Unix()
	n := 0
	for _, id := range c.Mempool {
		t := c.Txs[id]
		t.Height, t.Time = c.Height, c.Last
		t.Hash = fmt.Sprintf("%064x", c.Height)
		n++
	}
	c.Mempool = nil
	return n
}

// Fund creates coins out of nothing.
func (c *Chain) Fund(script []byte, blindPub []byte, asset string, value uint64) *simTxOut {
	tx := transaction.NewTx(2)
	var h [32]byte
	simFill(h[:])
	in := transaction.NewTxInput(h[:], uint32(h[2]%3))
	switch h[0] % 4 {
	case 0:
		in.Sequence = 0xfffffffd
	case 1:
		in.Sequence = uint32(h[1])
		tx.Locktime = uint32(h[2]) << 8
	case 2:
		in.Script = append([]byte{32}, h[:]...)
	}
	if h[3]%3 > 0 {
		in.Witness = transaction.TxWitness{append([]byte{}, h[:20]...), append([]byte{}, h[3:]...)}
	}
	tx.AddInput(in)
	ab, _ := hex.DecodeString(asset)
	ab = elementsutil.ReverseBytes(ab)
	out := mkOut(ab, value, script, blindPub)
	tx.AddOutput(out)
	hx, err := tx.ToHex()
	must(err)
	t, err := decodeTx(hx)
	must(err)
	t.By = "faucet"
	c.add(t)
	return t.Outs[0]
}

var simFillState uint64 = 99

func simFill(b []byte) {
	for i := range b {
		b[i] = byte(rt.Next(&simFillState))
	}
}

func mkOut(asset []byte, value uint64, script, blindPub []byte) *transaction.TxOutput {
	if blindPub == nil {
		v, _ := elementsutil.SatoshiToElementsValue(value)
		return transaction.NewTxOutput(append([]byte{1}, asset...), v, script)
	}
	var abf, vbf, eph, seed [32]byte
	simFill(abf[:])
	simFill(vbf[:])
	simFill(eph[:])
	simFill(seed[:])
	ac, err := confidential.AssetCommitment(asset, abf[:])
	must(err)
	vc, err := confidential.ValueCommitment(value, ac, vbf[:])
	must(err)
	priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), eph[:])
	nonce, err := confidential.NonceHash(blindPub, priv.Serialize())
	must(err)
	rp, err := confidential.RangeProof(confidential.RangeProofArgs{Value: value, Nonce: nonce, Asset: asset, AssetBlindingFactor: abf[:],
		ValueBlindFactor: vbf, ValueCommit: vc, ScriptPubkey: script, MinValue: 1, Exp: 0, MinBits: 52})
	must(err)
	o := transaction.NewTxOutput(ac, vc, script)
	o.Nonce = pub.SerializeCompressed()
	o.RangeProof = rp
	o.SurjectionProof = []byte{1}
	return o
}

// Unspent lists the unspent outputs of a script, mempool included.
func (c *Chain) Unspent(script string) []*simTxOut {
	var r []*simTxOut
	for _, o := range c.Scripts[script] {
		if o.SpentBy == "" {
			r = append(r, o)
		}
	}
	return r
}

func (c *Chain) Confirmed(txid string) bool { t := c.Txs[txid]; return t != nil && t.Height > 0 }

// ---- explorer -----------------------------------------------------------

// Net is the simulated network of HTTP endpoints.
type Net struct {
	w     *World
	Chain *Chain
	// Down: the explorer answers nothing until then
	DownUntil time.Duration
	OnSlowTx  func()
	// OnBroadcast is told about every transaction submitted by the daemon.
	OnBroadcast func(t *rt.Tag, txhex, txid string, err error)
	// Hook handles requests to other hosts
	Hook     func(t *rt.Tag, req *http.Request, body string) (int, string)
	Requests int
	// HookFail is told about requests to other hosts that failed
	HookFail func(req *http.Request, body string)
	// Calm tells whose requests never fail
	Calm func(t *rt.Tag) bool
	// OnQuery is told about every explorer query
	OnQuery func(t *rt.Tag, method, path string, ok bool)
}

type tmoErr struct{}

func (tmoErr) Error() string   { return "simulated network error" }
func (tmoErr) Timeout() bool   { return true }
func (tmoErr) Temporary() bool { return true }

func wait(ctx context.Context, d time.Duration) error {
	if d <= 0 {
		return nil
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

func (n *Net) RoundTrip(req *http.Request) (*http.Response, error) {
	body := ""
	if req.Body != nil {
		b, _ := io.ReadAll(req.Body)
		req.Body.Close()
		body = string(b)
	}
	r, err := n.roundTrip(req, body)
	if n.HookFail != nil && req.URL.Host != "explorer.sim" {
		tr := false
		if r != nil {
			_, tr = r.Body.(truncated)
		}
		if err != nil || r.StatusCode != 200 || tr {
			n.HookFail(req, body)
		}
	}
	return r, err
}

type truncated struct{ io.ReadCloser }

func (n *Net) roundTrip(req *http.Request, body string) (*http.Response, error) {
	w := n.w
	t := rt.Cur()
	if t == nil {
		t = &rt.Tag{Name: "untagged", Quiet: true, FN: map[string]uint64{}}
	}
	n.Requests++
	w.Stat("http.requests")
	var late time.Duration
	ctx := req.Context()
	isExplorer := req.URL.Host == "explorer.sim"
	quiet := t.Quiet || n.Calm != nil && n.Calm(t)
	kind := "http"
	if !isExplorer {
		kind = "hook"
	}
	if t.Gen != nil && t.Gen.Dead {
		rt.Block()
	}
	if !quiet {
		lat := rt.Next(&t.FRng)
		ms := time.Duration(w.Cfg("lat_us")) * time.Microsecond
		if ms <= 0 {
			ms = time.Millisecond
		}
		if err := wait(ctx, time.Duration(lat%uint64(ms))+time.Microsecond); err != nil {
			return nil, err
		}
		rt.Live()
		if isExplorer && w.Now() < n.DownUntil {
			w.Stat("http.down")
			return nil, &httpErr{"connection refused"}
		}
		if w.Draw(t, kind, w.Cfg("p_http_err"), kind+"-refused") {
			return nil, &httpErr{"connection refused"}
		}
		if w.Draw(t, kind, w.Cfg("p_http_slow"), kind+"-slow") {
			x := rt.Next(&t.FRng)
			if d := time.Duration(x >> 1 % uint64(12*time.Second)); x%2 == 0 {
				late = d // the request arrives in time, the reply does not
			} else if err := wait(ctx, d); err != nil {
				return nil, err
			}
		}
		if w.Draw(t, kind, w.Cfg("p_http_hang"), kind+"-hang") {
			<-ctx.Done()
			return nil, ctx.Err()
		}
		rt.Live()
		if w.Draw(t, kind, w.Cfg("p_http_5xx"), kind+"-5xx") {
			return mkResp(req, 503, "upstream unavailable", false), nil
		}
		if isExplorer && w.Draw(t, kind, w.Cfg("p_http_429"), kind+"-429") {
			return mkResp(req, 429, "Too many requests", false), nil
		}
	}
	var code int
	var out string
	if isExplorer {
		code, out = n.explore(t, req.Method, req.URL.Path, body)
		if !quiet && req.Method == "POST" && w.Draw(t, kind, w.Cfg("p_http_slowtx"), kind+"-slow-broadcast") {
			// the transaction can be in a block before the reply arrives
			x := rt.Next(&t.FRng)
			late += time.Second + time.Duration(x>>1%uint64(12*time.Second))
			if n.OnSlowTx != nil && x%2 == 0 {
				n.OnSlowTx()
			}
		}
	} else if n.Hook != nil {
		code, out = n.Hook(t, req, body)
	} else {
		return nil, &httpErr{"no such host"}
	}
	trunc := false
	if !quiet {
		if w.Draw(t, kind, w.Cfg("p_http_lost"), kind+"-lost-reply") {
			return nil, &httpErr{"connection reset by peer"}
		}
		if len(out) > 0 && w.Draw(t, kind, w.Cfg("p_http_trunc"), kind+"-truncated") {
			out = out[:int(rt.Next(&t.FRng)%uint64(len(out)))]
			trunc = true
		}
		// a proxy that answers 200 with something else
		if len(out) > 0 && w.Draw(t, kind, w.Cfg("p_http_cut"), kind+"-cut") {
			out = out[:int(rt.Next(&t.FRng)%uint64(len(out)))]
			if strings.HasSuffix(req.URL.Path, "/hex") { // whole bytes
				out = out[:len(out)&^1]
			}
		}
		if w.Draw(t, kind, w.Cfg("p_http_html"), kind+"-html") {
			out = []string{"<html><body>Bad gateway</body></html>", "", "{\"error\":\"upstream\"}"}[rt.Next(&t.FRng)%3]
		}
		if err := wait(ctx, late+time.Duration(rt.Next(&t.FRng)%uint64(time.Millisecond))); err != nil {
			return nil, err
		}
		rt.Live()
	}
	if n.OnQuery != nil && isExplorer {
		n.OnQuery(t, req.Method, req.URL.Path, !trunc)
	}
	return mkResp(req, code, out, trunc), nil
}

type httpErr struct{ s string }

func (e *httpErr) Error() string { return e.s }

type truncBody struct {
	r io.Reader
}

func (b truncBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func mkResp(req *http.Request, code int, body string, trunc bool) *http.Response {
	var r io.Reader = strings.NewReader(body)
	if trunc {
		r = truncBody{r}
	}
	rc := io.NopCloser(r)
	if trunc {
		rc = truncated{rc}
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: rc, ContentLength: -1, Request: req}
}

func (n *Net) explore(t *rt.Tag, method, path, body string) (int, string) {
	c := n.Chain
	p := strings.Split(strings.Trim(path, "/"), "/")
	switch {
	case method == "POST" && path == "/tx":
		id, err := c.Broadcast(body, t.Name)
		if !t.Quiet {
			n.w.Tracef("explorer: broadcast by %s -> %s %v", t.Name, short(id), err)
		}
		if n.OnBroadcast != nil {
			n.OnBroadcast(t, body, id, err)
		}
		if err != nil {
			return 400, err.Error()
		}
		return 200, id
	case path == "/blocks/tip/height":
		return 200, fmt.Sprint(c.Height)
	case len(p) == 3 && p[0] == "tx":
		tx := c.Txs[p[1]]
		if tx == nil {
			return 404, "Transaction not found"
		}
		if p[2] == "hex" {
			return 200, tx.Hex
		}
		if p[2] == "status" {
			return 200, statusJSON(tx)
		}
	case len(p) == 3 && p[0] == "address":
		script, err := address.ToOutputScript(p[1])
		if err != nil {
			return 400, "Invalid Address"
		}
		sh := hex.EncodeToString(script)
		if p[2] == "utxo" {
			var l []string
			for _, o := range c.Unspent(sh) {
				var s string
				if o.Conf {
					s = fmt.Sprintf(`"valuecommitment":"%x","assetcommitment":"%x","noncecommitment":"%x"`, o.Raw.Value, o.Raw.Asset, o.Raw.Nonce)
				} else {
					s = fmt.Sprintf(`"value":%d,"asset":"%s"`, o.Value, o.Asset)
				}
				l = append(l, fmt.Sprintf(`{"txid":"%s","vout":%d,"status":%s,%s}`, o.Op.Txid, o.Op.Vout, statusJSON(c.Txs[o.Op.Txid]), s))
			}
			return 200, "[" + strings.Join(l, ",") + "]"
		}
		if p[2] == "txs" {
			ids := map[string]bool{}
			for _, o := range c.Scripts[sh] {
				ids[o.Op.Txid] = true
				if o.SpentBy != "" {
					ids[o.SpentBy] = true
				}
			}
			var l []string
			for i := len(c.order) - 1; i >= 0; i-- {
				if ids[c.order[i]] {
					l = append(l, txJSON(c, c.Txs[c.order[i]]))
				}
			}
			return 200, "[" + strings.Join(l, ",") + "]"
		}
	case method == "POST" && path == "/faucet":
		var q struct {
			Address string
			Amount  float64
			Asset   string
		}
		json.Unmarshal([]byte(body), &q)
		sc, bp := addrScript(q.Address)
		if q.Asset == "" {
			q.Asset = LBTC
		}
		o := c.Fund(sc, bp, q.Asset, uint64(q.Amount*1e8+0.5))
		return 200, fmt.Sprintf(`{"txId":"%s"}`, o.Op.Txid)
	}
	return 404, "not found"
}

func statusJSON(t *simTx) string {
	if t.Height == 0 {
		return `{"confirmed":false}`
	}
	return fmt.Sprintf(`{"confirmed":true,"block_height":%d,"block_hash":"%s","block_time":%d}`, t.Height, t.Hash, t.Time)
}

func txJSON(c *Chain, t *simTx) string {
	var ins, outs []string
	for _, in := range t.Tx.Inputs {
		op := inOutpoint(in)
		wit := ""
		if len(in.Witness) > 0 {
			for i, x := range in.Witness {
				if i > 0 {
					wit += ","
				}
				wit += fmt.Sprintf(`"%x"`, x)
			}
			wit = `"witness":[` + wit + `],`
		}
		ins = append(ins, fmt.Sprintf(`{"txid":"%s","vout":%d,"scriptsig":"%x",%s"is_pegin":false,"sequence":%d}`, op.Txid, op.Vout, in.Script, wit, in.Sequence))
	}
	for _, o := range t.Outs {
		if o.Conf {
			outs = append(outs, fmt.Sprintf(`{"scriptpubkey":"%s","valuecommitment":"%x","assetcommitment":"%x"}`, o.Script, o.Raw.Value, o.Raw.Asset))
		} else {
			outs = append(outs, fmt.Sprintf(`{"scriptpubkey":"%s","value":%d,"asset":"%s"}`, o.Script, o.Value, o.Asset))
		}
	}
	return fmt.Sprintf(`{"txid":"%s","version":%d,"locktime":%d,"vin":[%s],"vout":[%s],"size":%d,"weight":%d,"status":%s}`,
		t.Txid, t.Tx.Version, t.Tx.Locktime, strings.Join(ins, ","), strings.Join(outs, ","), len(t.Hex)/2, t.Tx.Weight(), statusJSON(t))
}

// addrScript returns the script and blinding key of an address.
func addrScript(a string) ([]byte, []byte) {
	sc, err := address.ToOutputScript(a)
	if err != nil {
		fatalf("address %q: %v", a, err)
	}
	if ok, _ := address.IsConfidential(a); ok {
		i, err := address.FromConfidential(a)
		must(err)
		return sc, i.BlindingKey
	}
	return sc, nil
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
