//go:build go1.22

package verifsim

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/transaction"
)

// Scenario "esp": the explorer client against an explorer whose chain moves,
// which is slow, failing, truncating or answering nonsense, and coin
// selection by several threads (C26).

func init() { scenarios["esp"] = scenario{gen: genEsp, run: runEsp} }

type espX struct{ svc explorer.Service }

// espEv is a change of the chain.
type espEv struct {
	seq uint64
}

type espW struct {
	*comp
	net  *Net
	c    *Chain
	keys []*Key
	// coins blinded with another key than that of their address
	alien map[outpoint]bool
	evs   []*espEv
	// when each thing was first true
	made, spent map[outpoint]uint64
	txAt, conAt map[string]uint64
	known       int // transactions recorded
	heights     map[int64][2]uint64
}

func genEsp(w *World) {
	c := w.Plan.Cfg
	f := func(k string, v int64) {
		if _, ok := c[k]; !ok {
			c[k] = v
		}
	}
	pick := func(v ...int64) int64 { return v[w.Intn(len(v))] }
	f("nkeys", pick(1, 3, 6))
	f("lat_us", pick(100, 20000, 400000, 3000000))
	f("pswitch", pick(0, 2000, 8000, 20000))
	f("pstall", pick(0, 0, 200, 1000))
	f("stallmax_us", pick(100, 10000, 500000))
	if w.Chance(3, 4) {
		p := pick(1000, 5000, 15000)
		for _, k := range []string{"err", "slow", "5xx", "429", "lost", "trunc", "cut", "html"} {
			if w.Chance(1, 2) {
				f("p_http_"+k, p)
			}
		}
		if w.Chance(1, 4) {
			f("p_http_hang", p/4)
		}
	}
	if len(w.Plan.Ops) > 0 {
		return
	}
	kinds := []struct {
		k string
		n int
	}{{"fund", 6}, {"spend", 3}, {"mine", 3}, {"utxo", 5}, {"many", 5}, {"tx", 6}, {"txs", 3}, {"bcast", 3}, {"height", 1}, {"select", 5}}
	if w.Chance(1, 4) {
		kinds = kinds[len(kinds)-1:]
	}
	sum := 0
	for _, k := range kinds {
		sum += k.n
	}
	n := 6 + w.Intn(36)
	burst := 1 + w.Intn(6)
	var t int64
	for i := 0; i < n; i++ {
		r, k := w.Intn(sum), ""
		for _, x := range kinds {
			if r < x.n {
				k = x.k
				break
			}
			r -= x.n
		}
		op := Op{T: t, K: k, A: []int64{int64(w.Intn(1 << 16)), int64(w.Intn(1 << 16)), int64(w.Intn(1 << 16)), int64(w.R() >> 1)}}
		w.Plan.Ops = append(w.Plan.Ops, op)
		if w.Intn(burst) == 0 {
			t += w.LogRange(3000)
		}
	}
}

func runEsp(w *World) {
	s := &espW{alien: map[outpoint]bool{}, comp: newComp(w, "C26", DaemonOpts{}), net: newNet(w), made: map[outpoint]uint64{}, spent: map[outpoint]uint64{},
		txAt: map[string]uint64{}, conAt: map[string]uint64{}, heights: map[int64][2]uint64{}}
	s.c = s.net.Chain
	s.comp.exec = s.do1
	s.h.WireFn = func(g *rt.Gen) (*Daemon, error) {
		svc, err := esplora.NewService("http://explorer.sim", 15000)
		if err != nil {
			return nil, err
		}
		return &Daemon{Gen: g, Dir: s.h.Dir, X: &espX{svc}}, nil
	}
	s.h.StopFn = func(d *Daemon) {}
	for i := 0; i < int(w.Cfg("nkeys")); i++ {
		s.keys = append(s.keys, w.NewKey(fmt.Sprint("esp", i)))
	}
	s.heights[s.c.Height] = [2]uint64{0, ^uint64(0)}
	s.net.OnBroadcast = func(t *rt.Tag, txhex, txid string, err error) { s.record() }
	if err := s.boot(); err != nil {
		w.Violate("C26", "first-start", "%v", err)
		return
	}
	s.run()
	time.Sleep(2 * time.Minute)
	base := runtime.NumGoroutine()
	// everything that was asked is answered: what still runs was left behind
	w.FaultsOn = true
	n := 8
	for i := 0; i < n; i++ {
		op := &Op{ID: 1000 + i, K: []string{"utxo", "many", "txs"}[i%3], A: []int64{int64(i), int64(w.Intn(1 << 16)), 3, 0}}
		s.do1(op)
	}
	w.FaultsOn = false
	time.Sleep(2 * time.Minute)
	if k := runtime.NumGoroutine(); k > base {
		w.Violate("C26", "leak", "%d goroutines of %d answered requests are still there", k-base, n)
	}
	w.Stat("leak.checked")
	// and without faults everything is answered
	for i := 0; i < 6; i++ {
		s.do1(&Op{ID: 2000 + i, K: []string{"utxo", "many", "txs"}[i%3], A: []int64{int64(i), int64(w.Intn(1 << 16)), 3, 0}})
	}
}

// record notes what changed on the chain.
func (s *espW) record() {
	w := s.w
	w.seq++
	for _, id := range s.c.order[s.known:] {
		s.txAt[id] = w.seq
		t := s.c.Txs[id]
		for _, o := range t.Outs {
			s.made[o.Op] = w.seq
		}
		for _, in := range t.Tx.Inputs {
			s.spent[inOutpoint(in)] = w.seq
		}
	}
	s.known = len(s.c.order)
	for _, id := range s.c.order {
		if _, ok := s.conAt[id]; !ok && s.c.Txs[id].Height > 0 {
			s.conAt[id] = w.seq
		}
	}
	if _, ok := s.heights[s.c.Height]; !ok {
		p := s.heights[s.c.Height-1]
		p[1] = w.seq
		s.heights[s.c.Height-1] = p
		s.heights[s.c.Height] = [2]uint64{w.seq, ^uint64(0)}
	}
	s.evs = append(s.evs, &espEv{seq: w.seq})
}

// faults counts the injected ones.
func (s *espW) faults() int {
	n := 0
	for k, v := range s.w.devKinds {
		if strings.HasPrefix(k, "http-") {
			n += v
		}
	}
	return n
}

func at(m map[string]uint64, k string, t uint64) bool { v, ok := m[k]; return ok && v <= t }

// moments of an interval at which the chain may have been read.
func (s *espW) moments(inv, ret uint64) []uint64 {
	r := []uint64{inv}
	for _, e := range s.evs {
		if e.seq > inv && e.seq < ret {
			r = append(r, e.seq)
		}
	}
	return r
}

func (s *espW) addr(i int) (string, []byte, *Key) {
	k := s.keys[i%len(s.keys)]
	return k.addr, k.blind.Serialize(), k
}

func (s *espW) do1(op *Op) {
	w := s.w
	A := op.Arg
	call := func(name string, f func(x explorer.Service) error) (*cop, bool) {
		n := s.faults()
		c := s.do(op, 0, name, func(ctx context.Context, d *Daemon) error { return f(d.X.(*espX).svc) })
		if c == nil || !c.done {
			return nil, false
		}
		w.Stat("calls.checked")
		clean := s.faults() == n
		return c, clean
	}
	switch op.K {
	case "fund":
		_, _, k := s.addr(int(A(0)))
		n := 1 + int(A(1)%4)
		for i := 0; i < n; i++ {
			var bp []byte
			if A(2)>>uint(i)&1 == 1 {
				bp = k.blindPub()
			}
			asset := LBTC
			if A(2)>>uint(i+4)&1 == 1 {
				asset = assetN(int(A(2)>>8) % 2)
			}
			if A(2)>>uint(i+10)&3 == 3 && bp != nil {
				bp = w.NewKey("alien").blindPub()
			}
			o := s.c.Fund(k.script, bp, asset, uint64(A(3)%100000000)+uint64(i)+1)
			if bp != nil && !bytes.Equal(bp, k.blindPub()) {
				s.alien[o.Op] = true
			}
		}
		s.record()
	case "spend":
		// a transaction that moves coins among the addresses, with several outputs
		var ins []*simTxOut
		for _, k := range s.keys {
			for _, o := range s.c.Unspent(k.scriptHex()) {
				if len(ins) < 1+int(A(0)%3) && (A(1)>>uint(len(ins))&1 == 1 || len(ins) == 0) {
					ins = append(ins, o)
				}
			}
		}
		if len(ins) == 0 {
			return
		}
		tx := transaction.NewTx(2)
		for _, in := range ins {
			h, _ := hex.DecodeString(in.Op.Txid)
			tx.AddInput(transaction.NewTxInput(elementsutil.ReverseBytes(h), in.Op.Vout))
		}
		for i := 0; i < int(A(2)%6); i++ {
			_, _, k := s.addr(int(A(2)>>3) + i*int(A(1)%5))
			var bp []byte
			if A(1)>>uint(i)&1 == 1 {
				bp = k.blindPub()
			}
			tx.AddOutput(mkOut(assetBytes(LBTC)[1:], uint64(i)*1000+uint64(A(3)%1000)+1, k.script, bp))
		}
		tx.AddOutput(plainOut(outSpec{LBTC, 500, nil}))
		hx, err := tx.ToHex()
		must(err)
		t, err := decodeTx(hx)
		must(err)
		s.c.add(t)
		s.record()
	case "mine":
		s.c.Mine()
		s.record()
	case "utxo", "many":
		s.coins(op, call)
	case "tx":
		s.tx(op, call)
	case "txs":
		a, bk, k := s.addr(int(A(0)))
		var got []explorer.Transaction
		c, clean := call("txs", func(x explorer.Service) (err error) { got, err = x.GetTransactionsForAddress(a, bk); return })
		if c == nil {
			return
		}
		if c.err != nil {
			s.failed(c, clean, "txs")
			return
		}
		ids := map[string]bool{}
		for _, t := range got {
			if ids[t.Hash()] {
				w.Violate("C26", "txs-twice", "a transaction is listed twice for an address")
			}
			ids[t.Hash()] = true
			s.checkTx("txs", c, t, false)
		}
		ok := false
		for _, m := range s.moments(c.inv, c.ret) {
			want := map[string]bool{}
			for _, o := range s.c.Scripts[k.scriptHex()] {
				if at(s.txAt, o.Op.Txid, m) {
					want[o.Op.Txid] = true
				}
				if o.SpentBy != "" && at(s.txAt, o.SpentBy, m) {
					want[o.SpentBy] = true
				}
			}
			ok = ok || len(want) == len(ids) && sub(want, ids)
		}
		if !ok {
			w.Violate("C26", "txs-differ", "GetTransactionsForAddress returns %d transactions, which the address never had", len(ids))
		}
	case "bcast":
		s.bcast(op, call)
	case "height":
		var h int
		c, clean := call("height", func(x explorer.Service) (err error) { h, err = x.GetBlockHeight(); return })
		if c == nil {
			return
		}
		if c.err != nil {
			s.failed(c, clean, "height")
		} else if i, ok := s.heights[int64(h)]; (!ok || i[0] > c.ret || i[1] < c.inv) && clean {
			w.Violate("C26", "height", "GetBlockHeight returns %d, which was not the height", h)
		}
	case "select":
		s.selectCoins(op)
	}
}

func sub(a, b map[string]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func (s *espW) failed(c *cop, clean bool, what string) {
	s.w.Stat("failed." + what)
	if clean {
		s.w.Violate("C26", "fails-"+what, "%s fails without any fault: %v", what, c.err)
	}
}

type caller func(name string, f func(x explorer.Service) error) (*cop, bool)

func (s *espW) coins(op *Op, call caller) {
	w := s.w
	var addrs []string
	var bks [][]byte
	scr := map[string]bool{}
	hasKey := map[string]bool{}
	mode := op.Arg(2) % 8 // 0: no keys, 1: a wrong key, else all keys
	for i, k := range s.keys {
		if op.K == "utxo" && i != int(op.Arg(0))%len(s.keys) || op.K == "many" && op.Arg(1)>>uint(i)&1 == 0 {
			continue
		}
		addrs = append(addrs, k.addr)
		scr[k.scriptHex()] = true
		if mode > 1 {
			bks = append(bks, k.blind.Serialize())
			hasKey[k.scriptHex()] = true
		}
	}
	if mode == 1 {
		bks = append(bks, w.NewKey("wrong").blind.Serialize())
	}
	if op.Arg(0)&8 != 0 { // other orders of the keys
		sort.Slice(bks, func(i, j int) bool { return bytes.Compare(bks[i], bks[j]) < 0 })
	}
	var got []explorer.Utxo
	c, clean := call(op.K, func(x explorer.Service) (err error) {
		if op.K == "utxo" {
			got, err = x.GetUnspents(addrs[0], bks)
		} else {
			got, err = x.GetUnspentsForAddresses(addrs, bks)
		}
		return
	})
	if c == nil {
		return
	}
	if c.err != nil {
		s.failed(c, clean, op.K)
		return
	}
	ids := map[outpoint]bool{}
	byScript := map[string]map[string]bool{}
	for _, u := range got {
		o := outpoint{u.Hash(), u.Index()}
		if ids[o] {
			w.Violate("C26", "coin-twice", "a coin is returned twice")
		}
		ids[o] = true
		co := s.c.Utxo[o]
		if co == nil {
			w.Violate("C26", "coin-unknown", "a coin that does not exist is returned")
			continue
		}
		sc := hex.EncodeToString(u.Script())
		if sc != co.Script || !scr[sc] {
			w.Violate("C26", "coin-script", "a coin is returned with script %q instead of %q", sc, co.Script)
			continue
		}
		if byScript[sc] == nil {
			byScript[sc] = map[string]bool{}
		}
		byScript[sc][o.String()] = true
		if u.IsConfidential() != co.Conf {
			w.Violate("C26", "coin-kind", "a coin is returned with confidential=%v", u.IsConfidential())
		}
		reveal := !co.Conf || hasKey[sc] && !s.alien[o]
		if mode > 0 && !reveal {
			w.Violate("C26", "coin-not-unblinded", "a coin is returned though none of the keys opens it")
		}
		if reveal && (u.Value() != co.Value || u.Asset() != co.Asset) {
			w.Violate("C26", "coin-value", "a coin is returned with %d %s instead of %d %s", u.Value(), short(u.Asset()), co.Value, short(co.Asset))
		}
		if co.Conf && reveal && (!bytes.Equal(u.AssetBlinder(), co.Abf) || !bytes.Equal(u.ValueBlinder(), co.Vbf)) {
			w.Violate("C26", "coin-blinders", "a coin is returned with other blinding factors than its own")
		}
		if co.Conf && !reveal && u.IsRevealed() {
			w.Violate("C26", "coin-revealed", "a coin is revealed without its key")
		}
		if co.Conf && (!bytes.Equal(u.Nonce(), co.Raw.Nonce) || !bytes.Equal(u.RangeProof(), co.Raw.RangeProof) || !bytes.Equal(u.SurjectionProof(), co.Raw.SurjectionProof)) {
			w.Violate("C26", "coin-proofs", "a coin is returned with other proofs than its own")
		}
		if u.IsConfirmed() && !at(s.conAt, o.Txid, c.ret) {
			w.Violate("C26", "coin-confirmed", "an unconfirmed coin is returned as confirmed")
		}
		if !u.IsConfirmed() && clean && at(s.conAt, o.Txid, c.inv) {
			w.Violate("C26", "coin-unconfirmed", "a confirmed coin is returned as unconfirmed")
		}
		if _, out, err := u.Parse(); err != nil || !bytes.Equal(out.Script, co.Raw.Script) || !bytes.Equal(out.Value, co.Raw.Value) || !bytes.Equal(out.Asset, co.Raw.Asset) {
			w.Violate("C26", "coin-parse", "a coin is parsed as another output than its own: %v", err)
		}
		w.Stat("coins.checked")
	}
	for sc := range scr {
		ok := false
		for _, m := range s.moments(c.inv, c.ret) {
			want := map[string]bool{}
			for _, o := range s.c.Scripts[sc] {
				if mode > 0 && o.Conf && (!hasKey[sc] || s.alien[o.Op]) {
					continue
				}
				sp, isp := s.spent[o.Op]
				if v, ok := s.made[o.Op]; ok && v <= m && !(isp && sp <= m) {
					want[o.Op.String()] = true
				}
			}
			ok = ok || len(want) == len(byScript[sc]) && sub(want, byScript[sc])
		}
		if !ok {
			w.Violate("C26", "coins-differ", "%d coins are returned for an address, which never had exactly these", len(byScript[sc]))
		}
	}
	w.State("coins", fmt.Sprint(len(got)), fmt.Sprint(len(addrs)))
}

func (s *espW) pickTx(op *Op) string {
	if len(s.c.order) == 0 || op.Arg(1)%6 == 0 {
		return strings.Repeat("ab", 32)
	}
	return s.c.order[int(op.Arg(1))%len(s.c.order)]
}

func (s *espW) checkTx(what string, c *cop, t explorer.Transaction, clean bool) {
	w := s.w
	id := t.Hash()
	real := s.c.Txs[id]
	if real == nil || !at(s.txAt, id, c.ret) {
		w.Violate("C26", what+"-unknown", "%s returns a transaction that does not exist", what)
		return
	}
	if t.Confirmed() && !at(s.conAt, id, c.ret) || !t.Confirmed() && at(s.conAt, id, c.inv) {
		w.Violate("C26", what+"-status", "%s returns a transaction with confirmed=%v, which was not so", what, t.Confirmed())
	}
	if len(t.Inputs()) != len(real.Tx.Inputs) || len(t.Outputs()) != len(real.Tx.Outputs) {
		w.Violate("C26", what+"-content", "%s returns a transaction of %d inputs and %d outputs instead of %d and %d", what, len(t.Inputs()), len(t.Outputs()), len(real.Tx.Inputs), len(real.Tx.Outputs))
		return
	}
	if t.Version() != int(real.Tx.Version) || t.Locktime() != int(real.Tx.Locktime) || t.Weight() != real.Tx.Weight() {
		w.Violate("C26", what+"-content", "%s returns a transaction of version %d, locktime %d and weight %d instead of %d, %d and %d", what,
			t.Version(), t.Locktime(), t.Weight(), real.Tx.Version, real.Tx.Locktime, real.Tx.Weight())
	}
	for i, in := range t.Inputs() {
		r := real.Tx.Inputs[i]
		if inOutpoint(in) != inOutpoint(r) || in.Sequence != r.Sequence || !bytes.Equal(in.Script, r.Script) ||
			!reflect.DeepEqual(append([][]byte{}, in.Witness...), append([][]byte{}, r.Witness...)) {
			w.Violate("C26", what+"-content", "%s returns a transaction with another input", what)
		}
	}
	for i, o := range t.Outputs() {
		r := real.Tx.Outputs[i]
		if !bytes.Equal(o.Script, r.Script) || !bytes.Equal(o.Asset, r.Asset) || !bytes.Equal(o.Value, r.Value) {
			w.Violate("C26", what+"-content", "%s returns a transaction with another output", what)
		}
	}
}

func (s *espW) tx(op *Op, call caller) {
	w := s.w
	id := s.pickTx(op)
	what := []string{"tx", "tx-hex", "tx-confirmed", "tx-status"}[op.Arg(0)%4]
	var t explorer.Transaction
	var hx string
	var conf bool
	var st map[string]interface{}
	c, clean := call(what, func(x explorer.Service) (err error) {
		switch what {
		case "tx":
			t, err = x.GetTransaction(id)
		case "tx-hex":
			hx, err = x.GetTransactionHex(id)
		case "tx-confirmed":
			conf, err = x.IsTransactionConfirmed(id)
		case "tx-status":
			st, err = x.GetTransactionStatus(id)
		}
		return
	})
	if c == nil {
		return
	}
	if c.err != nil {
		s.failed(c, clean && at(s.txAt, id, c.inv), what)
		return
	}
	if !at(s.txAt, id, c.ret) && clean {
		w.Violate("C26", what+"-unknown", "%s of a transaction that does not exist succeeds", what)
		return
	}
	switch what {
	case "tx":
		s.checkTx(what, c, t, clean)
		if t.Hash() != id {
			w.Violate("C26", "tx-other", "GetTransaction returns another transaction")
		}
		return
	case "tx-hex":
		if clean && hx != s.c.Txs[id].Hex {
			w.Violate("C26", "tx-other", "GetTransactionHex returns another transaction")
		}
		return
	case "tx-status":
		v, ok := st["confirmed"].(bool)
		if !ok {
			if clean {
				w.Violate("C26", "tx-status-empty", "GetTransactionStatus returns no status")
			}
			return
		}
		conf = v
		if b, _ := st["block_hash"].(string); conf && b != s.c.Txs[id].Hash {
			w.Violate("C26", "tx-status-block", "GetTransactionStatus returns another block")
		}
	}
	if conf && !at(s.conAt, id, c.ret) || !conf && at(s.conAt, id, c.inv) {
		w.Violate("C26", what+"-wrong", "%s is confirmed=%v, which was not so", what, conf)
	}
}

func (s *espW) bcast(op *Op, call caller) {
	w := s.w
	k := s.keys[int(op.Arg(0))%len(s.keys)]
	var in *simTxOut
	for _, o := range s.c.Unspent(k.scriptHex()) {
		if !o.Conf && o.Asset == LBTC && o.Value > 2000 {
			in = o
		}
	}
	var hx, id string
	if in != nil {
		var err error
		hx, err = s.c.spendKey(k, []*simTxOut{in}, []outSpec{{LBTC, in.Value - 500, s.keys[int(op.Arg(1))%len(s.keys)].script}, {LBTC, 500, nil}})
		must(err)
		t, err := decodeTx(hx)
		must(err)
		id = t.Txid
	}
	bad := in == nil
	if bad {
		hx = "00"
	} else if op.Arg(2)%5 == 0 { // a signature that does not match
		t, _ := transaction.NewTxFromHex(hx)
		t.Outputs[0].Value = append([]byte{}, t.Outputs[0].Value...)
		t.Inputs[0].Witness = nil
		hx, _ = t.ToHex()
		bad = true
	}
	var got string
	c, clean := call("broadcast", func(x explorer.Service) (err error) { got, err = x.BroadcastTransaction(hx); return })
	if c == nil {
		return
	}
	if c.err != nil {
		// another one may have spent the coin
		s.failed(c, clean && !bad && s.c.Txs[id] != nil && !at(s.conAt, id, c.ret), "broadcast")
		return
	}
	if bad {
		if clean && s.c.Txs[id] == nil {
			w.Violate("C26", "broadcast-invalid", "the broadcast of an invalid transaction succeeds")
		}
		return
	}
	if clean && got != id {
		w.Violate("C26", "broadcast-id", "a broadcast returns %q", got)
	}
	if clean && s.c.Txs[id] == nil {
		w.Violate("C26", "broadcast-lost", "a broadcast succeeds and the explorer has no such transaction")
	}
}

func (s *espW) selectCoins(op *Op) {
	w := s.w
	r := rt.HashString(uint64(op.Arg(3)), "select")
	n := int(rt.Next(&r) % 9)
	if op.Arg(0)%4 == 0 {
		n = 20 + int(rt.Next(&r)%40)
	}
	kind := op.Arg(1) % 5
	var us []explorer.Utxo
	sum := uint64(0)
	maxv := uint64(0)
	for i := 0; i < n; i++ {
		v := rt.Next(&r)%1000 + 1
		switch kind {
		case 1:
			v = 100
		case 2:
			v = 1 << (rt.Next(&r) % 40)
		case 3:
			if i == 0 {
				v = 1000000
			}
		}
		a := assetN(0)
		if rt.Next(&r)%4 == 0 {
			a = assetN(1)
		} else {
			sum += v
			if v > maxv {
				maxv = v
			}
		}
		us = append(us, esplora.NewUnconfidentialWitnessUtxo(strings.Repeat(fmt.Sprintf("%02x", i), 32), uint32(rt.Next(&r)%3), v, a, []byte{0}))
	}
	target := rt.Next(&r) % (sum + sum/8 + 2)
	if kind == 3 && rt.Next(&r)%2 == 0 {
		target = rt.Next(&r)%10000 + 1
	}
	if op.Arg(2)%6 == 0 {
		target = sum
	}
	if target == 0 {
		target = 1
	}
	order := append([]explorer.Utxo{}, us...)
	var got []explorer.Utxo
	var change uint64
	c := s.do(op, 0, "select", func(ctx context.Context, d *Daemon) (err error) {
		got, change, err = explorer.SelectUnspents(us, target, assetN(0))
		return
	})
	if c == nil || !c.done {
		return
	}
	w.Stat("selections.checked")
	if c.err != nil {
		if sum >= target {
			w.Violate("C26", "select-fails", "coins of %d do not cover %d: %v", sum, target, c.err)
		}
		return
	}
	total := uint64(0)
	seen := map[outpoint]bool{}
	cand := map[outpoint]uint64{}
	for _, u := range order {
		if u.Asset() == assetN(0) {
			cand[outpoint{u.Hash(), u.Index()}] = u.Value()
		}
	}
	for _, u := range got {
		o := outpoint{u.Hash(), u.Index()}
		if v, ok := cand[o]; !ok || v != u.Value() {
			w.Violate("C26", "select-foreign", "a coin that is no candidate is selected")
		}
		if seen[o] {
			w.Violate("C26", "select-twice", "a coin is selected twice")
		}
		seen[o] = true
		total += u.Value()
	}
	if total < target {
		w.Violate("C26", "select-short", "coins of %d are selected for %d", total, target)
	} else if change != total-target {
		w.Violate("C26", "select-change", "the change of %d over %d is %d", total, target, change)
	}
	for i := range us {
		if us[i].Hash() != order[i].Hash() {
			w.Violate("C26", "select-reorders", "selecting coins changes the list of the caller")
			break
		}
	}
}
