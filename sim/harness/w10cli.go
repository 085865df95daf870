//go:build go1.22

package verifsim

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	stdnet "net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	log "github.com/sirupsen/logrus"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/config"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	interfaces "github.com/tdex-network/tdex-daemon/internal/interfaces"
	grpcinterface "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc"
	cli "github.com/tdex-network/tdex-daemon/internal/verifcli"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/transaction"
)

// The operator's command line client against the daemon behind its gRPC
// server: fragmented deposits (C24).

func init() { scenarios["cli"] = scenario{gen: genCli, run: runCli} }

type cliW struct {
	*comp
	net  *Net
	pn   *pipeNet
	mn   []string
	dir  string
	lock chan struct{} // one command at a time
	proc *cliProc
	n    int

	eph    map[string]*ephWallet // by script
	opened map[int]bool
	quotes []string // markets deposited to
	calm   bool

	alien    map[outpoint]bool // nobody knows their blinding key
	alienPub []byte
}

// ephWallet is a temporary address the operator was told.
type ephWallet struct {
	typ    string
	addr   string
	script string
	blind  []byte
	txids  []string // funding transactions, in order
}

type cliProc struct {
	s     *cliW
	gen   *rt.Gen
	tag   *rt.Tag
	done  chan struct{}
	ended bool
	code  int
	how   string // exit, crash, panic, killed
	conns []stdnet.Conn
	stdin func() string
	buf   []byte
	addr  string // the address told to the operator
}

// cliLog sees what the client tells the operator.
type cliLog struct{ s *cliW }

func (l *cliLog) Levels() []log.Level { return log.AllLevels }

var addrRe = regexp.MustCompile(`\b(el1|lq1)[0-9a-z]{40,}\b`)

func (l *cliLog) Fire(e *log.Entry) error {
	t := rt.Cur()
	if p := l.s.proc; p != nil && t != nil && t.Gen == p.gen {
		if a := addrRe.FindString(e.Message); a != "" {
			p.addr = a
		}
		l.s.w.Tracef("cli says: %s %v", short80(e.Message), e.Data["error"])
	}
	return nil
}

func genCli(w *World) {
	c := w.Plan.Cfg
	f := func(k string, v int64) {
		if _, ok := c[k]; !ok {
			c[k] = v
		}
		if x, ok := w.Plan.Force[k]; ok {
			c[k] = x
		}
	}
	pick := func(v ...int64) int64 { return v[w.Intn(len(v))] }
	f("pswitch", pick(0, 0, 0, 300))
	f("pstall", pick(0, 0, 0, 60))
	f("stallmax_us", pick(1000, 100000))
	f("lat_us", pick(1000, 200000))
	f("interval_ms", 5000)
	f("tmo_ms", 15000)
	f("block_s", pick(20, 60, 300))
	faulty := w.Chance(4, 5)
	p := func(k string, num, den int, v ...int64) {
		if faulty && w.Chance(num, den) {
			f(k, pick(v...))
		} else {
			w.R()
			f(k, 0)
		}
	}
	p("p_http_err", 1, 4, 500, 3000)
	p("p_http_5xx", 1, 5, 500, 3000)
	p("p_http_hang", 1, 6, 300, 1500)
	p("p_http_slow", 1, 6, 1000)
	p("p_http_lost", 1, 3, 1000, 6000)
	p("p_http_trunc", 1, 5, 1000)
	p("p_http_html", 1, 6, 1000)
	p("p_conflict", 1, 8, 2000)
	p("p_diskerr", 1, 8, 1000)
	p("p_write", 1, 3, 4000, 20000)
	p("p_clitorn", 1, 3, 4000, 20000)
	p("p_rpclost", 1, 3, 4000, 16000)
	if len(w.Plan.Ops) > 0 {
		return
	}
	crashy := faulty && w.Chance(3, 4)
	n := 1 + w.Intn(4)
	var t int64
	for i := 0; i < n; i++ {
		k := []string{"fee", "market", "fee", "market", "market2"}[w.Intn(5)]
		// A: number of coins, shape, amounts seed, user behaviour seed, retries
		op := Op{T: t, K: k, A: []int64{int64(w.Intn(6)), w.Range(0, 1<<30), w.Range(0, 1<<30), w.Range(0, 1<<30), int64(w.Intn(4))}}
		if crashy && w.Chance(1, 2) {
			op.S = fmt.Sprintf("c%d", w.LogRange(4000))
		}
		w.Plan.Ops = append(w.Plan.Ops, op)
		if w.Intn(3) > 0 {
			t += w.LogRange(400000)
		}
		if crashy && w.Chance(1, 3) {
			w.Plan.Ops = append(w.Plan.Ops, Op{T: t, K: []string{"crash", "shutdown"}[w.Intn(2)], A: []int64{w.LogRange(120000000)}})
		}
	}
	for i := range w.Plan.Ops {
		w.Plan.Ops[i].ID = i
	}
}

func runCli(w *World) {
	s := &cliW{comp: newComp(w, "C24", DaemonOpts{Expiry: time.Minute, Slippage: 0.05, MarketsFee: 25, Interval: time.Duration(w.Cfg("interval_ms")) * time.Millisecond,
		Limit: 100, Burst: 10, FeeThreshold: 5000, Timeout: int(w.Cfg("tmo_ms"))}),
		net: newNet(w), pn: newPipeNet(w), dir: filepath.Join(w.Root, "cli"), lock: make(chan struct{}, 1), eph: map[string]*ephWallet{}, opened: map[int]bool{}, alien: map[outpoint]bool{}}
	s.alienPub = w.NewKey("alien").blindPub()
	s.mn = newMnemonic(w)
	log.AddHook(&cliLog{s})
	log.SetLevel(log.InfoLevel)
	s.comp.exec = s.do1
	s.hang = 12 * time.Hour
	s.h.WireFn = s.wire
	s.h.StopFn = func(d *Daemon) {
		d.X.(interfaces.Service).Stop()
		s.h.stop(d)
	}
	s.h.NoDrain = true
	s.bootTol = func() bool { return true }
	oc, of := s.h.OnCrash, rt.CrashFn
	s.h.OnCrash = func() { s.pn.cut(); oc() }
	rt.CrashFn = func(t *rt.Tag) {
		if p := s.proc; p != nil && t.Gen == p.gen {
			w.Tracef("the client crashes at point %d", t.N)
			w.devKinds["cli-crash"]++
			p.end("crash", -1)
			return
		}
		of(t)
	}
	rt.WriteFn = func(t *rt.Tag, path string, n int) (int, error) {
		if p := s.proc; p == nil || t.Gen != p.gen {
			return n, nil
		}
		if w.Draw(t, "cli.write", w.Cfg("p_clitorn"), "cli-torn-write") {
			return int(rt.Next(&t.FRng) % uint64(n+1)), rt.ErrCrash
		}
		if w.Draw(t, "cli.write", w.Cfg("p_write"), "cli-disk-full") {
			return int(rt.Next(&t.FRng) % uint64(n+1)), errors.New("simulated: no space left on device")
		}
		return n, nil
	}
	rt.ExitFn = func(code int) {
		if p := s.proc; p != nil && rt.Cur() != nil && rt.Cur().Gen == p.gen {
			p.end("exit", code)
		}
	}
	cli.DialFn = func(ctx context.Context, addr string) (stdnet.Conn, error) {
		p := s.proc
		if t := rt.Cur(); p == nil || t == nil || t.Gen != p.gen || p.ended {
			rt.Block()
		}
		if s.h.D == nil {
			return nil, errors.New("connection refused")
		}
		c, err := s.pn.dial(macOperAddr, "10.0.0.1", w.Tag(fmt.Sprintf("conn%d.%d", s.n, len(p.conns))))
		if err != nil {
			return nil, err
		}
		p.conns = append(p.conns, c)
		return &lossyConn{Conn: c, p: p}, nil
	}
	// a start asks for every address, and so would hardly succeed
	s.net.Calm = func(t *rt.Tag) bool { return strings.HasPrefix(t.Name, "boot") || strings.HasPrefix(t.Name, "op90000") }
	w.FaultsOn = false
	if err := s.boot(); err != nil {
		w.Violate("C24", "first-start", "%v", err)
		return
	}
	s.do(&Op{}, 0, "init", func(ctx context.Context, d *Daemon) error {
		st := &initStream{}
		st.ctx = ctx
		return d.Wallet.InitWallet(&pbw.InitWalletRequest{SeedMnemonic: s.mn, WalletPassword: []byte("passw0rd")}, st)
	})
	w.Go("unlocker", s.unlocker)
	w.Go("miner", func() {
		for !w.finished {
			time.Sleep(time.Duration(w.Cfg("block_s")) * time.Second)
			if n := s.net.Chain.Mine(); n > 0 {
				w.Tracef("block: %d transactions", n)
			}
		}
	})
	for _, args := range [][]string{{"config", "init", "--explorer_url", "http://explorer.sim", "--rpcserver", "localhost:9000", "--no_macaroons"},
		{"config", "set", "network", "regtest"}} {
		if p := s.exec1(&Op{}, 0, args, nil); p.how != "exit" || p.code != 0 {
			w.Violate("C24", "config-fails", "%s ended with %s %d", strings.Join(args, " "), p.how, p.code)
			return
		}
	}
	s.run()
	if s.h.D == nil {
		return
	}
	s.calm = true
	s.end()
}

// lossyConn loses answers of the daemon: the connection breaks.
type lossyConn struct {
	stdnet.Conn
	p *cliProc
}

func (c *lossyConn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	if c.p.ended {
		rt.Block()
	}
	w := c.p.s.w
	if n > 40 && w.Draw(c.p.tag, "rpc", w.Cfg("p_rpclost"), "rpc-lost-reply") {
		c.Conn.Close()
		return 0, errors.New("connection reset by peer")
	}
	return n, err
}

func (s *cliW) wire(g *rt.Gen) (*Daemon, error) {
	d, err := s.h.wire(g)
	if err != nil {
		return nil, err
	}
	svc, err := grpcinterface.NewService(grpcinterface.ServiceOpts{NoMacaroons: true, Datadir: d.Dir, DBLocation: config.DbLocation, TLSLocation: config.TLSLocation,
		MacaroonsLocation: config.MacaroonsLocation, WalletSvc: d.WalletS, OperatorSvc: d.OperS, TradeSvc: d.TradeS})
	if err == nil {
		d.X = svc
		err = svc.Start(macOperAddr, macTradeAddr, "", "")
	}
	if err != nil {
		d.Crawler.Stop()
		d.PubSub.Store().Close()
		d.Repo.Close()
		return nil, err
	}
	return d, nil
}

// unlocker unlocks the daemon after each start.
func (s *cliW) unlocker() {
	for i := 1; !s.w.finished; i++ {
		time.Sleep(500 * time.Millisecond)
		d := s.h.D
		if d == nil || s.opened[d.Gen.ID] {
			continue
		}
		c := s.do(&Op{ID: 90000}, i, "unlock", func(ctx context.Context, d *Daemon) error {
			_, err := d.Wallet.UnlockWallet(ctx, &pbw.UnlockWalletRequest{WalletPassword: []byte("passw0rd")})
			return err
		})
		if c != nil && c.done && c.err == nil {
			s.opened[c.gen] = true
		}
	}
}

func (s *cliW) ready() bool { return s.h.D != nil && s.opened[s.h.D.Gen.ID] }

// ---- the process --------------------------------------------------------

func (p *cliProc) Read(b []byte) (int, error) {
	if t := rt.Cur(); t == nil || t.Gen != p.gen || p.ended {
		rt.Block()
	}
	if len(p.buf) == 0 {
		if p.stdin == nil {
			return 0, io.EOF
		}
		var l string
		p.s.w.Quiet(func() { l = p.stdin() })
		if p.ended {
			rt.Block()
		}
		p.s.w.Tracef("cli prompt <- %q", short80(l))
		p.buf = []byte(l + "\n")
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}

func (p *cliProc) end(how string, code int) {
	if p.ended {
		return
	}
	p.ended, p.how, p.code = true, how, code
	p.gen.Dead = true
	for _, c := range p.conns {
		c.Close()
	}
	close(p.done)
}

// exec1 runs the client once.
func (s *cliW) exec1(op *Op, step int, args []string, stdin func(p *cliProc) string) *cliProc {
	w := s.w
	s.n++
	p := &cliProc{s: s, gen: &rt.Gen{ID: 1000 + s.n}, done: make(chan struct{})}
	if stdin != nil {
		p.stdin = func() string { return stdin(p) }
	}
	p.tag = rt.NewTag(w.Seed, fmt.Sprintf("cli%d.%d", op.ID, step), p.gen)
	if step == 0 && strings.HasPrefix(op.S, "c") && w.FaultsOn {
		p.tag.CrashAt, _ = strconv.ParseUint(op.S[1:], 10, 64)
	}
	s.proc = p
	os.Args = append([]string{"tdex"}, args...)
	rt.Stdin = p
	cli.Reset()
	w.Tracef("$ tdex %s", strings.Join(args, " "))
	w.Stat("cli.runs")
	go func() {
		rt.Set(p.tag)
		defer func() {
			if r := recover(); r != nil {
				w.Violate("C24", "panic", "tdex %s: %v", args[0], r)
				p.end("panic", 2)
				rt.Block()
			}
		}()
		cli.Main()
		rt.Live()
		p.end("exit", 0)
		rt.Block()
	}()
	select {
	case <-p.done:
	case <-time.After(6 * time.Hour):
		if s.calm {
			w.Violate("C24", "hangs", "tdex %s did not end in 6 hours although nothing fails", args[0])
		}
		p.end("killed", -1)
	}
	w.Tracef("$ -> %s %d", p.how, p.code)
	w.Stat("cli." + args[0] + "." + p.how + strconv.Itoa(p.code))
	w.State(args[0], p.how, strconv.Itoa(p.code), strconv.Itoa(len(s.eph)))
	s.judge(fmt.Sprintf("after tdex %s (%s %d)", args[0], p.how, p.code))
	return p
}

// state returns what the state file holds.
func (s *cliW) state() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(s.dir, "state.json"))
	if err != nil {
		return nil
	}
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

// kept returns the temporary wallet in the state file.
func (s *cliW) kept(typ string) *ephWallet {
	m := map[string]string{}
	if json.Unmarshal([]byte(s.state()[typ+"_wallet"]), &m) != nil {
		return nil
	}
	k, err1 := hex.DecodeString(m["privateKey"])
	b, err2 := hex.DecodeString(m["blindingKey"])
	if err1 != nil || err2 != nil || len(k) != 32 || len(b) != 32 {
		return nil
	}
	return s.known(typ, trade.NewWalletFromKey(k, b, net).Address())
}

func (s *cliW) known(typ, addr string) *ephWallet {
	sc, bp := addrScript(addr)
	e := &ephWallet{typ: typ, addr: addr, script: hex.EncodeToString(sc), blind: bp}
	if x := s.eph[e.script]; x != nil {
		return x
	}
	s.eph[e.script] = e
	return e
}

// ---- the operator -------------------------------------------------------

type rnd uint64

func (r *rnd) n(n int) int { return int(rt.Next((*uint64)(r)) % uint64(n)) }
func (r *rnd) log(max int64) uint64 {
	bits := 0
	for m := max; m > 1; m >>= 1 {
		bits++
	}
	b := int64(1) << uint(r.n(bits+1))
	return uint64(b + int64(rt.Next((*uint64)(r))%uint64(b)))
}

type fundOut struct {
	asset  string
	value  uint64
	plain  bool
	alien  bool   // blinded with another key than the one of the address
	script []byte // nil: the temporary address
}

// send makes one funding transaction.
func (s *cliW) send(e *ephWallet, outs []fundOut) string {
	tx := transaction.NewTx(2)
	var h [32]byte
	simFill(h[:])
	tx.AddInput(transaction.NewTxInput(h[:], 0))
	sc, _ := hex.DecodeString(e.script)
	var d []string
	for _, o := range outs {
		ab, _ := hex.DecodeString(o.asset)
		bp, to := e.blind, sc
		if o.script != nil {
			to = o.script
		}
		if o.plain {
			bp = nil
		} else if o.alien {
			bp = s.alienPub
			s.w.Stat("coins.alien")
		}
		tx.AddOutput(mkOut(elementsutil.ReverseBytes(ab), o.value, to, bp))
		d = append(d, fmt.Sprintf("%d of %s plain=%v mine=%v", o.value, short(o.asset), o.plain, o.script != nil))
	}
	hx, err := tx.ToHex()
	must(err)
	t, err := decodeTx(hx)
	must(err)
	t.By = "operator"
	for i, o := range outs {
		if o.alien && !o.plain {
			s.alien[t.Outs[i].Op] = true
		}
	}
	s.net.Chain.add(t)
	e.txids = append(e.txids, t.Txid)
	s.w.Stat("funding.txs")
	s.w.Tracef("funded %s address by %s: %s", e.typ, short(t.Txid), strings.Join(d, ", "))
	return t.Txid
}

// fund sends the coins of the plan.
func (s *cliW) fund(op *Op, e *ephWallet, round int) []string {
	r := rnd(rt.HashString(uint64(op.Arg(1)), fmt.Sprint(round)))
	nc := int(op.Arg(0))
	if round == 0 && nc == 0 && r.n(2) == 0 {
		return nil
	}
	if round > 0 {
		nc = 1
	} else if nc == 0 {
		nc = 1
	}
	quote := assetN(int(op.Arg(2) % 2))
	var outs []fundOut
	for i := 0; i < nc; i++ {
		o := fundOut{asset: LBTC}
		if e.typ == "fee" {
			switch r.n(6) {
			case 0:
				o.value = uint64(1 + r.n(12000))
			case 1:
				o.value = uint64(5000*(1+r.n(160)) + r.n(3) - 1)
			case 2:
				o.value = uint64(100000 + r.n(700000))
			default:
				o.value = r.log(1 << uint(10+r.n(30)))
			}
			if r.n(8) == 0 {
				o.asset = assetN(r.n(2))
			}
		} else {
			o.value = r.log(1 << uint(14+r.n(26)))
			if i > 0 || nc == 1 && r.n(4) == 0 {
				switch k := r.n(12); {
				case k < 7:
					o.asset = quote
				case k == 7:
					o.asset = assetN(2)
				}
			} else if r.n(3) > 0 {
				o.value += 60000
			}
		}
		o.plain = r.n(6) == 0
		o.alien = r.n(20) == 0
		outs = append(outs, o)
	}
	var ids []string
	for len(outs) > 0 {
		k := 1 + r.n(len(outs))
		l := append([]fundOut{}, outs[:k]...)
		outs = outs[k:]
		if r.n(2) == 0 { // the change of the operator
			c := fundOut{asset: LBTC, value: 1 + r.log(1<<30), script: make([]byte, 22), plain: r.n(3) == 0}
			c.script[1] = 20
			simFill(c.script[2:])
			i := r.n(len(l) + 1)
			l = append(l[:i], append([]fundOut{c}, l[i:]...)...)
		}
		ids = append(ids, s.send(e, l))
	}
	return ids
}

func (s *cliW) unspent(e *ephWallet) []*simTxOut {
	var r []*simTxOut
	for _, o := range s.net.Chain.Unspent(e.script) {
		if !s.alien[o.Op] {
			r = append(r, o)
		}
	}
	return r
}

func (s *cliW) do1(op *Op) {
	switch op.K {
	case "fee", "market", "market2":
	default:
		return
	}
	s.lock <- struct{}{}
	defer func() { <-s.lock }()
	s.command(op)
}

// command is what an operator does to make one fragmented deposit.
func (s *cliW) command(op *Op) {
	w := s.w
	for i := 0; i < 600 && !s.ready(); i++ {
		time.Sleep(time.Second)
	}
	typ := "fee"
	var opts []string
	if op.K != "fee" {
		typ = "market"
		if op.K == "market2" && len(s.quotes) > 0 {
			opts = append(opts, "--quote_asset", s.quotes[int(op.Arg(2))%len(s.quotes)])
			if op.Arg(2)%3 == 0 {
				opts = append(opts, "--base_asset", LBTC)
			}
		}
	}
	u := rnd(op.Arg(3))
	funded := false
	for att := 0; att <= int(op.Arg(4)); att++ {
		var resume []string
		if e := s.kept(typ); e != nil {
			if att == 0 && s.w.Now() > 0 && u.n(4) == 0 && len(e.txids) == 0 {
				return
			}
			resume = s.toEnter(e, &u)
			if len(resume) == 0 { // something must be passed
				resume = s.fund(op, e, 7+att)
				if len(resume) == 0 {
					return
				}
			}
		}
		prompts := 0
		args := append([]string{"fragment" + typ}, opts...)
		for _, id := range resume {
			args = append(args, "--txid", id)
		}
		p := s.exec1(op, att, args, func(p *cliProc) string {
			prompts++
			if prompts > 40 {
				p.end("killed", -1)
				rt.Block()
			}
			time.Sleep(time.Duration(1+u.n(60)) * time.Second)
			e := s.told(typ, p)
			if e == nil {
				return ""
			}
			var ids []string
			if !funded {
				funded = true
				if ids = s.fund(op, e, 0); len(ids) == 0 {
					return ""
				}
			} else if prompts == 1 && len(resume) > 0 {
				if u.n(4) == 0 {
					return strings.Join(s.fund(op, e, 20+att), " ")
				}
				return ""
			} else {
				ids = append(ids, s.toEnter(e, &u)...)
			}
			if u.n(5) == 0 && len(ids) > 0 { // not all of them
				ids = ids[:1+u.n(len(ids))]
			}
			if u.n(8) == 0 && len(ids) > 0 {
				ids = append(ids, ids[u.n(len(ids))])
			}
			if prompts == 1 && u.n(10) == 0 {
				ids = append(ids, strings.Repeat("0", 63)+"1")
			}
			return strings.Join(ids, " ")
		})
		if p.how == "exit" && p.code == 0 {
			w.Stat("deposits")
			if len(opts) == 0 && typ == "market" {
				s.learn()
			}
			return
		}
		time.Sleep(time.Duration(1+u.n(120)) * time.Second)
	}
}

// told is the address shown to the operator.
func (s *cliW) told(typ string, p *cliProc) *ephWallet {
	if p.addr != "" {
		return s.known(typ, p.addr)
	}
	return s.kept(typ)
}

// toEnter lists the transactions of a temporary address that hold coins.
func (s *cliW) toEnter(e *ephWallet, u *rnd) []string {
	has := map[string]bool{}
	for _, o := range s.unspent(e) {
		has[o.Op.Txid] = true
	}
	var l []string
	for _, id := range e.txids {
		if has[id] {
			l = append(l, id)
		}
	}
	return l
}

// learn looks up the funded markets.
func (s *cliW) learn() {
	d := s.h.D
	if d == nil {
		return
	}
	s.w.Quiet(func() {
		ms, err := d.Repo.MarketRepository().GetAllMarkets(context.Background())
		if err != nil {
			return
		}
		s.quotes = nil
		for _, m := range ms {
			if m.QuoteAsset != "" {
				s.quotes = append(s.quotes, m.QuoteAsset)
			}
		}
		sort.Strings(s.quotes)
	})
}

// ---- judgement ----------------------------------------------------------

// judge checks, whenever a run of the client ended, that no coin is stranded.
func (s *cliW) judge(when string) {
	w := s.w
	st := s.state()
	if st == nil || st["rpcserver"] == "" || st["explorer_url"] != "http://explorer.sim" || st["network"] != "regtest" {
		if s.n > 2 {
			w.Violate("C24", "state-lost", "%s: the settings are gone from the state file: %v", when, st)
		}
	}
	keep := map[string]*ephWallet{"fee": s.kept("fee"), "market": s.kept("market")}
	for _, k := range sortedKeys(s.eph) {
		e := s.eph[k]
		if keep[e.typ] == e {
			continue
		}
		for _, o := range s.unspent(e) {
			w.Violate("C24", "key-lost", "%s: %d of %s at the temporary %s address (%s) cannot be spent any more, its key is gone", when, o.Value, short(o.Asset), e.typ, o.Op)
		}
	}
}

// judgeTxs checks where the coins went.
func (s *cliW) judgeTxs() {
	w, c := s.w, s.net.Chain
	owner := map[string]int{}
	market := map[int]string{}
	d := s.h.D
	w.Quiet(func() {
		v, err := d.Repo.VaultRepository().GetOrCreateVault(context.Background(), nil, "", nil)
		must(err)
		for _, a := range v.AllDerivedAddressesInfo() {
			owner[a.Script] = a.AccountIndex
		}
		ms, err := d.Repo.MarketRepository().GetAllMarkets(context.Background())
		must(err)
		for _, m := range ms {
			market[m.AccountIndex] = m.QuoteAsset
		}
	})
	for _, id := range c.order {
		t := c.Txs[id]
		var from *ephWallet
		for _, in := range t.Tx.Inputs {
			if o := c.Utxo[inOutpoint(in)]; o != nil && s.eph[o.Script] != nil {
				if e := s.eph[o.Script]; from != nil && from != e {
					w.Violate("C24", "mixed", "%s spends coins of several temporary addresses", short(id))
				} else {
					from = e
				}
			}
		}
		if from == nil {
			continue
		}
		w.Stat("txs.checked")
		n, fee := 0, uint64(0)
		accts := map[int]bool{}
		for _, o := range t.Outs {
			if o.Script == "" {
				fee += o.Value
				continue
			}
			n++
			a, ok := owner[o.Script]
			if !ok {
				w.Violate("C24", "sent-elsewhere", "%s sends %d of %s to %s, not an address of the daemon", short(id), o.Value, short(o.Asset), o.Script)
				continue
			}
			accts[a] = true
			if from.typ == "fee" && (a != domain.FeeAccount || o.Asset != LBTC) || from.typ == "market" && a < domain.MarketAccountStart {
				w.Violate("C24", "wrong-account", "%s sends %d of %s deposited for the %s account to account %d", short(id), o.Value, short(o.Asset), from.typ, a)
			}
			if from.typ == "market" && market[a] != "" && o.Asset != LBTC && o.Asset != market[a] {
				w.Violate("C24", "wrong-market", "%s sends %d of %s to the account of market %s", short(id), o.Value, short(o.Asset), short(market[a]))
			}
		}
		if len(accts) > 1 {
			w.Violate("C24", "wrong-account", "%s pays several accounts", short(id))
		}
		// 0.1 sat/byte of at most 1300 bytes per output and 150 per input
		if fee > uint64(200+150*n+20*len(t.Tx.Inputs)) {
			w.Violate("C24", "fee", "%s pays a network fee of %d for %d outputs", short(id), fee, n)
		}
		if n > 150 && from.typ == "fee" || n > 44 && from.typ == "market" {
			w.Violate("C24", "too-many-fragments", "%s has %d fragments", short(id), n)
		}
	}
}

func (s *cliW) end() {
	w := s.w
	s.lock <- struct{}{}
	for i := 0; i < 600 && !s.ready(); i++ {
		time.Sleep(time.Second)
	}
	s.learn()
	for _, typ := range []string{"fee", "market"} {
		for i := 0; ; i++ {
			e := s.kept(typ)
			if e == nil {
				break
			}
			// what is left that the command can move
			best := ""
			others := map[string]bool{}
			left := s.unspent(e)
			for _, o := range left {
				if o.Asset == LBTC {
					best = LBTC
				} else {
					others[o.Asset] = true
				}
			}
			if best == "" && (typ == "fee" || len(others) == 0) {
				break
			}
			if i >= 8 {
				w.Violate("C24", "not-recoverable", "with the key, all transaction ids and funds for the fees, fragment%s does not move the coins left at the temporary address: %v", typ, coinList(left))
				break
			}
			var u rnd
			args := []string{"fragment" + typ}
			quote := ""
			if typ == "market" {
				if l := sortedKeys(others); len(l) > 0 {
					quote = l[i%len(l)]
				} else if len(s.quotes) > 0 {
					quote = s.quotes[0]
				}
				for _, q := range s.quotes {
					if q == quote {
						args = append(args, "--quote_asset", q)
					}
				}
			}
			for _, id := range s.toEnter(e, &u) {
				args = append(args, "--txid", id)
			}
			prompts := 0
			p := s.exec1(&Op{ID: 95000 + i}, 0, args, func(p *cliProc) string {
				time.Sleep(5 * time.Second)
				if prompts++; prompts > 1 {
					if prompts > 10 {
						p.end("killed", -1)
						rt.Block()
					}
					return ""
				}
				if i == 0 {
					return ""
				}
				// top up what the command needs
				o := []fundOut{{asset: LBTC, value: 200000}}
				if typ == "market" {
					q := quote
					if q == "" {
						q = assetN(0)
					}
					o = append(o, fundOut{asset: q, value: 100000})
				}
				return s.send(e, o)
			})
			if p.how == "exit" && p.code == 0 {
				w.Stat("recovered")
				s.learn()
			}
			time.Sleep(time.Minute)
		}
	}
	s.judge("at the end")
	s.judgeTxs()
	w.Stat("end.checked")
}

func coinList(l []*simTxOut) []string {
	var r []string
	for _, o := range l {
		r = append(r, fmt.Sprintf("%s %d of %s", o.Op, o.Value, short(o.Asset)))
	}
	return r
}
