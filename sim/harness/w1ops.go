//go:build go1.22

package verifsim

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-bip39"
)

// ---- generation ---------------------------------------------------------

type weighted struct {
	k string
	n int
}

var w1Mix = map[int64][]weighted{
	0: {{"trade", 40}, {"complete", 6}, {"tfail", 6}, {"selfbc", 3}, {"price", 4}, {"depm", 5}, {"depf", 4}, {"wfund", 3}, {"newmarket", 3},
		{"open", 4}, {"close", 3}, {"fee", 3}, {"fixed", 3}, {"setprice", 5}, {"strategy", 2}, {"drop", 1}, {"withdraw", 6}, {"send", 4},
		{"waddr", 3}, {"list", 5}, {"utxos", 3}, {"reload", 4}, {"report", 3}, {"mine", 5}, {"outage", 2}, {"crash", 3}, {"shutdown", 1}, {"wrongunlock", 1}, {"chpass", 1}, {"junk", 2}, {"dup", 2}, {"baddisk", 2}},
	// trades
	1: {{"trade", 60}, {"complete", 8}, {"tfail", 8}, {"selfbc", 5}, {"withdraw", 6}, {"send", 2}, {"mine", 6}, {"reload", 3}, {"crash", 4}, {"outage", 3}, {"dup", 4}, {"depf", 2}, {"list", 2}, {"baddisk", 4}},
	// settings
	2: {{"open", 12}, {"close", 12}, {"fee", 12}, {"fixed", 10}, {"setprice", 14}, {"strategy", 8}, {"drop", 3}, {"newmarket", 4}, {"list", 16}, {"price", 8}, {"trade", 8}, {"crash", 3}, {"mine", 2}},
	// addresses and deposits
	3: {{"depm", 16}, {"depf", 12}, {"wfund", 8}, {"newmarket", 12}, {"waddr", 10}, {"trade", 14}, {"withdraw", 8}, {"send", 6}, {"drop", 3}, {"crash", 4}, {"reload", 4}, {"mine", 6}, {"utxos", 4}, {"list", 3}},
	// coins
	4: {{"trade", 25}, {"withdraw", 12}, {"send", 10}, {"depm", 8}, {"depf", 6}, {"wfund", 6}, {"reload", 12}, {"utxos", 8}, {"mine", 8}, {"selfbc", 4}, {"complete", 4}, {"tfail", 3}, {"outage", 3}, {"crash", 3}, {"baddisk", 2}},
	// locks and passphrases
	5: {{"trade", 20}, {"chpass", 10}, {"wrongunlock", 14}, {"crash", 12}, {"shutdown", 5}, {"withdraw", 6}, {"send", 4}, {"waddr", 4}, {"depf", 3}, {"mine", 4}, {"list", 4}, {"reinit", 4}},
	// webhooks
	7: {{"hookadd", 10}, {"hookrm", 8}, {"hooklist", 8}, {"withdraw", 22}, {"trade", 28}, {"depm", 2}, {"depf", 3}, {"mine", 8}, {"crash", 5}, {"shutdown", 3}, {"chpass", 3}, {"wrongunlock", 3}, {"reload", 2}},
	// withdrawals
	6: {{"withdraw", 30}, {"send", 25}, {"trade", 20}, {"depm", 4}, {"depf", 6}, {"wfund", 8}, {"mine", 10}, {"crash", 2}, {"outage", 2}, {"reload", 4}},
}

func genW1(w *World) {
	c := w.Plan.Cfg
	f := func(k string, v int64) {
		if _, ok := c[k]; !ok {
			c[k] = v
		}
		if x, ok := w.Plan.Force[k]; ok {
			c[k] = x
		}
	}
	pick := func(v ...int64) int64 { return v[w.Intn(len(v))] }
	f("focus", pick(0, 0, 1, 1, 2, 3, 4, 6))
	f("nmarkets", pick(1, 1, 2))
	f("ncoins", pick(1, 2, 2, 3))
	f("nfee", pick(2, 3, 4, 5))
	f("nwallet", pick(0, 2, 3))
	f("mktfee", pick(0, 25, 100))
	for m := 0; m < 6; m++ {
		f(fmt.Sprintf("strat%d", m), pick(0, 0, 1))
		f(fmt.Sprintf("bp%d", m), pick(0, 25, 25, 100, 500))
		fx := pick(0, 0, 0, 5, 200)
		f(fmt.Sprintf("fixb%d", m), fx)
		f(fmt.Sprintf("fixq%d", m), fx*pick(1, 2, 7))
		f(fmt.Sprintf("price%d", m), pick(1000000, 2500000, 7000000, 333333))
	}
	f("slip_bp", pick(100, 500, 500, 1000))
	f("expiry_s", pick(20, 30, 60, 120))
	f("interval_ms", pick(1000, 2000, 5000))
	f("limit", pick(5, 10, 50))
	f("burst", pick(1, 3))
	f("tmo_ms", pick(5000, 15000))
	f("horizon_ms", pick(3000, 20000, 60000, 180000, 600000))
	// schedule
	switch w.Intn(4) {
	case 0:
		f("pswitch", 0)
		f("pstall", 0)
	case 1:
		f("pswitch", pick(1000, 6000, 20000))
		f("pstall", 0)
	case 2:
		f("pswitch", pick(500, 3000))
		f("pstall", pick(60, 200, 600))
	case 3:
		f("pswitch", 0)
		f("pstall", pick(60, 200, 1000))
	}
	f("pstall", 0)
	f("pswitch", 0)
	f("stallmax_us", pick(1000, 100000, 2000000))
	f("lat_us", pick(1000, 50000, 300000, 1500000))
	// faults: a random subset per run, rates low enough for progress
	f("crashy", 0)
	faulty := w.Chance(2, 3) || c["crashy"] > 0
	p := func(k string, num, den int, v ...int64) {
		if faulty && w.Chance(num, den) {
			f(k, pick(v...))
		} else {
			w.R()
			f(k, 0)
		}
	}
	p("p_http_err", 1, 2, 600, 2000, 6000)
	p("p_http_slow", 1, 3, 600, 2500)
	p("p_http_hang", 1, 4, 200, 800)
	p("p_http_5xx", 1, 3, 600, 3000)
	p("p_http_429", 1, 4, 600, 3000)
	p("p_http_lost", 1, 3, 600, 3000)
	p("p_http_trunc", 1, 4, 600, 2000)
	p("p_http_cut", 1, 6, 600, 2000)
	p("p_http_html", 1, 6, 600, 2000)
	p("p_conflict", 1, 3, 600, 4000)
	p("p_diskerr", 1, 4, 300, 2000)
	p("p_bolterr", 1, 8, 500)
	p("p_torn", 1, 5, 150, 600)
	p("p_http_slowtx", 1, 4, 3000, 20000)
	if c["crashy"] > 0 && w.Chance(1, 2) {
		c["p_torn"] = pick(200, 600, 2000)
	}
	crashes := faulty && w.Chance(1, 2) || c["crashy"] > 0
	crashRate := 8
	if c["crashy"] > 0 {
		crashRate = 3
	}
	cancels := faulty && w.Chance(1, 3)
	f("lockwait", pick(0, 0, 2000, 30000))
	f("hooks", 0)
	f("wrongpass", pick(0, 0, 1))
	f("chpass", pick(0, 0, 50))
	if crashes && w.Chance(1, 4) {
		f(fmt.Sprintf("bootcrash%d", 2+w.Intn(2)), w.Range(1, 3000))
	}
	if len(w.Plan.Ops) > 0 {
		return
	}
	nOps := 3 + w.Intn(18)
	hz := c["horizon_ms"]
	if w.Chance(1, 3) { // a burst
		hz = pick(50, 500, 3000)
		c["horizon_ms"] = hz
	}
	mix := w1Mix[c["focus"]]
	if mix == nil {
		mix = w1Mix[0]
	}
	sum := 0
	for _, x := range mix {
		sum += x.n
	}
	var t int64
	for i := 0; i < nOps; i++ {
		k := mix[0].k
		r := w.Intn(sum)
		for _, x := range mix {
			if r < x.n {
				k = x.k
				break
			}
			r -= x.n
		}
		switch w.Intn(3) {
		case 0: // close to the previous one
			t += w.Range(0, 30)
		default:
			t = w.Range(0, hz)
		}
		if (k == "crash" || k == "shutdown") && !crashes {
			k = "trade"
		}
		if (k == "outage" || k == "baddisk") && !faulty {
			k = "mine"
		}
		o := Op{T: t, K: k}
		m := int64(w.Intn(int(c["nmarkets"])))
		switch k {
		case "trade":
			variant := pick(0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
			action := pick(0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)
			think := w.LogRange(8000)
			switch w.Intn(8) {
			case 0:
				think = c["expiry_s"]*1000 + w.Range(-3000, 3000)
			case 1:
				think = c["expiry_s"]*1000 + w.Range(-500, 90000)
			}
			if think < 0 {
				think = 0
			}
			o.A = []int64{m, int64(w.Intn(2)), w.LogRange(1_500_000), pick(1, 1, 2, 3), variant, think, action, int64(w.Intn(1 << 20))}
		case "complete", "tfail", "selfbc", "dup":
			o.A = []int64{int64(w.Intn(8)), int64(w.Intn(6))}
		case "withdraw":
			o.A = []int64{m, w.LogRange(3_000_000), w.LogRange(30_000_000), pick(100, 100, 100, 250, 1000, 0, 40, 99), int64(w.Intn(5)), int64(w.Intn(6))}
		case "send":
			o.A = []int64{w.LogRange(400_000), int64(w.Intn(3)), pick(100, 100, 100, 250, 1000, 0, 40, 99), int64(1 + w.Intn(3)), int64(w.Intn(6))}
		case "depm", "depf", "wfund", "newmarket":
			o.A = []int64{m, pick(1, 1, 2, 3), int64(w.Intn(4)), w.LogRange(2_000_000), int64(w.Intn(1 << 20))}
		case "fee":
			o.A = []int64{m, pick(0, 25, 30, 50, 100, 9999, 10000, -1)}
		case "fixed":
			x := pick(0, 1, 100, 5000, -5)
			o.A = []int64{m, x, x * pick(1, 2)}
		case "setprice":
			o.A = []int64{m, pick(1000000, 2000000, 2500000, 333333, 12345, 1)}
		case "strategy":
			o.A = []int64{m, int64(w.Intn(2))}
		case "baddisk":
			o.A = []int64{pick(w.LogRange(60_000), w.Range(500, 60_000)), pick(8000, 30000, 60000, 65536), int64(w.Intn(2))}
		case "outage":
			o.A = []int64{w.LogRange(120_000)}
		default:
			o.A = []int64{m, int64(w.Intn(1 << 20))}
		}
		if crashes && w.Chance(1, crashRate) {
			switch w.Intn(3) {
			case 0:
				o.S = fmt.Sprintf("c%d", w.LogRange(3000))
			default:
				o.S = fmt.Sprintf("d%d.%d", w.Intn(4), w.LogRange(4000))
			}
		} else if cancels && w.Chance(1, 6) {
			o.S = fmt.Sprintf("x%d", w.LogRange(300_000))
		}
		w.Plan.Ops = append(w.Plan.Ops, o)
	}
	sort.SliceStable(w.Plan.Ops, func(i, j int) bool { return w.Plan.Ops[i].T < w.Plan.Ops[j].T })
}

// ---- main phase ---------------------------------------------------------

func (s *w1) mainPhase() {
	w := s.w
	s.main = true
	w.FaultsOn = true
	outageLog = nil
	start := w.Now()
	w.Go("supervisor", s.supervise)
	w.Go("monitor", func() {
		for !w.finished {
			time.Sleep(time.Second)
			s.monitor()
		}
	})
	s.n.OnSlowTx = s.mine
	w.Go("miner", func() {
		r := rt.HashString(w.Seed, "miner")
		for !s.stopMine {
			time.Sleep(time.Duration(3+rt.Next(&r)%25) * time.Second)
			if !s.stopMine {
				s.mine()
			}
		}
	})
	if w.Cfg("hooks") > 0 {
		for i := 0; i < 2; i++ {
			r := rt.HashString(w.Seed, fmt.Sprintf("hook%d", i))
			s.addHook(&Op{ID: 4000 + i, A: []int64{0, int64(rt.Next(&r) % 2)}}, 0, pbop.ActionType(rt.Next(&r)%4))
		}
	}
	doneN := 0
	done := make(chan struct{}, len(w.Plan.Ops)+1)
	for i := range w.Plan.Ops {
		op := &w.Plan.Ops[i]
		w.Go(fmt.Sprintf("env%d", op.ID), func() {
			if d := start + time.Duration(op.T)*time.Millisecond - w.Now(); d > 0 {
				time.Sleep(d)
			}
			w.Stat("op." + op.K)
			s.exec(op)
			done <- struct{}{}
		})
	}
	limit := time.After(4 * time.Hour)
	for doneN < len(w.Plan.Ops) {
		select {
		case <-done:
			doneN++
		case <-limit:
			w.Inconclusive("operations did not end")
			doneN = len(w.Plan.Ops)
		}
	}
	s.mainEnd = true
	w.FaultsOn = false
	s.n.DownUntil = 0
}

func (s *w1) mine() {
	if s.holdMine > 0 {
		return
	}
	k := s.ch.Mine()
	if k > 0 {
		s.w.Tracef("block %d with %d transactions", s.ch.Height, k)
	}
}

func (s *w1) exec(op *Op) {
	w := s.w
	m := int(op.Arg(0))
	switch op.K {
	case "trade":
		s.execTrade(op)
	case "complete":
		if t := s.pickTrade(op.Arg(0), func(t *w1trade) bool { return t.accTx != nil }); t != nil {
			s.complete(op, 0, t, int(op.Arg(1)))
		}
	case "tfail":
		if t := s.pickTrade(op.Arg(0), func(t *w1trade) bool { return t.replied }); t != nil {
			s.failTrade(op, 0, t)
		}
	case "selfbc":
		if t := s.pickTrade(op.Arg(0), func(t *w1trade) bool { return t.accTx != nil }); t != nil {
			s.selfBroadcast(t)
		}
	case "dup":
		s.dup(op)
	case "price":
		s.price(op, 0, m, op.Arg(1)%2 == 0, 1000+uint64(op.Arg(1)), LBTC)
	case "depm", "depf", "wfund":
		s.deposit(op)
	case "newmarket":
		s.newMarket(op)
	case "open":
		s.doOpen(op, 0, m)
	case "close":
		s.doClose(op, 0, m)
	case "fee":
		s.doFee(op, 0, m, op.Arg(1))
	case "fixed":
		s.doFixed(op, 0, m, op.Arg(1), op.Arg(2))
	case "setprice":
		s.doPrice(op, 0, m, op.Arg(1))
	case "strategy":
		s.doStrategy(op, 0, m, op.Arg(1))
	case "drop":
		s.doDrop(op, 0, m)
	case "withdraw":
		s.withdraw(op, 0)
	case "send":
		s.send(op, 0)
	case "waddr":
		s.walletAddr(op, 0)
	case "list":
		s.list(op, 0)
	case "utxos":
		s.listUtxos(op, 0)
	case "reload":
		s.reload(op, 0)
	case "report":
		s.report(op, 0, m)
	case "mine":
		s.mine()
	case "baddisk":
		if w.deviate(fmt.Sprintf("op%d/baddisk", op.ID), "bad-disk") {
			w.Tracef("the disk fails for %d ms", op.Arg(0))
			w.DiskBad = w.Now() + time.Duration(op.Arg(0))*time.Millisecond
			w.DiskBadP = op.Arg(1)
			if op.Arg(2)%2 == 0 {
				s.mine()
			}
		}
	case "outage":
		s.outage(time.Duration(op.Arg(0)) * time.Millisecond)
	case "crash":
		if s.h.D != nil && w.deviate(fmt.Sprintf("op%d/crash", op.ID), "crash") {
			w.Tracef("crash")
			s.h.Crash()
		}
	case "shutdown":
		if s.h.D != nil && w.deviate(fmt.Sprintf("op%d/shutdown", op.ID), "restart") {
			s.h.Shutdown(w.Tag(fmt.Sprintf("op%d.0", op.ID)))
		}
	case "hookadd":
		s.addHook(op, 0, pbop.ActionType(op.Arg(1)>>1%4))
	case "hookrm":
		s.rmHook(op)
	case "hooklist":
		s.listHooks(op, 0, pbop.ActionType(op.Arg(1)%4), false)
	case "wrongunlock":
		s.unlock(op, 0, s.wrongPass(op.ID))
	case "chpass":
		s.badChangePass(op)
	case "reinit":
		s.api(op, 0, "junk.init", func(ctx context.Context, d *Daemon) error { return s.reinit(ctx, d, uint64(op.Arg(1))) })
	case "junk":
		s.junk(op)
	default:
		fatalf("unknown operation %s", op.K)
	}
}

// reinit asks to initialize the wallet again, with other secrets: this never
// changes anything.
func (s *w1) reinit(ctx context.Context, d *Daemon, k uint64) error {
	mn := s.mnemonic
	if k%2 == 0 {
		e, err := bip39.NewMnemonic(bytes.Repeat([]byte{byte(k)}, 32))
		must(err)
		mn = strings.Split(e, " ")
	}
	return d.Wallet.InitWallet(&pbw.InitWalletRequest{SeedMnemonic: mn, WalletPassword: []byte("other"), Restore: k>>1%2 == 0}, &initStream{fakeStream: fakeStream{ctx: ctx}})
}

func (s *w1) outage(d time.Duration) {
	w := s.w
	if !w.deviate(fmt.Sprintf("outage/%d", len(outageLog)), "outage") {
		return
	}
	w.Tracef("explorer outage of %v", d)
	s.n.DownUntil = w.Now() + d
	outageLog = append(outageLog, [2]time.Duration{w.Now(), w.Now() + d})
}

func (s *w1) pickTrade(k int64, ok func(*w1trade) bool) *w1trade {
	var l []*w1trade
	for _, t := range s.trades {
		if ok(t) {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1-int(k)%len(l)]
}

// ---- market settings ----------------------------------------------------

func (s *w1) doOpen(op *Op, step, m int) *call {
	c := s.api(op, step, "open", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.OpenMarket(ctx, &pbop.OpenMarketRequest{Market: s.base(m)})
		return err
	})
	return s.record(c, m, setop{kind: "open"})
}

func (s *w1) doClose(op *Op, step, m int) *call {
	c := s.api(op, step, "close", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.CloseMarket(ctx, &pbop.CloseMarketRequest{Market: s.base(m)})
		return err
	})
	return s.record(c, m, setop{kind: "close"})
}

func (s *w1) doFee(op *Op, step, m int, bp int64) *call {
	var rep *pbop.UpdateMarketFeeReply
	c := s.api(op, step, "fee", func(ctx context.Context, d *Daemon) (err error) {
		rep, err = d.Oper.UpdateMarketPercentageFee(ctx, &pbop.UpdateMarketPercentageFeeRequest{Market: s.base(m), BasisPoint: bp})
		return err
	})
	if c.ok() && rep != nil {
		if g := rep.GetMarketWithFee().GetFee().GetBasisPoint(); g != bp {
			s.w.Violate("C14", "fee-reply", "percentage fee set to %d, the reply says %d", bp, g)
		}
		if bp < 0 || bp > 9999 {
			s.w.Violate("C14", "fee-range", "a fee of %d basis points was accepted", bp)
		}
	}
	return s.record(c, m, setop{kind: "fee", a: bp})
}

func (s *w1) doFixed(op *Op, step, m int, b, q int64) *call {
	var rep *pbop.UpdateMarketFeeReply
	c := s.api(op, step, "fixed", func(ctx context.Context, d *Daemon) (err error) {
		rep, err = d.Oper.UpdateMarketFixedFee(ctx, &pbop.UpdateMarketFixedFeeRequest{Market: s.base(m), Fixed: &pbtypes.Fixed{BaseFee: b, QuoteFee: q}})
		return err
	})
	if c.ok() && rep != nil {
		if g := rep.GetMarketWithFee().GetFee().GetFixed(); g.GetBaseFee() != b || g.GetQuoteFee() != q {
			s.w.Violate("C14", "fixed-fee-reply", "fixed fee set to %d/%d, the reply says %v", b, q, g)
		}
	}
	return s.record(c, m, setop{kind: "fixed", a: b, b: q})
}

// doPrice sets a price given in millionths of quote per base.
func (s *w1) doPrice(op *Op, step, m int, p int64) *call {
	q := float64(p) / 1e6
	b := float32(1 / q)
	c := s.api(op, step, "setprice", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.UpdateMarketPrice(ctx, &pbop.UpdateMarketPriceRequest{Market: s.base(m), Price: &pbtypes.Price{BasePrice: b, QuotePrice: float32(q)}})
		return err
	})
	return s.record(c, m, setop{kind: "price", a: priceKey(b), b: priceKey(float32(q))})
}

func priceKey(f float32) int64 { return int64(math.Round(float64(f) * 1e9)) }

func (s *w1) doStrategy(op *Op, step, m int, st int64) *call {
	c := s.api(op, step, "strategy", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.UpdateMarketStrategy(ctx, &pbop.UpdateMarketStrategyRequest{Market: s.base(m), StrategyType: pbop.StrategyType(st)})
		return err
	})
	return s.record(c, m, setop{kind: "strategy", a: st})
}

func (s *w1) doDrop(op *Op, step, m int) *call {
	// the account to drop is read first
	d := s.h.D
	if d == nil {
		return nil
	}
	acct := -1
	s.w.Quiet(func() {
		_, a, err := d.Repo.MarketRepository().GetMarketByAsset(context.Background(), s.quotes[m])
		if err == nil {
			acct = a
		}
	})
	if acct < 0 {
		return nil
	}
	s.dropAcct[acct] = true
	c := s.api(op, step, "drop", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.DropMarket(ctx, &pbop.DropMarketRequest{AccountIndex: uint64(acct)})
		return err
	})
	return s.record(c, m, setop{kind: "drop", a: int64(acct)})
}

func (s *w1) list(op *Op, step int) []*pbop.MarketInfo {
	var rep *pbop.ListMarketReply
	c := s.api(op, step, "listmarket", func(ctx context.Context, d *Daemon) (err error) {
		rep, err = d.Oper.ListMarket(ctx, &pbop.ListMarketRequest{})
		return err
	})
	if !c.ok() || rep == nil {
		return nil
	}
	seen := map[string]bool{}
	accts := map[uint64]bool{}
	by := map[string]*pbop.MarketInfo{}
	for _, mi := range rep.Markets {
		if accts[mi.AccountIndex] {
			s.w.Violate("C10", "account-listed-twice", "account %d is listed for two markets", mi.AccountIndex)
		}
		accts[mi.AccountIndex] = true
		q := mi.GetMarket().GetQuoteAsset()
		if q == "" {
			continue
		}
		if seen[q] {
			s.w.Violate("C10", "pair-listed-twice", "the pair with quote %s is listed twice", short(q))
		}
		seen[q] = true
		by[q] = mi
	}
	for m, q := range s.quotes {
		mi := by[q]
		so := setop{kind: "read"}
		if mi != nil {
			so.st = setState{exists: true, open: mi.Tradable, bp: mi.GetFee().GetBasisPoint(), fb: mi.GetFee().GetFixed().GetBaseFee(), fq: mi.GetFee().GetFixed().GetQuoteFee(),
				pluggable: stratPluggable(int64(mi.StrategyType)), pb: priceKey(mi.GetPrice().GetBasePrice()), pq: priceKey(mi.GetPrice().GetQuotePrice()), acct: int64(mi.AccountIndex)}
		}
		if mi == nil && len(s.hist) == 0 {
			continue
		}
		s.record(c, m, so)
	}
	return rep.Markets
}

func stratPluggable(t int64) bool { return t == 0 || t == 255 }

// ---- deposits -----------------------------------------------------------

func (s *w1) deposit(op *Op) {
	w := s.w
	m := int(op.Arg(0))
	n := op.Arg(1)
	var addrs []string
	switch op.K {
	case "depm":
		c := s.api(op, 0, "depositmarket", func(ctx context.Context, d *Daemon) error {
			r, err := d.Oper.DepositMarket(ctx, &pbop.DepositMarketRequest{Market: s.base(m), NumOfAddresses: n})
			if err == nil {
				addrs = r.Addresses
			}
			return err
		})
		if !c.ok() {
			return
		}
		s.handOut(c, "market", addrs, -1, &m)
		if int64(len(addrs)) != n {
			w.Violate("C09", "address-count", "%d addresses asked, %d returned", n, len(addrs))
		}
		s.checkMarketAddrs(c, m, addrs)
	case "depf":
		c := s.api(op, 0, "depositfee", func(ctx context.Context, d *Daemon) error {
			r, err := d.Oper.DepositFeeAccount(ctx, &pbop.DepositFeeAccountRequest{NumOfAddresses: n})
			if err == nil {
				for _, a := range r.AddressWithBlindingKey {
					addrs = append(addrs, a.Address)
					if o := s.ownAddr(a.Address); o != nil && a.Blinding != hex.EncodeToString(o.blind) {
						w.Violate("C09", "wrong-blinding-key", "the blinding key returned for %s is not the one of the wallet", o.path)
					}
				}
			}
			return err
		})
		if !c.ok() {
			return
		}
		s.handOut(c, "fee", addrs, 0, nil)
		if int64(len(addrs)) != n {
			w.Violate("C09", "address-count", "%d addresses asked, %d returned", n, len(addrs))
		}
	case "wfund":
		for i := int64(0); i < n; i++ {
			if a := s.walletAddr(op, int(i)); a != "" {
				addrs = append(addrs, a)
			}
		}
	}
	if op.Arg(2) == 0 || len(addrs) == 0 {
		return
	}
	var pts []*pbop.TxOutpoint
	var coins []outpoint
	for i, a := range addrs {
		asset := LBTC
		if op.K == "depm" && (op.Arg(4)+int64(i))%3 == 0 || op.K == "wfund" && i%2 == 1 {
			asset = s.quotes[m]
		}
		v := 1000 + uint64(op.Arg(3)) + uint64(i)
		if h := int(op.Arg(3)) + i; h%9 == 4 {
			// anybody can send a coin nobody else can open
			sc, _ := addrScript(a)
			s.ch.Fund(sc, s.w.NewKey(fmt.Sprintf("alien%d", h%5)).blindPub(), asset, v+7)
			s.w.Stat("deposit.alien")
		} else if h%9 == 5 {
			s.fund(a, foreignAsset, v)
			s.w.Stat("deposit.foreign")
		}
		var o *simTxOut
		if (int(op.Arg(3))+i)%7 == 3 {
			sc, _ := addrScript(a)
			o = s.ch.Fund(sc, nil, asset, v)
			s.w.Stat("deposit.plain")
		} else {
			o = s.fund(a, asset, v)
		}
		pts = append(pts, &pbop.TxOutpoint{Hash: o.Op.Txid, Index: int32(o.Op.Vout)})
		coins = append(coins, o.Op)
	}
	if op.K == "wfund" {
		return
	}
	s.claim(op, m, pts, coins, op.K == "depf")
}

// badPoint returns an outpoint that must not be credited together with coins
// of account acct.
func (s *w1) badPoint(op *Op, kind int, acct int, pts []*pbop.TxOutpoint) *pbop.TxOutpoint {
	s.strangerN++
	k := s.w.NewKey(fmt.Sprintf("stranger%d", s.strangerN))
	switch kind {
	case 0: // somebody else's coin
		o := s.ch.Fund(k.script, k.blindPub(), LBTC, 5000+uint64(op.Arg(3)))
		return &pbop.TxOutpoint{Hash: o.Op.Txid, Index: int32(o.Op.Vout)}
	case 1: // a coin of another account
		var scripts []string
		for sc := range s.handedBy {
			if o := s.ownOf(sc); o != nil && o.acct != acct {
				scripts = append(scripts, sc)
			}
		}
		if len(scripts) == 0 {
			return nil
		}
		sort.Strings(scripts)
		o := s.fund(s.ownOf(scripts[int(op.Arg(3))%len(scripts)]).addr, LBTC, 5000+uint64(op.Arg(3)))
		return &pbop.TxOutpoint{Hash: o.Op.Txid, Index: int32(o.Op.Vout)}
	case 2: // an output the transaction does not have
		return &pbop.TxOutpoint{Hash: pts[0].Hash, Index: 77}
	}
	return &pbop.TxOutpoint{Hash: strings.Repeat("5e", 32), Index: 0}
}

func (s *w1) claim(op *Op, m int, pts []*pbop.TxOutpoint, coins []outpoint, fee bool) bool {
	var mixed []*pbop.TxOutpoint
	bad := int(op.Arg(3)) % 10
	if bad < 4 {
		acct := -1
		if so := s.ch.Utxo[coins[0]]; so != nil {
			if o := s.ownOf(so.Script); o != nil {
				acct = o.acct
			}
		}
		if p := s.badPoint(op, bad, acct, pts); p != nil {
			mixed = append(mixed, pts...)
			at := int(op.Arg(3)/10) % (len(mixed) + 1)
			mixed = append(mixed[:at:at], append([]*pbop.TxOutpoint{p}, mixed[at:]...)...)
		}
	}
	for i := 0; i < 6; i++ {
		if mixed != nil && (i == 0 || s.ch.Confirmed(coins[0].Txid)) {
			var c *call
			if fee {
				c = s.api(op, 40+i, "claimfee", func(ctx context.Context, d *Daemon) error {
					_, err := d.Oper.ClaimFeeDeposit(ctx, &pbop.ClaimFeeDepositRequest{Outpoints: mixed})
					return err
				})
			} else {
				c = s.api(op, 40+i, "claimmarket", func(ctx context.Context, d *Daemon) error {
					_, err := d.Oper.ClaimMarketDeposit(ctx, &pbop.ClaimMarketDepositRequest{Market: s.base(m), Outpoints: mixed})
					return err
				})
				s.record(c, m, setop{kind: "create"})
			}
			s.w.Stat("deposit.mixed")
			if c.ok() {
				s.w.Violate("C10", "foreign-claimed", "%s credits %d coins of one account together with %s", c.tag, len(coins),
					[]string{"a coin that is not the daemon's", "a coin of another account", "an output that does not exist", "a transaction that does not exist"}[bad])
				return true
			}
			if s.ch.Confirmed(coins[0].Txid) && c != nil && c.done && !s.faulted(c.tag) {
				mixed = nil // once is enough
			}
		}
		var c *call
		conf := s.ch.Confirmed(coins[0].Txid)
		if fee {
			c = s.api(op, 20+i, "claimfee", func(ctx context.Context, d *Daemon) error {
				_, err := d.Oper.ClaimFeeDeposit(ctx, &pbop.ClaimFeeDepositRequest{Outpoints: pts})
				return err
			})
		} else {
			c = s.api(op, 20+i, "claimmarket", func(ctx context.Context, d *Daemon) error {
				_, err := d.Oper.ClaimMarketDeposit(ctx, &pbop.ClaimMarketDepositRequest{Market: s.base(m), Outpoints: pts})
				return err
			})
			s.record(c, m, setop{kind: "create"})
		}
		if c.ok() {
			for _, o := range coins {
				s.claimed[o] = true
				if !s.ch.Confirmed(o.Txid) {
					s.w.Violate("C10", "unconfirmed-claimed", "%s credits an unconfirmed deposit", c.tag)
				}
			}
			return true
		}
		_ = conf
		time.Sleep(time.Duration(1+i*i) * 3 * time.Second)
	}
	return false
}

// checkMarketAddrs: the addresses of a funded market belong to its account.
func (s *w1) checkMarketAddrs(c *call, m int, addrs []string) {
	acct := -1
	if mk := s.markets[s.quotes[m]]; mk != nil {
		acct = mk.acct
	}
	for _, a := range addrs {
		if o := s.ownAddr(a); o != nil && acct >= 0 && o.acct != acct && !s.dropAcct[acct] {
			s.w.Violate("C10", "wrong-account-address", "%s asked for an address of the market of account %d and got one of %d", c.tag, acct, o.acct)
		}
	}
}

func (s *w1) newMarket(op *Op) {
	w := s.w
	s.keyN++
	nm := -1
	for m := range s.quotes {
		if s.markets[s.quotes[m]] == nil && m >= int(w.Cfg("nmarkets")) {
			nm = m
			break
		}
	}
	if op.Arg(4)%4 == 0 { // the pair of an existing market
		nm = int(op.Arg(0))
	}
	if nm < 0 {
		return
	}
	var addrs []string
	c := s.api(op, 0, "depositmarket", func(ctx context.Context, d *Daemon) error {
		r, err := d.Oper.DepositMarket(ctx, &pbop.DepositMarketRequest{NumOfAddresses: op.Arg(1)})
		if err == nil {
			addrs = r.Addresses
		}
		return err
	})
	if !c.ok() {
		return
	}
	s.handOut(c, "newmarket", addrs, -1, nil)
	if len(addrs) == 0 || op.Arg(2) == 0 {
		return
	}
	acct := -1
	if o := s.ownAddr(addrs[0]); o != nil {
		acct = o.acct
	}
	var pts []*pbop.TxOutpoint
	var coins []outpoint
	for i, as := range []string{LBTC, s.quotes[nm]} {
		o := s.fund(addrs[i%len(addrs)], as, 1_000_000+uint64(op.Arg(3)))
		pts = append(pts, &pbop.TxOutpoint{Hash: o.Op.Txid, Index: int32(o.Op.Vout)})
		coins = append(coins, o.Op)
	}
	existed := s.marketAccount(nm)
	if !s.claim(op, nm, pts, coins, false) {
		return
	}
	now := s.marketAccount(nm)
	if now >= 0 && now != acct && (existed < 0 || existed == now) {
		w.Violate("C10", "wrong-account-funded", "claiming deposits to account %d for quote %s succeeded but the market is on account %d", acct, short(s.quotes[nm]), now)
	}
	s.markets[s.quotes[nm]] = &w1market{quote: s.quotes[nm], acct: acct}
	s.doStrategy(op, 10, nm, 1)
	s.doOpen(op, 11, nm)
}

// marketAccount reads the account of the market of a quote asset (-1: none).
func (s *w1) marketAccount(m int) int {
	d := s.h.D
	if d == nil {
		return -1
	}
	a := -1
	s.w.Quiet(func() {
		_, x, err := d.Repo.MarketRepository().GetMarketByAsset(context.Background(), s.quotes[m])
		if err == nil {
			a = x
		}
	})
	return a
}

// ---- trades -------------------------------------------------------------

func (s *w1) price(op *Op, step, m int, buy bool, amount uint64, asset string) (*pbtypes.PriceWithFee, *call) {
	tt := pbtrade.TradeType_BUY
	if !buy {
		tt = pbtrade.TradeType_SELL
	}
	var rep *pbtrade.MarketPriceReply
	c := s.api(op, step, "price", func(ctx context.Context, d *Daemon) (err error) {
		rep, err = d.Trade.MarketPrice(ctx, &pbtrade.MarketPriceRequest{Market: s.base(m), Type: tt, Amount: amount, Asset: asset})
		return err
	})
	if !c.ok() || rep == nil || len(rep.Prices) == 0 {
		return nil, c
	}
	p := rep.Prices[0]
	s.record(c, m, setop{kind: "readfee", st: setState{exists: true, open: true, bp: p.GetFee().GetBasisPoint(), fb: p.GetFee().GetFixed().GetBaseFee(), fq: p.GetFee().GetFixed().GetQuoteFee()}})
	return p, c
}

const (
	vHonest = iota
	vWithin
	vBeyond
	vWrongDir
	vForeign
	vUnderfunded
	vOverOut
	vReplay
	vMalformed
	vWrongBase
	vBadKeys
	vFar
)

func (s *w1) execTrade(op *Op) {
	w := s.w
	m, buy, amount := int(op.Arg(0)), op.Arg(1) == 0, uint64(op.Arg(2))
	variant, think, action := int(op.Arg(4)), time.Duration(op.Arg(5))*time.Millisecond, int(op.Arg(6))
	r := rt.HashString(w.Seed, fmt.Sprintf("trade%d", op.ID))
	asset := LBTC
	if op.Arg(7)%3 == 0 {
		asset = s.quotes[m]
		amount *= 2
	}
	p, _ := s.price(op, 0, m, buy, amount, asset)
	if p == nil {
		if variant == vHonest || variant == vWithin {
			return
		}
		p = &pbtypes.PriceWithFee{Amount: amount}
	}
	ab, aq := amount, p.Amount
	if asset != LBTC {
		ab, aq = p.Amount, amount
	}
	assetP, amountP, assetR, amountR := s.quotes[m], aq, LBTC, ab
	if !buy {
		assetP, amountP, assetR, amountR = LBTC, ab, s.quotes[m], aq
	}
	t := s.proposeWith(op, 1, m, buy, assetP, amountP, assetR, amountR, variant, &r)
	if t == nil || t.accTx == nil {
		return
	}
	if think > 0 {
		time.Sleep(think)
	}
	switch action {
	case 0: // complete, retrying
		for i := 0; i < 4; i++ {
			if s.complete(op, 2+i, t, 0) || time.Now().Unix() > t.expiry {
				break
			}
			time.Sleep(time.Duration(1+i) * time.Second)
		}
	case 1:
		s.failTrade(op, 2, t)
	case 2:
	case 3: // twice at once
		ch := make(chan struct{})
		w.Go(fmt.Sprintf("env%d.b", op.ID), func() { s.complete(op, 3, t, 0); ch <- struct{}{} })
		s.complete(op, 2, t, 0)
		<-ch
	case 4:
		s.complete(op, 2, t, 3)
		s.complete(op, 3, t, 0)
	case 5:
		s.selfBroadcast(t)
	case 6:
		s.complete(op, 2, t, 1)
	case 7:
		ch := make(chan struct{})
		w.Go(fmt.Sprintf("env%d.b", op.ID), func() { s.failTrade(op, 3, t); ch <- struct{}{} })
		s.complete(op, 2, t, 0)
		<-ch
	case 8:
		s.complete(op, 2, t, 2)
		s.complete(op, 3, t, 0)
	case 9:
		s.failTrade(op, 2, t)
		s.complete(op, 3, t, 0)
	case 10:
		s.complete(op, 2, t, 0)
		s.failTrade(op, 3, t)
		s.complete(op, 4, t, 0)
	case 11: // someone spends the trader's coin first
		k := t.pr.key
		if len(t.pr.ins) > 0 && t.pr.ins[0].SpentBy == "" && t.pr.ins[0].Asset == LBTC && t.pr.ins[0].Value > 600 {
			if hx, err := s.ch.spendKey(k, t.pr.ins[:1], []outSpec{{LBTC, t.pr.ins[0].Value - 500, k.script}, {LBTC, 500, nil}}); err == nil {
				s.ch.Broadcast(hx, "trader-doublespend")
				w.Probe("double-spend")
			}
		}
		s.complete(op, 2, t, 0)
	case 12: // broadcast late by the trader; whether it was can't be asked when the trade expires
		until := func(d time.Duration) {
			time.Sleep(time.Duration(t.expiry)*time.Second - time.Duration(time.Now().UnixNano()) + d)
		}
		x := rt.Next(&r)
		until(-time.Duration(x%10) * time.Second)
		s.holdMine++
		s.selfBroadcast(t)
		if w.FaultsOn {
			until(60*time.Second - time.Duration(x>>8%3000)*time.Millisecond)
			s.outage(time.Duration(1000+x>>24%90000) * time.Millisecond)
		}
		until(66 * time.Second)
		s.holdMine--
	}
}

func (s *w1) proposeWith(op *Op, step, m int, buy bool, assetP string, amountP uint64, assetR string, amountR uint64, variant int, r *uint64) *w1trade {
	w := s.w
	if amountP == 0 {
		amountP = 1
	}
	if amountR == 0 {
		amountR = 1
	}
	slip := float64(w.Cfg("slip_bp")) / 10000
	pay := amountP
	market := s.base(m)
	switch variant {
	case vWithin:
		f := 1 + (float64(rt.Next(r)%2000)/1000-1)*slip*0.98
		amountP = uint64(float64(amountP) * f)
		pay = amountP
	case vBeyond:
		f := 1 - slip*1.1 - float64(rt.Next(r)%100)/1000
		amountP = uint64(float64(amountP)*f) + 1
		pay = amountP
	case vFar:
		if rt.Next(r)%2 == 0 {
			amountP = amountP/10 + 1
		} else {
			amountR *= 3
		}
		pay = amountP
	case vWrongDir:
		buy = !buy
	case vForeign:
		assetP = assetN(90)
	case vWrongBase:
		market = &pbtypes.Market{BaseAsset: assetN(91), QuoteAsset: s.quotes[m]}
	case vUnderfunded:
		pay = amountP / 2
	}
	var pr *proposal
	switch variant {
	case vUnderfunded:
		pr = s.tr.propose(assetP, pay+1, assetR, amountR, 1)
		pr.req.AmountP = amountP
	case vOverOut:
		pr = s.tr.propose(assetP, amountP, assetR, amountR, int(op.Arg(3)))
		outs := append([]outSpec{}, pr.outs...)
		outs[0].value += 1 + rt.Next(r)%1000
		pr.req.Transaction = buildPset(pr.ins, outs)
		pr.outs = outs
	case vReplay:
		pr = s.tr.propose(assetP, amountP, assetR, amountR, 1)
		var prev *w1trade
		if prev = s.pickTrade(int64(rt.Next(r)%4), func(t *w1trade) bool { return true }); prev != nil {
			pr.req.Id = prev.pr.req.Id
		}
	case vMalformed:
		pr = s.tr.propose(assetP, amountP, assetR, amountR, 1)
		tx := pr.req.Transaction
		switch rt.Next(r) % 5 {
		case 0:
			pr.req.Transaction = tx[:len(tx)/2]
		case 1:
			pr.req.Transaction = "cHNldP8BAA=="
		case 2:
			pr.req.InputBlindingKey = map[string][]byte{"00": {1, 2, 3}}
		case 3:
			// nothing but the price is agreed before the proposer signs: an
			// incomplete transaction may be accepted, it is merely invalid
			pr.req.Transaction = buildPset(nil, pr.outs)
			pr.ins, pr.psetIns = nil, nil
			variant = vUnderfunded
		case 4:
			pr.req.Transaction = buildPset(pr.ins, nil)
			pr.outs = nil
			variant = vOverOut
		}
	case vBadKeys:
		pr = s.tr.propose(assetP, amountP, assetR, amountR, int(op.Arg(3)))
		k := w.NewKey("other")
		pr.req.InputBlindingKey = map[string][]byte{pr.key.scriptHex(): k.blind.Serialize()}
	default:
		pr = s.tr.propose(assetP, amountP, assetR, amountR, int(op.Arg(3)))
	}
	pr.sell = !buy
	pr.invalid = variant == vUnderfunded || variant == vOverOut
	t := &w1trade{pr: pr, op: op, market: m, buy: buy, priced: variant == vHonest || variant == vWithin}
	s.propose(op, step, t, market, variant)
	return t
}

func (s *w1) propose(op *Op, step int, t *w1trade, market *pbtypes.Market, variant int) {
	w := s.w
	s.trades = append(s.trades, t)
	s.byPid[t.pr.req.Id] = append(s.byPid[t.pr.req.Id], t.pr)
	tt := pbtrade.TradeType_BUY
	if !t.buy {
		tt = pbtrade.TradeType_SELL
	}
	st := &proposeStream{}
	pre := s.snap()
	t.invU = time.Now().Unix()
	act0 := s.blips
	infl := s.inflight
	c := s.api(op, step, "propose", func(ctx context.Context, d *Daemon) error {
		st.fakeStream = fakeStream{ctx: ctx}
		return d.Trade.TradePropose(&pbtrade.TradeProposeRequest{Market: market, Type: tt, SwapRequest: t.pr.req}, st)
	})
	t.c = c
	if c == nil {
		for i, x := range s.trades { // the request never reached the daemon
			if x == t {
				s.trades = append(s.trades[:i:i], s.trades[i+1:]...)
				break
			}
		}
		return
	}
	if !c.ok() || st.reply == nil {
		return
	}
	alone := infl == 0 && s.blips == act0+2
	t.replied = true
	rep := st.reply
	if rep.SwapAccept == nil {
		t.rejected = true
		w.Stat("trades.rejected")
		if rep.SwapFail == nil {
			w.Violate("C03", "empty-reply", "proposal %s got neither an acceptance nor a failure", t.pr.req.Id)
		}
		t.reason = rep.SwapFail.GetFailureMessage()
		return
	}
	s.accepted(t, rep, pre, alone, variant)
}

func (s *w1) pset(t *w1trade, variant int) string {
	p, err := signPset(t.pset, t.pr.key)
	if err != nil {
		s.w.Violate("C03", "unsignable", "the accepted transaction cannot be signed by the trader: %v", err)
		return t.pset
	}
	switch variant {
	case 1: // raw transaction
		if hx, err := finalTx(p); err == nil {
			return hx
		}
	case 2: // unsigned
		return t.pset
	case 3: // another transaction, fully signed by the trader
		var ins []*simTxOut
		for _, i := range t.pr.ins {
			ins = append(ins, i)
		}
		v := ins[0].Value
		if ins[0].Asset == LBTC && v > 600 {
			if hx, err := s.ch.spendKey(t.pr.key, ins[:1], []outSpec{{LBTC, v - 300, t.pr.key.script}, {LBTC, 300, nil}}); err == nil {
				return hx
			}
		}
		// the accepted one of another trade
		for _, o := range s.trades {
			if o != t && o.accTx != nil {
				if q, err := signPset(o.pset, o.pr.key); err == nil {
					return q
				}
			}
		}
		return "00"
	case 4: // accepted one with an output changed after signing
		return tamper(p)
	case 5:
		return "not a transaction"
	}
	return p
}

func tamper(b64 string) string {
	p, err := psetTx(b64)
	if err != nil {
		return b64
	}
	if len(p.UnsignedTx.Outputs) > 0 {
		p.UnsignedTx.Locktime = 7
	}
	s, err := p.ToBase64()
	if err != nil {
		return b64
	}
	return s
}

func (s *w1) complete(op *Op, step int, t *w1trade, variant int) bool {
	w := s.w
	st := &completeStream{}
	tx := s.pset(t, variant)
	var c *call
	invU := time.Now().Unix()
	w.seq++
	inv := w.seq
	tag := fmt.Sprintf("op%d.%d", op.ID, step)
	s.cmplOf(tag, t, invU, inv)
	c = s.api(op, step, "complete", func(ctx context.Context, d *Daemon) error {
		st.fakeStream = fakeStream{ctx: ctx}
		return d.Trade.TradeComplete(&pbtrade.TradeCompleteRequest{SwapComplete: &pbswap.SwapComplete{Id: "c" + t.acceptID, AcceptId: t.acceptID, Transaction: tx}}, st)
	})
	if !c.ok() || st.reply == nil {
		return false
	}
	rep := st.reply
	if rep.Txid == "" {
		w.Stat("completions.refused")
		t.reason = rep.SwapFail.GetFailureMessage()
		if rep.SwapFail == nil {
			w.Violate("C04", "empty-completion", "completion of %s reports neither a transaction nor a failure", t.acceptID)
		}
		return false
	}
	w.Stat("completions.ok")
	t.complOK = true
	// a completed trade is reported as such whatever is sent again
	doneBefore := t.bcast
	for _, b := range s.bcasts {
		if b.tag == tag && !b.known {
			doneBefore = false
		}
	}
	if variant >= 2 && !doneBefore {
		w.Violate("C04", fmt.Sprintf("wrong-tx-completed-%d", variant), "a completion with a transaction of kind %d was reported successful", variant)
	}
	if rep.Txid != t.txid {
		w.Violate("C04", "reply-txid", "completion of %s returned %s, the accepted transaction is %s", t.acceptID, short(rep.Txid), short(t.txid))
	}
	if s.ch.Txs[t.txid] == nil {
		w.Violate("C04", "reply-not-broadcast", "completion of %s was reported successful but the network does not have %s", t.acceptID, short(t.txid))
	}
	if t.failOK > 0 && t.failOK < c.inv {
		w.Violate("C04", "failed-completed", "trade %s was failed, yet a later completion was reported successful", t.acceptID)
	}
	return true
}

type cmplRec struct {
	t    *w1trade
	invU int64
	inv  uint64
}

var cmplByTag = map[string]*cmplRec{}

func (s *w1) cmplOf(tag string, t *w1trade, invU int64, inv uint64) {
	cmplByTag[tag] = &cmplRec{t, invU, inv}
}

func (s *w1) failTrade(op *Op, step int, t *w1trade) {
	w := s.w
	st := &completeStream{}
	id := t.acceptID
	if id == "" {
		id = t.pr.req.Id
	}
	if t.failInv == 0 {
		w.seq++
		t.failInv = w.seq
	}
	c := s.api(op, step, "fail", func(ctx context.Context, d *Daemon) error {
		st.fakeStream = fakeStream{ctx: ctx}
		return d.Trade.TradeComplete(&pbtrade.TradeCompleteRequest{SwapFail: &pbswap.SwapFail{Id: "f" + id, MessageId: id, FailureCode: 10, FailureMessage: "changed my mind"}}, st)
	})
	if c.ok() && t.accTx != nil && !t.bcast && t.failOK == 0 {
		// the trade really failed unless it was completed or expired before
		if sn := s.snap(); sn != nil {
			if tr := sn.trade(t); tr != nil && tr.Status.Code == 2 && tr.Status.Failed {
				t.failOK = c.ret
				t.failOKat = w.Now()
			}
		}
	}
}

func (s *w1) selfBroadcast(t *w1trade) {
	p, err := signPset(t.pset, t.pr.key)
	if err != nil {
		return
	}
	hx, err := finalTx(p)
	if err != nil {
		s.w.Violate("C03", "incomplete-signatures", "the accepted transaction signed by the trader is not complete: %v", err)
		return
	}
	id, err := s.ch.Broadcast(hx, "trader")
	s.w.Tracef("trader broadcasts %s: %v", short(id), err)
	s.noteChain(t)
	if err == nil {
		s.w.Probe("self-broadcast")
	}
}

// dup resends an earlier proposal verbatim.
func (s *w1) dup(op *Op) {
	t := s.pickTrade(op.Arg(0), func(t *w1trade) bool { return t.replied })
	if t == nil {
		return
	}
	cp := &w1trade{pr: t.pr, op: op, market: t.market, buy: t.buy}
	s.propose(op, 0, cp, s.base(t.market), vReplay)
	if cp.accTx != nil && op.Arg(1) > 2 {
		s.complete(op, 1, cp, 0)
	}
}

// ---- payments -----------------------------------------------------------

func (s *w1) withdraw(op *Op, step int) *payment1 {
	w := s.w
	m := int(op.Arg(0))
	b, q := uint64(op.Arg(1)), uint64(op.Arg(2))
	switch op.Arg(4) {
	case 0:
		q = 0
	case 1:
		b = 0
	case 2:
		b *= 100
	case 3:
		// everything there is, of one asset or of both
		if sn := s.snap(); sn != nil && op.Arg(2)%3 != 0 {
			all := map[string]uint64{}
			acct := s.marketAccount(m)
			for _, u := range sn.coinList {
				if o := s.ownOf(hex.EncodeToString(u.ScriptPubKey)); o != nil && o.acct == acct && !u.Spent && !u.Locked && u.Confirmed {
					all[u.AssetHash] += u.Value
				}
			}
			switch op.Arg(2) % 9 {
			case 1, 4:
				q = all[s.quotes[m]]
			case 2, 5:
				b = all[LBTC]
			case 7:
				b, q = all[LBTC], all[s.quotes[m]]
			case 8:
				b, q = all[LBTC], all[s.quotes[m]]+1
			}
			w.Stat("withdraw.everything")
		}
	}
	s.keyN++
	k := w.NewKey(fmt.Sprintf("wd%d.%d", op.ID, step))
	p := &payment1{kind: "withdraw", addr: k.addr, rate: op.Arg(3), market: m, push: op.Arg(5) != 0, acct: s.marketAccount(m)}
	if b > 0 {
		p.outs = append(p.outs, outSpec{LBTC, b, k.script})
	}
	if q > 0 {
		p.outs = append(p.outs, outSpec{s.quotes[m], q, k.script})
	}
	s.pays = append(s.pays, p)
	tag := fmt.Sprintf("op%d.%d", op.ID, step)
	payByTag[tag] = p
	p.c = &call{tag: tag}
	if !p.push {
		s.unpushed++
	}
	c := s.api(op, step, "withdraw", func(ctx context.Context, d *Daemon) error {
		if !p.push {
			raw, err := d.OperS.WithdrawMarketFunds(ctx, application.WithdrawMarketReq{
				Market:            application.Market{BaseAsset: LBTC, QuoteAsset: s.quotes[m]},
				BalanceToWithdraw: application.Balance{BaseAmount: b, QuoteAmount: q}, MillisatPerByte: op.Arg(3), Address: k.addr, Push: false})
			p.raw = hex.EncodeToString(raw)
			if err == nil {
				s.callerPush(p)
			}
			return err
		}
		r, err := d.Oper.WithdrawMarket(ctx, &pbop.WithdrawMarketRequest{Market: s.base(m), BalanceToWithdraw: &pbtypes.Balance{BaseAmount: b, QuoteAmount: q},
			MillisatPerByte: op.Arg(3), Address: k.addr, Push: true})
		if err == nil {
			p.raw = hex.EncodeToString(r.RawTx)
		}
		return err
	})
	if c == nil {
		delete(payByTag, tag)
		s.pays = s.pays[:len(s.pays)]
		return p
	}
	p.c = c
	if !p.push && (p.taken || c.done && c.err != nil) {
		s.unpushed--
	}
	s.checkPayment(p)
	return p
}

// callerPush: the caller of a withdrawal or send that was not to be pushed
// broadcasts the transaction.
func (s *w1) callerPush(p *payment1) {
	if tx, err := decodeTx(p.raw); err == nil && s.ch.Txs[tx.Txid] != nil {
		s.w.Violate("C13", "pushed-unasked", "%s asked not to push and the transaction was broadcast", p.c.tag)
	}
	if rt.HashString(s.w.Seed, "late-push"+p.c.tag)%3 == 0 {
		s.toPush = append(s.toPush, p)
		return
	}
	if _, err := s.ch.Broadcast(p.raw, "caller"); err == nil {
		p.taken = true
		s.w.Probe("caller-push")
	}
}

// latePush: the callers that were in no hurry broadcast what they were given.
func (s *w1) latePush() {
	for _, p := range s.toPush {
		if p.taken || p.c == nil || !p.c.ok() {
			continue
		}
		if tx, err := decodeTx(p.raw); err == nil && s.ch.Txs[tx.Txid] != nil {
			s.w.Violate("C13", "pushed-unasked", "%s asked not to push and the transaction was broadcast", p.c.tag)
			continue
		}
		if _, err := s.ch.Broadcast(p.raw, "caller"); err != nil {
			s.w.Probe("late-push.conflict")
			continue
		}
		p.taken = true
		s.w.Probe("late-push")
		if s.h.D != nil && p.c.gen == s.h.D.Gen.ID {
			s.unpushed--
		}
	}
	s.toPush = nil
}

var payByTag = map[string]*payment1{}

func (s *w1) send(op *Op, step int) *payment1 {
	w := s.w
	k := w.NewKey(fmt.Sprintf("send%d.%d", op.ID, step))
	p := &payment1{kind: "send", rate: op.Arg(2), push: op.Arg(4) != 0, acct: 1}
	n := int(op.Arg(3))
	var outs []*pbw.TxOut
	var aouts []application.TxOut
	for i := 0; i < n; i++ {
		as := LBTC
		if op.Arg(1) == 1 || op.Arg(1) == 2 && i == 1 {
			as = s.quotes[0]
		}
		v := uint64(op.Arg(0)) + uint64(i)
		p.outs = append(p.outs, outSpec{as, v, k.script})
		outs = append(outs, &pbw.TxOut{Asset: as, Value: int64(v), Address: k.addr})
		aouts = append(aouts, application.TxOut{Asset: as, Value: int64(v), Address: k.addr})
	}
	s.pays = append(s.pays, p)
	tag := fmt.Sprintf("op%d.%d", op.ID, step)
	payByTag[tag] = p
	p.c = &call{tag: tag}
	if !p.push {
		s.unpushed++
	}
	c := s.api(op, step, "send", func(ctx context.Context, d *Daemon) error {
		if !p.push {
			raw, err := d.WalletS.SendToMany(ctx, application.SendToManyRequest{Outputs: aouts, MillisatPerByte: op.Arg(2)})
			p.raw = hex.EncodeToString(raw)
			if err == nil {
				s.callerPush(p)
			}
			return err
		}
		r, err := d.Wallet.SendToMany(ctx, &pbw.SendToManyRequest{Outputs: outs, MillisatPerByte: op.Arg(2), Push: true})
		if err == nil {
			p.raw = hex.EncodeToString(r.RawTx)
		}
		return err
	})
	if c == nil {
		delete(payByTag, tag)
		return p
	}
	p.c = c
	if !p.push && (p.taken || c.done && c.err != nil) {
		s.unpushed--
	}
	s.checkPayment(p)
	return p
}

// ---- reads and others ---------------------------------------------------

func (s *w1) listUtxos(op *Op, step int) {
	var rep *pbop.ListUtxosReply
	pre := s.blips
	in := s.inflight
	c := s.api(op, step, "listutxos", func(ctx context.Context, d *Daemon) (err error) {
		rep, err = d.Oper.ListUtxos(ctx, &pbop.ListUtxosRequest{})
		return err
	})
	if c.ok() && rep != nil {
		s.checkUtxoReply(c, rep, in == 0 && s.blips == pre+2)
	}
}

func (s *w1) reload(op *Op, step int) *call {
	return s.api(op, step, "reload", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.ReloadUtxos(ctx, &pbop.ReloadUtxosRequest{})
		return err
	})
}

func (s *w1) report(op *Op, step, m int) {
	var rep *pbop.ReportMarketFeeReply
	pre := s.snap()
	c := s.api(op, step, "report", func(ctx context.Context, d *Daemon) (err error) {
		rep, err = d.Oper.ReportMarketFee(ctx, &pbop.ReportMarketFeeRequest{Market: s.base(m)})
		return err
	})
	if c.ok() && rep != nil {
		s.checkReport(m, rep, pre, s.snap())
	}
	var lt *pbop.ListTradesReply
	c = s.api(op, step+1, "listtrades", func(ctx context.Context, d *Daemon) (err error) {
		lt, err = d.Oper.ListTrades(ctx, &pbop.ListTradesRequest{})
		return err
	})
	if c.ok() && lt != nil {
		s.checkListTrades(c, lt)
	}
}

// badChangePass tries to change the passphrase of a running, unlocked wallet
// with a wrong one.
func (s *w1) badChangePass(op *Op) {
	wrong := s.wrongPass(op.ID)
	s.lockOps++
	c := s.api(op, 0, "chpass", func(ctx context.Context, d *Daemon) error {
		_, err := d.Wallet.ChangePassword(ctx, &pbw.ChangePasswordRequest{CurrentPassword: []byte(wrong), NewPassword: []byte("hijacked")})
		return err
	})
	s.lockOps--
	if c.ok() {
		s.w.Violate("C12", "wrong-pass-changes", "the passphrase was changed with a wrong current one")
	}
}

// junk sends malformed requests.
func (s *w1) junk(op *Op) {
	k := int(op.Arg(1))
	m := &pbtypes.Market{BaseAsset: LBTC, QuoteAsset: []string{"", "zz", LBTC, assetN(95), s.quotes[0][:10]}[k%5]}
	for i := 0; i < 3; i++ {
		switch (k/5 + i*7) % 14 {
		case 0:
			s.api(op, i, "junk.price", func(ctx context.Context, d *Daemon) error {
				_, err := d.Trade.MarketPrice(ctx, &pbtrade.MarketPriceRequest{Market: m, Type: pbtrade.TradeType(k % 4), Amount: uint64(k) << 43, Asset: LBTC})
				return err
			})
		case 1:
			s.api(op, i, "junk.price", func(ctx context.Context, d *Daemon) error {
				_, err := d.Trade.MarketPrice(ctx, &pbtrade.MarketPriceRequest{Market: s.base(0), Type: pbtrade.TradeType(k % 2), Amount: math.MaxUint64 - uint64(k%3), Asset: LBTC})
				return err
			})
		case 2:
			s.api(op, i, "junk.claim", func(ctx context.Context, d *Daemon) error {
				_, err := d.Oper.ClaimMarketDeposit(ctx, &pbop.ClaimMarketDepositRequest{Market: m, Outpoints: []*pbop.TxOutpoint{{Hash: "00", Index: -1}}})
				return err
			})
		case 3:
			s.api(op, i, "junk.claim", func(ctx context.Context, d *Daemon) error {
				id := "00"
				if len(s.ch.order) > 0 {
					id = s.ch.order[k%len(s.ch.order)]
				}
				_, err := d.Oper.ClaimFeeDeposit(ctx, &pbop.ClaimFeeDepositRequest{Outpoints: []*pbop.TxOutpoint{{Hash: id, Index: int32(k%7) - 2}}})
				return err
			})
		case 4:
			s.api(op, i, "junk.withdraw", func(ctx context.Context, d *Daemon) error {
				_, err := d.Oper.WithdrawMarket(ctx, &pbop.WithdrawMarketRequest{Market: s.base(0), BalanceToWithdraw: &pbtypes.Balance{BaseAmount: math.MaxUint64}, MillisatPerByte: 100, Address: "junk"})
				return err
			})
		case 5:
			s.api(op, i, "junk.send", func(ctx context.Context, d *Daemon) error {
				_, err := d.Wallet.SendToMany(ctx, &pbw.SendToManyRequest{Outputs: []*pbw.TxOut{{Asset: "xx", Value: -4, Address: ""}}, MillisatPerByte: 1})
				return err
			})
		case 6:
			s.api(op, i, "junk.complete", func(ctx context.Context, d *Daemon) error {
				return d.Trade.TradeComplete(&pbtrade.TradeCompleteRequest{}, &completeStream{fakeStream: fakeStream{ctx: ctx}})
			})
		case 7:
			s.api(op, i, "junk.complete", func(ctx context.Context, d *Daemon) error {
				return d.Trade.TradeComplete(&pbtrade.TradeCompleteRequest{SwapComplete: &pbswap.SwapComplete{AcceptId: "nope", Transaction: "00"}}, &completeStream{fakeStream: fakeStream{ctx: ctx}})
			})
		case 8:
			s.api(op, i, "junk.propose", func(ctx context.Context, d *Daemon) error {
				return d.Trade.TradePropose(&pbtrade.TradeProposeRequest{Market: m}, &proposeStream{fakeStream: fakeStream{ctx: ctx}})
			})
		case 9:
			s.api(op, i, "junk.drop", func(ctx context.Context, d *Daemon) error {
				_, err := d.Oper.DropMarket(ctx, &pbop.DropMarketRequest{AccountIndex: uint64(500 + k)})
				return err
			})
		case 10:
			s.api(op, i, "junk.hook", func(ctx context.Context, d *Daemon) error {
				_, err := d.Oper.AddWebhook(ctx, &pbop.AddWebhookRequest{Endpoint: "::", Action: pbop.ActionType(k % 9)})
				return err
			})
		case 11:
			s.api(op, i, "junk.hook", func(ctx context.Context, d *Daemon) error {
				_, err := d.Oper.RemoveWebhook(ctx, &pbop.RemoveWebhookRequest{Id: "x"})
				return err
			})
		case 12:
			s.api(op, i, "junk.listhooks", func(ctx context.Context, d *Daemon) error {
				_, err := d.Oper.ListWebhooks(ctx, &pbop.ListWebhooksRequest{Action: pbop.ActionType(k % 9)})
				return err
			})
		case 13:
			s.api(op, i, "junk.init", func(ctx context.Context, d *Daemon) error {
				return s.reinit(ctx, d, uint64(k))
			})
		}
	}
}
