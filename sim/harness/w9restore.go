//go:build go1.22

package verifsim

import (
	"context"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/btcsuite/btcd/btcec"
	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/elementsutil"
	"github.com/vulpemventures/go-elements/transaction"
)

// A seed with a history on the chain is restored on an empty data directory
// while the explorer, the disk, the client and the process fail (C11).

func init() { scenarios["restore"] = scenario{gen: genRestore, run: runRestore} }

const (
	rfSpent  = 1  // spent later
	rfPlain  = 2  // sent to the unconfidential form of the address
	rfAlien  = 4  // blinded with a key that is not the wallet's
	rfMemp   = 8  // unconfirmed when the restore begins
	rfSpentU = 16 // spent by an unconfirmed transaction
)

type rAcct struct {
	used   [2]map[int]bool // chain -> indices with a history
	reach  [2]int          // last index a scan with a gap of 20 reaches
	coins  map[outpoint]*simTxOut
	alien  map[outpoint]bool
	beyond map[outpoint]bool
	hidden bool // behind a market account that was never used
}

type restW struct {
	*comp
	net   *Net
	mn    []string
	ww    *wallet.Wallet
	acct  map[int]*rAcct
	where map[string][3]int // script -> account, chain, index
	pass  string
	acked bool // a restore was acknowledged or the wallet was unlocked
	busy  int  // restores in progress
	ends  int
	calm  bool
	spk   []byte // somebody else
}

// restore history: markets 5.. have the base asset and one quote asset each
func genRestore(w *World) {
	c := w.Plan.Cfg
	f := func(k string, v int64) {
		if _, ok := c[k]; !ok {
			c[k] = v
		}
		if x, ok := w.Plan.Force[k]; ok {
			c[k] = x
		}
	}
	pick := func(v ...int64) int64 { return v[w.Intn(len(v))] }
	f("pswitch", pick(0, 0, 500, 3000))
	f("pstall", pick(0, 0, 20, 100))
	f("stallmax_us", pick(1000, 100000, 2000000))
	f("lat_us", pick(100, 1000, 20000))
	f("interval_ms", 5000)
	f("tmo_ms", pick(5000, 8000))
	faulty := w.Chance(3, 4)
	p := func(k string, num, den int, v ...int64) {
		if faulty && w.Chance(num, den) {
			f(k, pick(v...))
		} else {
			w.R()
			f(k, 0)
		}
	}
	// of 65536 requests; a restore makes one to three hundred of them
	p("p_http_err", 1, 3, 60, 400)
	p("p_http_5xx", 1, 3, 60, 400)
	p("p_http_429", 1, 5, 60, 400)
	p("p_http_hang", 1, 5, 60, 200)
	p("p_http_slow", 1, 5, 200, 2000)
	p("p_http_trunc", 1, 5, 60, 400)
	p("p_http_cut", 1, 5, 60, 400)
	p("p_http_html", 1, 5, 60, 400)
	p("p_conflict", 1, 4, 5000, 20000)
	p("p_diskerr", 1, 4, 5000, 20000)
	p("p_torn", 1, 6, 4000, 15000)
	p("p_bolterr", 1, 8, 2000)
	if len(w.Plan.Ops) > 0 {
		return
	}
	var ops []Op
	coin := func(a ...int64) { ops = append(ops, Op{K: "coin", A: a}) }
	accts := []int64{0, 1}
	nm := w.Intn(4)
	hole := w.Chance(1, 12)
	for i := 0; i < nm; i++ {
		if hole && i == 1 {
			continue
		}
		accts = append(accts, int64(5+i))
	}
	for _, a := range accts {
		if a < 5 && w.Chance(1, 5) {
			continue
		}
		for ch := int64(0); ch < 2; ch++ {
			n := w.Intn(4)
			if ch == 0 && n == 0 && w.Chance(3, 4) {
				n = 1
			}
			if a >= 5 && ch == 0 && n == 0 {
				n = 1
			}
			idx := int64(-1)
			for i := 0; i < n; i++ {
				g := int64(1)
				switch w.Intn(8) {
				case 0, 1:
					g += int64(w.Intn(6))
				case 2:
					g += int64(w.Intn(20))
				case 3:
					g = 20
				}
				if i > 0 && w.Chance(1, 24) {
					g = 21 + int64(w.Intn(10))
				}
				if idx < 0 && g > 20 {
					g = 20
				}
				idx += g
				k := 1 + w.Intn(2)
				for j := 0; j < k; j++ {
					as := int64(0)
					if a >= 5 {
						as = int64(w.Intn(2)) * (a - 4)
					}
					if w.Chance(1, 10) {
						as = 20
					}
					fl := int64(0)
					if w.Chance(1, 3) {
						fl |= rfSpent
						if w.Chance(1, 4) {
							fl |= rfSpentU
						}
					}
					if w.Chance(1, 8) {
						fl |= rfPlain
					} else if w.Chance(1, 10) {
						fl |= rfAlien
					}
					if w.Chance(1, 6) {
						fl |= rfMemp
					}
					coin(a, ch, idx, as, 1000+w.LogRange(100000000), fl)
				}
			}
		}
		if a >= 5 && w.Chance(3, 4) {
			// usually a market has both of its assets
			coin(a, 0, 0, 0, 1000+w.LogRange(100000000), 0)
			coin(a, 0, 0, a-4, 1000+w.LogRange(100000000), 0)
		}
	}
	n := 1 + w.Intn(7)
	crashy := faulty && w.Chance(1, 2)
	ks := []string{"init", "init", "init", "init", "unlock", "list", "mine", "restart", "crash", "address"}
	var t int64
	for i := 0; i < n; i++ {
		k := ks[w.Intn(len(ks))]
		if i == 0 {
			k = "init"
		}
		if k == "crash" && !crashy {
			k = "list"
		}
		op := Op{T: t, K: k, A: []int64{0, w.Range(0, 1<<30)}}
		switch k {
		case "crash":
			op.A[0] = w.LogRange(3000000)
		case "init":
			if faulty && w.Chance(1, 6) {
				op.A[0] = w.LogRange(60)
			}
			if faulty && w.Chance(1, 6) {
				op.S = fmt.Sprintf("x%d", w.LogRange(3000000))
			} else if crashy && w.Chance(1, 3) {
				op.S = fmt.Sprintf("c%d", w.LogRange(6000))
			}
		}
		ops = append(ops, op)
		if w.Intn(3) > 0 {
			t += w.LogRange(30000)
		}
	}
	for i := range ops {
		ops[i].ID = i
	}
	w.Plan.Ops = ops
}

func runRestore(w *World) {
	s := &restW{comp: newComp(w, "C11", DaemonOpts{Expiry: time.Minute, Slippage: 0.05, MarketsFee: 25, Interval: time.Duration(w.Cfg("interval_ms")) * time.Millisecond,
		Limit: 100, Burst: 10, FeeThreshold: 5000, Timeout: int(w.Cfg("tmo_ms"))}),
		net: newNet(w), acct: map[int]*rAcct{}, where: map[string][3]int{}, pass: passphrase(w.Seed, 0)}
	s.hang = 12 * time.Hour
	s.comp.exec = s.do1
	s.mn = newMnemonic(w)
	var err error
	s.ww, err = wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: s.mn})
	must(err)
	s.spk = append([]byte{0, 20}, make([]byte, 20)...)
	simFill(s.spk[2:])
	w.Quiet(s.history)
	s.bootTol = func() bool { return true }
	if err := s.boot(); err != nil {
		w.Violate("C11", "first-start", "%v", err)
		return
	}
	s.run()
	if s.h.D == nil {
		return
	}
	s.calm = true
	s.end()
}

func (s *restW) derive(acct, chain, idx int) (addr string, script []byte) {
	addr, script, err := s.ww.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: fmt.Sprintf("%d'/%d/%d", acct, chain, idx), Network: net})
	must(err)
	return addr, script
}

func (s *restW) account(i int) *rAcct {
	a := s.acct[i]
	if a == nil {
		a = &rAcct{coins: map[outpoint]*simTxOut{}, alien: map[outpoint]bool{}, beyond: map[outpoint]bool{}}
		a.used[0], a.used[1] = map[int]bool{}, map[int]bool{}
		s.acct[i] = a
	}
	return a
}

// history puts the transactions of the plan on the chain.
func (s *restW) history() {
	c := s.net.Chain
	type spend struct {
		o   *simTxOut
		mem bool
	}
	var later []*Op
	var spends []spend
	fund := func(op *Op) {
		a, ch, idx := int(op.Arg(0)), int(op.Arg(1)), int(op.Arg(2))
		ac := s.account(a)
		ac.used[ch][idx] = true
		addr, script := s.derive(a, ch, idx)
		s.where[hex.EncodeToString(script)] = [3]int{a, ch, idx}
		_, pub := addrScript(addr)
		fl := op.Arg(5)
		if fl&rfPlain != 0 {
			pub = nil
		} else if fl&rfAlien != 0 {
			var k [32]byte
			simFill(k[:])
			_, pk := btcec.PrivKeyFromBytes(btcec.S256(), k[:])
			pub = pk.SerializeCompressed()
		}
		as := LBTC
		if op.Arg(3) > 0 {
			as = assetN(int(op.Arg(3)))
		}
		o := c.Fund(script, pub, as, uint64(op.Arg(4)))
		if fl&rfAlien != 0 {
			ac.alien[o.Op] = true
		}
		if fl&rfSpent != 0 {
			spends = append(spends, spend{o, fl&rfSpentU != 0})
			return
		}
		ac.coins[o.Op] = o
	}
	for i := range s.w.Plan.Ops {
		if op := &s.w.Plan.Ops[i]; op.K == "coin" {
			if op.Arg(5)&rfMemp != 0 {
				later = append(later, op)
			} else {
				fund(op)
			}
		}
	}
	c.Mine()
	spendAll := func(mem bool) {
		for _, sp := range spends {
			if sp.mem != mem || sp.o.SpentBy != "" {
				continue
			}
			tx := transaction.NewTx(2)
			h, _ := hex.DecodeString(sp.o.Op.Txid)
			tx.AddInput(transaction.NewTxInput(elementsutil.ReverseBytes(h), sp.o.Op.Vout))
			ab, _ := hex.DecodeString(sp.o.Asset)
			tx.AddOutput(mkOut(elementsutil.ReverseBytes(ab), sp.o.Value, s.spk, nil))
			hx, err := tx.ToHex()
			must(err)
			t, err := decodeTx(hx)
			must(err)
			t.By = "owner"
			c.add(t)
		}
	}
	spendAll(false)
	c.Mine()
	for _, op := range later {
		fund(op)
	}
	spendAll(true)
	spendAll(false)
	gap := false
	for i := 5; i < 20; i++ {
		if a := s.acct[i]; a == nil {
			gap = true
		} else {
			a.hidden = gap
		}
	}
	for _, i := range sortedInts(s.acct) {
		a := s.acct[i]
		for ch := 0; ch < 2; ch++ {
			last := -1
			for _, idx := range sortedInts(a.used[ch]) {
				if idx <= last+20 {
					last = idx
				}
			}
			a.reach[ch] = last
		}
		n := 0
		for o, x := range a.coins {
			if p := s.where[x.Script]; p[2] > a.reach[p[1]] {
				a.beyond[o] = true
			}
			n++
		}
		if n > 0 {
			s.w.Stat("accounts.funded")
		}
		if i >= 5 && a.reach[0] < 0 && a.reach[1] < 0 {
			fatalf("market account %d is out of reach", i)
		}
	}
}

func (s *restW) faults() int { return len(s.w.devs) - s.w.devKinds["yield"] - s.w.devKinds["stall"] }

func (s *restW) init(op *Op, step int) *cop {
	w := s.w
	n, b, e := s.faults(), s.busy, s.ends
	s.busy++
	st := &initStream{}
	c := s.do(op, step, "restore", func(ctx context.Context, d *Daemon) error {
		st.ctx = ctx
		if step == 0 && op.Arg(0) > 0 && w.FaultsOn && w.deviate(fmt.Sprintf("op%d.%d/stream", op.ID, step), "client-gone") {
			st.fail = int(op.Arg(0))
		}
		return d.Wallet.InitWallet(&pbw.InitWalletRequest{SeedMnemonic: s.mn, WalletPassword: []byte(s.pass), Restore: true}, st)
	})
	s.busy--
	s.ends++
	if c == nil || !c.done {
		return c
	}
	if c.err == nil {
		if !s.acked {
			w.State(fmt.Sprintf("acked replies=%d faults=%d", len(st.replies), s.faults()))
		}
		s.acked = true
		return c
	}
	if s.acked {
		w.Violate("C11", "refused-when-done", "%s: the wallet was restored before, now a restore fails: %v", c.tag, c.err)
	}
	if n == s.faults() && b == 0 && s.ends == e+1 && s.busy == 0 && !s.calm && !s.stuck(c.err) {
		w.Violate("C11", "refused", "%s: with no fault and no other restore in progress the restore failed: %v", c.tag, c.err)
	}
	return c
}

// stuck tells that an earlier restore is (said to be) in progress.
func (s *restW) stuck(err error) bool { return err != nil && strings.Contains(err.Error(), "sync") }

func (s *restW) unlock(op *Op, step int) *cop {
	c := s.do(op, step, "unlock", func(ctx context.Context, d *Daemon) error {
		_, err := d.Wallet.UnlockWallet(ctx, &pbw.UnlockWalletRequest{WalletPassword: []byte(s.pass)})
		return err
	})
	if c != nil && c.done && c.err == nil {
		s.acked = true
	}
	return c
}

func (s *restW) do1(op *Op) {
	w := s.w
	switch op.K {
	case "coin":
	case "init":
		s.init(op, 0)
	case "unlock":
		s.unlock(op, 0)
	case "list":
		ok := s.acked
		if rep := s.list(op, 0); rep != nil && ok {
			s.judgeCoins(rep, "a listing")
		}
	case "address":
		s.do(op, 0, "address", func(ctx context.Context, d *Daemon) error {
			_, err := d.Wallet.WalletBalance(ctx, &pbw.WalletBalanceRequest{})
			return err
		})
	case "mine":
		w.Tracef("block: %d transactions", s.net.Chain.Mine())
	case "restart":
		s.h.Shutdown(w.Tag(fmt.Sprintf("op%d.stop", op.ID)))
	}
}

func (s *restW) list(op *Op, step int) *pbop.ListUtxosReply {
	var rep *pbop.ListUtxosReply
	c := s.do(op, step, "listutxos", func(ctx context.Context, d *Daemon) (err error) {
		rep, err = d.Oper.ListUtxos(ctx, &pbop.ListUtxosRequest{})
		return err
	})
	if c == nil || !c.done || c.err != nil {
		if s.calm && c != nil && c.done {
			s.w.Violate("C11", "list-fails", "with no fault the coins cannot be listed: %v", c.err)
		}
		return nil
	}
	return rep
}

// judgeCoins compares a listing with what the chain holds.
func (s *restW) judgeCoins(rep *pbop.ListUtxosReply, when string) {
	w := s.w
	w.Stat("coins.checked")
	got := map[outpoint]int{}
	for a, l := range rep.GetInfoPerAccount() {
		for _, u := range l.GetUnspents() {
			o := outpoint{u.GetOutpoint().GetHash(), uint32(u.GetOutpoint().GetIndex())}
			if _, ok := got[o]; ok {
				w.Violate("C11", "coin-twice", "%s has coin %v twice", when, o)
			}
			got[o] = int(a)
			x := s.net.Chain.Utxo[o]
			if x == nil || x.SpentBy != "" {
				w.Violate("C11", "coin-not-there", "%s has coin %v as unspent, the chain does not", when, o)
				continue
			}
			p, ok := s.where[x.Script]
			if !ok || p[0] != int(a) {
				w.Violate("C11", "coin-account", "%s has coin %v in account %d, it belongs to %v", when, o, a, p)
			}
			if u.GetValue() != x.Value || u.GetAsset() != x.Asset {
				w.Violate("C11", "coin-amount", "%s has coin %v with %d of %s, the chain has %d of %s", when, o, u.GetValue(), short(u.GetAsset()), x.Value, short(x.Asset))
			}
		}
		if len(l.GetLocks())+len(l.GetSpents()) > 0 {
			w.Violate("C11", "coin-state", "%s has locked or spent coins in account %d", when, a)
		}
	}
	for _, i := range sortedInts(s.acct) {
		a := s.acct[i]
		var miss []string
		hid := a.hidden
		for o := range a.coins {
			if _, ok := got[o]; ok {
				continue
			}
			if a.alien[o] {
				w.Stat("coins.alien")
			} else if a.beyond[o] {
				w.Stat("coins.beyond")
			} else {
				p := s.where[a.coins[o].Script]
				miss = append(miss, fmt.Sprintf("%d'/%d/%d", p[0], p[1], p[2]))
			}
		}
		if len(miss) > 0 {
			sort.Strings(miss)
			sig := "coins-missing"
			if hid {
				sig = "account-after-unused"
			}
			w.Violate("C11", sig, "%s lacks %d of the coins of account %d: %s", when, len(miss), i, strings.Join(miss, " "))
		}
	}
}

func (s *restW) end() {
	w := s.w
	op := &Op{ID: 9990, A: []int64{0, 0}}
	// whatever a faulty restore left behind ends by itself
	deadline := w.Now() + 6*time.Hour
	for i := 0; ; i++ {
		c := s.init(op, i)
		if c == nil || !c.done {
			return
		}
		if c.err == nil {
			break
		}
		if !s.stuck(c.err) {
			w.Violate("C11", "cannot-restore", "with no fault the wallet cannot be restored: %v", c.err)
			return
		}
		if w.Now() > deadline {
			w.Violate("C11", "stuck", "hours after all faults stopped the wallet is still said to be restoring: %v", c.err)
			return
		}
		time.Sleep(10 * time.Minute)
	}
	if !s.ready(op, 100) {
		return
	}
	s.judge(op, 200, "after the restore", w.Chance(1, 2))
	if !s.restart() || !s.ready(op, 300) {
		return
	}
	w.Tracef("block: %d transactions", s.net.Chain.Mine())
	time.Sleep(10 * time.Minute)
	s.judge(op, 400, "after the restore and a restart", true)
	s.confirmed("after the restore and a restart", false)
	w.Stat("end.checked")
}

func (s *restW) ready(op *Op, step int) bool {
	c := s.unlock(op, step)
	if c == nil || !c.done {
		return false
	}
	if c.err != nil {
		s.w.Violate("C11", "unlock-fails", "with no fault the restored wallet cannot be unlocked: %v", c.err)
		return false
	}
	return true
}

// confirmed: every coin is on the chain, the daemon knows it.
func (s *restW) confirmed(when string, early bool) {
	known := map[outpoint]bool{}
	s.w.Quiet(func() {
		for _, u := range s.h.D.Repo.UnspentRepository().GetAllUnspents(context.Background()) {
			known[outpoint{u.TxID, u.VOut}] = u.Confirmed
		}
	})
	for _, i := range sortedInts(s.acct) {
		for o := range s.acct[i].coins {
			c, ok := known[o]
			if ok && c && !s.net.Chain.Confirmed(o.Txid) {
				s.w.Violate("C11", "confirmed-early", "%s coin %v of account %d counts as confirmed, which it is not on the chain", when, o, i)
			}
			if ok && !c && !early && s.net.Chain.Confirmed(o.Txid) {
				s.w.Violate("C11", "never-confirmed", "%s coin %v of account %d still counts as unconfirmed", when, o, i)
			}
		}
	}
}

// judge compares everything with the chain.
func (s *restW) judge(op *Op, step int, when string, addresses bool) {
	w := s.w
	if rep := s.list(op, step); rep != nil {
		s.judgeCoins(rep, "the listing "+when)
	}
	s.confirmed(when, true)
	w.Tracef("block: %d transactions", s.net.Chain.Mine())
	time.Sleep(3 * time.Minute)
	s.confirmed(when, false)
	total := func(i int) map[string]uint64 {
		t := map[string]uint64{}
		if a := s.acct[i]; a != nil {
			for o, x := range a.coins {
				if !a.alien[o] && !a.beyond[o] {
					t[x.Asset] += x.Value
				}
			}
		}
		return t
	}
	clean := func(i int) bool { a := s.acct[i]; return a == nil || len(a.beyond) == 0 }
	var wb *pbw.WalletBalanceReply
	c := s.do(op, step+1, "walletbalance", func(ctx context.Context, d *Daemon) (err error) {
		wb, err = d.Wallet.WalletBalance(ctx, &pbw.WalletBalanceRequest{})
		return err
	})
	if c != nil && c.done && c.err == nil {
		t := total(1)
		for _, as := range sortedKeys(t) {
			if g := wb.GetBalance()[as].GetTotalBalance(); g != t[as] && clean(1) {
				w.Violate("C11", "wallet-balance", "%s the wallet has %d of %s, the chain holds %d", when, g, short(as), t[as])
			}
		}
	} else if c != nil && c.done && len(total(1)) > 0 {
		w.Violate("C11", "balance-fails", "%s the balance of the wallet cannot be read: %v", when, c.err)
	}
	var fb *pbop.BalanceFeeAccountReply
	c = s.do(op, step+2, "feebalance", func(ctx context.Context, d *Daemon) (err error) {
		fb, err = d.Oper.BalanceFeeAccount(ctx, &pbop.BalanceFeeAccountRequest{})
		return err
	})
	if c != nil && c.done && c.err == nil {
		if t := total(0)[LBTC]; uint64(fb.GetBalance()) != t && clean(0) {
			w.Violate("C11", "fee-balance", "%s the fee account has %d, the chain holds %d", when, fb.GetBalance(), t)
		}
	} else if c != nil && c.done && len(total(0)) > 0 {
		w.Violate("C11", "balance-fails", "%s the balance of the fee account cannot be read: %v", when, c.err)
	}
	var lm *pbop.ListMarketReply
	c = s.do(op, step+3, "listmarket", func(ctx context.Context, d *Daemon) (err error) {
		lm, err = d.Oper.ListMarket(ctx, &pbop.ListMarketRequest{})
		return err
	})
	if c == nil || !c.done {
		return
	}
	if c.err != nil {
		w.Violate("C11", "markets-fail", "%s the markets cannot be listed: %v", when, c.err)
		return
	}
	byAcct := map[int]*pbop.MarketInfo{}
	for _, m := range lm.GetMarkets() {
		byAcct[int(m.GetAccountIndex())] = m
		if a := s.acct[int(m.GetAccountIndex())]; a == nil {
			w.Violate("C11", "market-extra", "%s there is a market with account %d, which was never used", when, m.GetAccountIndex())
		}
	}
	step += 10
	for _, i := range sortedInts(s.acct) {
		if i < 5 || s.acct[i].hidden {
			continue
		}
		m := byAcct[i]
		if m == nil {
			w.Violate("C11", "market-missing", "%s there is no market with account %d", when, i)
			continue
		}
		w.Stat("markets.checked")
		t := total(i)
		quote := assetN(i - 4)
		full := len(t) == 2 && t[LBTC] > 0 && t[quote] > 0
		if g := m.GetMarket(); full && clean(i) && (g.GetBaseAsset() != LBTC || g.GetQuoteAsset() != quote) {
			w.Violate("C11", "market-pair", "%s the market of account %d trades %s/%s, its coins are %s/%s", when, i, short(g.GetBaseAsset()), short(g.GetQuoteAsset()), short(LBTC), short(quote))
		}
		if full && clean(i) {
			w.Stat("markets.funded")
		}
		if addresses && m.GetMarket().GetQuoteAsset() != "" {
			var dr *pbop.DepositMarketReply
			step++
			c := s.do(op, step, "depositmarket", func(ctx context.Context, d *Daemon) (err error) {
				dr, err = d.Oper.DepositMarket(ctx, &pbop.DepositMarketRequest{Market: &pbtypes.Market{BaseAsset: m.GetMarket().GetBaseAsset(), QuoteAsset: m.GetMarket().GetQuoteAsset()}, NumOfAddresses: 2})
				return err
			})
			if c != nil && c.done && c.err == nil {
				for _, a := range dr.GetAddresses() {
					s.fresh(i, 0, a, when)
				}
			} else if c != nil && c.done {
				w.Violate("C11", "deposit-fails", "%s no address of market account %d can be had: %v", when, i, c.err)
			}
		}
	}
	if !addresses {
		return
	}
	for k := 0; k < 2; k++ {
		var wa *pbw.WalletAddressReply
		step++
		c = s.do(op, step, "walletaddress", func(ctx context.Context, d *Daemon) (err error) {
			wa, err = d.Wallet.WalletAddress(ctx, &pbw.WalletAddressRequest{})
			return err
		})
		if c != nil && c.done && c.err == nil {
			s.fresh(1, 0, wa.GetAddress(), when)
		} else if c != nil && c.done {
			w.Violate("C11", "address-fails", "%s no address of the wallet can be had: %v", when, c.err)
		}
	}
	var df *pbop.DepositFeeAccountReply
	step++
	c = s.do(op, step, "depositfee", func(ctx context.Context, d *Daemon) (err error) {
		df, err = d.Oper.DepositFeeAccount(ctx, &pbop.DepositFeeAccountRequest{NumOfAddresses: 1})
		return err
	})
	if c != nil && c.done && c.err == nil {
		for _, a := range df.GetAddressWithBlindingKey() {
			s.fresh(0, 0, a.GetAddress(), when)
		}
	} else if c != nil && c.done {
		w.Violate("C11", "address-fails", "%s no address of the fee account can be had: %v", when, c.err)
	}
}

// fresh: a new address belongs to its account and has no history.
func (s *restW) fresh(acct, chain int, addr, when string) {
	w := s.w
	script, err := address.ToOutputScript(addr)
	if err != nil {
		w.Violate("C11", "bad-address", "%s the address %s is not one: %v", when, addr, err)
		return
	}
	w.Stat("addresses.checked")
	sh := hex.EncodeToString(script)
	p, known := s.where[sh]
	if known {
		beyond := p[2] > s.acct[p[0]].reach[p[1]] || s.acct[p[0]].hidden
		if !beyond {
			w.Violate("C11", "address-reused", "%s a new address of account %d is %d'/%d/%d, which has a history", when, acct, p[0], p[1], p[2])
		}
		return
	}
	from := 0
	if a := s.acct[acct]; a != nil && a.reach[chain] >= 0 {
		from = a.reach[chain] + 1
	}
	for i := from; i < from+12; i++ {
		a, _ := s.derive(acct, chain, i)
		if a == addr {
			return
		}
	}
	w.Violate("C11", "address-position", "%s a new address of account %d is not among those that follow %d'/%d/%d", when, acct, acct, chain, from)
}
