//go:build go1.22

package verifsim

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/google/uuid"
	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/config"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
)

// The store scenario drives the badger repositories directly: single updates,
// storage transactions, coin locks and queries, with conflicts, write errors
// and crashes. Every object is checked against its sequential model.

func init() { scenarios["store"] = scenario{gen: genStore, run: runStore} }

var storeMnemonic = strings.Fields("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon art")

type multiOp struct {
	name   string
	marker string
	trade  uuid.UUID
	mkt    int
	fee    int64
	fail   int64
	c      *cop
}

type st2 struct {
	*comp
	nm, nt, nc int
	hist       map[string][]*lop // durable objects
	mem        map[string][]*lop // in-memory objects, per generation
	multis     []*multiOp
	trades     []uuid.UUID
	writes     map[string]bool // every value ever handed to the store
}

func genStore(w *World) {
	c := w.Plan.Cfg
	pick := func(v ...int64) int64 { return v[w.Intn(len(v))] }
	f := func(k string, v int64) {
		c[k] = v
		if x, ok := w.Plan.Force[k]; ok {
			c[k] = x
		}
	}
	f("nm", pick(1, 1, 2))
	f("nt", pick(1, 2))
	f("nc", pick(1, 2, 3))
	f("pswitch", pick(0, 2000, 8000, 20000))
	f("pstall", pick(0, 0, 200, 1000))
	f("stallmax_us", pick(100, 10000, 200000))
	if w.Chance(2, 3) {
		f("p_conflict", pick(0, 2000, 10000))
		f("p_diskerr", pick(0, 0, 1000, 4000))
		f("p_torn", pick(0, 0, 300, 1500))
	}
	crash := w.Chance(1, 2)
	if len(w.Plan.Ops) > 0 {
		return
	}
	kinds := []struct {
		k string
		n int
	}{{"mkt", 18}, {"trd", 14}, {"vlt", 14}, {"multi", 16}, {"snap", 10}, {"rmkt", 8}, {"rtrd", 6}, {"rvlt", 5}, {"lock", 14}, {"unlock", 10},
		{"rlock", 8}, {"add", 6}, {"spend", 6}, {"confirm", 5}, {"utx", 5}, {"rcoin", 6}, {"price", 6}, {"open", 6}, {"close", 5}, {"mk", 4}, {"del", 3},
		{"umk", 4}, {"find", 4}, {"life", 3}, {"crash", 2}, {"shutdown", 1}}
	// each run concentrates on some kinds, so that they meet
	sum := 0
	for i := range kinds {
		if w.Chance(1, 2) {
			kinds[i].n = 0
		}
		if !crash && (kinds[i].k == "crash" || kinds[i].k == "shutdown") {
			kinds[i].n = 0
		}
		sum += kinds[i].n
	}
	if sum == 0 {
		kinds[0].n, sum = 10, 10
	}
	n := 12 + w.Intn(40)
	burst := 1 + w.Intn(8)
	var t int64
	for i := 0; i < n; i++ {
		r, k := w.Intn(sum), ""
		for _, x := range kinds {
			if r < x.n {
				k = x.k
				break
			}
			r -= x.n
		}
		op := Op{T: t, K: k, A: []int64{int64(w.Intn(64)), int64(w.Intn(64)), int64(w.Intn(64)), int64(w.Intn(1 << 16))}}
		if k == "crash" {
			op.A[0] = w.LogRange(100000)
		}
		if crash && w.Chance(1, 10) {
			op.S = fmt.Sprintf("c%d", w.LogRange(200))
		}
		w.Plan.Ops = append(w.Plan.Ops, op)
		if w.Intn(burst) == 0 {
			t += w.LogRange(400)
		}
	}
}

func runStore(w *World) {
	s := &st2{comp: newComp(w, "C16", DaemonOpts{}), nm: int(w.Cfg("nm")), nt: int(w.Cfg("nt")), nc: int(w.Cfg("nc")), hist: map[string][]*lop{}, mem: map[string][]*lop{},
		writes: map[string]bool{}}
	s.comp.exec = s.do1
	s.comp.booted = s.afterStart
	s.h.WireFn = func(g *rt.Gen) (*Daemon, error) {
		d := &Daemon{Gen: g, Dir: s.h.Dir}
		dir := filepath.Join(s.h.Dir, config.DbLocation)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return nil, err
		}
		repo, err := dbbadger.NewRepoManager(dir, nil)
		if err != nil {
			return nil, err
		}
		d.Repo = repo
		return d, nil
	}
	s.h.StopFn = func(d *Daemon) {
		d.Gen.Closing = rt.Cur()
		d.Repo.Close()
	}
	if err := s.boot(); err != nil {
		w.Violate("C16", "first-start", "%v", err)
		return
	}
	s.prepare()
	if w.inconcl != "" {
		return
	}
	s.run()
	if s.h.D == nil {
		return
	}
	if !s.restart() {
		return
	}
	s.final()
	s.check()
}

func (s *st2) marketAcct(i int) int { return domain.MarketAccountStart + i }
func (s *st2) quote(i int) string   { return assetN(i) }
func coinKey(i int) domain.UnspentKey {
	return domain.UnspentKey{TxID: strings.Repeat("c", 60) + fmt.Sprintf("%04d", i), VOut: uint32(i)}
}
func flagCoin(i int) domain.UnspentKey {
	return domain.UnspentKey{TxID: strings.Repeat("f", 60) + fmt.Sprintf("%04d", i), VOut: uint32(i)}
}
func (s *st2) durable(k string, o *lop)   { s.hist[k] = append(s.hist[k], o) }
func (s *st2) volatile_(k string, o *lop) { s.mem[k] = append(s.mem[k], o) }

const nFlag = 3

// afterStart puts the coins back in the in-memory store, as the daemon does.
func (s *st2) afterStart() error {
	d := s.h.D
	var err error
	s.w.Quiet(func() {
		if g := rt.HashString(s.w.Seed, fmt.Sprint("early", d.Gen.ID)); d.Gen.ID > 1 && g%3 == 0 {
			// a release can come before the coin is known again
			idx := lockPick(&Op{A: []int64{int64(g >> 8 % 64), int64(g >> 16 % 64), int64(g >> 24 % 64)}}, s.nc)
			n, e := d.Repo.UnspentRepository().UnlockUnspents(context.Background(), s.keys(idx))
			if e != nil {
				err = e
				return
			}
			s.w.Stat("early-unlock")
			s.w.seq++
			o := lockApply("unlock before the coins are known", idx, "", s.nc, n)
			o.inv, o.ret = s.w.seq, s.w.seq
			s.durable("locks", o)
		}
		var us []domain.Unspent
		for i := 0; i < s.nc; i++ {
			k := coinKey(i)
			us = append(us, domain.Unspent{TxID: k.TxID, VOut: k.VOut, Value: 1 << uint(i), AssetHash: LBTC, Address: "locks", Confirmed: true})
		}
		err = d.Repo.UnspentRepository().AddUnspents(context.Background(), us)
	})
	return err
}

func (s *st2) prepare() {
	w := s.w
	ctx := context.Background()
	ps, pst := rt.PSwitch, rt.PStall
	rt.PSwitch, rt.PStall = 0, 0
	defer func() { rt.PSwitch, rt.PStall = ps, pst }()
	op := &Op{}
	c := s.do(op, 1, "prepare", func(_ context.Context, d *Daemon) error {
		if _, err := d.Repo.VaultRepository().GetOrCreateVault(ctx, storeMnemonic, "pass", net); err != nil {
			return err
		}
		for i := 0; i < s.nm; i++ {
			if _, err := d.Repo.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{AccountIndex: s.marketAcct(i), Fee: 1}); err != nil {
				return err
			}
			if err := d.Repo.MarketRepository().UpdateMarket(ctx, s.marketAcct(i), func(m *domain.Market) (*domain.Market, error) {
				m.BaseAsset, m.QuoteAsset = LBTC, s.quote(i)
				return m, m.MakeStrategyBalanced()
			}); err != nil {
				return err
			}
		}
		for i := 0; i < s.nt; i++ {
			var id uuid.UUID
			copy(id[:], fmt.Sprintf("trade-----%06d", i))
			s.trades = append(s.trades, id)
			if _, err := d.Repo.TradeRepository().GetOrCreateTrade(ctx, &id); err != nil {
				return err
			}
		}
		return nil
	})
	if !c.done || c.err != nil {
		w.Violate("C16", "calm-write", "writing with no fault failed: %v", c.err)
		w.Inconclusive("prepare")
	}
}

// record files an update or read of an object under its history.
func (s *st2) rec(c *cop, k string, o *lop) {
	if c == nil {
		return
	}
	o.inv, o.ret, o.opt = c.inv, c.ret, !c.done
	o.name = c.tag + " " + o.name
	s.durable(k, o)
}

func (s *st2) recMem(c *cop, k string, o *lop) {
	if c == nil {
		return
	}
	// the effect of a lost one may have been seen before the crash
	o.inv, o.ret, o.opt = c.inv, c.ret, !c.done
	o.name = c.tag + " " + o.name
	s.volatile_(fmt.Sprintf("%s@%d", k, c.gen), o)
}

// unexpected reports an error nothing accounts for.
func (s *st2) unexpected(c *cop, name string) {
	if c == nil || !c.done || c.err == nil || s.hadFault(c) || c.cancel {
		return
	}
	// these two give up on a conflict
	if (name == "del" || name == "update-prices") && strings.Contains(c.err.Error(), "Conflict") {
		return
	}
	s.w.Violate("C16", "refused-"+name, "%s %s failed with no storage error: %v", c.tag, name, c.err)
}

func (s *st2) hadFault(c *cop) bool {
	for _, d := range s.w.devs {
		if strings.HasPrefix(d, c.tag+"/") && strings.Contains(d, "db-error") {
			return true
		}
	}
	return false
}

func rd(name, val string) *lop {
	return &lop{name: name + " reads " + val, apply: func(st string) (string, bool) { return st, st == val }}
}

func mktState(m *domain.Market) string {
	if m == nil {
		return "-"
	}
	return fmt.Sprintf("%d:%v", m.Fee, m.Tradable)
}

var errHalf = errors.New("handler fails")

// trade fields are functions of one value, so that mixed up versions show
func fillTrade(t *domain.Trade, v int64) {
	t.ExpiryTime = uint64(v)
	t.TxID = fmt.Sprintf("tx%d", v)
	t.SwapAccept.ID = fmt.Sprintf("acc%d", v)
	t.MarketQuoteAsset = assetN(int(v) % 2)
	t.Status = domain.Status{Code: 1 + int(v)%5, Failed: v%3 == 0}
	t.TxHex = strings.Repeat("00", int(v%7)*40)
}

func (s *st2) tradeVal(t *domain.Trade) string {
	if t == nil {
		return "-"
	}
	if t.ExpiryTime != 0 {
		e := *t
		fillTrade(&e, int64(t.ExpiryTime))
		if e.TxID != t.TxID || e.SwapAccept.ID != t.SwapAccept.ID || e.MarketQuoteAsset != t.MarketQuoteAsset || e.Status != t.Status || e.TxHex != t.TxHex {
			s.w.Violate("C16", "mixed-trade", "a trade read from the store mixes two versions: %+v", *t)
		}
	}
	return strconv.FormatUint(t.ExpiryTime, 10)
}

func (s *st2) tradeIdx(id uuid.UUID) int {
	for i, x := range s.trades {
		if x == id {
			return i
		}
	}
	return -1
}

func vaultVal(v *domain.Vault) string {
	var m []string
	for k := range v.AccountAndKeyByAddress {
		m = append(m, k)
	}
	sort.Strings(m)
	return strings.Join(m, ",")
}

func addMark(st, m string) string {
	var l []string
	if st != "" {
		l = strings.Split(st, ",")
	}
	l = append(l, m)
	sort.Strings(l)
	return strings.Join(l, ",")
}

func lockPick(op *Op, n int) []int {
	var r []int
	for i := 0; i < n; i++ {
		if op.Arg(1)>>uint(i)&1 == 1 {
			r = append(r, i)
		}
	}
	if len(r) == 0 {
		r = []int{int(op.Arg(0)) % n}
	}
	if op.Arg(2)%2 == 1 { // another order
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	}
	return r
}

func lockApply(name string, idx []int, id string, n int, cnt int) *lop {
	return &lop{name: fmt.Sprintf("%s %v by %s = %d", name, idx, short(id), cnt), apply: func(st string) (string, bool) {
		l := strings.Split(st, ",")
		k := 0
		for _, i := range idx {
			if id != "" && l[i] == "" {
				l[i] = id
				k++
			} else if id == "" && l[i] != "" {
				l[i] = ""
				k++
			}
		}
		if cnt >= 0 && cnt != k {
			return st, false
		}
		return strings.Join(l, ","), true
	}}
}

func lockedBy(u *domain.Unspent) string {
	if u == nil {
		return "?"
	}
	if u.LockedBy == nil || !u.Locked {
		return ""
	}
	return u.LockedBy.String()
}

func rdLock(i int, val string) *lop {
	return &lop{name: fmt.Sprintf("coin %d locked by %q", i, short(val)), apply: func(st string) (string, bool) {
		return st, strings.Split(st, ",")[i] == val
	}}
}

func (s *st2) keys(idx []int) []domain.UnspentKey {
	var r []domain.UnspentKey
	for _, i := range idx {
		r = append(r, coinKey(i))
	}
	return r
}

func (s *st2) opTrade(op *Op) uuid.UUID {
	var id uuid.UUID
	copy(id[:], fmt.Sprintf("multi-%04d-----x", op.ID))
	return id
}

// flags of the in-memory coins: "-" absent, else spent/confirmed
func flagApply(name string, f func(l []string) (int, bool), cnt int) *lop {
	return &lop{name: fmt.Sprintf("%s = %d", name, cnt), apply: func(st string) (string, bool) {
		l := strings.Split(st, ",")
		k, ok := f(l)
		if !ok || cnt >= 0 && k != cnt {
			return st, false
		}
		return strings.Join(l, ","), true
	}}
}

func flagStr(u *domain.Unspent) string {
	if u == nil {
		return "-"
	}
	r := "u"
	if u.Spent {
		r = "s"
	}
	if u.Confirmed {
		r += "c"
	}
	return r
}

func setSpent(f string) string {
	if f == "-" {
		return f
	}
	return "s" + f[1:]
}

func setConf(f string) string {
	if f == "-" || strings.HasSuffix(f, "c") {
		return f
	}
	return f + "c"
}

func (s *st2) do1(op *Op) {
	w := s.w
	m := int(op.Arg(0)) % s.nm
	ti := int(op.Arg(0)) % s.nt
	v := int64(op.ID)*10 + 1000
	bg := func(ctx context.Context) context.Context { return ctx }
	_ = bg
	switch op.K {
	case "mkt":
		seen := ""
		c := s.do(op, 0, "update-market", func(ctx context.Context, d *Daemon) error {
			return d.Repo.MarketRepository().UpdateMarket(ctx, s.marketAcct(m), func(x *domain.Market) (*domain.Market, error) {
				seen = mktState(x)
				x.Fee = v
				return x, nil
			})
		})
		s.unexpected(c, "update-market")
		if c != nil && c.err == nil {
			sn := seen
			s.rec(c, fmt.Sprintf("mkt%d", m), &lop{name: fmt.Sprintf("saw %s sets fee %d", sn, v), apply: func(st string) (string, bool) {
				p := strings.Split(st, ":")
				return fmt.Sprintf("%d:%s", v, p[1]), st == sn
			}})
		}
	case "open", "close":
		c := s.do(op, 0, op.K, func(ctx context.Context, d *Daemon) error {
			if op.K == "open" {
				return d.Repo.MarketRepository().OpenMarket(ctx, s.quote(m))
			}
			return d.Repo.MarketRepository().CloseMarket(ctx, s.quote(m))
		})
		s.unexpected(c, op.K)
		if c != nil && c.err == nil {
			s.rec(c, fmt.Sprintf("mkt%d", m), &lop{name: op.K, apply: func(st string) (string, bool) {
				return fmt.Sprintf("%s:%v", strings.Split(st, ":")[0], op.K == "open"), true
			}})
		}
	case "trd":
		seen := ""
		c := s.do(op, 0, "update-trade", func(ctx context.Context, d *Daemon) error {
			return d.Repo.TradeRepository().UpdateTrade(ctx, &s.trades[ti], func(x *domain.Trade) (*domain.Trade, error) {
				seen = s.tradeVal(x)
				fillTrade(x, v)
				return x, nil
			})
		})
		s.unexpected(c, "update-trade")
		if c != nil && c.err == nil {
			sn := seen
			s.rec(c, fmt.Sprintf("trd%d", ti), &lop{name: fmt.Sprintf("saw %s sets %d", sn, v), apply: func(st string) (string, bool) {
				return strconv.FormatInt(v, 10), st == sn
			}})
		}
	case "vlt":
		seen, mark := "", fmt.Sprintf("m%d", op.ID)
		c := s.do(op, 0, "update-vault", func(ctx context.Context, d *Daemon) error {
			return d.Repo.VaultRepository().UpdateVault(ctx, func(x *domain.Vault) (*domain.Vault, error) {
				seen = vaultVal(x)
				x.AccountAndKeyByAddress[mark] = domain.AccountAndKey{AccountIndex: op.ID, BlindingKey: []byte(mark)}
				return x, nil
			})
		})
		s.unexpected(c, "update-vault")
		if c != nil && c.err == nil {
			sn := seen
			s.rec(c, "vault", &lop{name: "adds " + mark, apply: func(st string) (string, bool) { return addMark(st, mark), st == sn }})
		}
	case "multi":
		s.multi(op, m, v)
	case "snap":
		s.snap(op)
	case "rmkt":
		var mk *domain.Market
		c := s.do(op, 0, "read-market", func(ctx context.Context, d *Daemon) (err error) {
			switch op.Arg(1) % 3 {
			case 0:
				mk, err = d.Repo.MarketRepository().GetMarketByAccount(ctx, s.marketAcct(m))
			case 1:
				mk, _, err = d.Repo.MarketRepository().GetMarketByAsset(ctx, s.quote(m))
			default:
				var l []domain.Market
				l, err = d.Repo.MarketRepository().GetAllMarkets(ctx)
				for i := range l {
					if l[i].AccountIndex == s.marketAcct(m) {
						mk = &l[i]
					}
				}
			}
			return err
		})
		s.unexpected(c, "read-market")
		if c != nil && c.done && c.err == nil {
			s.rec(c, fmt.Sprintf("mkt%d", m), rd("market", mktState(mk)))
			if mk != nil {
				s.rec(c, fmt.Sprintf("price%d", m), rd("price", s.priceVal(mk)))
			}
		}
	case "price":
		c := s.do(op, 0, "update-prices", func(ctx context.Context, d *Daemon) error {
			up := func(ctx context.Context) error {
				return d.Repo.MarketRepository().UpdatePrices(ctx, s.marketAcct(m), domain.Prices{BasePrice: decimal.NewFromInt(v), QuotePrice: decimal.NewFromInt(2 * v)})
			}
			if op.Arg(1)%2 == 0 {
				return up(ctx)
			}
			_, err := d.Repo.RunPricesTransaction(ctx, false, func(ctx context.Context) (interface{}, error) { return nil, up(ctx) })
			return err
		})
		s.unexpected(c, "update-prices")
		if c != nil && c.err == nil {
			s.rec(c, fmt.Sprintf("price%d", m), &lop{name: fmt.Sprintf("sets price %d", v), apply: func(string) (string, bool) { return strconv.FormatInt(v, 10), true }})
		}
	case "rtrd":
		var t *domain.Trade
		c := s.do(op, 0, "read-trade", func(ctx context.Context, d *Daemon) (err error) {
			if op.Arg(1)%2 == 0 {
				t, err = d.Repo.TradeRepository().GetOrCreateTrade(ctx, &s.trades[ti])
				return err
			}
			l, err := d.Repo.TradeRepository().GetAllTrades(ctx)
			for _, x := range l {
				if x.ID == s.trades[ti] {
					t = x
				}
			}
			return err
		})
		s.unexpected(c, "read-trade")
		if c != nil && c.done && c.err == nil {
			s.rec(c, fmt.Sprintf("trd%d", ti), rd("trade", s.tradeVal(t)))
		}
	case "find":
		// queries by field: whatever is found is a value the trade has
		var l []*domain.Trade
		c := s.do(op, 0, "find-trades", func(ctx context.Context, d *Daemon) (err error) {
			vv := int64(1+op.Arg(3)%60)*10 + 1000
			var t *domain.Trade
			switch op.Arg(1) % 4 {
			case 0:
				t, err = d.Repo.TradeRepository().GetTradeBySwapAcceptID(ctx, fmt.Sprintf("acc%d", vv))
			case 1:
				t, err = d.Repo.TradeRepository().GetTradeByTxID(ctx, fmt.Sprintf("tx%d", vv))
			case 2:
				l, err = d.Repo.TradeRepository().GetAllTradesByMarket(ctx, s.quote(int(op.Arg(2)%2)))
			default:
				l, err = d.Repo.TradeRepository().GetCompletedTradesByMarket(ctx, s.quote(int(op.Arg(2)%2)))
			}
			if t != nil {
				l = append(l, t)
			}
			return err
		})
		s.unexpected(c, "find-trades")
		if c != nil && c.done && c.err == nil {
			for _, t := range l {
				if i := s.tradeIdx(t.ID); i >= 0 {
					s.rec(c, fmt.Sprintf("trd%d", i), rd("trade", s.tradeVal(t)))
				}
			}
		}
	case "rvlt":
		val := ""
		c := s.do(op, 0, "read-vault", func(ctx context.Context, d *Daemon) error {
			x, err := d.Repo.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
			if err == nil {
				val = vaultVal(x)
			}
			return err
		})
		s.unexpected(c, "read-vault")
		if c != nil && c.done && c.err == nil {
			s.rec(c, "vault", rd("vault", val))
		}
	case "lock":
		idx, id, n := lockPick(op, s.nc), s.opTrade(op), 0
		c := s.do(op, 0, "lock", func(ctx context.Context, d *Daemon) (err error) {
			n, err = d.Repo.UnspentRepository().LockUnspents(ctx, s.keys(idx), id)
			return err
		})
		s.unexpected(c, "lock")
		if c != nil && c.err == nil {
			if !c.done {
				n = -1
			}
			s.rec(c, "locks", lockApply("lock", idx, id.String(), s.nc, n))
		}
	case "unlock":
		idx, n := lockPick(op, s.nc), 0
		c := s.do(op, 0, "unlock", func(ctx context.Context, d *Daemon) (err error) {
			n, err = d.Repo.UnspentRepository().UnlockUnspents(ctx, s.keys(idx))
			return err
		})
		s.unexpected(c, "unlock")
		if c != nil && c.err == nil {
			if !c.done {
				n = -1
			}
			s.rec(c, "locks", lockApply("unlock", idx, "", s.nc, n))
		}
	case "rlock":
		var l []domain.Unspent
		k := op.Arg(1) % 4
		ci := int(op.Arg(0)) % s.nc
		c := s.do(op, 0, "read-locks", func(ctx context.Context, d *Daemon) (err error) {
			r := d.Repo.UnspentRepository()
			switch k {
			case 0:
				l, err = r.GetAllUnspentsForAddresses(ctx, []string{"locks"})
			case 1:
				l, err = r.GetAvailableUnspentsForAddresses(ctx, []string{"locks"})
			case 2:
				l, err = r.GetUnspentsForAddresses(ctx, []string{"locks"})
			default:
				var u *domain.Unspent
				u, err = r.GetUnspentWithKey(ctx, coinKey(ci))
				if u != nil {
					l = append(l, *u)
				}
			}
			return err
		})
		s.unexpected(c, "read-locks")
		if c != nil && c.done && c.err == nil {
			got := map[int]*domain.Unspent{}
			for i := range l {
				got[int(l[i].VOut)] = &l[i]
			}
			for i := 0; i < s.nc; i++ {
				u := got[i]
				if u == nil {
					if k == 1 {
						s.rec(c, "locks", &lop{name: fmt.Sprintf("coin %d not available", i), apply: func(st string) (string, bool) { return st, strings.Split(st, ",")[i] != "" }})
					} else if k != 3 || ci == i {
						w.Violate("C16", "coin-missing", "%s does not list coin %d", c.tag, i)
					}
					continue
				}
				s.rec(c, "locks", rdLock(i, lockedBy(u)))
			}
		}
	case "add", "spend", "confirm":
		i, n := int(op.Arg(0))%nFlag, -1
		c := s.do(op, 0, op.K, func(ctx context.Context, d *Daemon) (err error) {
			r := d.Repo.UnspentRepository()
			switch op.K {
			case "add":
				err = r.AddUnspents(ctx, s.flagUnspents(op))
			case "spend":
				n, err = r.SpendUnspents(ctx, []domain.UnspentKey{flagCoin(i), flagCoin((i + 1) % nFlag)})
			default:
				n, err = r.ConfirmUnspents(ctx, []domain.UnspentKey{flagCoin(i)})
			}
			return err
		})
		s.unexpected(c, op.K)
		if c != nil && (!c.done || c.err == nil) {
			us := s.flagUnspents(op)
			s.recMem(c, "flags", flagApply(fmt.Sprintf("%s %d", op.K, i), func(l []string) (int, bool) {
				switch op.K {
				case "add":
					for _, u := range us {
						if l[u.VOut] == "-" {
							l[u.VOut] = flagStr(&u)
						}
					}
					return -1, true
				case "spend":
					k := 0
					for _, j := range []int{i, (i + 1) % nFlag} {
						if l[j] != "-" {
							k++
						}
						l[j] = setSpent(l[j])
					}
					return k, true
				}
				k := 0
				if l[i] != "-" {
					k = 1
				}
				l[i] = setConf(l[i])
				return k, true
			}, n))
		}
	case "utx":
		i := int(op.Arg(0)) % nFlag
		fail := op.Arg(1)%2 == 0
		us := s.flagUnspents(op)
		c := s.do(op, 0, "unspents-transaction", func(ctx context.Context, d *Daemon) error {
			r := d.Repo.UnspentRepository()
			_, err := d.Repo.RunUnspentsTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
				if err := r.AddUnspents(ctx, us); err != nil {
					return nil, err
				}
				if _, err := r.SpendUnspents(ctx, []domain.UnspentKey{flagCoin(i)}); err != nil {
					return nil, err
				}
				if _, err := r.ConfirmUnspents(ctx, []domain.UnspentKey{flagCoin((i + 1) % nFlag)}); err != nil {
					return nil, err
				}
				if fail {
					return nil, errHalf
				}
				return nil, nil
			})
			return err
		})
		if !fail {
			s.unexpected(c, "unspents-transaction")
		}
		if c != nil && c.done && c.err == nil && fail {
			w.Violate("C16", "error-swallowed", "%s: a transaction whose handler fails is reported as applied", c.tag)
		}
		if c != nil && !fail && (!c.done || c.err == nil) {
			s.recMem(c, "flags", flagApply("utx", func(l []string) (int, bool) {
				for _, u := range us {
					if l[u.VOut] == "-" {
						l[u.VOut] = flagStr(&u)
					}
				}
				l[i] = setSpent(l[i])
				l[(i+1)%nFlag] = setConf(l[(i+1)%nFlag])
				return -1, true
			}, -1))
		}
	case "rcoin":
		i := int(op.Arg(0)) % nFlag
		if op.Arg(1)%2 == 0 {
			var u *domain.Unspent
			c := s.do(op, 0, "read-coin", func(ctx context.Context, d *Daemon) (err error) {
				u, err = d.Repo.UnspentRepository().GetUnspentWithKey(ctx, flagCoin(i))
				return err
			})
			s.unexpected(c, "read-coin")
			if c != nil && c.done && c.err == nil {
				fs := flagStr(u)
				s.recMem(c, "flags", flagApply(fmt.Sprintf("coin %d is %s", i, fs), func(l []string) (int, bool) { return -1, l[i] == fs }, -1))
			}
			return
		}
		var b uint64
		c := s.do(op, 0, "balance", func(ctx context.Context, d *Daemon) (err error) {
			b, err = d.Repo.UnspentRepository().GetBalance(ctx, []string{"flags"}, LBTC)
			return err
		})
		s.unexpected(c, "balance")
		if c != nil && c.done && c.err == nil {
			s.recMem(c, "flags", flagApply(fmt.Sprintf("balance %d", b), func(l []string) (int, bool) {
				var x uint64
				for j := range l {
					if l[j] == "uc" {
						x += 1 << uint(j)
					}
				}
				return -1, x == b
			}, -1))
		}
	case "life":
		s.life(op)
	case "mk", "del", "umk":
		// a market that comes and goes
		acct := s.marketAcct(s.nm)
		val := ""
		c := s.do(op, 0, op.K, func(ctx context.Context, d *Daemon) error {
			r := d.Repo.MarketRepository()
			switch op.K {
			case "mk":
				x, err := r.GetOrCreateMarket(ctx, &domain.Market{AccountIndex: acct, Fee: v})
				if err == nil {
					val = mktState(x)
				}
				return err
			case "del":
				return r.DeleteMarket(ctx, acct)
			}
			err := r.UpdateMarket(ctx, acct, func(x *domain.Market) (*domain.Market, error) {
				val = mktState(x)
				x.Fee = v
				return x, nil
			})
			if err == dbbadger.ErrMarketNotFound {
				val = "-"
				return nil
			}
			return err
		})
		if op.K != "mk" {
			s.unexpected(c, op.K)
		}
		if c != nil && c.err == nil {
			done, sn := c.done, val
			s.rec(c, "comes", &lop{name: op.K + " " + sn, apply: func(st string) (string, bool) {
				switch op.K {
				case "mk":
					ns := st
					if st == "-" {
						ns = fmt.Sprintf("%d:false", v)
					}
					return ns, !done || ns == sn
				case "del":
					return "-", true
				}
				if st == "-" {
					return st, sn == "-" || !done
				}
				return fmt.Sprintf("%d:%s", v, strings.Split(st, ":")[1]), st == sn
			}})
		}
	}
}

// life: one caller makes, changes and drops the market of an account nobody
// else touches; crashes, restarts and errors of the disk come in between.
func (s *st2) life(op *Op) {
	w := s.w
	acct := s.marketAcct(60 + op.ID)
	r := rt.HashString(w.Seed, fmt.Sprintf("life%d", op.ID))
	exists, fee, price := false, int64(0), int64(0)
	for i := 1; i < 14; i++ {
		v := int64(9000 + rt.Next(&r)%900)
		k := rt.Next(&r) % 10
		switch i {
		case 1, 6, 10:
			k = 0
		case 2:
			k = 3
		}
		var got *domain.Market
		name := ""
		c := s.do(op, i, "life", func(ctx context.Context, d *Daemon) (err error) {
			rep := d.Repo.MarketRepository()
			switch {
			case k < 3:
				name = "created or read"
				got, err = rep.GetOrCreateMarket(ctx, &domain.Market{AccountIndex: acct, Fee: v})
			case k < 5:
				if name = "priced"; exists {
					err = rep.UpdatePrices(ctx, acct, domain.Prices{BasePrice: decimal.NewFromInt(v), QuotePrice: decimal.NewFromInt(2 * v)})
				}
			case k < 6:
				if name = "updated"; exists {
					err = rep.UpdateMarket(ctx, acct, func(x *domain.Market) (*domain.Market, error) { x.Fee = v; return x, nil })
				}
			case k < 8:
				name = "dropped"
				err = rep.DeleteMarket(ctx, acct)
			default:
				name = "read"
				got, err = rep.GetMarketByAccount(ctx, acct)
			}
			return err
		})
		if c != nil && c.done && c.err != nil && !strings.Contains(c.err.Error(), "Conflict") {
			s.unexpected(c, "life")
		}
		if c == nil || !c.done || c.err != nil {
			return
		}
		switch {
		case k < 3 && !exists:
			exists, fee, price = true, v, 0
		case k >= 3 && k < 5 && exists:
			price = v
		case k == 5 && exists:
			fee = v
		case k >= 6 && k < 8:
			exists = false
		}
		if k < 3 || k >= 8 {
			w.Stat("life.checked")
			if (got != nil) != exists || exists && (got.Fee != fee || s.priceVal(got) != strconv.FormatInt(price, 10) || got.Tradable) {
				w.Violate("C16", "market-life", "a market of one caller, %s, is %s with price %v; expected fee %d and price %d (exists: %v)", name, mktState(got), got, fee, price, exists)
			}
		}
	}
}

func (s *st2) priceVal(m *domain.Market) string {
	if !m.Price.QuotePrice.Equal(m.Price.BasePrice.Mul(decimal.NewFromInt(2))) {
		s.w.Violate("C16", "mixed-price", "the two prices of a market belong to different updates: %v", m.Price)
	}
	return m.Price.BasePrice.String()
}

func (s *st2) flagUnspents(op *Op) []domain.Unspent {
	var r []domain.Unspent
	for i := 0; i < nFlag; i++ {
		if op.Arg(2)>>uint(i)&1 == 1 || i == int(op.Arg(0))%nFlag {
			k := flagCoin(i)
			r = append(r, domain.Unspent{TxID: k.TxID, VOut: k.VOut, Value: 1 << uint(i), AssetHash: LBTC, Address: "flags", Confirmed: op.Arg(3)>>uint(i)&1 == 1})
		}
	}
	return r
}

// multi is a storage transaction over several objects.
func (s *st2) multi(op *Op, m int, v int64) {
	w := s.w
	id := s.opTrade(op)
	mo := &multiOp{marker: fmt.Sprintf("m%d", op.ID), trade: id, mkt: m, fee: v, fail: op.Arg(3) % 12}
	idx := lockPick(op, s.nc)
	seenM, seenV, n := "", "", 0
	c := s.do(op, 0, "transaction", func(ctx context.Context, d *Daemon) error {
		res, err := d.Repo.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
			if mo.fail == 1 {
				return nil, errHalf
			}
			if err := d.Repo.VaultRepository().UpdateVault(ctx, func(x *domain.Vault) (*domain.Vault, error) {
				seenV = vaultVal(x)
				x.AccountAndKeyByAddress[mo.marker] = domain.AccountAndKey{AccountIndex: op.ID}
				return x, nil
			}); err != nil {
				return nil, err
			}
			if mo.fail == 2 {
				return nil, errHalf
			}
			if _, err := d.Repo.TradeRepository().GetOrCreateTrade(ctx, &id); err != nil {
				return nil, err
			}
			if err := d.Repo.TradeRepository().UpdateTrade(ctx, &id, func(x *domain.Trade) (*domain.Trade, error) {
				fillTrade(x, v)
				return x, nil
			}); err != nil {
				return nil, err
			}
			if mo.fail == 3 {
				return nil, errHalf
			}
			var err error
			n, err = d.Repo.UnspentRepository().LockUnspents(ctx, s.keys(idx), id)
			if err != nil {
				return nil, err
			}
			if mo.fail == 4 {
				return nil, errHalf
			}
			if err := d.Repo.MarketRepository().UpdateMarket(ctx, s.marketAcct(m), func(x *domain.Market) (*domain.Market, error) {
				seenM = mktState(x)
				x.Fee = v
				if mo.fail == 5 {
					return nil, errHalf
				}
				return x, nil
			}); err != nil {
				return nil, err
			}
			if mo.fail == 6 {
				return nil, errHalf
			}
			return mo.marker, nil
		})
		if err == nil && res != mo.marker {
			w.Violate("C16", "result-lost", "%s: the transaction returned %v instead of what its handler did", mo.marker, res)
		}
		return err
	})
	if c == nil {
		return
	}
	mo.c, mo.name = c, c.tag
	s.multis = append(s.multis, mo)
	fails := mo.fail >= 1 && mo.fail <= 6
	if fails && c.done && c.err == nil {
		w.Violate("C16", "error-swallowed", "%s: a transaction whose handler fails is reported as applied", c.tag)
	}
	if !fails {
		s.unexpected(c, "transaction")
	}
	if c.err != nil || fails {
		return
	}
	if !c.done {
		n = -1
	}
	s.rec(c, "vault", &lop{name: "adds " + mo.marker, apply: func(st string) (string, bool) { return addMark(st, mo.marker), st == seenV }})
	s.rec(c, "locks", lockApply("lock", idx, id.String(), s.nc, n))
	s.rec(c, fmt.Sprintf("mkt%d", m), &lop{name: fmt.Sprintf("saw %s sets fee %d", seenM, v), apply: func(st string) (string, bool) {
		return fmt.Sprintf("%d:%s", v, strings.Split(st, ":")[1]), st == seenM
	}})
}

// snap reads everything in one transaction.
func (s *st2) snap(op *Op) {
	var vault *domain.Vault
	var mkts []domain.Market
	var trades []*domain.Trade
	var locks []string
	c := s.do(op, 0, "snapshot", func(ctx context.Context, d *Daemon) error {
		_, err := d.Repo.RunTransaction(ctx, op.Arg(0)%3 != 0, func(ctx context.Context) (interface{}, error) {
			var err error
			mkts, trades, locks = nil, nil, nil
			for k := int64(0); k < 4; k++ {
				switch (k + op.Arg(1)) % 4 {
				case 0:
					vault, err = d.Repo.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
				case 1:
					mkts, err = d.Repo.MarketRepository().GetAllMarkets(ctx)
				case 2:
					trades, err = d.Repo.TradeRepository().GetAllTrades(ctx)
				case 3:
					for i := 0; i < s.nc && err == nil; i++ {
						var u *domain.Unspent
						u, err = d.Repo.UnspentRepository().GetUnspentWithKey(ctx, coinKey(i))
						locks = append(locks, lockedBy(u))
					}
				}
				if err != nil {
					return nil, err
				}
			}
			return nil, nil
		})
		return err
	})
	s.unexpected(c, "snapshot")
	if c == nil || !c.done || c.err != nil {
		return
	}
	s.consistent(c.tag, vault, mkts, trades, locks)
	s.rec(c, "vault", rd("vault", vaultVal(vault)))
	ls := strings.Join(locks, ",")
	s.rec(c, "locks", rd("locks", ls))
	for i := range mkts {
		if k := mkts[i].AccountIndex - domain.MarketAccountStart; k < s.nm {
			s.rec(c, fmt.Sprintf("mkt%d", k), rd("market", mktState(&mkts[i])))
		}
	}
	for _, t := range trades {
		if i := s.tradeIdx(t.ID); i >= 0 {
			s.rec(c, fmt.Sprintf("trd%d", i), rd("trade", s.tradeVal(t)))
		}
	}
}

// consistent checks that every transaction is seen as a whole or not at all.
func (s *st2) consistent(by string, vault *domain.Vault, mkts []domain.Market, trades []*domain.Trade, locks []string) {
	w := s.w
	ts := map[uuid.UUID]*domain.Trade{}
	for _, t := range trades {
		ts[t.ID] = t
	}
	for _, mo := range s.multis {
		_, inV := vault.AccountAndKeyByAddress[mo.marker]
		t := ts[mo.trade]
		inT := t != nil
		if inT && s.tradeVal(t) != strconv.FormatInt(mo.fee, 10) {
			w.Violate("C16", "half-applied", "%s sees the trade of %s without its contents (%s)", by, mo.name, s.tradeVal(t))
		}
		if inV != inT {
			w.Violate("C16", "half-applied", "%s sees transaction %s half applied: vault %v, trade %v", by, mo.name, inV, inT)
		}
		for i := range mkts {
			if mkts[i].Fee == mo.fee && !(inV && inT) {
				w.Violate("C16", "half-applied", "%s sees the market as changed by %s, but not the vault or the trade", by, mo.name)
			}
		}
		for i, l := range locks {
			if l == mo.trade.String() && !inT {
				w.Violate("C16", "half-applied", "%s sees coin %d locked by %s, whose trade is not stored", by, i, mo.name)
			}
		}
		if mo.c != nil && mo.c.done {
			if mo.c.err == nil && !inT && by == "final" {
				w.Violate("C16", "lost-transaction", "%s was acknowledged but nothing of it is stored", mo.name)
			}
			if mo.c.err != nil && (inT || inV) {
				w.Violate("C16", "failed-but-applied", "%s reported an error (%v) but was applied", mo.name, mo.c.err)
			}
		}
	}
}

// final reads everything after a restart.
func (s *st2) final() {
	w := s.w
	ctx := context.Background()
	w.Quiet(func() {
		d := s.h.D
		w.seq++
		c := &cop{tag: "final", inv: w.seq, ret: w.seq + 1, done: true, gen: d.Gen.ID}
		w.seq++
		r := d.Repo
		vault, err := r.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
		if err != nil {
			w.Violate("C16", "final-read", "%v", err)
			return
		}
		mkts, err := r.MarketRepository().GetAllMarkets(ctx)
		if err != nil {
			w.Violate("C16", "final-read", "%v", err)
			return
		}
		trades, err := r.TradeRepository().GetAllTrades(ctx)
		if err != nil {
			w.Violate("C16", "final-read", "%v", err)
			return
		}
		var locks []string
		for i := 0; i < s.nc; i++ {
			u, err := r.UnspentRepository().GetUnspentWithKey(ctx, coinKey(i))
			if err != nil {
				w.Violate("C16", "final-read", "%v", err)
				return
			}
			locks = append(locks, lockedBy(u))
		}
		s.consistent("final", vault, mkts, trades, locks)
		s.rec(c, "vault", rd("vault", vaultVal(vault)))
		s.rec(c, "locks", rd("locks", strings.Join(locks, ",")))
		comes := "-"
		for i := range mkts {
			if k := mkts[i].AccountIndex - domain.MarketAccountStart; k < s.nm {
				s.rec(c, fmt.Sprintf("mkt%d", k), rd("market", mktState(&mkts[i])))
				s.rec(c, fmt.Sprintf("price%d", k), rd("price", s.priceVal(&mkts[i])))
			} else if k == s.nm {
				comes = mktState(&mkts[i])
			}
		}
		s.rec(c, "comes", rd("market", comes))
		for _, t := range trades {
			if i := s.tradeIdx(t.ID); i >= 0 {
				s.rec(c, fmt.Sprintf("trd%d", i), rd("trade", s.tradeVal(t)))
			}
		}
		// queries agree with the full lists
		for q := 0; q < 2; q++ {
			want, wantC := map[uuid.UUID]bool{}, map[uuid.UUID]bool{}
			for _, t := range trades {
				if t.MarketQuoteAsset == s.quote(q) {
					want[t.ID] = true
					if (t.Status.Code == domain.Completed || t.Status.Code == domain.Settled) && !t.Status.Failed {
						wantC[t.ID] = true
					}
				}
			}
			l, err := r.TradeRepository().GetAllTradesByMarket(ctx, s.quote(q))
			s.sameTrades("all trades of a market", l, err, want)
			l, err = r.TradeRepository().GetCompletedTradesByMarket(ctx, s.quote(q))
			s.sameTrades("completed trades of a market", l, err, wantC)
		}
		for _, t := range trades {
			if t.TxID != "" {
				x, err := r.TradeRepository().GetTradeByTxID(ctx, t.TxID)
				if err != nil || x == nil || x.ID != t.ID {
					w.Violate("C16", "query", "the trade with tx %s is not found by it", t.TxID)
				}
				x, err = r.TradeRepository().GetTradeBySwapAcceptID(ctx, t.SwapAccept.ID)
				if err != nil || x == nil || x.ID != t.ID {
					w.Violate("C16", "query", "the trade with accept id %s is not found by it", t.SwapAccept.ID)
				}
			}
		}
		tm, err := r.MarketRepository().GetTradableMarkets(ctx)
		n := 0
		for i := range mkts {
			if mkts[i].Tradable {
				n++
			}
		}
		if err != nil || len(tm) != n {
			w.Violate("C16", "query", "tradable markets: %d listed, %d of all are tradable (%v)", len(tm), n, err)
		}
		last, acct, err := r.MarketRepository().GetLatestMarket(ctx)
		max := domain.MarketAccountStart - 1
		for i := range mkts {
			if mkts[i].AccountIndex > max {
				max = mkts[i].AccountIndex
			}
		}
		if err != nil || acct != max || last == nil || last.AccountIndex != max {
			w.Violate("C16", "query", "latest market is %d, not %d (%v)", acct, max, err)
		}
		// available coins are those not locked
		av, err := r.UnspentRepository().GetAvailableUnspents(ctx)
		k := 0
		for _, l := range locks {
			if l == "" {
				k++
			}
		}
		if err != nil || len(av) != k {
			w.Violate("C16", "query", "%d coins available, %d not locked (%v)", len(av), k, err)
		}
	})
}

func (s *st2) sameTrades(what string, l []*domain.Trade, err error, want map[uuid.UUID]bool) {
	got := map[uuid.UUID]bool{}
	for _, t := range l {
		if got[t.ID] {
			s.w.Violate("C16", "query", "%s: %s twice", what, t.ID)
		}
		got[t.ID] = true
	}
	if err != nil || len(got) != len(want) {
		s.w.Violate("C16", "query", "%s: %d listed, %d stored (%v)", what, len(got), len(want), err)
		return
	}
	for id := range want {
		if !got[id] {
			s.w.Violate("C16", "query", "%s: %s missing", what, id)
		}
	}
}

func (s *st2) check() {
	w := s.w
	init := func(k string) string {
		switch {
		case strings.HasPrefix(k, "mkt"):
			return "1:false"
		case strings.HasPrefix(k, "trd"):
			return "0"
		case k == "locks":
			return strings.Repeat(",", s.nc-1)
		case k == "comes":
			return "-"
		case strings.HasPrefix(k, "price"):
			return "0"
		case strings.HasPrefix(k, "flags"):
			return strings.Repeat("-,", nFlag-1) + "-"
		}
		return ""
	}
	for _, h := range []map[string][]*lop{s.hist, s.mem} {
		for _, k := range sortedKeys(h) {
			ops := h[k]
			w.StatN("lin.ops", int64(len(ops)))
			ok, decided, why := linearizable(ops, init(k))
			if !decided {
				w.Stat("lin.undecided")
				continue
			}
			w.Stat("lin.checked")
			w.State("store", k, strconv.Itoa(len(ops)), why)
			if !ok {
				w.Violate("C16", "not-atomic-"+strings.TrimRight(strings.Split(k, "@")[0], "0123456789"), "no sequential order explains the history of %s: stuck at %s", k, why)
			}
		}
	}
}

var _ = time.Second
