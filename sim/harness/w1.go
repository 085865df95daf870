//go:build go1.22

package verifsim

import (
	"context"
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
	"github.com/tdex-network/tdex-daemon/pkg/wallet"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/address"
)

// w1: a whole daemon with its operator, traders, explorer and chain.

func init() { scenarios["w1"] = scenario{gen: genW1, run: runW1} }

// call is one request made to the daemon.
type call struct {
	op, step  int
	name      string
	tag       string
	gen       int
	inv, ret  uint64 // event sequence
	invT      time.Duration
	invU      int64
	retT      time.Duration
	done      bool // the handler returned
	cancelled bool // the client went away
	err       error
}

func (c *call) ok() bool { return c != nil && c.done && c.err == nil }

type own struct {
	acct, chain, idx int
	path             string
	script           string
	blind            []byte
	addr             string
}

type w1trade struct {
	c         *call
	pr        *proposal
	op        *Op
	market    int
	buy       bool
	priced    bool // an honest proposal at the quoted price
	replied   bool
	rejected  bool
	acceptID  string
	accTx     *simTx
	txid      string
	pset      string
	expiry    int64
	coins     []outpoint // of the daemon
	ack       uint64     // seq of the acceptance
	ackT      time.Duration
	failInv   uint64 // a failure was requested
	failOK    uint64
	failOKat  time.Duration
	complOK   bool
	tradeID   string
	bcastT    time.Duration // first time the chain had it
	bcastU    int64
	termsOK   bool
	reason    string
	bcast     bool
	lastSt    *domain.Trade
	settledAt bool
	invU      int64
}

type handed struct {
	addr string
	c    *call
	own  *own
	kind string
}

type w1market struct {
	quote string
	acct  int // last account known to hold it
}

type deposit struct {
	addr  string
	coins []outpoint
}

type w1 struct {
	lastSnap    *snapshot
	lastCommits uint64
	w           *World
	n           *Net
	h           *Host
	ch          *Chain
	tr          *Trader

	mnemonic   []string
	pass       string
	altPass    string // doubtful alternative after an interrupted change
	hdw        *wallet.Wallet
	owned      map[string]*own
	aliens     map[outpoint]bool
	windows    map[[2]int]int
	down       chan struct{}
	calls      []*call
	hist       []*setop // market settings history
	trades     []*w1trade
	byPid      map[string][]*proposal
	handed     []*handed
	handedBy   map[string]*handed
	usedChg    map[string]string // script -> what used it
	markets    map[string]*w1market
	quotes     []string
	accounts   map[int]string // market account -> op that created it
	dropped    map[string]bool
	dropAcct   map[int]bool
	pays       []*payment1
	bcasts     []*bcast
	spentRec   map[outpoint]int // recorded as spent, with the generation
	bootAt     map[int]time.Duration
	unlocked   bool
	unlockAt   time.Duration
	lockOps    int
	main       bool
	mainEnd    bool
	stopMine   bool
	holdMine   int
	known      map[outpoint]bool // coins recorded as unspent so far
	knownList  []outpoint
	activity   uint64 // number of state-changing requests started or ended
	inflight   int
	keyN       int
	strangerN  int
	claimed    map[outpoint]bool
	opWG       int
	idle       chan struct{}
	whooks     []*w1hook
	posts      []*w1post
	hookDoubt  bool // a passphrase change was cut short
	genEnd     map[int]time.Duration
	calm       bool // epilogue: no faults, no competing requests
	blips      uint64
	seen       map[string]*domain.Trade // last stored state of each trade
	seenGen    map[string]int
	settledIn  map[string][2]int64 // generation and time it was seen to become settled
	mktAsset   map[int]string
	addrCache  map[string]*own
	pendingSet map[int]int // settings requests cut off
	supDone    chan struct{}
	toPush     []*payment1
	unpushed   int // transactions made but not yet broadcast by the caller
}

type bcast struct {
	at    time.Duration
	tag   string
	txid  string
	tx    *simTx
	err   error
	gen   int
	seq   uint64
	known bool
}

type payment1 struct {
	c      *call
	kind   string // withdraw, send
	rate   int64
	addr   string
	market int
	outs   []outSpec
	raw    string
	push   bool
	acct   int
	taken  bool // the network took it
}

func (s *w1) base(m int) *pbtypes.Market {
	return &pbtypes.Market{BaseAsset: LBTC, QuoteAsset: s.quotes[m]}
}

func newW1(w *World) *w1 {
	s := &w1{w: w, aliens: map[outpoint]bool{}, owned: map[string]*own{}, windows: map[[2]int]int{}, handedBy: map[string]*handed{}, usedChg: map[string]string{},
		markets: map[string]*w1market{}, accounts: map[int]string{}, dropped: map[string]bool{}, spentRec: map[outpoint]int{},
		bootAt: map[int]time.Duration{}, claimed: map[outpoint]bool{}, byPid: map[string][]*proposal{}, dropAcct: map[int]bool{}, genEnd: map[int]time.Duration{},
		known: map[outpoint]bool{}, seen: map[string]*domain.Trade{}, seenGen: map[string]int{}, settledIn: map[string][2]int64{}, mktAsset: map[int]string{}, addrCache: map[string]*own{}, pendingSet: map[int]int{}, supDone: make(chan struct{})}
	for i := 0; i < 6; i++ {
		s.quotes = append(s.quotes, assetN(i))
	}
	s.n = newNet(w)
	s.ch = s.n.Chain
	s.tr = &Trader{w: w, chain: s.ch}
	s.n.OnBroadcast = s.onBroadcast
	if w.Cfg("hooks") > 0 {
		s.n.Hook = s.hookRequest
	}
	s.h = NewHost(w, DaemonOpts{
		Expiry: time.Duration(w.Cfg("expiry_s")) * time.Second, Slippage: float64(w.Cfg("slip_bp")) / 10000, MarketsFee: w.Cfg("mktfee"),
		Interval: time.Duration(w.Cfg("interval_ms")) * time.Millisecond, Limit: int(w.Cfg("limit")), Burst: int(w.Cfg("burst")),
		FeeThreshold: 1000, Timeout: int(w.Cfg("tmo_ms")),
	})
	s.down = make(chan struct{})
	s.h.OnCrash = func() {
		close(s.down)
		s.down = make(chan struct{})
		s.genEnd[w.gen.ID] = w.Now()
		s.unlocked = false
		s.unpushed = 0
		s.spentRec = map[outpoint]int{}
	}
	return s
}

func runW1(w *World) {
	s := newW1(w)
	s.prelude()
	if w.inconcl != "" {
		return
	}
	s.mainPhase()
	s.epilogue()
}

// ---- ownership ----------------------------------------------------------

func (s *w1) ensureWindow(acct, chain, upto int) {
	k := [2]int{acct, chain}
	for i := s.windows[k]; i < upto; i++ {
		path := fmt.Sprintf("%d'/%d/%d", acct, chain, i)
		addr, script, err := s.hdw.DeriveConfidentialAddress(wallet.DeriveConfidentialAddressOpts{DerivationPath: path, Network: net})
		must(err)
		bk, _, err := s.hdw.DeriveBlindingKeyPair(wallet.DeriveBlindingKeyPairOpts{Script: script})
		must(err)
		o := &own{acct: acct, chain: chain, idx: i, path: path, script: hex.EncodeToString(script), addr: addr, blind: bk.Serialize()}
		s.owned[o.script] = o
	}
	if upto > s.windows[k] {
		s.windows[k] = upto
	}
}

// ownOf tells which key of the wallet a script belongs to.
func (s *w1) ownOf(script string) *own {
	if o := s.owned[script]; o != nil {
		return o
	}
	if len(script) != 44 {
		return nil
	}
	accts := []int{0, 1}
	for a := range s.accounts {
		accts = append(accts, a)
	}
	sort.Ints(accts)
	last := accts[len(accts)-1]
	if last < 4 {
		last = 4
	}
	for a := 5; a <= last+2; a++ {
		if a > last {
			accts = append(accts, a)
		}
	}
	for _, a := range accts {
		for c := 0; c < 2; c++ {
			s.ensureWindow(a, c, s.vaultIndex(a, c)+6)
		}
	}
	return s.owned[script]
}

func (s *w1) vaultIndex(a, c int) int {
	d := s.h.D
	if d == nil {
		return s.windows[[2]int{a, c}]
	}
	i := 0
	s.w.Quiet(func() {
		v, err := d.Repo.VaultRepository().GetOrCreateVault(context.Background(), nil, "", nil)
		if err != nil || v == nil || v.Accounts[a] == nil {
			return
		}
		if c == 0 {
			i = v.Accounts[a].LastExternalIndex
		} else {
			i = v.Accounts[a].LastInternalIndex
		}
	})
	return i
}

func (s *w1) ownAddr(a string) *own {
	sc, err := address.ToOutputScript(a)
	if err != nil {
		return nil
	}
	return s.ownOf(hex.EncodeToString(sc))
}

// ---- requests -----------------------------------------------------------

const hangBound = 20 * time.Minute

// api makes one request to the daemon on its own goroutine and waits for its
// answer or the death of the daemon. It returns nil if the daemon is down.
func (s *w1) api(op *Op, step int, name string, f func(ctx context.Context, d *Daemon) error) *call {
	d := s.h.D
	if d == nil {
		return nil
	}
	w := s.w
	w.seq++
	opid := 0
	if op != nil {
		opid = op.ID
	}
	c := &call{op: opid, step: step, name: name, gen: d.Gen.ID, inv: w.seq, invT: w.Now(), invU: time.Now().Unix()}
	c.tag = fmt.Sprintf("op%d.%d", opid, step)
	tag := w.Tag(c.tag)
	if op != nil && step == 0 && strings.HasPrefix(op.S, "c") {
		n, _ := strconv.ParseUint(op.S[1:], 10, 64)
		tag.CrashAt = n
	}
	if op != nil && strings.HasPrefix(op.S, "d") { // crash at a step
		p := strings.SplitN(op.S[1:], ".", 2)
		if len(p) == 2 && p[0] == strconv.Itoa(step) {
			n, _ := strconv.ParseUint(p[1], 10, 64)
			tag.CrashAt = n
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	if op != nil && strings.HasPrefix(op.S, "x") && w.FaultsOn {
		us, _ := strconv.ParseInt(op.S[1:], 10, 64)
		if w.deviate(c.tag+"/client", "client-cancel") {
			w.Go("cancel", func() {
				time.Sleep(time.Duration(us) * time.Microsecond)
				if !c.done {
					c.cancelled = true
				}
				cancel()
			})
		}
	}
	s.calls = append(s.calls, c)
	w.Stat("api." + name)
	w.Tracef("-> %s %s", c.tag, name)
	done := make(chan error, 1)
	down := s.down
	s.inflight++
	s.blips++
	go func() {
		rt.Set(tag)
		err := f(ctx, d)
		rt.Live()
		cancel()
		done <- err
	}()
	tm := time.NewTimer(hangBound)
	defer tm.Stop()
	select {
	case c.err = <-done:
		if d.Gen.Dead { // lost answer
			break
		}
		c.done = true
	case <-down:
	case <-tm.C:
		w.Violate("C21", "hang-"+name, "request %s (%s) got no answer in %v", c.tag, name, hangBound)
		<-down
	}
	s.inflight--
	s.blips++
	w.seq++
	c.ret = w.seq
	c.retT = w.Now()
	if c.done {
		es := "ok"
		if c.err != nil {
			es = c.err.Error()
		}
		w.Tracef("<- %s %s: %s", c.tag, name, short80(es))
		if c.err == nil {
			w.Stat("ok." + name)
		}
		if s.main {
			s.monitor()
		}
	} else {
		w.Tracef("<- %s %s: lost", c.tag, name)
	}
	return c
}

func short80(s string) string {
	if len(s) > 160 {
		return s[:160]
	}
	return s
}

// faulted tells whether a fault of a kind was injected into a request.
func (s *w1) faulted(tag string, kinds ...string) bool {
	for _, d := range s.w.devs {
		if !strings.HasPrefix(d, tag+"/") {
			continue
		}
		for _, k := range kinds {
			if strings.Contains(d, k) {
				return true
			}
		}
		if len(kinds) == 0 {
			return true
		}
	}
	return false
}

func (s *w1) netTrouble(c *call) bool {
	return s.faulted(c.tag, "/http-") || s.downDuring(c) || c.cancelled
}

// downDuring: the explorer was in an outage while the request was processed.
func (s *w1) downDuring(c *call) bool {
	for _, o := range s.outages() {
		if c.invT < o[1] && (c.retT == 0 || c.retT > o[0]) {
			return true
		}
	}
	return false
}

var outageLog [][2]time.Duration

func (s *w1) outages() [][2]time.Duration { return outageLog }

// ---- prelude ------------------------------------------------------------

func (s *w1) mustAPI(op *Op, step int, name string, f func(ctx context.Context, d *Daemon) error) *call {
	c := s.api(op, step, name, f)
	if c == nil || !c.done || c.err != nil {
		e := "daemon down"
		if c != nil && c.err != nil {
			e = c.err.Error()
		}
		s.w.Violate(s.calmProp(name), "calm-"+name, "with no fault and no competing request %s failed: %s", name, e)
		s.w.Inconclusive("prelude: " + name + ": " + e)
	}
	return c
}

func (s *w1) calmProp(name string) string {
	switch name {
	case "init", "unlock":
		return "C23"
	case "withdraw", "send":
		return "C13"
	case "claimfee", "claimmarket":
		return "C10"
	}
	return "C15"
}

func (s *w1) prelude() {
	w := s.w
	ps, pst := rt.PSwitch, rt.PStall
	rt.PSwitch, rt.PStall = 0, 0
	defer func() { rt.PSwitch, rt.PStall = ps, pst }()
	if err := s.boot(); err != nil {
		w.Violate("C23", "first-start", "first start failed: %v", err)
		w.Inconclusive("start")
		return
	}
	s.pass = passphrase(w.Seed, 0)
	s.mustAPI(nil, 1, "genseed", func(ctx context.Context, d *Daemon) error {
		r, err := d.Wallet.GenSeed(ctx, &pbw.GenSeedRequest{})
		if err == nil {
			s.mnemonic = r.SeedMnemonic
		}
		return err
	})
	if w.inconcl != "" {
		return
	}
	hw, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{SigningMnemonic: s.mnemonic})
	must(err)
	s.hdw = hw
	s.mustAPI(nil, 2, "init", func(ctx context.Context, d *Daemon) error {
		return d.Wallet.InitWallet(&pbw.InitWalletRequest{SeedMnemonic: s.mnemonic, WalletPassword: []byte(s.pass)}, &initStream{fakeStream: fakeStream{ctx: ctx}})
	})
	if s.locked() == 0 {
		w.Violate("C12", "unlocked-by-init", "the wallet is unlocked right after it was created")
	}
	if w.inconcl != "" || !s.unlock(nil, 3, s.pass) {
		w.Inconclusive("unlock")
		return
	}
	// fee account
	op := &Op{ID: 0}
	r := rt.HashString(w.Seed, "prelude")
	nfee := int(w.Cfg("nfee"))
	var addrs []string
	c := s.mustAPI(op, 10, "depositfee", func(ctx context.Context, d *Daemon) error {
		rep, err := d.Oper.DepositFeeAccount(ctx, &pbop.DepositFeeAccountRequest{NumOfAddresses: int64(nfee)})
		if err == nil {
			for _, a := range rep.AddressWithBlindingKey {
				addrs = append(addrs, a.Address)
			}
		}
		return err
	})
	if w.inconcl != "" {
		return
	}
	s.handOut(c, "fee", addrs, 0, nil)
	var pts []*pbop.TxOutpoint
	for _, a := range addrs {
		o := s.fund(a, LBTC, 20000+rt.Next(&r)%180000)
		pts = append(pts, &pbop.TxOutpoint{Hash: o.Op.Txid, Index: int32(o.Op.Vout)})
	}
	s.ch.Mine()
	s.mustAPI(op, 11, "claimfee", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.ClaimFeeDeposit(ctx, &pbop.ClaimFeeDepositRequest{Outpoints: pts})
		return err
	})
	for m := 0; m < int(w.Cfg("nmarkets")) && w.inconcl == ""; m++ {
		s.setupMarket(op, 20+20*m, m, &r)
	}
	if n := w.Cfg("nwallet"); n > 0 && w.inconcl == "" {
		for i := int64(0); i < n; i++ {
			a := s.walletAddr(op, int(100+i))
			if a != "" {
				asset := LBTC
				if i%2 == 1 {
					asset = s.quotes[0]
				}
				s.fund(a, asset, 50000+rt.Next(&r)%1000000)
			}
		}
		s.ch.Mine()
	}
	time.Sleep(s.h.Opts.Interval*2 + time.Second)
}

func (s *w1) fund(addr, asset string, v uint64) *simTxOut {
	sc, bp := addrScript(addr)
	return s.ch.Fund(sc, bp, asset, v)
}

// foreignAsset is an asset of no market.
var foreignAsset = assetN(80)

// alien tells whether a coin locked by a script of the wallet is blinded with
// another key than that of its address, so that nobody but its sender can open it.
func (s *w1) alien(o *simTxOut) bool {
	ow := s.ownOf(o.Script)
	if ow == nil || !o.Conf {
		return false
	}
	if v, ok := s.aliens[o.Op]; ok {
		return v
	}
	_, ok := transactionutil.UnblindOutput(o.Raw, ow.blind)
	s.aliens[o.Op] = !ok
	return !ok
}

func (s *w1) setupMarket(op *Op, step, m int, r *uint64) {
	w := s.w
	var addrs []string
	nc := int(w.Cfg("ncoins"))
	c := s.mustAPI(op, step, "depositmarket", func(ctx context.Context, d *Daemon) error {
		rep, err := d.Oper.DepositMarket(ctx, &pbop.DepositMarketRequest{NumOfAddresses: int64(nc)})
		if err == nil {
			addrs = rep.Addresses
		}
		return err
	})
	if w.inconcl != "" {
		return
	}
	s.handOut(c, "newmarket", addrs, -1, nil)
	var pts []*pbop.TxOutpoint
	for i, a := range addrs {
		o := s.fund(a, LBTC, 2_000_000+rt.Next(r)%30_000_000)
		pts = append(pts, &pbop.TxOutpoint{Hash: o.Op.Txid, Index: int32(o.Op.Vout)})
		if i == 0 || rt.Next(r)%4 != 0 {
			o = s.fund(a, s.quotes[m], 5_000_000+rt.Next(r)%200_000_000)
			pts = append(pts, &pbop.TxOutpoint{Hash: o.Op.Txid, Index: int32(o.Op.Vout)})
		}
	}
	s.ch.Mine()
	var cc *call
	cc = s.mustAPI(op, step+1, "claimmarket", func(ctx context.Context, d *Daemon) error {
		_, err := d.Oper.ClaimMarketDeposit(ctx, &pbop.ClaimMarketDepositRequest{Market: s.base(m), Outpoints: pts})
		return err
	})
	s.record(cc, m, setop{kind: "create"})
	if w.inconcl != "" {
		return
	}
	bp, fb, fq := w.Cfg(fmt.Sprintf("bp%d", m)), w.Cfg(fmt.Sprintf("fixb%d", m)), w.Cfg(fmt.Sprintf("fixq%d", m))
	strat := w.Cfg(fmt.Sprintf("strat%d", m))
	s.doStrategy(op, step+2, m, strat)
	s.doFee(op, step+3, m, bp)
	s.doFixed(op, step+4, m, fb, fq)
	if strat == 0 {
		s.doPrice(op, step+5, m, w.Cfg(fmt.Sprintf("price%d", m)))
	}
	if c := s.doOpen(op, step+6, m); !c.ok() {
		w.Violate("C15", "calm-open", "a funded market could not be opened with no fault: %v", c)
		w.Inconclusive("open")
	}
}

func (s *w1) walletAddr(op *Op, step int) string {
	var a string
	c := s.api(op, step, "walletaddress", func(ctx context.Context, d *Daemon) error {
		r, err := d.Wallet.WalletAddress(ctx, &pbw.WalletAddressRequest{})
		if err == nil {
			a = r.Address
		}
		return err
	})
	if !c.ok() {
		return ""
	}
	s.handOut(c, "wallet", []string{a}, 1, nil)
	return a
}

// handOut checks addresses returned to a client.
func (s *w1) handOut(c *call, kind string, addrs []string, acct int, m *int) {
	w := s.w
	if !c.ok() {
		return
	}
	newAcct := -1
	for _, a := range addrs {
		o := s.ownAddr(a)
		if o == nil {
			w.Violate("C09", "address-not-owned", "%s returned address %s, which the wallet does not own", c.name, a)
			continue
		}
		if o.addr != a {
			w.Violate("C09", "address-not-owned", "%s returned %s but the wallet derives %s for that script", c.name, a, o.addr)
		}
		if prev := s.handedBy[o.script]; prev != nil {
			w.Violate("C09", "address-reused", "%s of account %d was handed out by %s (%s) and again by %s (%s)", o.path, o.acct, prev.c.tag, prev.kind, c.tag, kind)
		} else if by, ok := s.usedChg[o.script]; ok {
			w.Violate("C09", "address-reused", "%s was used by %s and handed out again by %s", o.path, by, c.tag)
		}
		if acct >= 0 && o.acct != acct {
			w.Violate("C09", "address-wrong-account", "%s asked for an address of account %d and got one of %d", c.tag, acct, o.acct)
		}
		if o.chain != 0 {
			w.Violate("C09", "address-internal", "%s returned a change address", c.tag)
		}
		h := &handed{addr: a, c: c, own: o, kind: kind}
		s.handed = append(s.handed, h)
		s.handedBy[o.script] = h
		if kind == "newmarket" {
			if newAcct < 0 {
				newAcct = o.acct
			} else if newAcct != o.acct {
				w.Violate("C10", "addresses-of-two-accounts", "%s returned addresses of accounts %d and %d", c.tag, newAcct, o.acct)
			}
		}
	}
	if newAcct >= 0 {
		if by, ok := s.accounts[newAcct]; ok {
			w.Violate("C10", "account-shared", "account %d was given to the market created by %s and to the one created by %s", newAcct, by, c.tag)
		}
		if newAcct < 5 {
			w.Violate("C10", "account-reserved", "a market was created on the reserved account %d", newAcct)
		}
		s.accounts[newAcct] = c.tag
	}
}

// ---- start, unlock, supervision ----------------------------------------

func (s *w1) boot() error {
	for s.h.Shutting {
		time.Sleep(100 * time.Millisecond)
	}
	outT := s.w.Now()
	err := s.h.Boot()
	if err == nil {
		s.bootAt[s.h.D.Gen.ID] = s.w.Now()
		s.w.Tracef("booted generation %d", s.h.D.Gen.ID)
		s.afterBoot()
	} else {
		s.w.Tracef("boot failed: %v (since %v)", err, outT)
		s.w.Stat("boot.failed")
	}
	return err
}

func (s *w1) unlock(op *Op, step int, pass string) bool {
	before := s.locked()
	c := s.api(op, step, "unlock", func(ctx context.Context, d *Daemon) error {
		_, err := d.Wallet.UnlockWallet(ctx, &pbw.UnlockWalletRequest{WalletPassword: []byte(pass)})
		return err
	})
	if c == nil || !c.done {
		return false
	}
	right := pass == s.pass || pass == s.altPass
	if c.err == nil && before == 1 && !right && s.lockOps == 0 {
		s.w.Violate("C12", "wrong-pass-unlocks", "a wrong passphrase unlocked the wallet")
	}
	if c.err == nil {
		if right && before == 1 && s.altPass != "" && s.lockOps == 0 {
			s.pass, s.altPass = pass, ""
		}
		if !s.unlocked {
			s.unlocked = true
			s.unlockAt = s.w.Now()
			s.stillKnown()
		}
		return true
	}
	return false
}

// stillKnown: a start does not forget coins the daemon had recorded.
func (s *w1) stillKnown() {
	sn := s.snap()
	if sn == nil {
		return
	}
	n := 0
	for _, o := range s.knownList {
		if u := s.ch.Utxo[o]; u == nil || u.SpentBy != "" || !s.ch.Confirmed(o.Txid) {
			continue
		}
		n++
		if sn.coins[o] == nil {
			s.w.Violate("C23", "coins-forgotten", "coin %s, recorded before the restart and unspent on the chain, is not known after a successful unlock", o)
		}
	}
	s.w.StatN("stillknown", int64(n))
}

// locked: 1 locked, 0 unlocked, -1 unknown
func (s *w1) locked() int {
	d := s.h.D
	if d == nil {
		return -1
	}
	r := -1
	s.w.Quiet(func() {
		v, err := d.Repo.VaultRepository().GetOrCreateVault(context.Background(), nil, "", nil)
		if err == nil {
			r = 0
			if v.IsLocked() {
				r = 1
			}
		}
	})
	return r
}

// supervise keeps the daemon running.
func (s *w1) supervise() {
	w := s.w
	defer close(s.supDone)
	r := rt.HashString(w.Seed, "supervise")
	n := 0
	for !s.mainEnd {
		if s.h.D != nil {
			dn := s.down
			select {
			case <-dn:
			case <-time.After(time.Second):
			}
			continue
		}
		n++
		d := time.Duration(1<<(rt.Next(&r)%8)) * 100 * time.Millisecond
		time.Sleep(d)
		for i := 0; s.h.D == nil && !s.mainEnd; i++ {
			outage := w.Now() < s.n.DownUntil
			k := len(w.devs)
			if err := s.boot(); err != nil {
				if !outage && len(w.devs) == k && !strings.Contains(err.Error(), "crashed") && w.Now() >= s.n.DownUntil {
					w.Violate("C23", "start-fails", "the daemon does not start on its own data directory: %v", err)
				}
				time.Sleep(5 * time.Second)
			}
		}
		if s.h.D == nil || s.mainEnd {
			return
		}
		gen := s.h.D.Gen.ID
		if w.Cfg("chpass") > 0 && int64(rt.Next(&r)%100) < w.Cfg("chpass") && s.altPass == "" {
			s.changePass(&Op{ID: 9000 + n, S: s.chpassCrash(&r)})
			for i := 1; i < 4 && rt.Next(&r)%2 == 0 && s.altPass == "" && s.h.D != nil && s.h.D.Gen.ID == gen; i++ {
				s.changePass(&Op{ID: 9000 + n + 100*i, S: s.chpassCrash(&r)})
			}
		}
		if w.Cfg("lockwait") > 0 {
			time.Sleep(time.Duration(rt.Next(&r)%uint64(w.Cfg("lockwait"))) * time.Millisecond)
		}
		if s.h.D == nil || s.h.D.Gen.ID != gen {
			continue
		}
		s.unlockLoop(&Op{ID: 8000 + n}, gen)
	}
}

func (s *w1) chpassCrash(r *uint64) string {
	if rt.Next(r)%2 == 0 {
		return ""
	}
	return fmt.Sprintf("c%d", 1+rt.Next(r)%400)
}

func (s *w1) wrongPass(n int) string {
	p := nearMiss(s.w.Seed, s.pass, n)
	if p == s.altPass {
		p = "not-" + s.pass
	}
	return p
}

func (s *w1) unlockLoop(op *Op, gen int) bool {
	for i := 0; i < 12; i++ {
		if s.h.D == nil || s.h.D.Gen.ID != gen {
			return false
		}
		p := s.pass
		if s.altPass != "" && i%2 == 1 {
			p = s.altPass
		}
		if i == 0 && s.w.Cfg("wrongpass") > 0 {
			s.unlock(op, 50, s.wrongPass(i+gen))
		}
		if s.unlock(op, i, p) {
			return true
		}
		time.Sleep(time.Second)
	}
	if s.h.D != nil && s.h.D.Gen.ID == gen {
		s.w.Violate("C12", "cannot-unlock", "the wallet can be unlocked with neither passphrase (%q, %q)", s.pass, s.altPass)
		s.w.Violate("C23", "cannot-unlock", "the wallet can be unlocked with neither passphrase (%q, %q)", s.pass, s.altPass)
	}
	return false
}

func (s *w1) changePass(op *Op) {
	w := s.w
	s.keyN++
	np := passphrase(w.Seed, s.keyN)
	cur := s.pass
	wrong := s.keyN%3 == 2
	if wrong {
		cur = s.wrongPass(s.keyN)
	}
	s.lockOps++
	lockedBefore, sure := s.locked() == 1, s.altPass == ""
	c := s.api(op, 0, "chpass", func(ctx context.Context, d *Daemon) error {
		_, err := d.Wallet.ChangePassword(ctx, &pbw.ChangePasswordRequest{CurrentPassword: []byte(cur), NewPassword: []byte(np)})
		return err
	})
	s.lockOps--
	if c == nil {
		return
	}
	if !wrong && (!c.done || s.faulted(c.tag)) {
		s.hookDoubt = true
	}
	if c.done && c.err == nil {
		if wrong {
			w.Violate("C12", "wrong-pass-changes", "the passphrase was changed with a wrong current one")
		}
		s.pass, s.altPass = np, ""
		w.Probe("chpass.ok")
		// the old one must not work any more
		if s.locked() == 1 {
			s.unlock(op, 1, cur)
		}
		return
	}
	if wrong {
		return
	}
	if !c.done || s.faulted(c.tag) {
		s.altPass = np
		w.Probe("chpass.doubt")
		return
	}
	if lockedBefore && sure && s.locked() == 1 && strings.Contains(c.err.Error(), "passphrase is not valid") {
		w.Violate("C12", "right-pass-refused", "the passphrase of a locked wallet can't be changed with the current one: %v", c.err)
	}
}
