//go:build go1.22

package verifsim

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	stdnet "net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"crypto/tls"
	"crypto/x509"

	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/config"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	interfaces "github.com/tdex-network/tdex-daemon/internal/interfaces"
	grpcinterface "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/types/known/emptypb"
	"gopkg.in/macaroon-bakery.v2/bakery/checkers"
	macaroon "gopkg.in/macaroon.v2"
)

// The whole daemon behind its real gRPC servers (TLS, connection multiplexer,
// interceptors), reached over an in-memory network: who may call what (C19).

func init() { scenarios["mac"] = scenario{gen: genMac, run: runMac} }

const (
	macOperAddr  = ":9000"
	macTradeAddr = ":9945"
)

// ---- in-memory network --------------------------------------------------

type pipeNet struct {
	w   *World
	lis map[string]*pipeLis
}

type pipeLis struct {
	n      *pipeNet
	addr   string
	gen    *rt.Gen
	ch     chan stdnet.Conn
	closed chan struct{}
	done   bool
	conns  []*pipeConn
}

type pipeAddr string

func (a pipeAddr) Network() string { return "tcp" }
func (a pipeAddr) String() string  { return string(a) }

type pipeConn struct {
	stdnet.Conn
	remote pipeAddr
	tag    *rt.Tag // server side: goroutines that read work for this request
}

// RemoteAddr is what servers ask on the goroutine that serves the connection.
func (c *pipeConn) RemoteAddr() stdnet.Addr {
	if c.tag != nil {
		rt.Set(c.tag)
	}
	return c.remote
}
func (c *pipeConn) LocalAddr() stdnet.Addr { return pipeAddr("127.0.0.1:9000") }
func (c *pipeConn) Read(b []byte) (int, error) {
	if c.tag != nil && rt.Cur() != c.tag {
		rt.Set(c.tag)
	}
	n, err := c.Conn.Read(b)
	if c.tag != nil {
		rt.Live()
	}
	return n, err
}

func newPipeNet(w *World) *pipeNet {
	n := &pipeNet{w: w, lis: map[string]*pipeLis{}}
	rt.ListenFn = func(network, addr string) (stdnet.Listener, error) {
		if l := n.lis[addr]; l != nil && !l.done && !l.gen.Dead {
			return nil, errors.New("address already in use")
		}
		l := &pipeLis{n: n, addr: addr, gen: w.gen, ch: make(chan stdnet.Conn), closed: make(chan struct{})}
		n.lis[addr] = l
		return l, nil
	}
	return n
}

func (l *pipeLis) Accept() (stdnet.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, errors.New("use of closed network connection")
	}
}

func (l *pipeLis) Close() error {
	if !l.done {
		l.done = true
		close(l.closed)
	}
	return nil
}
func (l *pipeLis) Addr() stdnet.Addr { return pipeAddr("127.0.0.1" + l.addr) }

func (n *pipeNet) dial(addr, ip string, tag *rt.Tag) (stdnet.Conn, error) {
	l := n.lis[addr]
	if l == nil || l.done || l.gen.Dead {
		return nil, errors.New("connection refused")
	}
	a, b := stdnet.Pipe()
	s := &pipeConn{Conn: b, remote: pipeAddr(ip + ":50000"), tag: tag}
	select {
	case l.ch <- s:
	case <-l.closed:
		return nil, errors.New("connection refused")
	case <-time.After(5 * time.Second):
		return nil, errors.New("connection timed out")
	}
	l.conns = append(l.conns, s)
	return &pipeConn{Conn: a, remote: pipeAddr("127.0.0.1" + addr)}, nil
}

// cut breaks every connection: the process is gone.
func (n *pipeNet) cut() {
	for _, k := range sortedKeys(n.lis) {
		for _, c := range n.lis[k].conns {
			c.Conn.Close()
		}
		n.lis[k].conns = nil
	}
}

// ---- specification ------------------------------------------------------

// who may call what. Every method needs one right.
var macNeeds = map[string]string{
	"/Wallet/WalletAddress": "wallet:write", "/Wallet/SendToMany": "wallet:write", "/Wallet/WalletBalance": "wallet:read",
	"/Operator/DepositMarket": "market:write", "/Operator/DepositFeeAccount": "market:write",
	"/Operator/ClaimMarketDeposit": "market:write", "/Operator/ClaimFeeDeposit": "market:write",
	"/Operator/OpenMarket": "market:write", "/Operator/CloseMarket": "market:write", "/Operator/DropMarket": "market:write",
	"/Operator/UpdateMarketPercentageFee": "market:write", "/Operator/UpdateMarketFixedFee": "market:write",
	"/Operator/UpdateMarketStrategy": "market:write", "/Operator/UpdateMarketPrice": "price:write",
	"/Operator/ListMarket": "market:read", "/Operator/ListDepositMarket": "market:read", "/Operator/BalanceFeeAccount": "market:read",
	"/Operator/ReportMarketFee": "market:read",
	"/Operator/WithdrawMarket":  "operator:write", "/Operator/ReloadUtxos": "operator:write",
	"/Operator/ListTrades": "operator:read", "/Operator/ListUtxos": "operator:read",
	"/Operator/AddWebhook": "webhook:write", "/Operator/RemoveWebhook": "webhook:write", "/Operator/ListWebhooks": "webhook:read",
}

// methods open to anybody
var macOpen = []string{"/Wallet/GenSeed", "/Trade/Markets", "/Trade/Balances", "/Trade/MarketPrice", "/Trade/TradePropose", "/Trade/TradeComplete"}

// what each macaroon file grants
var macFiles = map[string][]string{
	"admin.macaroon": {"operator:read", "operator:write", "market:read", "market:write", "price:write", "webhook:read", "webhook:write",
		"wallet:read", "wallet:write"},
	"readonly.macaroon": {"operator:read", "market:read", "wallet:read", "webhook:read"},
	"market.macaroon":   {"market:read", "market:write", "price:write"},
	"price.macaroon":    {"price:write"},
	"webhook.macaroon":  {"webhook:read", "webhook:write"},
	"wallet.macaroon":   {"wallet:read", "wallet:write"},
}

func macMethods() []string { return sortedKeys(macNeeds) }

// ---- scenario -----------------------------------------------------------

type macTok struct {
	file  string
	raw   []byte
	epoch int // of the root key
}

// macHeld is a macaroon somebody restricted and keeps using.
type macHeld struct {
	t      *macTok
	hdr    string
	ip     string        // usable from there only
	until  time.Duration // usable until then only
	method string        // first used for
}

type macW struct {
	*comp
	net   *Net
	pn    *pipeNet
	mn    []string
	pass  string
	alts  []string          // might be the passphrase too
	hooks map[string]string // acknowledged webhooks
	toks  []*macTok         // handed out
	held  []*macHeld        // derived from them by their users and used again and again
	seen  map[string]bool
	exec  map[*rt.Tag]bool

	initDone, initTried bool
	unlockedAt          map[int]time.Duration // generation -> when it was unlocked
	bootDevs            map[int]int           // deviations when a generation started
	changing            int                   // interrupted or faulty passphrase changes
	epoch               int
	calm                bool
}

func genMac(w *World) {
	c := w.Plan.Cfg
	f := func(k string, v int64) {
		if _, ok := c[k]; !ok {
			c[k] = v
		}
		if x, ok := w.Plan.Force[k]; ok {
			c[k] = x
		}
	}
	pick := func(v ...int64) int64 { return v[w.Intn(len(v))] }
	f("pswitch", pick(0, 0, 500, 3000))
	f("pstall", pick(0, 0, 100, 600))
	f("stallmax_us", pick(1000, 100000, 2000000))
	f("interval_ms", 5000)
	f("tmo_ms", 5000)
	faulty := w.Chance(2, 3)
	p := func(k string, num, den int, v ...int64) {
		if faulty && w.Chance(num, den) {
			f(k, pick(v...))
		} else {
			w.R()
			f(k, 0)
		}
	}
	p("p_bolterr", 1, 3, 2000, 8000)
	p("p_torn", 1, 3, 1000, 4000)
	p("p_write", 1, 3, 4000, 16000)
	p("p_diskerr", 1, 6, 1000)
	p("p_conflict", 1, 6, 2000)
	if faulty && w.Chance(1, 3) {
		f(fmt.Sprintf("bootcrash%d", 1+w.Intn(3)), w.LogRange(60))
	}
	if len(w.Plan.Ops) > 0 {
		return
	}
	n := 3 + w.Intn(14)
	var t int64
	crashy := faulty && w.Chance(2, 3)
	ks := []string{"call", "call", "call", "call", "held", "held", "held", "init", "unlock", "unlock", "chpass", "restart", "crash", "wrong", "read", "web", "hook"}
	for i := 0; i < n; i++ {
		k := ks[w.Intn(len(ks))]
		if i == 0 {
			k = "init"
		}
		if i == 1 && w.Chance(2, 3) {
			k, t = "unlock", t+5000
		}
		if k == "crash" && !crashy {
			k = "restart"
		}
		op := Op{T: t, K: k, A: []int64{w.Range(0, 1<<30), w.Range(0, 1<<30), w.Range(0, 1<<30), w.Range(0, 1<<30)}}
		if k == "crash" {
			op.A[0] = w.LogRange(2000000)
		}
		if crashy && w.Chance(1, 4) && (k == "init" || k == "unlock" || k == "chpass") {
			op.S = fmt.Sprintf("c%d", w.LogRange(400))
		}
		w.Plan.Ops = append(w.Plan.Ops, op)
		if w.Intn(3) > 0 {
			t += w.LogRange(20000)
		}
	}
	for i := range w.Plan.Ops {
		w.Plan.Ops[i].ID = i
	}
}

func runMac(w *World) {
	s := &macW{comp: newComp(w, "C19", DaemonOpts{Expiry: time.Minute, Slippage: 0.05, MarketsFee: 25, Interval: time.Duration(w.Cfg("interval_ms")) * time.Millisecond,
		Limit: 10, Burst: 3, FeeThreshold: 5000, Timeout: int(w.Cfg("tmo_ms"))}),
		net: newNet(w), pn: newPipeNet(w), seen: map[string]bool{}, exec: map[*rt.Tag]bool{},
		unlockedAt: map[int]time.Duration{}, bootDevs: map[int]int{}, pass: passphrase(w.Seed, 0), hooks: map[string]string{}}
	s.mn = newMnemonic(w)
	s.comp.exec = s.do1
	rt.MarkLo, rt.MarkHi = handlerSites[0], handlerSites[1]
	rt.MarkFn = func(t *rt.Tag) { s.exec[t] = true }
	rt.WriteFn = func(t *rt.Tag, path string, n int) (int, error) {
		if t == nil || t.Gen == nil || t.Gen.Dead {
			return n, nil
		}
		if k := rt.TornFn(t, "file.write", n); k >= 0 {
			return k, rt.ErrCrash
		}
		if w.Draw(t, "file.write", w.Cfg("p_write"), "disk-full") {
			return n / 2, errors.New("simulated: no space left on device")
		}
		return n, nil
	}
	s.h.WireFn = s.wire
	s.h.StopFn = func(d *Daemon) {
		d.X.(interfaces.Service).Stop()
		s.h.stop(d)
	}
	s.h.NoDrain = true
	onCrash := s.h.OnCrash
	s.h.OnCrash = func() { s.pn.cut(); onCrash() }
	s.booted = func() error {
		s.bootDevs[s.h.D.Gen.ID] = s.faults()
		return nil
	}
	for i := 0; s.h.D == nil; i++ {
		w.FaultsOn = i < 3
		if err := s.boot(); err != nil && i > 5 {
			w.Violate("C19", "first-start", "%v", err)
			return
		}
	}
	s.run()
	w.FaultsOn = false
	s.calm = true
	s.end()
}

func (s *macW) faults() int { return len(s.w.devs) - s.w.devKinds["yield"] - s.w.devKinds["stall"] }

func (s *macW) wire(g *rt.Gen) (*Daemon, error) {
	d, err := s.h.wire(g)
	if err != nil {
		return nil, err
	}
	svc, err := grpcinterface.NewService(grpcinterface.ServiceOpts{Datadir: d.Dir, DBLocation: config.DbLocation, TLSLocation: config.TLSLocation,
		MacaroonsLocation: config.MacaroonsLocation, WalletSvc: d.WalletS, OperatorSvc: d.OperS, TradeSvc: d.TradeS})
	if err == nil {
		d.X = svc
		err = svc.Start(macOperAddr, macTradeAddr, "", "")
	}
	if err != nil {
		d.Crawler.Stop()
		d.PubSub.Store().Close()
		d.Repo.Close()
		return nil, err
	}
	return d, nil
}

// rpc makes one call over a connection of its own.
func (s *macW) rpc(op *Op, step int, name, ip string, trade bool, token []string, f func(ctx context.Context, c *grpc.ClientConn) error) (*cop, bool) {
	w := s.w
	var srv *rt.Tag
	c := s.do(op, step, name, func(ctx context.Context, d *Daemon) error {
		srv = rt.Cur()
		// the client is another process
		rt.Set(&rt.Tag{Name: "client", Quiet: true, FN: map[string]uint64{}})
		ctx, cancel := context.WithTimeout(ctx, 2*time.Minute)
		defer cancel()
		addr := macOperAddr
		o := []grpc.DialOption{grpc.WithBlock(), grpc.FailOnNonTempDialError(true)}
		if trade {
			addr = macTradeAddr
			o = append(o, grpc.WithInsecure())
		} else {
			cr, err := credentials.NewClientTLSFromFile(filepath.Join(d.Dir, config.TLSLocation, grpcinterface.OperatorTLSCertFile), "localhost")
			if err != nil {
				return fmt.Errorf("client: no certificate: %w", err)
			}
			o = append(o, grpc.WithTransportCredentials(cr))
		}
		n := 0
		o = append(o, grpc.WithContextDialer(func(context.Context, string) (stdnet.Conn, error) {
			if n++; n > 1 {
				return nil, errors.New("connection lost")
			}
			return s.pn.dial(addr, ip, srv)
		}))
		cc, err := grpc.DialContext(ctx, "localhost", o...)
		if err != nil {
			return fmt.Errorf("client: dial: %w", err)
		}
		defer cc.Close()
		for _, t := range token {
			ctx = metadata.AppendToOutgoingContext(ctx, "macaroon", t)
		}
		return f(ctx, cc)
	})
	if c == nil {
		return nil, false
	}
	x := s.exec[srv]
	w.State(name, fmt.Sprint(x), fmt.Sprint(c.done && c.err == nil))
	return c, x
}

func (s *macW) init(op *Op, step int) {
	s.initTried = true
	s.rpc(op, step, "init", "10.0.0.1", false, nil, func(ctx context.Context, cc *grpc.ClientConn) error {
		st, err := pbw.NewWalletClient(cc).InitWallet(ctx, &pbw.InitWalletRequest{WalletPassword: []byte(s.pass), SeedMnemonic: s.mn})
		if err != nil {
			return err
		}
		for {
			if _, err := st.Recv(); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
		}
	})
}

func (s *macW) unlock(op *Op, step int, pass string) bool {
	c, _ := s.rpc(op, step, "unlock", "10.0.0.1", false, nil, func(ctx context.Context, cc *grpc.ClientConn) error {
		_, err := pbw.NewWalletClient(cc).UnlockWallet(ctx, &pbw.UnlockWalletRequest{WalletPassword: []byte(pass)})
		return err
	})
	if c == nil || !c.done || c.err != nil {
		return false
	}
	if _, ok := s.unlockedAt[c.gen]; !ok {
		s.unlockedAt[c.gen] = c.retT
	}
	return true
}

func (s *macW) chpass(op *Op, step int) {
	np := passphrase(s.w.Seed, 1+op.ID*10+step)
	old := s.pass
	n := s.faults()
	c, _ := s.rpc(op, step, "chpass", "10.0.0.1", false, nil, func(ctx context.Context, cc *grpc.ClientConn) error {
		_, err := pbw.NewWalletClient(cc).ChangePassword(ctx, &pbw.ChangePasswordRequest{CurrentPassword: []byte(old), NewPassword: []byte(np)})
		return err
	})
	if c == nil {
		return
	}
	if c.done && c.err == nil {
		s.alts = append(s.alts, s.pass)
		s.pass = np
		s.w.Stat("chpass.ok")
	} else {
		s.alts = append(s.alts, np)
	}
	// the other stores follow
	if !c.done || c.err == nil {
		s.changing++
		gen := c.gen
		time.Sleep(10 * time.Second)
		if d := s.h.D; d != nil && d.Gen.ID == gen && s.faults() == n {
			s.changing--
		}
	}
}

// ready: macaroons must work in this generation.
func (s *macW) ready() bool {
	d := s.h.D
	if d == nil {
		return false
	}
	t, ok := s.unlockedAt[d.Gen.ID]
	return ok && s.w.Now()-t > 10*time.Second && s.bootDevs[d.Gen.ID] == s.faults() && s.changing == 0
}

func (s *macW) macDir(d *Daemon) string { return filepath.Join(d.Dir, config.MacaroonsLocation) }

// readFiles collects what the daemon hands out.
func (s *macW) readFiles(must bool) {
	d, w := s.h.D, s.w
	if d == nil {
		return
	}
	for _, f := range sortedKeys(macFiles) {
		b, err := os.ReadFile(filepath.Join(s.macDir(d), f))
		if err != nil {
			if must {
				w.Violate("C19", "file-missing", "the daemon is unlocked but %s does not exist", f)
			}
			continue
		}
		m := &macaroon.Macaroon{}
		if err := m.UnmarshalBinary(b); err != nil {
			if must {
				w.Violate("C19", "file-broken", "%s is not a macaroon: %v", f, err)
			}
			continue
		}
		if k := f + string(b); !s.seen[k] {
			s.seen[k] = true
			s.toks = append(s.toks, &macTok{file: f, raw: b})
			w.Stat("tokens")
		}
	}
}

// variant derives a token: what is sent, what rights it has and whether it is
// genuine for a call made now from ip.
func (s *macW) variant(t *macTok, kind int64, r int64, ip string) (hdr []string, good bool, desc string) {
	m := &macaroon.Macaroon{}
	must(m.UnmarshalBinary(t.raw))
	enc := func(m *macaroon.Macaroon) string {
		b, err := m.MarshalBinary()
		must(err)
		return hex.EncodeToString(b)
	}
	now := time.Now()
	switch kind % 14 {
	default:
		return []string{enc(m)}, true, "as is"
	case 1:
		return nil, false, "no token"
	case 2:
		must(m.AddFirstPartyCaveat([]byte(checkers.TimeBeforeCaveat(now.Add(time.Duration(1+r%3600) * time.Hour)).Condition)))
		return []string{enc(m)}, true, "not expired yet"
	case 3:
		must(m.AddFirstPartyCaveat([]byte(checkers.TimeBeforeCaveat(now.Add(-time.Duration(1+r%3600) * time.Second)).Condition)))
		return []string{enc(m)}, false, "expired"
	case 4:
		must(m.AddFirstPartyCaveat([]byte("ipaddr " + ip)))
		return []string{enc(m)}, true, "bound to this address"
	case 5:
		must(m.AddFirstPartyCaveat([]byte("ipaddr 10.9.9.9")))
		return []string{enc(m)}, false, "bound to another address"
	case 6: // a caveat removed
		must(m.AddFirstPartyCaveat([]byte("ipaddr 10.9.9.9")))
		b, _ := m.MarshalBinary()
		c := bytes.Replace(b, []byte("10.9.9.9"), []byte("10.0.0.2"), 1)
		return []string{hex.EncodeToString(c)}, false, "caveat edited"
	case 7:
		b := append([]byte{}, t.raw...)
		b[len(b)-1-int(r%32)] ^= byte(1 << uint(r/32%8))
		return []string{hex.EncodeToString(b)}, false, "signature edited"
	case 8:
		b := append([]byte{}, t.raw...)
		i := int(r) % len(b)
		b[i] ^= byte(1 << uint(r/4096%8))
		x := &macaroon.Macaroon{}
		g := x.UnmarshalBinary(b) == nil && bytes.Equal(x.Id(), m.Id()) && bytes.Equal(x.Signature(), m.Signature()) && len(x.Caveats()) == 0
		return []string{hex.EncodeToString(b)}, g, "a byte edited"
	case 9:
		f, err := macaroon.New([]byte("0123456789abcdef0123456789abcdef"), m.Id(), m.Location(), macaroon.V2)
		must(err)
		return []string{enc(f)}, false, "signed with another key"
	case 10:
		return []string{enc(m), enc(m)}, false, "two tokens"
	case 11:
		return []string{[]string{"", "zz", "00", hex.EncodeToString(t.raw[:len(t.raw)/2])}[r%4]}, false, "garbage"
	case 12: // rights added to the identifier
		id := append([]byte{}, m.Id()...)
		id = bytes.Replace(id, []byte("read"), []byte("write"), 1)
		id = append(id, '!')
		f, err := macaroon.New([]byte("0123456789abcdef0123456789abcdef"), id, m.Location(), macaroon.V2)
		must(err)
		return []string{enc(f)}, false, "other rights"
	case 13:
		must(m.AddFirstPartyCaveat([]byte("unknown-condition 1")))
		return []string{enc(m)}, false, "unknown caveat"
	}
}

func has(l []string, x string) bool {
	for _, v := range l {
		if v == x {
			return true
		}
	}
	return false
}

// call probes one method with one token and judges the outcome.
func (s *macW) call(op *Op, step int, t *macTok, method string, kind, r int64, web bool) {
	ip := fmt.Sprintf("10.0.0.%d", 2+r%2)
	hdr, good, desc := s.variant(t, kind, r, ip)
	s.probe(op, step, t, method, ip, hdr, desc, good, 0, web)
}

// probe makes a call; until: the macaroon is good until then.
func (s *macW) probe(op *Op, step int, t *macTok, method, ip string, hdr []string, desc string, good bool, until time.Duration, web bool) {
	w := s.w
	ready := s.ready()
	n := s.faults()
	f := func(ctx context.Context, cc *grpc.ClientConn) error {
		return cc.Invoke(ctx, method, &emptypb.Empty{}, &emptypb.Empty{})
	}
	expired := until > 0 && w.Now() > until
	name := "call"
	var c *cop
	var x bool
	if web {
		name = "webcall"
		c, x = s.web(op, step, ip, hdr, method)
	} else {
		c, x = s.rpc(op, step, name, ip, false, hdr, f)
	}
	if c == nil {
		return
	}
	may := good && !expired && has(macFiles[t.file], macNeeds[method])
	w.Stat("calls." + fmt.Sprint(may))
	if x && !may {
		w.Violate("C19", "executed-without-right", "%s was executed with %s (%s), which does not allow it", method, t.file, desc)
	}
	if !x && may && (until == 0 || w.Now() < until) && ready && c.done && s.faults() == n && s.h.D != nil && s.h.D.Gen.ID == c.gen {
		w.Violate("C19", "refused-with-right", "%s was refused with %s (%s), which allows it: %v", method, t.file, desc, c.err)
	}
	if !x && c.done && c.err == nil {
		w.Violate("C19", "answered-unexecuted", "%s with %s (%s) was answered without an error nor being executed", method, t.file, desc)
	}
}

// useHeld uses a macaroon with restrictions of its holder, the same again and
// again: from where and until when it may, and beyond.
func (s *macW) useHeld(op *Op, step int, a0, a1, a2, a3 int64) {
	s.readFiles(false)
	if len(s.toks) == 0 {
		return
	}
	var h *macHeld
	if n := len(s.held); n > 0 && a0%4 != 0 {
		h = s.held[int(a1)%n]
	} else {
		h = &macHeld{t: s.toks[int(a1)%len(s.toks)]}
		m := &macaroon.Macaroon{}
		must(m.UnmarshalBinary(h.t.raw))
		if a2%3 != 1 {
			d := time.Duration(1+a3%90) * time.Second
			h.until = s.w.Now() + d
			must(m.AddFirstPartyCaveat([]byte(checkers.TimeBeforeCaveat(time.Now().Add(d)).Condition)))
		}
		if a2%3 != 0 {
			h.ip = fmt.Sprintf("10.0.0.%d", 2+a3%2)
			must(m.AddFirstPartyCaveat([]byte("ipaddr " + h.ip)))
		}
		b, err := m.MarshalBinary()
		must(err)
		h.hdr = hex.EncodeToString(b)
		s.held = append(s.held, h)
	}
	ms := macMethods()
	method := ms[int(a2)%len(ms)]
	for i := int(a2); !has(macFiles[h.t.file], macNeeds[method]); i++ {
		method = ms[i%len(ms)]
	}
	if h.method == "" {
		h.method = method
	}
	if a0%5 != 1 {
		method = h.method
	}
	ip := fmt.Sprintf("10.0.0.%d", 2+a0/8%2)
	s.w.Stat("held")
	s.probe(op, step, h.t, method, ip, []string{h.hdr}, "restricted by its holder, "+fmt.Sprint(h.ip, " ", h.until), h.ip == "" || h.ip == ip, h.until, a3%7 == 0)
}

// hook registers a webhook with one of the macaroons.
func (s *macW) hook(op *Op) {
	s.readFiles(false)
	for _, t := range s.toks {
		if t.file != "webhook.macaroon" {
			continue
		}
		ep := fmt.Sprintf("http://hooks.sim/%d", op.ID)
		s.rpc(op, 0, "hook", "10.0.0.2", false, []string{hex.EncodeToString(t.raw)}, func(ctx context.Context, cc *grpc.ClientConn) error {
			r, err := pbop.NewOperatorClient(cc).AddWebhook(ctx, &pbop.AddWebhookRequest{Endpoint: ep, Action: pbop.ActionType(op.Arg(0) % 5)})
			if err == nil {
				s.hooks[r.GetId()] = ep
				s.w.Stat("hooks")
			}
			return err
		})
		return
	}
}

// checkHooks: what was registered is still there, whatever happened to the
// passphrase.
func (s *macW) checkHooks(op *Op) {
	if len(s.hooks) == 0 {
		return
	}
	got := map[string]string{}
	for _, t := range s.toks {
		if t.file != "admin.macaroon" {
			continue
		}
		for a := 0; a < 6; a++ {
			s.rpc(op, 50+a, "listhooks", "10.0.0.2", false, []string{hex.EncodeToString(t.raw)}, func(ctx context.Context, cc *grpc.ClientConn) error {
				r, err := pbop.NewOperatorClient(cc).ListWebhooks(ctx, &pbop.ListWebhooksRequest{Action: pbop.ActionType(a)})
				for _, h := range r.GetWebhookInfo() {
					got[h.GetId()] = h.GetEndpoint()
				}
				return err
			})
		}
		break
	}
	for _, id := range sortedKeys(s.hooks) {
		if got[id] != s.hooks[id] {
			s.w.Violate("C18", "webhook-lost", "the webhook %s (%s) was registered but is not listed after the restart", id, s.hooks[id])
		}
	}
	s.w.Stat("hooks.checked")
}

// web does the same as a browser would.
func (s *macW) web(op *Op, step int, ip string, hdr []string, method string) (*cop, bool) {
	var srv *rt.Tag
	c := s.do(op, step, "web", func(ctx context.Context, d *Daemon) error {
		srv = rt.Cur()
		rt.Set(&rt.Tag{Name: "client", Quiet: true, FN: map[string]uint64{}})
		pem, err := os.ReadFile(filepath.Join(d.Dir, config.TLSLocation, grpcinterface.OperatorTLSCertFile))
		if err != nil {
			return err
		}
		cp := x509.NewCertPool()
		cp.AppendCertsFromPEM(pem)
		tr := &http.Transport{TLSClientConfig: &tls.Config{RootCAs: cp, ServerName: "localhost"}, DisableKeepAlives: true,
			DialContext: func(context.Context, string, string) (stdnet.Conn, error) { return s.pn.dial(macOperAddr, ip, srv) }}
		rq, err := http.NewRequestWithContext(ctx, "POST", "https://localhost"+method, bytes.NewReader(make([]byte, 5)))
		must(err)
		rq.Header.Set("content-type", "application/grpc-web+proto")
		rq.Header.Set("x-grpc-web", "1")
		for _, h := range hdr {
			rq.Header.Add("macaroon", h)
		}
		ctx, cancel := context.WithTimeout(ctx, 2*time.Minute)
		defer cancel()
		rs, err := tr.RoundTrip(rq.WithContext(ctx))
		if err != nil {
			return err
		}
		defer rs.Body.Close()
		b, _ := io.ReadAll(rs.Body)
		if st := rs.Header.Get("grpc-status"); rs.StatusCode != 200 || st != "" && st != "0" || !strings.Contains(string(b), "grpc-status:0") && !strings.Contains(string(b), "grpc-status: 0") {
			return fmt.Errorf("status %d %s %q", rs.StatusCode, rs.Header.Get("grpc-status"), short80(string(b)))
		}
		return nil
	})
	if c == nil {
		return nil, false
	}
	return c, s.exec[srv]
}

func (s *macW) do1(op *Op) {
	w := s.w
	switch op.K {
	case "init":
		s.init(op, 0)
	case "unlock":
		s.unlock(op, 0, s.pass)
	case "wrong":
		s.unlock(op, 0, "wrong")
	case "chpass":
		s.chpass(op, 0)
	case "restart":
		s.h.Shutdown(w.Tag(fmt.Sprintf("op%d.stop", op.ID)))
	case "read":
		s.readFiles(false)
	case "hook":
		s.hook(op)
	case "held":
		s.useHeld(op, 0, op.Arg(0), op.Arg(1), op.Arg(2), op.Arg(3))
	case "call", "web":
		s.readFiles(false)
		if len(s.toks) == 0 {
			s.open(op, 1)
			return
		}
		t := s.toks[int(op.Arg(0))%len(s.toks)]
		ms := macMethods()
		s.call(op, 0, t, ms[int(op.Arg(1))%len(ms)], op.Arg(2), op.Arg(3), op.K == "web")
		if op.Arg(3)%4 == 0 {
			s.open(op, 1)
		}
	}
}

// open calls a method that needs no token, with whatever token.
func (s *macW) open(op *Op, step int) {
	m := macOpen[int(op.Arg(1))%len(macOpen)]
	tr := strings.HasPrefix(m, "/Trade")
	n := s.faults()
	var tok []string
	if op.Arg(2)%2 == 0 {
		tok = []string{"junk"}
	}
	c, x := s.rpc(op, step, "open", "10.0.0.3", tr, tok, func(ctx context.Context, cc *grpc.ClientConn) error {
		if m == "/Trade/TradePropose" {
			st, err := pbtrade.NewTradeClient(cc).TradePropose(ctx, &pbtrade.TradeProposeRequest{})
			if err == nil {
				_, err = st.Recv()
			}
			return err
		}
		if m == "/Trade/TradeComplete" {
			st, err := pbtrade.NewTradeClient(cc).TradeComplete(ctx, &pbtrade.TradeCompleteRequest{})
			if err == nil {
				_, err = st.Recv()
			}
			return err
		}
		return cc.Invoke(ctx, m, &emptypb.Empty{}, &emptypb.Empty{})
	})
	if c != nil && c.done && !x && s.faults() == n && s.h.D != nil && s.h.D.Gen.ID == c.gen {
		s.w.Violate("C19", "open-refused", "%s needs no macaroon but was refused: %v", m, c.err)
	}
	// nor is anything of the operator reachable on the port of the traders
	if op.Arg(3)%3 == 0 {
		ms := macMethods()
		om := ms[int(op.Arg(0))%len(ms)]
		if _, x := s.rpc(op, step+1, "wrongport", "10.0.0.3", true, nil, func(ctx context.Context, cc *grpc.ClientConn) error {
			return cc.Invoke(ctx, om, &emptypb.Empty{}, &emptypb.Empty{})
		}); x {
			s.w.Violate("C19", "executed-without-right", "%s was executed on the trade interface", om)
		}
	}
}

// end: without faults the daemon is unlocked, hands out all macaroons, and
// these and all handed out before work.
func (s *macW) end() {
	w := s.w
	op := &Op{ID: 90000, K: "end"}
	if !s.restart() {
		return
	}
	s.init(op, 1)
	ok := s.unlock(op, 2, s.pass)
	for i := 0; !ok && i < len(s.alts); i++ {
		ok = s.unlock(op, 3+i, s.alts[i])
	}
	if !ok {
		w.Violate("C19", "unlock-fails", "the daemon cannot be unlocked with its passphrase and no fault")
		return
	}
	time.Sleep(15 * time.Second)
	if s.changing > 0 {
		w.Stat("end.interrupted-change")
		s.checkAfterInterruptedChange(op)
		return
	}
	s.readFiles(true)
	r := rt.HashString(w.Seed, "end")
	ms := macMethods()
	step := 100
	s.checkHooks(op)
	for _, t := range s.toks {
		for i := 0; i < 4; i++ {
			// prefer methods it allows, so that its validity is tested
			m := ms[int(rt.Next(&r)%uint64(len(ms)))]
			for j := 0; i < 2 && j < 40 && !has(macFiles[t.file], macNeeds[m]); j++ {
				m = ms[int(rt.Next(&r)%uint64(len(ms)))]
			}
			k := int64(0)
			if i > 1 {
				k = int64(rt.Next(&r) % 14)
			}
			s.call(op, step, t, m, k, int64(rt.Next(&r)%(1<<30)), false)
			step += 3
		}
	}
	if len(s.toks) > 0 {
		w.Stat("end.checked")
		t := s.toks[len(s.toks)-1]
		for i := range ms {
			if i%3 == int(w.Seed%3) {
				s.call(op, step, s.toks[0], ms[i], 0, int64(i), false)
				s.call(op, step+1, t, ms[i], 0, int64(i), i%2 == 0)
				step += 3
			}
		}
	}
	for i := int64(0); i < 6; i++ {
		// a0: create one, use it from both addresses, and after its end
		z := func() int64 { return int64(rt.Next(&r) % (1 << 30)) }
		s.useHeld(op, 700+int(i)*4, []int64{0, 2, 10, 3, 14, 6}[i], z(), z(), z())
		if i == 3 {
			time.Sleep(90 * time.Second)
		}
	}
	for i := range macOpen {
		s.open(&Op{ID: 90001 + i, K: "end", A: []int64{int64(i), int64(i), int64(i), int64(i)}}, 0)
	}
}

// checkAfterInterruptedChange: a passphrase change was cut short.
func (s *macW) checkAfterInterruptedChange(op *Op) {
	w := s.w
	s.changing = 0
	s.readFiles(false)
	for i, t := range s.toks {
		if t.file != "admin.macaroon" {
			continue
		}
		c, x := s.rpc(op, 500+i, "call", "10.0.0.2", false, []string{hex.EncodeToString(t.raw)}, func(ctx context.Context, cc *grpc.ClientConn) error {
			return cc.Invoke(ctx, "/Operator/ListMarket", &emptypb.Empty{}, &emptypb.Empty{})
		})
		if c != nil && c.done && !x {
			w.Violate("C19", "lost-by-interrupted-change", "after an interrupted passphrase change the macaroons do not work any more: %v", c.err)
			return
		}
	}
}

var _ = sort.Strings
var _ = pbop.NewOperatorClient
var _ = application.UnlockWallet

func newMnemonic(w *World) []string {
	m := []string{}
	for i := 0; i < 23; i++ {
		m = append(m, "abandon")
	}
	return append(m, "art")
}
