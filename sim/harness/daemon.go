//go:build go1.22

package verifsim

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	log "github.com/sirupsen/logrus"
	pbop "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/config"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/pkg/circuitbreaker"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	"google.golang.org/grpc"
)

// Daemon is one incarnation of the daemon, wired like cmd/tdexd.
type Daemon struct {
	Gen      *rt.Gen
	Dir      string
	Repo     ports.RepoManager
	Explorer explorer.Service
	Crawler  crawler.Service
	PubSub   ports.SecurePubSub
	Listener application.BlockchainListener
	TradeS   application.TradeService
	OperS    application.OperatorService
	WalletS  application.WalletService
	Trade    pbtrade.TradeServer
	Oper     pbop.OperatorServer
	Wallet   pbw.WalletServer
	Pass     chan application.PassphraseMsg
	X        interface{} // the component under test
}

// DaemonOpts are the settings of a deployment.
type DaemonOpts struct {
	Expiry       time.Duration
	Slippage     float64
	MarketsFee   int64
	Interval     time.Duration
	Limit, Burst int
	FeeThreshold uint64
	Timeout      int // explorer request timeout, milliseconds
}

// Host owns the data directory and the incarnations of the daemon.
type Host struct {
	w       *World
	Opts    DaemonOpts
	Dir     string
	D       *Daemon // nil while down
	crashed chan struct{}
	Crashes int
	nextDir string
	rng     uint64
	OnCrash func()
	// WireFn starts something other than the whole daemon, StopFn stops it.
	WireFn func(g *rt.Gen) (*Daemon, error)
	StopFn func(d *Daemon)
	// NoDrain: somebody else reads the passphrase channel
	NoDrain bool
	// Prop is charged with hangs of start and stop
	Prop string
	// Shutting: an orderly shutdown is in progress
	Shutting bool
	// NoCrash: crash points not reached so far are skipped
	NoCrash bool
}

func NewHost(w *World, o DaemonOpts) *Host {
	h := &Host{w: w, Opts: o, Dir: filepath.Join(w.Root, "g0"), crashed: make(chan struct{}, 1), rng: rt.HashString(w.Seed, "crash"), Prop: "C23"}
	h.WireFn, h.StopFn = h.wire, h.stop
	must(os.MkdirAll(h.Dir, 0o755))
	rt.CrashFn = func(t *rt.Tag) {
		if t.Gen == nil || t.Gen.Dead || h.NoCrash {
			return
		}
		if h.D == nil && t.Gen != w.gen {
			return
		}
		w.Tracef("crash at point %d of %s", t.N, t.Name)
		w.devKinds["crash"]++
		h.Crash()
	}
	rt.FaultFn = func(t *rt.Tag, point string) error {
		switch point {
		case "badger.commit", "badger.memcommit":
			if w.Draw(t, point, w.Cfg("p_conflict"), "db-conflict") {
				return rt.ErrSpuriousConflict
			}
			p := w.Cfg("p_diskerr")
			if w.Now() < w.DiskBad && p < w.DiskBadP {
				p = w.DiskBadP
			}
			if point == "badger.commit" && w.Draw(t, point, p, "db-error") {
				return fmt.Errorf("simulated: no space left on device")
			}
		case "bolt.commit", "bolt.page", "bolt.meta", "bolt.sync":
			if w.Draw(t, point, w.Cfg("p_bolterr"), "bolt-error") {
				return fmt.Errorf("simulated: input/output error")
			}
		}
		return nil
	}
	rt.TornFn = func(t *rt.Tag, point string, n int) int {
		if t.Gen == nil || t.Gen.Dead {
			return -1
		}
		if w.Draw(t, point, w.Cfg("p_torn"), "crash-torn-write") {
			return int(rt.Next(&h.rng) % uint64(n+1))
		}
		return -1
	}
	return h
}

// NewGen starts a new incarnation: every goroutine tagged with it dies with it.
func (w *World) NewGen() *rt.Gen {
	w.genN++
	w.gen = &rt.Gen{ID: w.genN}
	return w.gen
}

// Crash kills the current incarnation at once: only what reached the disk
// survives.
func (h *Host) Crash() {
	g := h.w.gen
	if g == nil || g.Dead {
		return
	}
	g.Dead = true
	h.Crashes++
	next := filepath.Join(h.w.Root, fmt.Sprintf("g%d", h.w.genN))
	copyTree(h.Dir, next)
	h.revertUnsynced(h.Dir, next)
	h.nextDir = next
	h.D = nil
	if h.OnCrash != nil {
		h.OnCrash()
	}
	select {
	case h.crashed <- struct{}{}:
	default:
	}
}

// revertUnsynced undoes, in the surviving copy, a random part of the writes
// not yet synced.
func (h *Host) revertUnsynced(from, to string) {
	ws := rt.Unsynced
	rt.Unsynced = nil
	for i := len(ws) - 1; i >= 0; i-- {
		u := ws[i]
		rel, err := filepath.Rel(from, u.Path)
		if err != nil || strings.HasPrefix(rel, "..") {
			continue
		}
		f, err := os.OpenFile(filepath.Join(to, rel), os.O_RDWR, 0)
		if err != nil {
			continue
		}
		switch rt.Next(&h.rng) % 3 {
		case 0: // kept
		case 1: // lost
			f.WriteAt(padTo(u.Old, u.N), u.Off)
		case 2: // torn at a sector
			cut := int(rt.Next(&h.rng)%uint64(u.N/512+1)) * 512
			old := padTo(u.Old, u.N)
			if cut < u.N {
				f.WriteAt(old[cut:], u.Off+int64(cut))
			}
		}
		f.Close()
		h.w.Stat("disk.unsynced_at_crash")
	}
}

func padTo(b []byte, n int) []byte {
	r := make([]byte, n)
	copy(r, b)
	return r
}

func copyTree(from, to string) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil // file removed meanwhile
		}
		rel, _ := filepath.Rel(from, p)
		d := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(d, 0o755)
		}
		if fi.Name() == "LOCK" || !fi.Mode().IsRegular() {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return nil
		}
		defer in.Close()
		out, err := os.OpenFile(d, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, fi.Mode())
		if err != nil {
			return err
		}
		defer out.Close()
		_, err = io.Copy(out, in)
		return err
	})
	must(err)
}

// Boot starts the daemon on the surviving data directory. It runs on a
// goroutine of the new incarnation, so that it may crash as well.
func (h *Host) Boot() error {
	w := h.w
	if h.nextDir != "" {
		h.Dir = h.nextDir
		h.nextDir = ""
	}
	config.Set(config.MnemonicKey, "")
	select { // left by an earlier crash
	case <-h.crashed:
	default:
	}
	g := w.NewGen()
	done := make(chan error, 1)
	tag := w.Tag(fmt.Sprintf("boot%d", g.ID))
	if w.FaultsOn {
		tag.CrashAt = uint64(w.Cfg(fmt.Sprintf("bootcrash%d", g.ID)))
	}
	var d *Daemon
	go func() {
		rt.Set(tag)
		var err error
		d, err = h.WireFn(g)
		done <- err
	}()
	select {
	case err := <-done:
		if g.Dead {
			return fmt.Errorf("crashed while starting")
		}
		if err != nil {
			// the process exits
			g.Dead = true
			next := filepath.Join(w.Root, fmt.Sprintf("g%d", w.genN))
			copyTree(h.Dir, next)
			h.nextDir = next
			rt.Unsynced = nil
			return err
		}
		h.D = d
		return nil
	case <-h.crashed:
		return fmt.Errorf("crashed while starting")
	case <-time.After(10 * time.Minute):
		w.Violate(h.Prop, "start-hangs", "the daemon did not finish starting in 10 minutes")
		h.Crash()
		<-h.crashed
		return fmt.Errorf("start hangs")
	}
}

func (h *Host) wire(g *rt.Gen) (*Daemon, error) {
	o := h.Opts
	d := &Daemon{Gen: g, Dir: h.Dir}
	circuitbreaker.MaxNumOfFailingRequests = 20
	circuitbreaker.FailingRatio = 0.7
	dbDir := filepath.Join(h.Dir, config.DbLocation)
	if err := os.MkdirAll(dbDir, 0o755); err != nil {
		return nil, err
	}
	l := log.New()
	l.SetOutput(log.StandardLogger().Out)
	repo, err := dbbadger.NewRepoManager(dbDir, l)
	if err != nil {
		return nil, fmt.Errorf("opening db: %w", err)
	}
	d.Repo = repo
	ex, err := esplora.NewService("http://explorer.sim", o.Timeout)
	if err != nil {
		repo.Close()
		return nil, err
	}
	d.Explorer = ex
	d.Crawler = crawler.NewService(crawler.Opts{ExplorerSvc: ex, ErrorHandler: func(err error) { log.Warn(err) },
		CrawlerInterval: o.Interval, ExplorerLimit: o.Limit, ExplorerTokenBurst: o.Burst})
	sec, err := boltsecurestore.NewSecureStorage(dbDir, "pubsub.db")
	if err != nil {
		d.Crawler.Stop()
		repo.Close()
		return nil, fmt.Errorf("opening pubsub store: %w", err)
	}
	d.PubSub, err = webhookpubsub.NewWebhookPubSubService(sec, esplora.NewHTTPClient(time.Duration(o.Timeout)*time.Millisecond))
	if err != nil {
		return nil, err
	}
	d.Listener = application.NewBlockchainListener(d.Crawler, repo, d.PubSub, LBTC, net)
	d.TradeS = application.NewTradeService(repo, ex, d.Listener, LBTC, o.Expiry, decimal.NewFromFloat(o.Slippage), net)
	d.OperS = application.NewOperatorService(repo, ex, d.Listener, LBTC, o.MarketsFee, net, o.FeeThreshold)
	d.WalletS, err = application.NewWalletService(repo, ex, d.Listener, net, o.MarketsFee, LBTC)
	if err != nil {
		d.Crawler.Stop()
		repo.Close()
		sec.Close()
		return nil, err
	}
	d.Pass = d.WalletS.PassphraseChan()
	if !h.NoDrain {
		go func() {
			for range d.Pass {
			}
		}()
	}
	d.Trade = grpchandler.NewTraderHandler(d.TradeS)
	d.Oper = grpchandler.NewOperatorHandler(d.OperS)
	d.Wallet = grpchandler.NewWalletHandler(d.WalletS)
	return d, nil
}

func (h *Host) stop(d *Daemon) {
	d.Listener.StopObservation()
	d.PubSub.Store().Close()
	time.Sleep(h.Opts.Interval)
	// what still runs cannot use the database any more
	d.Gen.Closing = rt.Cur()
	d.Repo.Close()
}

// Shutdown stops the daemon the orderly way (cmd/tdexd stop()).
func (h *Host) Shutdown(tag *rt.Tag) {
	d := h.D
	if d == nil {
		return
	}
	h.D = nil
	h.Shutting = true
	defer func() { h.Shutting = false }()
	done := make(chan struct{})
	go func() {
		rt.Set(tag)
		h.StopFn(d)
		close(done)
	}()
	select {
	case <-done:
	case <-h.crashed:
		h.crashed <- struct{}{}
		return
	case <-time.After(5 * time.Minute):
		h.w.Violate(h.Prop, "shutdown-hangs", "an orderly shutdown did not terminate in 5 minutes")
	}
	if !d.Gen.Dead {
		h.w.Tracef("shut down")
		h.Crash()
		h.Crashes--
		h.w.Stat("shutdowns")
	}
}

// ---- gRPC streams without a network -------------------------------------

type fakeStream struct {
	grpc.ServerStream
	ctx context.Context
}

func (f fakeStream) Context() context.Context { return f.ctx }

type proposeStream struct {
	fakeStream
	reply *pbtrade.TradeProposeReply
}

func (s *proposeStream) Send(r *pbtrade.TradeProposeReply) error {
	if s.ctx.Err() != nil {
		return s.ctx.Err()
	}
	s.reply = r
	return nil
}

type completeStream struct {
	fakeStream
	reply *pbtrade.TradeCompleteReply
}

func (s *completeStream) Send(r *pbtrade.TradeCompleteReply) error {
	if s.ctx.Err() != nil {
		return s.ctx.Err()
	}
	s.reply = r
	return nil
}

type initStream struct {
	fakeStream
	replies []*pbw.InitWalletReply
	fail    int // the client goes away after that many replies (0: never)
}

func (s *initStream) Send(r *pbw.InitWalletReply) error {
	if s.ctx.Err() != nil {
		return s.ctx.Err()
	}
	s.replies = append(s.replies, r)
	if s.fail > 0 && len(s.replies) >= s.fail {
		return fmt.Errorf("transport is closing")
	}
	return nil
}

func newNet(w *World) *Net {
	n := &Net{w: w, Chain: NewChain()}
	http.DefaultTransport = n
	return n
}

func sortedInts[V any](m map[int]V) []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
