//go:build go1.22

package verifsim

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/dgrijalva/jwt-go"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	"github.com/tdex-network/tdex-daemon/pkg/circuitbreaker"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
)

// Scenario "hook": webhooks registered, removed, listed and called
// concurrently, with failing endpoints, write errors, crashes and restarts (C18).

func init() { scenarios["hook"] = scenario{gen: genHook, run: runHook} }

type hookX struct{ ps ports.SecurePubSub }

type hookReg struct {
	id, topic, endpoint, secret string
	add                         *cop
	rms                         []*cop
}

type hookPub struct {
	c     *cop
	topic string
	msg   string
	safe  bool // nothing excuses the breaker
}

type hookGot struct {
	r              *hookReg
	endpoint, body string
	seq            uint64
}

type hookW struct {
	*comp
	net    *Net
	regs   []*hookReg
	pubs   []*hookPub
	got    []*hookGot
	failed map[string]bool // endpoint + body
	nfail  map[int]int     // failed requests, by generation
	genEnd map[int]time.Duration
}

var hookTopics = []string{"TRADE_SETTLED", "ACCOUNT_LOW_BALANCE", "ACCOUNT_WITHDRAW", "*"}

func genHook(w *World) {
	c := w.Plan.Cfg
	f := func(k string, v int64) {
		if _, ok := c[k]; !ok {
			c[k] = v
		}
	}
	pick := func(v ...int64) int64 { return v[w.Intn(len(v))] }
	f("ntopic", pick(1, 2, 4, 4))
	f("pswitch", pick(0, 2000, 8000, 20000))
	f("pstall", pick(0, 0, 200, 1000))
	f("stallmax_us", pick(100, 10000, 200000))
	f("lat_us", pick(100, 10000, 500000))
	f("broken", pick(0, 0, 4, 8)) // every n-th endpoint answers with an error
	if w.Chance(1, 2) {
		f("p_bolterr", pick(0, 0, 1000, 5000))
		f("p_http_err", pick(0, 2000, 8000))
		f("p_http_5xx", pick(0, 2000, 8000))
		f("p_http_slow", pick(0, 4000))
		f("p_http_hang", pick(0, 1000))
		f("p_http_lost", pick(0, 2000))
		f("p_http_trunc", pick(0, 2000))
	}
	crash := w.Chance(2, 3)
	if len(w.Plan.Ops) > 0 {
		return
	}
	kinds := []struct {
		k string
		n int
	}{{"sub", 14}, {"unsub", 9}, {"list", 6}, {"pub", 14}, {"crash", 2}, {"shutdown", 1}}
	sum := 0
	for i := range kinds {
		if !crash && (kinds[i].k == "crash" || kinds[i].k == "shutdown") {
			kinds[i].n = 0
		}
		sum += kinds[i].n
	}
	n := 10 + w.Intn(30)
	burst := 1 + w.Intn(6)
	var t int64
	for i := 0; i < n; i++ {
		r, k := w.Intn(sum), ""
		for _, x := range kinds {
			if r < x.n {
				k = x.k
				break
			}
			r -= x.n
		}
		op := Op{T: t, K: k, A: []int64{int64(w.Intn(64)), int64(w.Intn(64)), int64(w.Intn(64)), int64(w.Intn(1 << 16))}}
		if k == "crash" {
			op.A[0] = w.LogRange(100000)
		}
		if crash && w.Chance(1, 8) {
			op.S = fmt.Sprintf("c%d", w.LogRange(200))
		}
		w.Plan.Ops = append(w.Plan.Ops, op)
		if w.Intn(burst) == 0 {
			t += w.LogRange(3000)
		}
	}
}

const hookPass = "hook-passphrase"

func runHook(w *World) {
	s := &hookW{comp: newComp(w, "C18", DaemonOpts{}), net: newNet(w), failed: map[string]bool{}, nfail: map[int]int{}, genEnd: map[int]time.Duration{}}
	s.comp.exec = s.do1
	s.comp.booted = s.afterStart
	circuitbreaker.MaxNumOfFailingRequests = 20
	circuitbreaker.FailingRatio = 0.7
	s.h.WireFn = func(g *rt.Gen) (*Daemon, error) {
		d := &Daemon{Gen: g, Dir: s.h.Dir}
		st, err := boltsecurestore.NewSecureStorage(s.h.Dir, "pubsub.db")
		if err != nil {
			return nil, err
		}
		ps, err := webhookpubsub.NewWebhookPubSubService(st, esplora.NewHTTPClient(15*time.Second))
		if err != nil {
			return nil, err
		}
		d.X = &hookX{ps}
		return d, nil
	}
	s.h.StopFn = func(d *Daemon) {
		s.genEnd[d.Gen.ID] = w.Now()
		d.X.(*hookX).ps.Store().Close()
	}
	oc := s.h.OnCrash
	s.h.OnCrash = func() {
		if _, ok := s.genEnd[w.genN]; !ok {
			s.genEnd[w.genN] = w.Now()
		}
		oc()
	}
	s.net.Hook = s.request
	s.net.HookFail = func(req *http.Request, body string) {
		s.failed[req.URL.String()+" "+body] = true
		if t := rt.Cur(); t != nil && t.Gen != nil {
			s.nfail[t.Gen.ID]++
		}
		w.Stat("hook.failed")
	}
	if err := s.boot(); err != nil {
		w.Violate("C18", "first-start", "%v", err)
		return
	}
	s.run()
	if s.h.D == nil || !s.restart() {
		return
	}
	// calm end: every topic is listed and published once
	time.Sleep(90 * time.Second)
	for i, tp := range hookTopics {
		s.list(&Op{ID: 9990, A: []int64{int64(i)}}, i, tp)
		s.publish(&Op{ID: 9991}, i, tp)
	}
	time.Sleep(60 * time.Second)
	s.check()
}

// afterStart unlocks the store as the daemon does when the wallet is unlocked.
func (s *hookW) afterStart() error {
	var err error
	s.w.Quiet(func() {
		st := s.h.D.X.(*hookX).ps.Store()
		if err = st.Init(hookPass); err == nil {
			err = st.Unlock(hookPass)
		}
	})
	return err
}

func (s *hookW) request(t *rt.Tag, req *http.Request, body string) (int, string) {
	w := s.w
	w.seq++
	ep := req.URL.String()
	g := &hookGot{endpoint: ep, body: body, seq: w.seq}
	s.got = append(s.got, g)
	w.Stat("hook.requests")
	w.Tracef("request %s %s", ep, short80(body))
	auth := req.Header.Get("Authorization")
	// several hooks can have one endpoint: the secret tells which one is called
	var r, open, secured *hookReg
	var bad error
	for _, x := range s.regs {
		if x.endpoint != ep {
			continue
		}
		if x.secret == "" {
			open = x
			continue
		}
		secured = x
		tok, err := jwt.Parse(strings.TrimPrefix(auth, "Bearer "), func(*jwt.Token) (interface{}, error) { return []byte(x.secret), nil })
		if strings.HasPrefix(auth, "Bearer ") && err == nil && tok.Valid {
			r = x
		} else {
			bad = err
		}
	}
	if open == nil && secured == nil {
		w.Violate("C18", "unknown-endpoint", "a request is sent to %s, which was never registered", ep)
		return 404, ""
	}
	if req.Method != "POST" {
		w.Violate("C18", "not-a-post", "the event is sent with %s", req.Method)
	}
	switch {
	case r != nil:
		w.Stat("hook.secured")
	case open != nil && (auth == "" || secured == nil):
		r = open
		if auth != "" {
			w.Violate("C18", "needless-authorization", "a request to the hook %s without secret carries %q", ep, auth)
		}
	default:
		r = secured
		w.Violate("C18", "not-authenticated", "the request to the secured hook %s carries %q: %v", ep, auth, bad)
	}
	g.r = r
	if b := w.Cfg("broken"); b > 0 && strings.HasSuffix(ep, "/broken") {
		return 500, "broken"
	}
	return 200, "ok"
}

func (s *hookW) topic(op *Op) string {
	n := int(s.w.Cfg("ntopic"))
	i := int(op.Arg(0)) % (n + 1)
	if i == n { // all topics
		i = 3
	}
	return hookTopics[i]
}

func (s *hookW) do1(op *Op) {
	w := s.w
	switch op.K {
	case "sub":
		r := &hookReg{topic: s.topic(op), endpoint: fmt.Sprintf("http://hook%d.sim/x?y=%d", op.ID, op.Arg(3))}
		if b := w.Cfg("broken"); b > 0 && int64(op.ID)%b == 0 {
			r.endpoint = fmt.Sprintf("http://hook%d.sim/broken", op.ID)
		}
		if op.Arg(1)%2 == 0 {
			r.secret = fmt.Sprintf("secret-%d-%d", op.ID, op.Arg(3))
		}
		if op.Arg(3)%3 == 0 && len(s.regs) > 0 {
			// a second hook for an endpoint that has one
			x := s.regs[int(op.Arg(2))%len(s.regs)]
			r.endpoint = x.endpoint
			for _, y := range s.regs {
				if y.endpoint == x.endpoint && y.secret == "" {
					r.secret = fmt.Sprintf("secret-%d-%d", op.ID, op.Arg(3))
				}
			}
			w.Stat("hook.shared-endpoint")
		}
		r.add = &cop{} // called from now on
		s.regs = append(s.regs, r)
		var id string
		w.seq++
		r.add.inv = w.seq
		c := s.do(op, 0, "subscribe", func(ctx context.Context, d *Daemon) (err error) {
			id, err = d.X.(*hookX).ps.Subscribe(r.topic, r.endpoint, r.secret)
			return err
		})
		if c == nil {
			r.add.done, r.add.err = true, fmt.Errorf("down")
			return
		}
		r.add = c
		if c.done && c.err == nil {
			r.id = id
		}
		s.unexpected(c, "subscribe")
	case "unsub":
		var l []*hookReg
		for _, r := range s.regs {
			if r.id != "" {
				l = append(l, r)
			}
		}
		if len(l) == 0 {
			return
		}
		r := l[int(op.Arg(1))%len(l)]
		if op.Arg(2)%3 != 0 { // mostly one still registered
			for _, x := range l {
				if len(x.rms) == 0 {
					r = x
					break
				}
			}
		}
		p := &cop{inv: w.seq, ret: ^uint64(0)}
		r.rms = append(r.rms, p)
		c := s.do(op, 0, "unsubscribe", func(ctx context.Context, d *Daemon) error {
			return d.X.(*hookX).ps.Unsubscribe(r.topic, r.id)
		})
		if c == nil {
			p.inv, p.ret, p.done, p.err = 0, 0, true, fmt.Errorf("down")
			return
		}
		*p = *c
		s.unexpected(c, "unsubscribe")
	case "list":
		s.list(op, 0, s.topic(op))
	case "pub":
		s.publish(op, 0, s.topic(op))
	}
}

func (s *hookW) unexpected(c *cop, name string) {
	if c == nil || !c.done || c.err == nil {
		return
	}
	if e := c.err.Error(); strings.Contains(e, "simulated") || strings.Contains(e, "not open") || strings.Contains(e, "locked") && s.stopped(c) {
		return
	}
	s.w.Violate("C18", "fails-"+name, "%s fails although nothing went wrong: %v", name, c.err)
}

func (s *hookW) stopped(c *cop) bool { _, ok := s.genEnd[c.gen]; return ok }

func (s *hookW) publish(op *Op, step int, topic string) {
	p := &hookPub{topic: topic, msg: fmt.Sprintf(`{"event":"%d.%d","n":%d}`, op.ID, step, op.Arg(3))}
	s.pubs = append(s.pubs, p)
	p.c = s.do(op, step, "publish", func(ctx context.Context, d *Daemon) error {
		return d.X.(*hookX).ps.Publish(topic, p.msg)
	})
	if p.c == nil || !p.c.done {
		return
	}
	// so few failures can not have opened the circuit breaker
	p.safe = s.nfail[p.c.gen] < 15
	if p.c.err != nil && s.nfail[p.c.gen] == 0 && !s.stopped(p.c) {
		s.w.Violate("C18", "fails-publish", "publishing fails although nothing went wrong: %v", p.c.err)
	}
}

// state of a registration during [inv, ret]: -1 surely absent, 1 surely
// present, 0 perhaps.
func (r *hookReg) state(inv, ret uint64) int {
	if r.add.done && r.add.err != nil {
		return -1
	}
	for _, c := range r.rms {
		if c.done && c.err == nil && c.ret < inv {
			return -1
		}
	}
	if r.add.inv > ret {
		return -1
	}
	if !r.add.done || r.add.err != nil || r.add.ret > inv {
		return 0
	}
	for _, c := range r.rms {
		if c.inv < ret && !(c.done && c.err != nil && c.ret == 0) {
			return 0
		}
	}
	return 1
}

func (s *hookW) list(op *Op, step int, topic string) {
	w := s.w
	var subs []ports.Subscription
	c := s.do(op, step, "list", func(ctx context.Context, d *Daemon) error {
		subs = d.X.(*hookX).ps.ListSubscriptionsForTopic(topic)
		return nil
	})
	if c == nil || !c.done || s.stopped(c) {
		return
	}
	seen := map[string]bool{}
	for _, x := range subs {
		if seen[x.Id()] {
			w.Violate("C18", "listed-twice", "the hook for %s is listed twice for %s", x.NotifyAt(), topic)
		}
		seen[x.Id()] = true
		var r *hookReg
		for _, y := range s.regs {
			if y.endpoint != x.NotifyAt() {
				continue
			}
			if y.id == x.Id() {
				r = y
				break
			}
			if y.id == "" && (r == nil || y.topic == x.Topic().Label() && x.IsSecured() == (y.secret != "")) {
				r = y
			}
		}
		if r == nil {
			w.Violate("C18", "unknown-listed", "a hook for %s is listed and was never registered", x.NotifyAt())
			continue
		}
		if r.topic != topic && r.topic != "*" || x.Topic().Label() != r.topic {
			w.Violate("C18", "listed-for-other-topic", "the hook for %s, registered for %s, is listed for %s as %s", r.endpoint, r.topic, topic, x.Topic().Label())
		}
		if r.state(c.inv, c.ret) < 0 {
			w.Violate("C18", "listed-though-removed", "the hook for %s is listed after its removal was acknowledged", r.endpoint)
		}
		if x.IsSecured() != (r.secret != "") {
			w.Violate("C18", "listed-wrong", "the hook for %s is listed with secured %v", r.endpoint, x.IsSecured())
		}
	}
	for _, r := range s.regs {
		if (r.topic == topic || r.topic == "*") && r.id != "" && r.state(c.inv, c.ret) > 0 && !seen[r.id] {
			w.Violate("C18", "not-listed", "the hook for %s, registered for %s, is not listed for %s", r.endpoint, r.topic, topic)
		}
	}
	w.Stat("lists.checked")
}

func (s *hookW) check() {
	w := s.w
	type to struct {
		r    *hookReg
		body string
	}
	by := map[to][]*hookGot{}
	for _, g := range s.got {
		by[to{g.r, g.body}] = append(by[to{g.r, g.body}], g)
	}
	msgs := map[string]*hookPub{}
	for _, p := range s.pubs {
		msgs[p.msg] = p
	}
	for _, g := range s.got {
		if msgs[g.body] == nil {
			w.Violate("C18", "wrong-message", "%s received %q, which was not published", g.endpoint, g.body)
		}
	}
	for _, p := range s.pubs {
		if p.c == nil {
			continue
		}
		for _, r := range s.regs {
			g := by[to{r, p.msg}]
			match := r.topic == p.topic || r.topic == "*"
			if len(g) > 1 {
				w.Violate("C18", "called-twice", "%s is called %d times for one event", r.endpoint, len(g))
			}
			if len(g) > 0 && !match {
				w.Violate("C18", "wrong-topic", "the hook for %s, registered for %s, is called for %s", r.endpoint, r.topic, p.topic)
			}
			st := r.state(p.c.inv, p.c.ret)
			if len(g) > 0 && st < 0 && p.c.done {
				w.Violate("C18", "called-though-removed", "the hook for %s is called for an event published after its removal was acknowledged", r.endpoint)
			}
			end, over := s.genEnd[p.c.gen]
			if !match || len(g) > 0 || st <= 0 || !p.c.done || s.failed[r.endpoint+" "+p.msg] || over && end < p.c.retT+40*time.Second {
				continue
			}
			if !p.safe {
				w.Stat("hook.breaker-excuse")
				continue
			}
			w.Violate("C18", "not-called", "the hook for %s, registered for %s, is not called for an event of %s", r.endpoint, r.topic, p.topic)
		}
		w.Stat("pubs.checked")
	}
	w.State("hook", fmt.Sprint(len(s.regs)), fmt.Sprint(len(s.pubs)), fmt.Sprint(len(s.got)))
}
