//go:build go1.22

package verifsim

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/tdex-network/tdex-daemon/pkg/circuitbreaker"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
)

// Scenario "crawl": the crawler with observables added and removed from
// several threads, a slow or failing explorer and slow consumers (C20).

func init() { scenarios["crawl"] = scenario{gen: genCrawl, run: runCrawl} }

type crawlX struct {
	svc      crawler.Service
	consumed chan struct{} // closed when the consumer saw the end
	stopInv  uint64
	stopRet  uint64
}

// crawlQ is one query the explorer received.
type crawlQ struct {
	key      string
	hex      bool
	gen      int
	inv, ret uint64
	at       time.Duration
	ok       bool
	answer   string // unique
	events   int
}

type crawlAdd struct {
	add      bool
	key      string
	gen      int
	inv, ret uint64
}

type crawlW struct {
	*comp
	explorer.Service
	rng     uint64
	keys    []string
	addr    map[string]bool
	ops     []*crawlAdd
	qs      []*crawlQ
	open    map[string]int // queries in flight
	errs    int
	byAns   map[string]*crawlQ
	nans    int
	calm    bool
	crashed map[int]bool
}

func genCrawl(w *World) {
	c := w.Plan.Cfg
	f := func(k string, v int64) {
		if _, ok := c[k]; !ok {
			c[k] = v
		}
	}
	pick := func(v ...int64) int64 { return v[w.Intn(len(v))] }
	f("nkeys", pick(1, 2, 4, 12))
	f("interval_ms", pick(50, 500, 1000, 5000))
	f("limit", pick(10, 10, 100, 2))
	f("burst", pick(1, 1, 5))
	f("lat_us", pick(100, 20000, 400000, 8000000))
	f("slowcons_ms", pick(0, 0, 10, 1000))
	f("pswitch", pick(0, 2000, 8000, 20000))
	f("pstall", pick(0, 0, 200, 1000))
	f("stallmax_us", pick(100, 10000, 500000))
	if w.Chance(2, 3) {
		f("p_xerr", pick(0, 3000, 20000, 60000))
		f("p_xhang", pick(0, 0, 2000))
	}
	if len(w.Plan.Ops) > 0 {
		return
	}
	restart := w.Chance(1, 2)
	kinds := []struct {
		k string
		n int
	}{{"add", 14}, {"rm", 8}, {"obs", 5}, {"crash", 1}, {"shutdown", 2}}
	sum := 0
	for i := range kinds {
		if !restart && (kinds[i].k == "crash" || kinds[i].k == "shutdown") {
			kinds[i].n = 0
		}
		sum += kinds[i].n
	}
	n := 6 + w.Intn(30)
	burst := 1 + w.Intn(6)
	var t int64
	for i := 0; i < n; i++ {
		r, k := w.Intn(sum), ""
		for _, x := range kinds {
			if r < x.n {
				k = x.k
				break
			}
			r -= x.n
		}
		op := Op{T: t, K: k, A: []int64{int64(w.Intn(64)), int64(w.Intn(64)), int64(w.Intn(64)), int64(w.Intn(1 << 16))}}
		if k == "crash" {
			op.A[0] = w.LogRange(100000)
		}
		w.Plan.Ops = append(w.Plan.Ops, op)
		if w.Intn(burst) == 0 {
			t += w.LogRange(8000)
		}
	}
}

func runCrawl(w *World) {
	s := &crawlW{comp: newComp(w, "C20", DaemonOpts{}), rng: rt.HashString(w.Seed, "explorer"), addr: map[string]bool{}, open: map[string]int{}, crashed: map[int]bool{}, byAns: map[string]*crawlQ{}}
	s.comp.exec = s.do1
	circuitbreaker.MaxNumOfFailingRequests = 20
	circuitbreaker.FailingRatio = 0.7
	for i := 0; i < int(w.Cfg("nkeys")); i++ {
		k := fmt.Sprintf("tx%02d%s", i, strings.Repeat("0", 60))
		if i%2 == 1 {
			k = fmt.Sprintf("el1address%02d", i)
			s.addr[k] = true
		}
		s.keys = append(s.keys, k)
	}
	s.h.WireFn = func(g *rt.Gen) (*Daemon, error) {
		d := &Daemon{Gen: g, Dir: s.h.Dir}
		x := &crawlX{consumed: make(chan struct{})}
		x.svc = crawler.NewService(crawler.Opts{ExplorerSvc: s, CrawlerInterval: time.Duration(w.Cfg("interval_ms")) * time.Millisecond,
			ExplorerLimit: int(w.Cfg("limit")), ExplorerTokenBurst: int(w.Cfg("burst")), ErrorHandler: func(err error) { s.errs++ }})
		d.X = x
		go x.svc.Start()
		tag := w.Tag(fmt.Sprintf("consumer%d", g.ID))
		go func() {
			rt.Set(tag)
			s.consume(g, x)
		}()
		return d, nil
	}
	s.h.StopFn = func(d *Daemon) {
		x := d.X.(*crawlX)
		w.seq++
		x.stopInv = w.seq
		for _, k := range s.keys { // a stop removes everything
			s.ops = append(s.ops, &crawlAdd{key: k, gen: d.Gen.ID, inv: w.seq, ret: ^uint64(0)})
		}
		n := len(s.ops)
		x.svc.Stop()
		w.seq++
		x.stopRet = w.seq
		for _, o := range s.ops[n-len(s.keys) : n] {
			o.ret = w.seq
		}
		w.Tracef("stopped")
		s.leaks(d)
	}
	oc := s.h.OnCrash
	s.h.OnCrash = func() {
		s.crashed[w.genN] = true
		oc()
	}
	if err := s.boot(); err != nil {
		w.Violate("C20", "first-start", "%v", err)
		return
	}
	s.run()
	if s.h.D == nil {
		return
	}
	// calm end: everything observed is queried and reported
	s.calm = true
	s.liveness()
	s.h.Shutdown(w.Tag("final.stop"))
	s.check()
}

// leaks: after a stop nothing is queried nor runs any more.
func (s *crawlW) leaks(d *Daemon) {
	x := d.X.(*crawlX)
	select {
	case <-x.consumed:
	case <-time.After(5 * time.Minute):
		s.w.Violate("C20", "no-close", "5 minutes after a stop its consumer was not told")
		return
	}
}

func (s *crawlW) consume(g *rt.Gen, x *crawlX) {
	w := s.w
	defer close(x.consumed)
	for e := range x.svc.GetEventChannel() {
		w.seq++
		if e.Type() == crawler.CloseSignal {
			if x.stopInv == 0 {
				w.Violate("C20", "unasked-close", "the end of the events is announced and the crawler was not stopped")
			}
			return
		}
		key, ans := "", ""
		confirmed := e.Type() == crawler.TransactionConfirmed
		switch ev := e.(type) {
		case crawler.AddressEvent:
			key = ev.Address
			if len(ev.Utxos) == 1 {
				ans = ev.Utxos[0].Hash()
			}
			want := crawler.MarketAccountDeposit
			if ev.AccountIndex == 0 {
				want = crawler.FeeAccountDeposit
			}
			if ev.EventType != want || ev.AccountIndex != acctOf(key) {
				w.Violate("C20", "wrong-event", "an event of type %v and account %d is reported for %s of account %d", ev.EventType, ev.AccountIndex, key, acctOf(key))
			}
		case crawler.TransactionEvent:
			key, ans = ev.TxID, ev.BlockHash
			if ev.TxHex != "" && ev.TxHex != "hex-"+key {
				w.Violate("C20", "wrong-event", "the event of %s carries the transaction %q", key, ev.TxHex)
			}
		}
		q := s.byAns[ans]
		w.Stat("events")
		if q == nil || q.key != key || q.gen != g.ID {
			w.Violate("C20", "untold-event", "an event for %s reports %q, which the explorer did not say about it", key, ans)
			continue
		}
		if !s.addr[key] && confirmed != (q.answer[len(q.answer)-1]%2 == 0) {
			w.Violate("C20", "wrong-status", "%s is reported as confirmed=%v and the explorer said otherwise", key, confirmed)
		}
		q.events++
		if q.events > 1 {
			w.Violate("C20", "reported-twice", "one answer about %s is reported %d times", key, q.events)
		}
		if ms := w.Cfg("slowcons_ms"); ms > 0 && !s.calm {
			time.Sleep(time.Duration(ms) * time.Millisecond)
		}
	}
}

func acctOf(key string) int {
	if strings.HasSuffix(key, "3") {
		return 0
	}
	return 5
}

// ---- the explorer ----------------------------------------------------------

type crawlUtxo struct {
	explorer.Utxo
	id string
}

func (u crawlUtxo) Hash() string { return u.id }

func (s *crawlW) query(key string, hex bool) (*crawlQ, error) {
	w := s.w
	t := rt.Cur()
	w.seq++
	q := &crawlQ{key: key, hex: hex, inv: w.seq, at: w.Now()}
	if t != nil && t.Gen != nil {
		q.gen = t.Gen.ID
	}
	s.qs = append(s.qs, q)
	w.Stat("queries")
	w.Tracef("query %s %v", short(key), hex)
	if !hex {
		k := fmt.Sprintf("%d/%s", q.gen, key)
		s.open[k]++
		if s.open[k] > 1 && !s.maybeRemoved(q.gen, key) {
			w.Violate("C20", "observed-twice", "%s is queried twice at the same time", key)
		}
		defer func() { s.open[k]-- }()
	}
	time.Sleep(time.Duration(rt.Next(&s.rng)%uint64(w.Cfg("lat_us"))+1) * time.Microsecond)
	rt.Live()
	if w.Draw(t, "explorer", w.Cfg("p_xhang"), "explorer-hang") {
		time.Sleep(15 * time.Second)
		rt.Live()
		q.ret = w.seq
		return q, fmt.Errorf("timeout")
	}
	if w.Draw(t, "explorer", w.Cfg("p_xerr"), "explorer-error") {
		w.seq++
		q.ret = w.seq
		return q, fmt.Errorf("explorer error")
	}
	w.seq++
	q.ret, q.ok = w.seq, true
	s.nans++
	q.answer = fmt.Sprintf("answer-%s-%d", key[:4], s.nans)
	s.byAns[q.answer] = q
	return q, nil
}

// maybeRemoved: the key was removed at some time, so that two observers may
// overlap.
func (s *crawlW) maybeRemoved(gen int, key string) bool {
	for _, o := range s.ops {
		if !o.add && o.key == key && o.gen == gen {
			return true
		}
	}
	return false
}

func (s *crawlW) GetUnspents(addr string, keys [][]byte) ([]explorer.Utxo, error) {
	if len(keys) != 1 || string(keys[0]) != "blind-"+addr {
		s.w.Violate("C20", "wrong-key", "%s is queried with the blinding keys %q", addr, keys)
	}
	q, err := s.query(addr, false)
	if err != nil {
		return nil, err
	}
	return []explorer.Utxo{crawlUtxo{id: q.answer}}, nil
}

func (s *crawlW) GetTransactionStatus(txid string) (map[string]interface{}, error) {
	q, err := s.query(txid, false)
	if err != nil {
		return nil, err
	}
	conf := q.answer[len(q.answer)-1]%2 == 0
	return map[string]interface{}{"confirmed": conf, "block_hash": q.answer, "block_time": float64(1)}, nil
}

func (s *crawlW) GetTransactionHex(txid string) (string, error) {
	q, err := s.query(txid, true)
	if err != nil {
		return "", err
	}
	q.answer = ""
	return "hex-" + txid, nil
}

// ---- operations --------------------------------------------------------------

func (s *crawlW) observable(key string) crawler.Observable {
	if s.addr[key] {
		return crawler.NewAddressObservable(acctOf(key), key, []byte("blind-"+key))
	}
	return crawler.NewTransactionObservable(key)
}

func (s *crawlW) do1(op *Op) {
	w := s.w
	d := s.h.D
	if d == nil {
		return
	}
	key := s.keys[int(op.Arg(0))%len(s.keys)]
	switch op.K {
	case "add", "rm":
		w.seq++
		o := &crawlAdd{add: op.K == "add", key: key, gen: d.Gen.ID, inv: w.seq, ret: ^uint64(0)}
		s.ops = append(s.ops, o)
		c := s.do(op, 0, map[string]string{"add": "add", "rm": "remove"}[op.K], func(ctx context.Context, d *Daemon) error {
			x := d.X.(*crawlX)
			if op.K == "add" {
				x.svc.AddObservable(s.observable(key))
			} else {
				x.svc.RemoveObservable(s.observable(key))
			}
			return nil
		})
		if c != nil && c.done {
			o.ret = c.ret
		}
	case "obs":
		var ks []string
		for i, k := range s.keys {
			if op.Arg(1)>>uint(i)&1 == 1 {
				ks = append(ks, k)
			}
		}
		var is bool
		x := d.X.(*crawlX)
		c := s.do(op, 0, "is-observing", func(ctx context.Context, d *Daemon) error {
			is = d.X.(*crawlX).svc.IsObservingAddresses(ks)
			return nil
		})
		if c == nil || !c.done || x.stopInv != 0 {
			return
		}
		all, none := true, len(ks) == 0
		for _, k := range ks {
			switch s.state(c.gen, k, c.inv, c.ret) {
			case 0:
				all = false
			case -1:
				all, none = false, true
			}
		}
		if all && len(ks) > 0 && !is || none && is {
			w.Violate("C20", "wrong-observing", "IsObservingAddresses(%d of %d) is %v", len(ks), len(s.keys), is)
		}
		w.Stat("observing.checked")
	}
}

// state of a key during [inv, ret]: 1 surely observed, -1 surely not, 0 perhaps.
func (s *crawlW) state(gen int, key string, inv, ret uint64) int {
	// candidates for the last operation before the interval, and those that overlap it
	var lastInv uint64
	any := false
	for _, o := range s.ops {
		if o.gen == gen && o.key == key && o.ret < inv {
			any = true
			if o.inv > lastInv {
				lastInv = o.inv
			}
		}
	}
	pos, neg := false, !any
	for _, o := range s.ops {
		if o.gen != gen || o.key != key || o.inv > ret {
			continue
		}
		if o.ret >= lastInv { // not surely overwritten
			if o.add {
				pos = true
			} else {
				neg = true
			}
		}
	}
	switch {
	case pos && !neg:
		return 1
	case neg && !pos:
		return -1
	}
	return 0
}

func (s *crawlW) liveness() {
	w := s.w
	d := s.h.D
	gen := d.Gen.ID
	n := len(s.qs)
	iv := time.Duration(w.Cfg("interval_ms")) * time.Millisecond
	lat := time.Duration(w.Cfg("lat_us")) * time.Microsecond
	// a circuit breaker stays open for a minute; then the queue drains
	bound := 65*time.Second + 6*(iv+2*lat) + time.Duration(len(s.keys)*20/int(w.Cfg("limit"))+1)*time.Second
	time.Sleep(bound + 20*time.Second)
	seq := w.seq
	for _, k := range s.keys {
		if s.state(gen, k, seq, seq) <= 0 {
			continue
		}
		cnt, rep := 0, 0
		for _, q := range s.qs[n:] {
			if q.key == k && !q.hex && q.gen == gen {
				cnt++
				rep += q.events
			}
		}
		if cnt < 2 {
			w.Violate("C20", "forgotten", "%s is observed and was queried %d times in %v without faults", k, cnt, bound)
		} else if rep < 1 {
			w.Violate("C20", "not-reported", "%s is observed; it was queried %d times in %v without faults and nothing is reported", k, cnt, bound)
		}
		w.Stat("liveness.checked")
	}
}

func (s *crawlW) check() {
	w := s.w
	for _, k := range s.keys {
		gens := map[int]bool{}
		for _, q := range s.qs {
			if q.key == k {
				gens[q.gen] = true
			}
		}
		for g := range gens {
			// by removal: primary queries that start while it is surely not
			// observed; one may be under way
			after := map[uint64]int{}
			for _, q := range s.qs {
				if q.key != k || q.gen != g || q.hex {
					continue
				}
				switch s.state(g, k, q.inv, q.inv) {
				case -1:
					var last uint64
					for _, o := range s.ops {
						if o.gen == g && o.key == k && o.ret < q.inv && o.ret > last {
							last = o.ret
						}
					}
					after[last]++
					if last == 0 {
						w.Violate("C20", "queried-unasked", "%s is queried and was never added", k)
					} else if after[last] > 1 {
						w.Violate("C20", "queried-after-removal", "%s is queried %d times after its removal", k, after[last])
					}
				case 1:
					// what the explorer said is reported unless it was removed meanwhile
					if q.ok && q.events == 0 && q.ret != 0 && !s.crashed[g] && s.state(g, k, q.inv, ^uint64(0)>>1) == 1 {
						w.Violate("C20", "not-reported", "an answer about %s is not reported", k)
					}
				}
				w.Stat("queries.checked")
			}
		}
	}
	w.State("crawl", fmt.Sprint(len(s.ops)), fmt.Sprint(len(s.qs)))
}
