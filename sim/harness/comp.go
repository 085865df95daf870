//go:build go1.22

package verifsim

import (
	"context"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
)

// comp runs scenarios around one component: operations on their own
// goroutines, crashes, restarts, and a calm end.
type comp struct {
	w        *World
	h        *Host
	prop     string
	down     chan struct{}
	inflight int
	ended    bool
	supDone  chan struct{}
	exec     func(op *Op)
	booted   func() error // after each start, on the main goroutine
	hang     time.Duration
	bootTol  func() bool // a failing start is excusable right now
}

// cop is one request to the component.
type cop struct {
	op       *Op
	tag      string
	gen      int
	inv, ret uint64
	invT     time.Duration
	retT     time.Duration
	done     bool // answered (before any crash)
	cancel   bool
	err      error
}

func newComp(w *World, prop string, o DaemonOpts) *comp {
	s := &comp{w: w, prop: prop, down: make(chan struct{}), supDone: make(chan struct{}), hang: 20 * time.Minute}
	w.HangProp = prop
	s.h = NewHost(w, o)
	s.h.Prop = prop
	s.h.OnCrash = func() {
		close(s.down)
		s.down = make(chan struct{})
	}
	return s
}

// do makes one request; nil if the component is down.
func (s *comp) do(op *Op, step int, name string, f func(ctx context.Context, d *Daemon) error) *cop {
	d, w := s.h.D, s.w
	if d == nil {
		return nil
	}
	w.seq++
	c := &cop{op: op, tag: fmt.Sprintf("op%d.%d", op.ID, step), gen: d.Gen.ID, inv: w.seq, invT: w.Now()}
	tag := w.Tag(c.tag)
	if strings.HasPrefix(op.S, "c") && step == 0 && w.FaultsOn {
		tag.CrashAt, _ = strconv.ParseUint(op.S[1:], 10, 64)
	}
	ctx, cancel := context.WithCancel(context.Background())
	if strings.HasPrefix(op.S, "x") && step == 0 && w.FaultsOn && w.deviate(c.tag+"/client", "client-cancel") {
		us, _ := strconv.ParseInt(op.S[1:], 10, 64)
		w.Go("cancel", func() {
			time.Sleep(time.Duration(us) * time.Microsecond)
			if !c.done {
				c.cancel = true
			}
			cancel()
		})
	}
	w.Stat("api." + name)
	w.Tracef("-> %s %s", c.tag, name)
	done := make(chan error, 1)
	down := s.down
	s.inflight++
	go func() {
		rt.Set(tag)
		err := f(ctx, d)
		rt.Live()
		cancel()
		done <- err
	}()
	tm := time.NewTimer(s.hang)
	defer tm.Stop()
	select {
	case c.err = <-done:
		c.done = !d.Gen.Dead
	case <-down:
	case <-tm.C:
		w.Violate(s.prop, "hang-"+name, "%s (%s) got no answer in %v", c.tag, name, s.hang)
		<-down
	}
	s.inflight--
	w.seq++
	c.ret, c.retT = w.seq, w.Now()
	if c.done {
		es := "ok"
		if c.err != nil {
			es = c.err.Error()
			w.Stat("err." + name)
		} else {
			w.Stat("ok." + name)
		}
		// how a library puts that it can't decode random bytes depends on these
		for _, m := range []string{"cannot retrieve macaroon", "unmarshal v2"} {
			if i := strings.Index(es, m); i >= 0 {
				es = es[:i+len(m)]
			}
		}
		w.Tracef("<- %s %s: %s", c.tag, name, short80(es))
	} else {
		w.Tracef("<- %s %s: lost", c.tag, name)
	}
	return c
}

func (s *comp) boot() error {
	for s.h.Shutting {
		time.Sleep(100 * time.Millisecond)
	}
	err := s.h.Boot()
	if err != nil {
		s.w.Tracef("start failed: %v", err)
		s.w.Stat("boot.failed")
		return err
	}
	s.w.Tracef("started generation %d", s.h.D.Gen.ID)
	if s.booted != nil {
		return s.booted()
	}
	return nil
}

func (s *comp) supervise() {
	w := s.w
	defer close(s.supDone)
	r := rt.HashString(w.Seed, "supervise")
	for !s.ended {
		if s.h.D != nil {
			dn := s.down
			select {
			case <-dn:
			case <-time.After(time.Second):
			}
			continue
		}
		time.Sleep(time.Duration(1<<(rt.Next(&r)%8)) * 20 * time.Millisecond)
		for s.h.D == nil && !s.ended {
			k := len(w.devs)
			if err := s.boot(); err != nil {
				if len(w.devs) == k && !strings.Contains(err.Error(), "crashed") && (s.bootTol == nil || !s.bootTol()) {
					w.Violate(s.prop, "start-fails", "it does not start on its own data directory: %v", err)
				}
				time.Sleep(3 * time.Second)
			}
		}
	}
}

// run executes the operations of the plan, with faults, then waits for all of
// them and restarts once more without faults.
func (s *comp) run() {
	w := s.w
	w.FaultsOn = true
	go s.goSupervise()
	start := w.Now()
	left := len(w.Plan.Ops)
	doneCh := make(chan struct{}, left+1)
	for i := range w.Plan.Ops {
		op := &w.Plan.Ops[i]
		go func() {
			rt.Set(&rt.Tag{Name: fmt.Sprintf("driver%d", op.ID), Quiet: true, FN: map[string]uint64{}})
			if d := time.Duration(op.T)*time.Millisecond - (w.Now() - start); d > 0 {
				time.Sleep(d)
			}
			switch op.K {
			case "crash":
				time.Sleep(time.Duration(op.Arg(0)) * time.Microsecond)
				if s.h.D != nil && w.FaultsOn && w.deviate(fmt.Sprintf("op%d/crash", op.ID), "crash") {
					w.Tracef("killed")
					s.h.Crash()
				}
			case "shutdown":
				s.h.Shutdown(w.Tag(fmt.Sprintf("op%d.stop", op.ID)))
			default:
				s.exec(op)
			}
			doneCh <- struct{}{}
		}()
	}
	for ; left > 0; left-- {
		<-doneCh
	}
	s.ended = true
	<-s.supDone
	w.FaultsOn = false
	for i := 0; s.h.D == nil; i++ {
		if err := s.boot(); err != nil {
			if i > 3 {
				w.Violate(s.prop, "start-fails", "it does not start on its own data directory although faults have stopped: %v", err)
				return
			}
			time.Sleep(5 * time.Second)
		}
	}
}

func (s *comp) goSupervise() {
	rt.Set(&rt.Tag{Name: "supervisor", Quiet: true, FN: map[string]uint64{}})
	s.supervise()
}

// restart stops and starts the component without faults.
func (s *comp) restart() bool {
	s.h.Shutdown(s.w.Tag("final.stop"))
	for i := 0; i < 5 && s.h.D == nil; i++ {
		if err := s.boot(); err == nil {
			return true
		} else if i == 4 {
			s.w.Violate(s.prop, "start-fails", "it does not start after an orderly stop: %v", err)
		}
		time.Sleep(5 * time.Second)
	}
	return s.h.D != nil
}

// ---- linearizability ----------------------------------------------------

// lop is one operation of a history: it may take effect between inv and ret;
// opt tells that it may also not have happened at all.
type lop struct {
	name     string
	inv, ret uint64
	opt      bool
	apply    func(st string) (string, bool)
}

// linearizable searches an order of the operations that respects real time
// and in which every answer is the one of the sequential object. It returns
// false and the longest prefix found otherwise; undecided after a bound.
func linearizable(ops []*lop, init string) (ok, decided bool, why string) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	n, need := len(ops), 0
	for _, o := range ops {
		if !o.opt {
			need++
		}
	}
	words := (n + 63) / 64
	done := make([]uint64, words)
	seen := map[string]bool{}
	steps := 0
	best, bestLeft := -1, ""
	var rec func(st string, left int) int // 1 ok, 0 no, -1 undecided
	rec = func(st string, left int) int {
		if left == 0 {
			return 1
		}
		steps++
		if steps > 400000 {
			return -1
		}
		var kb strings.Builder
		for _, x := range done {
			kb.WriteString(strconv.FormatUint(x, 36))
			kb.WriteByte('.')
		}
		kb.WriteString(st)
		k := kb.String()
		if seen[k] {
			return 0
		}
		seen[k] = true
		// the earliest return among pending operations bounds the candidates
		minRet := ^uint64(0)
		for i, o := range ops {
			if done[i/64]&(1<<uint(i%64)) == 0 && !o.opt && o.ret < minRet {
				minRet = o.ret
			}
		}
		if need-left > best {
			best = need - left
			var p []string
			for i, o := range ops {
				if done[i/64]&(1<<uint(i%64)) == 0 && o.inv <= minRet {
					p = append(p, o.name)
				}
			}
			if len(p) > 6 {
				p = p[:6]
			}
			bestLeft = "state " + st + ", next " + strings.Join(p, "; ")
		}
		for i, o := range ops {
			if done[i/64]&(1<<uint(i%64)) != 0 {
				continue
			}
			if o.inv > minRet {
				break
			}
			ns, can := o.apply(st)
			if !can || o.opt && (ns == st || tooLate(ops, done, o)) {
				continue
			}
			done[i/64] |= 1 << uint(i%64)
			l := left
			if !o.opt {
				l--
			}
			r := rec(ns, l)
			done[i/64] &^= 1 << uint(i%64)
			if r != 0 {
				return r
			}
		}
		return 0
	}
	r := rec(init, need)
	return r == 1, r >= 0, bestLeft
}

// tooLate: an operation whose end is known (a crash) cannot take effect after
// an operation that began later than that end has.
func tooLate(ops []*lop, done []uint64, o *lop) bool {
	for i, p := range ops {
		if done[i/64]&(1<<uint(i%64)) != 0 && p.inv > o.ret {
			return true
		}
	}
	return false
}
