//go:build go1.22

package verifsim

import (
	"fmt"
	"sort"
	"strings"
)

// Linearizability of the settings of a market (Wing & Gong with memoisation).
// The percentage and fixed fees, the strategy and the open flag are one
// object; the price, kept in a store of its own, is another.

type setState struct {
	exists, open bool
	bp, fb, fq   int64
	pluggable    bool
	pb, pq       int64
	acct         int64
}

type setop struct {
	kind string // open, close, fee, fixed, price, strategy, drop, create, read, readfee
	a, b int64
	st   setState
	c    *call
	m    int
}

func (o *setop) String() string {
	r := "lost"
	if o.c.done {
		r = "ok"
		if o.c.err != nil {
			r = "refused"
		}
	}
	s := fmt.Sprintf("%s %s[%d..%d] %d %d %s", o.c.tag, o.kind, o.c.inv, o.c.ret, o.a, o.b, r)
	if o.kind == "read" || o.kind == "readfee" {
		s += fmt.Sprintf(" %+v", o.st)
	}
	return s
}

func (s *w1) record(c *call, m int, o setop) *call {
	if c == nil {
		return nil
	}
	if (o.kind == "read" || o.kind == "readfee") && !c.ok() {
		return c
	}
	o.c, o.m = c, m
	s.hist = append(s.hist, &o)
	return c
}

// step returns the states the object may be in after an operation.
func stepSettings(st setState, o *setop, mktfee int64) (setState, bool) {
	switch o.kind {
	case "create":
		if !st.exists {
			return setState{exists: true, bp: mktfee}, true
		}
		return st, true
	case "drop":
		return setState{}, true
	case "open":
		if !st.exists {
			return st, false
		}
		st.open = true
		return st, true
	case "close":
		st.open = false
		return st, true
	case "fee":
		if !st.exists || st.open {
			return st, false
		}
		st.bp = o.a
		return st, true
	case "fixed":
		if !st.exists || st.open {
			return st, false
		}
		st.fb, st.fq = o.a, o.b
		return st, true
	case "strategy":
		if !st.exists || st.open {
			return st, false
		}
		st.pluggable = o.a == 0
		return st, true
	case "read":
		if !o.st.exists || !st.exists {
			return st, o.st.exists == st.exists
		}
		return st, st.open == o.st.open && st.bp == o.st.bp && st.fb == o.st.fb && st.fq == o.st.fq && st.pluggable == o.st.pluggable
	case "readfee":
		return st, st.exists && st.open && st.bp == o.st.bp && st.fb == o.st.fb && st.fq == o.st.fq
	}
	return st, false
}

// stepPrice: a change to the pluggable strategy may reset the price.
func stepPrice(st setState, o *setop) ([]setState, bool) {
	switch o.kind {
	case "create":
		if !st.exists {
			return []setState{{exists: true}}, true
		}
		return []setState{st}, true
	case "drop":
		return []setState{{}}, true
	case "price":
		if !st.exists {
			return nil, false
		}
		st.pb, st.pq = o.a, o.b
		return []setState{st}, true
	case "strategy":
		if o.a == 0 {
			z := st
			z.pb, z.pq = 0, 0
			return []setState{st, z}, true
		}
		return []setState{st}, true
	case "read":
		if !o.st.exists || !st.exists {
			return []setState{st}, o.st.exists == st.exists
		}
		return []setState{st}, st.pb == o.st.pb && st.pq == o.st.pq
	}
	return []setState{st}, true
}

// linear searches for a sequential order of the operations.
func linear(ops []*setop, step func(setState, *setop) ([]setState, bool)) bool {
	n := len(ops)
	type key struct {
		mask string
		st   setState
	}
	seen := map[key]bool{}
	mask := make([]byte, (n+7)/8)
	left := 0
	must := func(o *setop) bool { return o.c.done && o.c.err == nil }
	for _, o := range ops {
		if must(o) {
			left++
		}
	}
	budget := 400000
	var rec func(st setState, left int) bool
	rec = func(st setState, left int) bool {
		if left == 0 {
			return true
		}
		budget--
		if budget < 0 {
			return true // undecided: not reported
		}
		k := key{string(mask), st}
		if seen[k] {
			return false
		}
		seen[k] = true
		// the earliest end among pending operations bounds what can be next
		minRet := ^uint64(0)
		for i, o := range ops {
			if mask[i/8]&(1<<(i%8)) == 0 && must(o) && o.c.ret < minRet {
				minRet = o.c.ret
			}
		}
		for i, o := range ops {
			if mask[i/8]&(1<<(i%8)) != 0 || o.c.inv > minRet {
				continue
			}
			nst, ok := step(st, o)
			if !ok {
				continue
			}
			l := left
			if must(o) {
				l--
			}
			mask[i/8] |= 1 << (i % 8)
			for _, x := range nst {
				if rec(x, l) {
					return true
				}
			}
			mask[i/8] &^= 1 << (i % 8)
		}
		return false
	}
	return rec(setState{}, left)
}

// mayApply: an operation that was not acknowledged but may have had effect.
func (s *w1) mayApply(o *setop) bool {
	if !o.c.done || o.c.cancelled {
		return true
	}
	if o.c.err == nil {
		return false
	}
	return o.kind == "create" || o.kind == "drop"
}

func (s *w1) checkSettings() {
	for m := range s.quotes {
		var set, pri []*setop
		for _, o := range s.hist {
			if o.m != m {
				continue
			}
			if !(o.c.done && o.c.err == nil) && !s.mayApply(o) {
				continue
			}
			if o.kind != "price" {
				set = append(set, o)
			}
			if o.kind != "readfee" {
				pri = append(pri, o)
			}
		}
		sort.SliceStable(set, func(i, j int) bool { return set[i].c.inv < set[j].c.inv })
		sort.SliceStable(pri, func(i, j int) bool { return pri[i].c.inv < pri[j].c.inv })
		if len(set) == 0 {
			continue
		}
		s.w.StatN("lin.ops", int64(len(set)))
		fee := s.h.Opts.MarketsFee
		if !linear(set, func(st setState, o *setop) ([]setState, bool) {
			n, ok := stepSettings(st, o, fee)
			return []setState{n}, ok
		}) {
			s.w.Violate("C14", "settings-not-linearizable", "market %d: no sequential order explains the history of its settings:\n%s", m, histString(set))
		}
		if !linear(pri, stepPrice) {
			s.w.Violate("C14", "price-not-linearizable", "market %d: no sequential order explains the history of its price:\n%s", m, histString(pri))
		}
	}
}

func histString(l []*setop) string {
	var b []string
	for _, o := range l {
		b = append(b, "  "+o.String())
	}
	return strings.Join(b, "\n")
}
