//go:build go1.22

package verifsim

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/btcsuite/btcwallet/walletdb"
	"github.com/tdex-network/tdex-daemon/pkg/securestore"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
)

// Scenario "sec": the encrypted key-value store under concurrent use, write
// errors, crashes, locks and changes of passphrase (C17).

func init() { scenarios["sec"] = scenario{gen: genSec, run: runSec} }

type secW struct {
	*comp
	hist    []*lop
	pws     []string // every passphrase ever used
	cur     string   // the last one acknowledged
	secrets []string // what must not appear on disk
	names   map[string]string
}

var secBuckets = []string{"", "hooks", "a_b", "__", "hooksbyaction"}
var secKeys = []string{"k", "k_1", "_", "x_y_z", "\x00", "long-key-" + strings.Repeat("z", 40)}

func genSec(w *World) {
	c := w.Plan.Cfg
	f := func(k string, v int64) {
		if _, ok := c[k]; !ok {
			c[k] = v
		}
	}
	pick := func(v ...int64) int64 { return v[w.Intn(len(v))] }
	f("nb", pick(1, 2, 3, 5))
	f("nk", pick(1, 2, 3, 6))
	f("pswitch", pick(0, 2000, 8000, 20000))
	f("pstall", pick(0, 0, 200, 1000))
	f("stallmax_us", pick(100, 10000, 200000))
	if w.Chance(1, 2) {
		f("p_bolterr", pick(0, 500, 3000, 10000))
	}
	f("early", pick(0, 1))
	crash := w.Chance(2, 3)
	if len(w.Plan.Ops) > 0 {
		return
	}
	kinds := []struct {
		k string
		n int
	}{{"add", 16}, {"get", 12}, {"all", 6}, {"list", 3}, {"rm", 5}, {"mkb", 4}, {"rmb", 2}, {"lock", 3}, {"unlock", 6}, {"chpass", 6}, {"islocked", 2},
		{"crash", 2}, {"shutdown", 1}}
	sum := 0
	for i := range kinds {
		if w.Chance(1, 3) && kinds[i].k != "add" {
			kinds[i].n = 0
		}
		if !crash && (kinds[i].k == "crash" || kinds[i].k == "shutdown") {
			kinds[i].n = 0
		}
		sum += kinds[i].n
	}
	n := 12 + w.Intn(36)
	burst := 1 + w.Intn(6)
	var t int64
	for i := 0; i < n; i++ {
		r, k := w.Intn(sum), ""
		for _, x := range kinds {
			if r < x.n {
				k = x.k
				break
			}
			r -= x.n
		}
		op := Op{T: t, K: k, A: []int64{int64(w.Intn(64)), int64(w.Intn(64)), int64(w.Intn(64)), int64(w.Intn(1 << 16))}}
		if k == "crash" {
			op.A[0] = w.LogRange(100000)
		}
		if crash && w.Chance(1, 8) {
			op.S = fmt.Sprintf("c%d", w.LogRange(150))
		}
		w.Plan.Ops = append(w.Plan.Ops, op)
		if w.Intn(burst) == 0 {
			t += w.LogRange(400)
		}
	}
}

type secX struct{ st securestore.SecureStorage }

func runSec(w *World) {
	s := &secW{comp: newComp(w, "C17", DaemonOpts{}), cur: passphrase(w.Seed, 9999), names: map[string]string{}}
	s.pws = []string{s.cur}
	s.secrets = []string{s.cur}
	s.comp.exec = s.do1
	s.comp.booted = s.afterStart
	s.h.WireFn = func(g *rt.Gen) (*Daemon, error) {
		d := &Daemon{Gen: g, Dir: s.h.Dir}
		st, err := boltsecurestore.NewSecureStorage(s.h.Dir, "secure.db")
		if err != nil {
			return nil, err
		}
		d.X = &secX{st}
		return d, nil
	}
	s.h.StopFn = func(d *Daemon) {
		w.seq++
		o := &lop{name: "close", inv: w.seq, ret: ^uint64(0) >> 1, opt: true, apply: func(st string) (string, bool) { return "L" + st[1:], true }}
		s.hist = append(s.hist, o)
		d.X.(*secX).st.Close()
		w.seq++
		o.ret, o.opt = w.seq, false
	}
	if err := s.boot(); err != nil {
		w.Violate("C17", "first-start", "%v", err)
		return
	}
	s.run()
	if s.h.D == nil || !s.restart() {
		return
	}
	s.final()
	ok, decided, why := linearizable(s.hist, "L|")
	w.StatN("lin.ops", int64(len(s.hist)))
	if !decided {
		w.Stat("lin.undecided")
		return
	}
	w.Stat("lin.checked")
	w.State("sec", why)
	if !ok {
		w.Violate("C17", "not-linearizable", "no sequential order explains the answers of the store: stuck at %s", why)
	}
}

// afterStart: the store is locked; what was lost is over. Most runs unlock.
func (s *secW) afterStart() error {
	s.w.seq++
	n := s.w.seq
	s.hist = append(s.hist, &lop{name: fmt.Sprintf("start %d", s.h.D.Gen.ID), inv: n, ret: n, apply: func(st string) (string, bool) {
		return "L" + st[1:], true
	}})
	s.sealed()
	if s.w.Cfg("early") != 0 { // the very first unlock fails too
		s.w.FaultsOn = s.w.FaultsOn || s.h.D.Gen.ID == 1
	}
	s.unlockAny(&Op{ID: 9000 + s.h.D.Gen.ID})
	return nil
}

// unlockAny unlocks with the passphrases known, the last one first.
func (s *secW) unlockAny(op *Op) bool {
	for i := len(s.pws) - 1; i >= -1; i-- {
		pw := s.cur
		if i >= 0 && i < len(s.pws)-1 {
			pw = s.pws[i]
		} else if i == -1 {
			pw = s.pws[len(s.pws)-1]
		}
		if c := s.unlock(op, len(s.pws)-i, pw); c == nil || !c.done || c.err == nil {
			return c != nil && c.done
		}
	}
	return false
}

// sealed: no secret in the file.
func (s *secW) sealed() {
	b, err := os.ReadFile(filepath.Join(s.h.Dir, "secure.db"))
	if err != nil {
		return
	}
	for _, x := range s.secrets {
		if bytes.Contains(b, []byte(x)) {
			s.w.Violate("C17", "in-clear", "%q is readable in the database file", x)
		}
	}
	s.w.Stat("sealed.checked")
}

// ---- sequential model: "L|" or "U|", passphrase, then the buckets ----------

type secState struct {
	locked bool
	pw     string
	b      map[string]map[string]string
}

func parseSec(st string) *secState {
	p := strings.Split(st, "|")
	r := &secState{locked: p[0] == "L", pw: p[1], b: map[string]map[string]string{"": {}}}
	for _, e := range p[2:] {
		i := strings.IndexByte(e, '{')
		m := map[string]string{}
		for _, kv := range strings.Split(e[i+1:], ";") {
			if j := strings.IndexByte(kv, '='); j >= 0 {
				m[kv[:j]] = kv[j+1:]
			}
		}
		r.b[e[:i]] = m
	}
	return r
}

func (r *secState) String() string {
	o := "U|"
	if r.locked {
		o = "L|"
	}
	o += r.pw
	var bs []string
	for k := range r.b {
		bs = append(bs, k)
	}
	sort.Strings(bs)
	for _, k := range bs {
		o += "|" + k + "{" + mapStr(r.b[k])
	}
	return o
}

func mapStr(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	o := ""
	for _, k := range ks {
		o += k + "=" + m[k] + ";"
	}
	return o
}

// rec files an operation; f decides what the sequential store answers: the
// error (nil: success) it gives in this state, after changing it.
func (s *secW) rec(c *cop, name string, f func(st *secState) error) {
	if c == nil {
		return
	}
	w := s.w
	faulty := false
	if c.done && c.err != nil {
		switch {
		case c.err == walletdb.ErrDbNotOpen || strings.Contains(c.err.Error(), "database not open"):
			w.Stat("closed")
			return // the store was being closed
		case strings.Contains(c.err.Error(), "simulated"):
			w.Stat("io-error")
			faulty = true
		}
	}
	if faulty {
		return // an error means that nothing happened
	}
	want := c.err
	name = c.tag + " " + name
	if c.done {
		if want != nil {
			name += ": " + want.Error()
		}
	}
	lost := !c.done
	s.hist = append(s.hist, &lop{name: name, inv: c.inv, ret: c.ret, opt: lost, apply: func(st string) (string, bool) {
		m := parseSec(st)
		err := f(m)
		if !lost && fmt.Sprint(err) != fmt.Sprint(want) {
			return st, false
		}
		if err != nil {
			return st, true
		}
		return m.String(), true
	}})
}

func (s *secW) unlock(op *Op, step int, pw string) *cop {
	c := s.do(op, step, "unlock", func(ctx context.Context, d *Daemon) error {
		b := []byte(pw)
		return d.X.(*secX).st.CreateUnlock(&b)
	})
	s.rec(c, "unlock "+pw, func(m *secState) error {
		if !m.locked {
			return nil
		}
		if m.pw == "" {
			m.pw = pw
		}
		if m.pw != pw {
			return boltsecurestore.ErrInvalidPassword
		}
		m.locked = false
		return nil
	})
	return c
}

func (s *secW) pw(a int64) string {
	if a%4 != 0 {
		return s.cur
	}
	return s.pws[int(a/4)%len(s.pws)]
}

func (s *secW) do1(op *Op) {
	w := s.w
	nb, nk := int(w.Cfg("nb")), int(w.Cfg("nk"))
	bk := secBuckets[int(op.Arg(0))%nb]
	key := secKeys[int(op.Arg(1))%nk]
	var bkey []byte
	if bk != "" {
		bkey = []byte(bk)
	}
	name := map[string]string{"add": "add", "get": "get", "all": "get-all", "list": "list-buckets", "rm": "remove", "mkb": "create-bucket", "rmb": "remove-bucket"}[op.K]
	lockedOr := func(m *secState, f func() error) error {
		if m.locked {
			return boltsecurestore.ErrStoreLocked
		}
		return f()
	}
	var c *cop
	switch op.K {
	case "add":
		val := fmt.Sprintf("value-%d-%06d", op.ID, op.Arg(3))
		s.secrets = append(s.secrets, val)
		raw := val
		if op.Arg(2)%5 == 0 { // overflow pages
			raw = strings.Repeat(val, 1+int(op.Arg(3))%300)
			s.names[raw] = val
		}
		c = s.do(op, 0, name, func(ctx context.Context, d *Daemon) error {
			return d.X.(*secX).st.AddToBucket(bkey, []byte(key), []byte(raw))
		})
		s.rec(c, fmt.Sprintf("add %s/%q=%s", bk, key, val), func(m *secState) error {
			return lockedOr(m, func() error {
				if m.b[bk] == nil {
					return boltsecurestore.ErrBucketNotFound
				}
				m.b[bk][key] = val
				return nil
			})
		})
	case "get":
		var v []byte
		c = s.do(op, 0, name, func(ctx context.Context, d *Daemon) (err error) {
			v, err = d.X.(*secX).st.GetFromBucket(bkey, []byte(key))
			return err
		})
		if c != nil && c.done {
			s.rec(c, fmt.Sprintf("get %s/%q is %q", bk, key, v), func(m *secState) error {
				return lockedOr(m, func() error {
					if m.b[bk] == nil {
						return boltsecurestore.ErrBucketNotFound
					}
					return same(m.b[bk][key], s.name(v))
				})
			})
		}
	case "all":
		s.getAll(op, 0, bk)
		return
	case "list":
		s.list(op, 0)
		return
	case "rm":
		c = s.do(op, 0, name, func(ctx context.Context, d *Daemon) error {
			return d.X.(*secX).st.RemoveFromBucket(bkey, []byte(key))
		})
		s.rec(c, fmt.Sprintf("remove %s/%q", bk, key), func(m *secState) error {
			return lockedOr(m, func() error {
				if m.b[bk] == nil {
					return boltsecurestore.ErrBucketNotFound
				}
				delete(m.b[bk], key)
				return nil
			})
		})
	case "mkb", "rmb":
		if bk == "" {
			bk = secBuckets[1]
		}
		c = s.do(op, 0, name, func(ctx context.Context, d *Daemon) error {
			if op.K == "mkb" {
				return d.X.(*secX).st.CreateBucket([]byte(bk))
			}
			return d.X.(*secX).st.RemoveBucket([]byte(bk))
		})
		s.rec(c, name+" "+bk, func(m *secState) error {
			return lockedOr(m, func() error {
				if op.K == "mkb" {
					if m.b[bk] == nil {
						m.b[bk] = map[string]string{}
					}
					return nil
				}
				if m.b[bk] == nil {
					return boltsecurestore.ErrBucketNotFound
				}
				delete(m.b, bk)
				return nil
			})
		})
	case "lock":
		c = s.do(op, 0, "lock", func(ctx context.Context, d *Daemon) error {
			d.X.(*secX).st.Lock()
			return nil
		})
		s.rec(c, "lock", func(m *secState) error { m.locked = true; return nil })
		return
	case "islocked":
		var l bool
		c = s.do(op, 0, "is-locked", func(ctx context.Context, d *Daemon) error {
			l = d.X.(*secX).st.IsLocked()
			return nil
		})
		if c != nil && c.done {
			s.rec(c, fmt.Sprintf("locked is %v", l), func(m *secState) error {
				if m.locked != l {
					return fmt.Errorf("differs")
				}
				return nil
			})
		}
		return
	case "unlock":
		s.unlock(op, 0, s.pw(op.Arg(2)))
		return
	case "chpass":
		old, nw := s.pw(op.Arg(2)), passphrase(w.Seed, op.ID)
		if op.Arg(1)%8 == 0 {
			nw = old
		}
		s.pws = append(s.pws, nw)
		s.secrets = append(s.secrets, nw)
		c = s.do(op, 0, "change-password", func(ctx context.Context, d *Daemon) error {
			return d.X.(*secX).st.ChangePassword([]byte(old), []byte(nw))
		})
		if c != nil && c.done && c.err == nil {
			s.cur = nw
		}
		s.rec(c, "change-password "+old+" to "+nw, func(m *secState) error {
			return lockedOr(m, func() error {
				if m.pw != old {
					return fmt.Errorf("invalid password")
				}
				m.pw = nw
				return nil
			})
		})
	}
	// a locked store would make the rest of the run dull
	if c != nil && c.done && c.err == boltsecurestore.ErrStoreLocked && op.Arg(3)%2 == 0 {
		s.unlockAny(op)
	}
}

// name is the short name of a long value.
func (s *secW) name(v []byte) string {
	if n := s.names[string(v)]; n != "" {
		return n
	}
	if len(v) > 60 {
		return fmt.Sprintf("%d bytes %q", len(v), v[:40])
	}
	return string(v)
}

func same(a, b string) error {
	if a != b {
		return fmt.Errorf("differs")
	}
	return nil
}

func (s *secW) getAll(op *Op, step int, bk string) {
	var m map[string][]byte
	c := s.do(op, step, "get-all", func(ctx context.Context, d *Daemon) (err error) {
		var bkey []byte
		if bk != "" {
			bkey = []byte(bk)
		}
		m, err = d.X.(*secX).st.GetAllFromBucket(bkey)
		return err
	})
	if c == nil || !c.done {
		return
	}
	got := map[string]string{}
	for k, v := range m {
		got[k] = s.name(v)
	}
	gs := mapStr(got)
	s.rec(c, fmt.Sprintf("all of %q is %q", bk, gs), func(m *secState) error {
		if m.locked {
			return boltsecurestore.ErrStoreLocked
		}
		if m.b[bk] == nil {
			return boltsecurestore.ErrBucketNotFound
		}
		return same(mapStr(m.b[bk]), gs)
	})
}

func (s *secW) list(op *Op, step int) {
	var l [][]byte
	c := s.do(op, step, "list-buckets", func(ctx context.Context, d *Daemon) (err error) {
		l, err = d.X.(*secX).st.ListBuckets()
		return err
	})
	if c == nil || !c.done {
		return
	}
	var ls []string
	for _, b := range l {
		ls = append(ls, string(b))
	}
	sort.Strings(ls)
	s.rec(c, fmt.Sprintf("buckets are %q", ls), func(m *secState) error {
		if m.locked {
			return boltsecurestore.ErrStoreLocked
		}
		var bs []string
		for k := range m.b {
			if k != "" {
				bs = append(bs, k)
			}
		}
		sort.Strings(bs)
		return same(fmt.Sprint(bs), fmt.Sprint(ls))
	})
}

// final: every passphrase is tried, then everything is read.
func (s *secW) final() {
	op := &Op{ID: 9999}
	s.do(op, 90, "lock", func(ctx context.Context, d *Daemon) error { d.X.(*secX).st.Lock(); return nil })
	s.w.seq++
	n := s.w.seq
	s.hist = append(s.hist, &lop{name: "final lock", inv: n, ret: n, apply: func(st string) (string, bool) { return "L" + st[1:], true }})
	s.unlock(op, 91, nearMiss(s.w.Seed, s.cur, 91))
	if !s.unlockAny(op) {
		s.w.Violate("C17", "shut-out", "none of the passphrases ever used unlocks the store")
		return
	}
	for i, b := range secBuckets {
		s.getAll(op, 200+i, b)
	}
	s.list(op, 300)
	s.sealed()
}
