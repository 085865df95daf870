//go:build go1.22

// Package verifsim: the simulator. One process executes one run, described
// by a plan: a seed, a scenario, a list of operations with their times and
// the list of deviations (yields, stalls, faults) allowed to happen.
package verifsim

import (
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	"github.com/google/uuid"
	log "github.com/sirupsen/logrus"
	rt "github.com/tdex-network/tdex-daemon/verifsimrt"
)

// Op is one generated operation.
type Op struct {
	ID int     `json:"id"`
	T  int64   `json:"t"` // milliseconds after the start of the phase
	K  string  `json:"k"`
	A  []int64 `json:"a,omitempty"`
	S  string  `json:"s,omitempty"`
}

func (o Op) Arg(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Plan determines a run completely.
type Plan struct {
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Cfg      map[string]int64 `json:"cfg,omitempty"`
	Ops      []Op             `json:"ops"`
	Gen      bool             `json:"gen,omitempty"` // generate Cfg and Ops from the seed
	Force    map[string]int64 `json:"force,omitempty"`
	Allow    []string         `json:"allow"` // null: every deviation drawn is allowed
}

type Violation struct {
	Prop string `json:"prop"`
	Sig  string `json:"sig"`
	Msg  string `json:"msg"`
	At   string `json:"at"`
}

type Result struct {
	Plan         Plan              `json:"plan"`
	Violations   []Violation       `json:"violations"`
	Inconclusive string            `json:"inconclusive,omitempty"`
	Hash         string            `json:"hash"`
	Deviations   []string          `json:"deviations"`
	DevKinds     map[string]int    `json:"dev_kinds"`
	Stats        map[string]int64  `json:"stats"`
	Probes       map[string]int    `json:"probes"`
	Points       uint64            `json:"points"`
	SimSeconds   float64           `json:"sim_seconds"`
	States       []string          `json:"states"`
	Trace        []string          `json:"trace,omitempty"`
	Info         map[string]string `json:"info,omitempty"`
}

// World is the simulation a run consists of.
type World struct {
	Plan  *Plan
	Seed  uint64
	Rng   uint64 // generation stream
	Start time.Time
	Root  string // scratch directory
	gen   *rt.Gen
	genN  int

	FaultsOn bool
	DiskBad  time.Duration // until then writes fail with DiskBadP
	DiskBadP int64
	allow    map[string]bool
	devs     []string
	devKinds map[string]int
	stats    map[string]int64
	probes   map[string]int
	states   map[uint64]struct{}
	viol     []Violation
	vseen    map[string]bool
	devLog   *os.File
	Only     string // judge this property only
	trace    []string
	seq      uint64
	inconcl  string
	verbose  bool
	finished bool
	HangProp string          // charged with livelocks
	expect   map[string]bool // properties the run decides; nil: all
}

var W *World

func (w *World) Cfg(k string) int64 { return w.Plan.Cfg[k] }

func (w *World) Now() time.Duration { return time.Since(w.Start) }

func (w *World) Tracef(format string, a ...interface{}) {
	w.seq++
	if len(w.trace) < 6000 {
		tn := ""
		if t := rt.Cur(); t != nil {
			tn = t.Name
		}
		w.trace = append(w.trace, fmt.Sprintf("%11.6f [%s] %s", w.Now().Seconds(), tn, fmt.Sprintf(format, a...)))
		if w.verbose {
			fmt.Fprintln(os.Stderr, w.trace[len(w.trace)-1])
		}
	}
	rt.Hash = rt.Mix(rt.Hash, rt.HashString(uint64(w.Now()), fmt.Sprintf(format, a...)))
}

// Violate records a violation once per (property, signature).
func (w *World) Violate(prop, sig, format string, a ...interface{}) {
	k := prop + "|" + sig
	if w.finished || w.vseen[k] || w.Only != "" && prop != w.Only {
		return
	}
	w.vseen[k] = true
	m := fmt.Sprintf(format, a...)
	w.viol = append(w.viol, Violation{Prop: prop, Sig: sig, Msg: m, At: fmt.Sprintf("%.6fs", w.Now().Seconds())})
	w.Tracef("VIOLATION %s %s: %s", prop, sig, m)
}

func (w *World) Stat(k string)           { w.stats[k]++ }
func (w *World) StatN(k string, n int64) { w.stats[k] += n }
func (w *World) Probe(k string)          { w.probes[k]++ }
func (w *World) State(parts ...string) {
	w.states[rt.HashString(7, strings.Join(parts, "|"))] = struct{}{}
}
func (w *World) Inconclusive(why string) {
	if w.inconcl == "" {
		w.inconcl = why
		w.Tracef("inconclusive: %s", why)
	}
}

// generation-time randomness
func (w *World) R() uint64 { return rt.Next(&w.Rng) }
func (w *World) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(w.R() % uint64(n))
}
func (w *World) Range(a, b int64) int64   { return a + int64(w.R()%uint64(b-a+1)) }
func (w *World) Chance(num, den int) bool { return w.Intn(den) < num }

// LogRange draws log-uniformly between 1 and max.
func (w *World) LogRange(max int64) int64 {
	bits := 0
	for m := max; m > 1; m >>= 1 {
		bits++
	}
	b := int64(1) << uint(w.Intn(bits+1))
	v := b + int64(w.R()%uint64(b))
	if v > max {
		v = max
	}
	return v
}

func (w *World) deviate(key, kind string) bool {
	if !w.FaultsOn && !strings.HasPrefix(kind, "yield") && !strings.HasPrefix(kind, "stall") {
		return false
	}
	if w.allow != nil && !w.allow[key] {
		return false
	}
	w.devs = append(w.devs, key)
	if w.devLog != nil { // for the case that the process dies
		w.devLog.WriteString(key + "\n")
	}
	if i := strings.IndexByte(kind, ' '); i > 0 {
		w.devKinds[kind[:i]]++
	} else {
		w.devKinds[kind]++
	}
	if !strings.HasPrefix(kind, "yield") {
		w.Tracef("deviation %s: %s", key, kind)
	}
	return true
}

// Draw is a fault decision of the current goroutine's operation, with
// probability p/65536.
func (w *World) Draw(t *rt.Tag, point string, p int64, kind string) bool {
	t.FN[point]++
	r := rt.Next(&t.FRng)
	if int64(r&0xffff) >= p {
		return false
	}
	return w.deviate(t.Name+"/"+point+"/"+strconv.FormatUint(t.FN[point], 10)+"/"+kind, kind)
}

type simReader struct{ s *uint64 }

func (r simReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(rt.Next(r.s))
	}
	return len(b), nil
}

// Tag makes an operation tag in the current generation.
func (w *World) Tag(name string) *rt.Tag { return rt.NewTag(w.Seed, name, w.gen) }

// Quiet runs f without scheduling points or faults.
func (w *World) Quiet(f func()) {
	rt.With(&rt.Tag{Name: "quiet", Quiet: true, FN: map[string]uint64{}}, f)
}

// Go starts an environment goroutine.
func (w *World) Go(name string, f func()) {
	go func() {
		rt.Set(&rt.Tag{Name: name, Quiet: true, FN: map[string]uint64{}})
		f()
	}()
}

type scenario struct {
	gen func(w *World)
	run func(w *World)
}

var scenarios = map[string]scenario{}

var profStop = func() {}

func TestSim(t *testing.T) {
	pf, of := os.Getenv("VERIF_PLAN"), os.Getenv("VERIF_RESULT")
	if pf == "" {
		t.Skip("no plan")
	}
	raw, err := os.ReadFile(pf)
	if err != nil {
		t.Fatal(err)
	}
	var plan Plan
	if err := json.Unmarshal(raw, &plan); err != nil {
		t.Fatal(err)
	}
	sc, ok := scenarios[plan.Scenario]
	if !ok {
		t.Fatalf("unknown scenario %q", plan.Scenario)
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		pf, err := os.Create(f)
		must(err)
		must(pprof.StartCPUProfile(pf))
		profStop = pprof.StopCPUProfile
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	runtime.GOMAXPROCS(1)
	debug.SetPanicOnFault(false)
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	} else {
		log.SetLevel(log.DebugLevel)
	}
	root := os.Getenv("VERIF_SCRATCH")
	if root == "" {
		t.Fatal("no VERIF_SCRATCH")
	}
	w := &World{Plan: &plan, Seed: plan.Seed, Root: root, devKinds: map[string]int{}, stats: map[string]int64{},
		probes: map[string]int{}, states: map[uint64]struct{}{}, vseen: map[string]bool{}, HangProp: "C21", verbose: os.Getenv("VERIF_V") != ""}
	W = w
	w.Rng = rt.HashString(plan.Seed, "gen")
	if plan.Allow != nil {
		w.allow = map[string]bool{}
		for _, k := range plan.Allow {
			w.allow[k] = true
		}
	}
	crypt := rt.HashString(plan.Seed, "crypto")
	cryptotest.SetGlobalRandom(t, crypt)
	uuid.SetRand(simReader{&crypt})
	mrand.Seed(int64(plan.Seed))
	runtime.VerifSeed(rt.HashString(plan.Seed, "runtime"))
	synctest.Test(t, func(t *testing.T) {
		w.Start = time.Now()
		rt.Set(&rt.Tag{Name: "main", Quiet: true, FN: map[string]uint64{}})
		if plan.Cfg == nil {
			plan.Cfg = map[string]int64{}
		}
		if plan.Gen {
			if sc.gen != nil {
				sc.gen(w)
			}
			plan.Gen = false
			for i := range plan.Ops {
				plan.Ops[i].ID = i + 1
			}
		}
		for k, v := range plan.Force {
			plan.Cfg[k] = v
		}
		if f := os.Getenv("VERIF_RESULT"); f != "" {
			b, _ := json.Marshal(plan)
			must(os.WriteFile(f+".plan", b, 0o644))
			w.devLog, _ = os.Create(f + ".devs")
		}
		rt.Deviate = w.deviate
		rt.CrashFn = func(*rt.Tag) {}
		rt.PSwitch, rt.PStall = uint64(w.Cfg("pswitch")), uint64(w.Cfg("pstall"))
		rt.StallMax = time.Duration(w.Cfg("stallmax_us")) * time.Microsecond
		if f := os.Getenv("VERIF_PLOG"); f != "" {
			pl, _ := os.Create(f)
			rt.PLog = func(t *rt.Tag, site int) { fmt.Fprintf(pl, "%s %d %d %d\n", t.Name, t.N, site, w.Now()) }
		}
		rt.On = true
		rt.MaxTotal = 20_000_000
		rt.Runaway = func() {
			w.Violate(w.HangProp, "livelock", "the daemon makes no progress: %d scheduling points passed, simulated time %v, in %s", rt.Total, w.Now(), rt.Cur().Name)
			w.finish(of)
		}
		sc.run(w)
		w.finish(of)
	})
}

func (w *World) finish(of string) {
	w.finished = true
	rt.On = false
	res := Result{Plan: *w.Plan, Violations: w.viol, Inconclusive: w.inconcl, Hash: fmt.Sprintf("%016x", rt.Hash),
		Deviations: w.devs, DevKinds: w.devKinds, Stats: w.stats, Probes: w.probes, Points: rt.Total,
		SimSeconds: w.Now().Seconds(), Trace: w.trace}
	for s := range w.states {
		res.States = append(res.States, fmt.Sprintf("%016x", s))
	}
	sort.Strings(res.States)
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(of, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
	profStop()
	os.Exit(0)
}

// harness failures end the process with a recognisable message
func fatalf(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n%s\n", append(a, debug.Stack())...)
	if W != nil && W.verbose == false {
		n := len(W.trace)
		if n > 40 {
			n = 40
		}
		for _, l := range W.trace[len(W.trace)-n:] {
			fmt.Fprintln(os.Stderr, l)
		}
	}
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

func sleep(d time.Duration) { time.Sleep(d) }

var _ = crand.Reader

func short(s string) string {
	if len(s) > 8 {
		return s[:8]
	}
	return s
}

// passphrase returns the n-th passphrase of a run: of all shapes people use.
func passphrase(seed uint64, n int) string {
	b := fmt.Sprintf("passphrase-%d", n)
	switch rt.HashString(seed, b) % 12 {
	case 0:
		return b + " "
	case 1:
		return " " + b
	case 2:
		return b + "\n"
	case 3:
		return fmt.Sprintf("PassPhrase-%d", n)
	case 4:
		return fmt.Sprintf("a long one %s-%d", strings.Repeat("0123456789", 12), n)
	case 5:
		return fmt.Sprintf("pässwörd-ключ-%d", n)
	case 6:
		return fmt.Sprintf("passphrase\x00-%d", n)
	case 7:
		return fmt.Sprintf("two  words\t%d", n)
	case 8:
		return fmt.Sprintf("bytes\xff\xfe-%d-passphrase", n)
	}
	return b
}

// nearMiss returns a passphrase that is not p but looks alike.
func nearMiss(seed uint64, p string, n int) string {
	q := ""
	switch rt.HashString(seed, fmt.Sprintf("miss%d", n)) % 9 {
	case 0:
		q = strings.TrimSpace(p)
	case 1:
		q = p + " "
	case 2:
		q = p[:len(p)-1]
	case 3:
		q = strings.ToUpper(p)
	case 4:
		q = p + p
	case 5:
		q = strings.ToLower(p)
	case 6: // (one more NUL would be the same key for scrypt)
		q = "\x00" + p
	case 7:
		q = p[:len(p)/2]
	}
	if q == p || q == "" {
		q = "wrong-" + p
	}
	return q
}
