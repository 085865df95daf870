//go:build go1.22

// Package verifsimrt is the runtime half of the simulator: goroutine tags,
// the seeded scheduler hook Y called between statements of instrumented
// code, fault points, the disk model and the in-memory listener seam. With
// On == false (the default) every entry point is a no-op.
package verifsimrt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"time"
	"unsafe"
)

// Gen is one incarnation of the daemon. Goroutines of a dead generation never
// run again: they block at their next scheduling point.
type Gen struct {
	ID   int
	Dead bool
	// Closing, when set, is the only tag whose code still runs (the process is
	// about to exit; dependencies may finish their work)
	Closing *Tag
}

// Tag identifies the logical operation a goroutine works for. It is inherited
// by every goroutine started from it.
type Tag struct {
	Name string
	Gen  *Gen
	Rng  uint64
	FRng uint64 // stream of fault decisions
	N    uint64 // scheduling points passed
	FN   map[string]uint64
	// Quiet tags never deviate (observers, environment)
	Quiet bool
	// CrashAt: crash the generation when N reaches it (0 = never)
	CrashAt uint64
	// Stop: scheduling points where the operation is parked until released
	Tail bool
}

// ErrSpuriousConflict is translated by storage to its own conflict error.
var ErrSpuriousConflict = errors.New("simulated conflict")

var (
	On bool
	// PSwitch, PStall: probability (per 65536) that a scheduling point yields
	// the processor or sleeps for a random simulated time.
	PSwitch, PStall uint64
	// StallMax bounds stalls (log-uniformly distributed below it).
	StallMax time.Duration
	// Deviate decides whether the named event (deviation or fault) may happen
	// and records it.
	Deviate func(key string, kind string) bool
	// CrashFn is called, on the goroutine that reaches it, at a crash point.
	CrashFn func(t *Tag)
	// FaultFn decides fault points; nil error means no fault.
	FaultFn func(t *Tag, point string) error
	// TornFn decides, at a file write, whether the process crashes in the
	// middle of it: it returns how many bytes reach the disk (-1: no crash).
	TornFn func(t *Tag, point string, n int) int
	// Commits counts the commits of the key-value stores.
	Commits  uint64
	Total    uint64
	Switches uint64
	Stalls   uint64
	Hash     uint64 = 14695981039346656037
	// MaxTotal bounds the scheduling points of a run; Runaway ends it.
	MaxTotal uint64
	Runaway  func()
	// MarkFn sees the scheduling points with a site in [MarkLo, MarkHi].
	MarkLo, MarkHi int
	MarkFn         func(t *Tag)
	// WriteFn decides what a whole-file write does: how many bytes are
	// written, and whether it then fails, or crashes (ErrCrash).
	WriteFn func(t *Tag, path string, n int) (int, error)
	// PLog, for debugging, sees every scheduling point.
	PLog func(t *Tag, site int)
)

func Mix(h uint64, v uint64) uint64 {
	h ^= v
	h *= 1099511628211
	h ^= h >> 29
	return h
}

func Next(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// HashString is a stable string hash used to derive per-tag streams.
func HashString(seed uint64, s string) uint64 {
	h := seed ^ 14695981039346656037
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	var t = h
	return Next(&t)
}

// NewTag makes a tag whose streams depend only on the seed and its name.
func NewTag(seed uint64, name string, g *Gen) *Tag {
	return &Tag{Name: name, Gen: g, Rng: HashString(seed, "y/"+name), FRng: HashString(seed, "f/"+name), FN: map[string]uint64{}}
}

func Cur() *Tag { return (*Tag)(runtime.VerifTag()) }
func Set(t *Tag) {
	runtime.VerifSetTag(unsafe.Pointer(t))
	if t != nil {
		keep[t] = struct{}{}
	}
}

// tags are referenced from goroutines only through an untyped field
var keep = map[*Tag]struct{}{}

func With(t *Tag, f func()) {
	old := Cur()
	Set(t)
	f()
	Set(old)
}

// Block parks the goroutine for ever (durably, for the simulated clock).
func Block() { select {} }

// Live blocks the goroutine if its generation is dead.
func Live() {
	if t := Cur(); t != nil && t.Gen != nil && t.Gen.Dead {
		Block()
	}
}

// Y is a scheduling point.
func Y(site int) {
	if !On {
		return
	}
	t := Cur()
	if t == nil {
		return
	}
	if t.Gen != nil && (t.Gen.Dead || t.Gen.Closing != nil && t.Gen.Closing != t && site >= 0) {
		Block()
	}
	if MarkFn != nil && site >= MarkLo && site <= MarkHi {
		MarkFn(t)
	}
	if t.Quiet {
		return
	}
	t.N++
	Total++
	if Total == MaxTotal && Runaway != nil {
		Runaway()
	}
	if t.CrashAt != 0 && t.N >= t.CrashAt {
		t.CrashAt = 0
		CrashFn(t)
		if t.Gen != nil && t.Gen.Dead {
			Block()
		}
	}
	if PLog != nil {
		PLog(t, site)
	}
	r := Next(&t.Rng)
	k := r & 0xffff
	if k >= PSwitch+PStall {
		return
	}
	r2 := Next(&t.Rng)
	if k < PSwitch {
		if Deviate != nil && !Deviate(t.Name+"@"+strconv.FormatUint(t.N, 10), "yield") {
			return
		}
		Switches++
		Hash = Mix(Hash, t.N<<20|uint64(uint32(site)))
		runtime.Gosched()
	} else {
		d := stall(r2)
		if Deviate != nil && !Deviate(t.Name+"@"+strconv.FormatUint(t.N, 10), "stall "+d.String()) {
			return
		}
		Stalls++
		Hash = Mix(Hash, uint64(d)^t.N<<32)
		time.Sleep(d)
	}
	if t.Gen != nil && (t.Gen.Dead || t.Gen.Closing != nil && t.Gen.Closing != t && site >= 0) {
		Block()
	}
}

// stall draws a log-uniform duration between 1 microsecond and StallMax.
func stall(r uint64) time.Duration {
	max := StallMax
	if max < 2*time.Microsecond {
		return time.Microsecond
	}
	bits := 0
	for m := uint64(max / time.Microsecond); m > 1; m >>= 1 {
		bits++
	}
	e := r % uint64(bits+1)
	base := uint64(1) << e
	d := time.Duration(base+(r>>8)%base) * time.Microsecond
	if d > max {
		d = max
	}
	return d
}

// Point is a scheduling point in a dependency.
func Point(name string) {
	if On {
		Y(-int(HashString(0, name)>>48) - 1)
	}
}

// Fault is a fault point placed in dependencies (storage commit, write...).
func Fault(point string) error {
	if !On {
		return nil
	}
	t := Cur()
	if t == nil || t.Quiet {
		return nil
	}
	Point(point)
	if FaultFn == nil {
		return nil
	}
	return FaultFn(t, point)
}

// ---- disk model ---------------------------------------------------------

// Write is a file write that was not yet made durable by a sync.
type Write struct {
	Path    string
	Off     int64
	Old     []byte // previous content (may be shorter than N at end of file)
	N       int
	OldSize int64
}

// Unsynced lists, in order, the writes not yet synced.
var Unsynced []Write

// FileWrite appends to a file opened with O_DSYNC: durable on return, torn if
// the process crashes in the middle.
func FileWrite(point string, f *os.File, b []byte) (int, error) {
	if !On {
		return f.Write(b)
	}
	t := Cur()
	if t == nil || t.Quiet {
		return f.Write(b)
	}
	Live()
	if FaultFn != nil {
		if err := FaultFn(t, point); err != nil {
			return 0, err
		}
	}
	if TornFn != nil {
		if k := TornFn(t, point, len(b)); k >= 0 {
			f.Write(b[:k])
			CrashFn(t)
			Block()
		}
	}
	n, err := f.Write(b)
	Point(point + ".done")
	return n, err
}

// FileWriteAt writes pages that become durable only with FileSync.
func FileWriteAt(point string, f *os.File, b []byte, off int64) (int, error) {
	if !On {
		return f.WriteAt(b, off)
	}
	t := Cur()
	if t == nil || t.Quiet {
		return f.WriteAt(b, off)
	}
	Live()
	if FaultFn != nil {
		if err := FaultFn(t, point); err != nil {
			return 0, err
		}
	}
	st, err := f.Stat()
	if err != nil {
		return 0, err
	}
	w := Write{Path: f.Name(), Off: off, N: len(b), OldSize: st.Size(), Old: make([]byte, len(b))}
	n, _ := f.ReadAt(w.Old, off)
	w.Old = w.Old[:n]
	n, err = f.WriteAt(b, off)
	Unsynced = append(Unsynced, w)
	Point(point + ".done")
	return n, err
}

// FileSync makes earlier writes to the file durable.
func FileSync(point string, f *os.File, sync func() error) error {
	if !On {
		return sync()
	}
	t := Cur()
	if t == nil || t.Quiet {
		return sync()
	}
	Live()
	if FaultFn != nil {
		if err := FaultFn(t, point); err != nil {
			return err
		}
	}
	err := sync()
	if err == nil {
		out := Unsynced[:0]
		for _, w := range Unsynced {
			if w.Path != f.Name() {
				out = append(out, w)
			}
		}
		Unsynced = out
	}
	Point(point + ".done")
	return err
}

// ErrCrash is returned by WriteFn for a crash in the middle of the write.
var ErrCrash = errors.New("simulated crash")

// WriteFile replaces os.WriteFile in the daemon.
func WriteFile(path string, data []byte, perm os.FileMode) error {
	t := Cur()
	if !On || t == nil || t.Quiet || WriteFn == nil {
		return os.WriteFile(path, data, perm)
	}
	Live()
	Point("file.write")
	n, ferr := WriteFn(t, path, len(data))
	err := os.WriteFile(path, data[:n], perm)
	if ferr == ErrCrash {
		CrashFn(t)
		Block()
	}
	if ferr != nil {
		return ferr
	}
	Point("file.written")
	return err
}

// ---- process seam (command line client) ----------------------------------

// Stdin is what the command line client reads; ExitFn ends its process.
var (
	Stdin  io.Reader = os.Stdin
	ExitFn func(code int)
)

func init() {
	// the data directory of the command line client, read when it starts
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		os.Setenv("TDEX_OPERATOR_DATADIR", d+"/cli")
	}
}

func Exit(code int) {
	if On && ExitFn != nil {
		ExitFn(code)
		Block()
	}
	os.Exit(code)
}

func Scan(a ...interface{}) (int, error)             { return fmt.Fscan(Stdin, a...) }
func Scanln(a ...interface{}) (int, error)           { return fmt.Fscanln(Stdin, a...) }
func Scanf(f string, a ...interface{}) (int, error)  { return fmt.Fscanf(Stdin, f, a...) }

// ---- network seam -------------------------------------------------------

// ListenFn replaces net.Listen in the daemon: while simulating, listeners
// are in-memory.
var ListenFn func(network, addr string) (net.Listener, error)

func NetListen(network, addr string) (net.Listener, error) {
	if On && ListenFn != nil {
		return ListenFn(network, addr)
	}
	return net.Listen(network, addr)
}
