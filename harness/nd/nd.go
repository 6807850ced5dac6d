// Package nd is the nondeterminism interface of the verification harnesses.
// The symbolic engine replaces these functions by intrinsics; natively they
// read their values from an assignment, so that a counterexample or a sampled
// path can be replayed against the compiled code.
package nd

import (
	"fmt"
	"io/fs"
	"os"
	"runtime"
	"strings"
	"sync"
)

// Assignment holds the values of a replay.
type Assignment struct {
	Inputs   map[string]uint64
	Thorough bool
	Fill     uint64 // seed of the values of inputs that have none, or 0
}

var (
	mu      sync.Mutex
	cur     Assignment
	count   = map[string]int{}
	Failed  []string
	Obs     []string
	Reached = map[string]bool{}
	Missing []string
	Filled  = map[string]uint64{} // what Missing ones were given
	Dir     string // scratch directory of the replay
)

// AssumeFailed is the panic value for a violated assumption.
type AssumeFailed struct{}

// AssertFailed is the panic value for a violated assertion.
type AssertFailed struct{ Msg string }

// Reset starts a replay.
func Reset(a Assignment) {
	mu.Lock()
	defer mu.Unlock()
	cur = a
	count = map[string]int{}
	Failed, Obs, Missing = nil, nil, nil
	Reached = map[string]bool{}
	Filled = map[string]uint64{}
}

func fresh(name string) string {
	mu.Lock()
	defer mu.Unlock()
	k := count[name]
	count[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func get(full string) uint64 { return getIn(full, 0, 0) }

// getIn is the value of an input that is one of the n values from lo on (any, for n = 0).
func getIn(full string, lo, n int) uint64 {
	mu.Lock()
	defer mu.Unlock()
	v, ok := cur.Inputs[full]
	if !ok {
		Missing = append(Missing, full)
		if cur.Fill != 0 {
			v = cur.Fill
			for i := 0; i < len(full); i++ {
				v = (v ^ uint64(full[i])) * 0x100000001b3
			}
			v = (v ^ v>>29) * 0xbf58476d1ce4e5b9
			v ^= v >> 32
			if n > 0 {
				v = uint64(lo) + v%uint64(n)
			}
			Filled[full] = v
		}
	}
	return v
}

// Symbolic reports whether the symbolic engine is executing.
func Symbolic() bool { return false }

// Bool is any boolean.
func Bool(name string) bool { return getIn(fresh(name), 0, 2) != 0 }

// Byte is any byte.
func Byte(name string) byte { return byte(getIn(fresh(name), 0, 256)) }

// Uint64 is any uint64.
func Uint64(name string) uint64 { return get(fresh(name)) }

// Int is any integer with lo <= n <= hi.
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return int(getIn(fresh(name), lo, hi-lo+1))
}

// Choice is one of 0..n-1, decided by forking.
func Choice(name string, n int) int {
	if n < 1 {
		n = 1
	}
	return int(getIn(fresh(name), 0, n))
}

func str(name string, fixed bool, n int, alphabet string) []byte {
	full := fresh(name)
	if !fixed {
		n = int(getIn(full+".len", 0, n+1))
	}
	b := make([]byte, n)
	for i := range b {
		in := fmt.Sprintf("%s[%d]", full, i)
		if _, ok := cur.Inputs[in]; !ok && alphabet != "" && cur.Fill != 0 {
			b[i] = alphabet[getIn(in+"?", 0, len(alphabet))]
			delete(Filled, in+"?")
			Filled[in] = uint64(b[i])
			continue
		}
		b[i] = byte(getIn(in, 0, 256))
	}
	return b
}

// Str is any string of at most max bytes of the alphabet ("" means all bytes).
func Str(name string, max int, alphabet string) string { return string(str(name, false, max, alphabet)) }

// StrN is any string of exactly n bytes of the alphabet.
func StrN(name string, n int, alphabet string) string {
	return string(str(name, true, n, alphabet))
}

// Bytes is like Str.
func Bytes(name string, max int, alphabet string) []byte { return str(name, false, max, alphabet) }

// Assume restricts the explored executions.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		Failed = append(Failed, msg)
		mu.Unlock()
		panic(AssertFailed{msg})
	}
}

// Reach marks a point that must be reachable.
func Reach(label string) { mu.Lock(); Reached[label] = true; mu.Unlock() }

// Observe records a value to be compared between engine and native run.
func Observe(name string, v any) {
	s := ""
	switch v := v.(type) {
	case nil:
		s = fmt.Sprintf("%q", "nil")
	case string:
		s = fmt.Sprintf("%q", v)
	case []byte:
		s = fmt.Sprintf("%q", string(v))
	case bool:
		s = "0"
		if v {
			s = "1"
		}
	default:
		s = fmt.Sprint(v)
	}
	mu.Lock()
	Obs = append(Obs, name+"="+s)
	mu.Unlock()
}

// Tier is q in the quick tier and t in the thorough one.
func Tier(q, t int) int {
	if cur.Thorough {
		return t
	}
	return q
}

// GC discards unreachable objects.
func GC() {
	runtime.GC()
	runtime.GC()
}

// Step is one step of a recorded schedule.
type Step struct{ G, What string }

// Hooks of package vsync, which follows a recorded schedule.
var (
	SchedYield    func(string)
	SchedExplore  func(bool)
	SchedFine     func(bool)
	SchedStart    func([]Step)
	SchedDiverged func() string
)

// Deadlock, GoroutinePanic and Fatal report the end of the whole program.
var (
	Deadlock       func(msg string)
	GoroutinePanic func(r any)
	Fatal          func(msg string)
)

// Yield is a scheduling point.
func Yield(what string) {
	if SchedYield != nil {
		SchedYield(what)
		return
	}
	runtime.Gosched()
}

// AtomicBegin suppresses scheduling points until AtomicEnd.
func AtomicBegin() {}

// AtomicEnd ends AtomicBegin.
func AtomicEnd() {}

// Explore starts exploration of all schedules: preempt bounds the number of
// preemptions (-1: unbounded), race enables data race detection.
func Explore(preempt int, race bool) {
	if SchedExplore != nil {
		SchedExplore(true)
	}
}

// Fine adds scheduling points after operations that release a lock or a waiter
// to those of Explore, until StopExplore. They matter only to code with data races.
func Fine() {
	if SchedFine != nil {
		SchedFine(true)
	}
}

// StopExplore ends Explore.
func StopExplore() {
	if SchedFine != nil {
		SchedFine(false)
	}
	if SchedExplore != nil {
		SchedExplore(false)
	}
}

// MapOrder makes map iteration order nondeterministic (1: two orders, 2: all).
func MapOrder(mode int) {}

// HashOf is an ideal hash; the models use it only in the engine.
func HashOf(kind string, b []byte) []byte { panic("nd.HashOf outside the engine") }

// Unsupported abandons the path.
func Unsupported(what string) { panic("unsupported: " + what) }

// Concrete is s, made concrete by case distinction.
func Concrete(s string) string { return s }

// IsConcrete reports whether s is concrete.
func IsConcrete(s string) bool { return true }

// TempDir returns a fresh directory: a scratch one natively, "/w" in the engine's file system.
func TempDir() string {
	if Symbolic() {
		return "/w"
	}
	if Dir == "" {
		panic("nd.Dir not set")
	}
	d := strings.TrimSuffix(Dir, "/") + "/w"
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// BinDir is the directory of the scripted programs (see Proc).
func BinDir() string {
	if Symbolic() {
		return "/bin"
	}
	return Dir + "/bin"
}

var invs []Invocation

// LogInvocation records a program start (engine only).
func LogInvocation(in Invocation) { invs = append(invs, in) }

// Invocations returns the program starts so far.
func Invocations() []Invocation {
	if Symbolic() {
		return invs
	}
	return nativeInvocations()
}

// Crash is the panic value of a simulated crash.
type Crash struct{ What string }

var (
	crashDir        string
	crashAt, crashN int
	crashed         bool
)

// CrashIn makes the n'th modification (from 1) below the given directory from
// now on, and all later ones, not happen but end the program; 0 turns crashes
// off. Creating or truncating a file is two modifications: the second is
// what is written to it.
func CrashIn(dir string, n int) { crashDir, crashAt, crashN, crashed = dir, n, 0, false }

// CrashOff turns crashes off and returns what turns them on again.
func CrashOff() func() {
	n := crashAt
	crashAt = 0
	return func() { crashAt = n }
}

// Crashed reports whether the crash happened.
func Crashed() bool { return crashed }

// CrashPoint is a point where the program may crash, before it changes one of the given paths.
func CrashPoint(paths ...string) {
	if crashAt == 0 {
		return
	}
	for _, p := range paths {
		if inCrashDir(p) {
			crashN++
			if crashN >= crashAt {
				crashed = true
				panic(Crash{"at " + p})
			}
			return
		}
	}
}

func inCrashDir(p string) bool { return p == crashDir || strings.HasPrefix(p, crashDir+"/") }

// WriteFile is os.WriteFile with a crash point before and after the truncation.
func WriteFile(f func(string, []byte, fs.FileMode) error, name string, data []byte, perm fs.FileMode) error {
	if SchedYield != nil {
		SchedYield("open")
		SchedYield("write")
	}
	CrashPoint(name)
	if crashAt != 0 && inCrashDir(name) && crashN+1 >= crashAt {
		f(name, nil, perm)
		CrashPoint(name)
	}
	err := f(name, data, perm)
	CrashPoint(name)
	return err
}

// OpenFile is os.OpenFile with a crash point before and after the truncation.
func OpenFile(f func(string, int, fs.FileMode) (*os.File, error), name string, flag int, perm fs.FileMode) (*os.File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		CrashPoint(name)
		defer CrashPoint(name)
	}
	return f(name, flag, perm)
}

// Reps is sym in the engine and native in replays, for repetition that only
// replays need (such as allocating until an address is reused).
func Reps(sym, native int) int {
	if Symbolic() {
		return sym
	}
	return native
}

// ExitPanic is how os.Exit ends the modelled program.
type ExitPanic struct{ Code int }

// Exit stands for os.Exit in main programs that a harness calls.
func Exit(code int) { panic(ExitPanic{code}) }
