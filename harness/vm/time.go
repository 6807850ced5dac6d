package vm

import (
	"context"
	"os"
	"time"
)

// Time passes, for time.Sleep, when no goroutine can run: the clock then moves
// to where the first sleeper wakes up. Timers are goroutines that sleep.

type timer struct {
	t      *time.Timer
	tick   *time.Ticker
	gen    int
	active bool
	fire   func()
}

var timers []*timer

func timerOf(t *time.Timer) *timer {
	for _, x := range timers {
		if x.t == t {
			return x
		}
	}
	panic("time: Stop called on uninitialized Timer")
}

func (x *timer) start(d time.Duration) {
	x.gen++
	x.active = true
	gen := x.gen
	go func() {
		time.Sleep(d)
		if x.active && x.gen == gen {
			x.active = false
			x.fire()
		}
	}()
}

func (x *timer) stop() bool {
	was := x.active
	x.active = false
	x.gen++
	return was
}

//model: time.AfterFunc
func AfterFunc(d time.Duration, f func()) *time.Timer {
	x := &timer{t: new(time.Timer), fire: f}
	timers = append(timers, x)
	x.start(d)
	return x.t
}

//model: time.NewTimer
func NewTimer(d time.Duration) *time.Timer {
	ch := make(chan time.Time, 1)
	x := &timer{t: &time.Timer{C: ch}}
	x.fire = func() {
		select {
		case ch <- time.Now():
		default:
		}
	}
	timers = append(timers, x)
	x.start(d)
	return x.t
}

//model: (*time.Timer).Stop
func TimerStop(t *time.Timer) bool { return timerOf(t).stop() }

//model: (*time.Timer).Reset
func TimerReset(t *time.Timer, d time.Duration) bool {
	x := timerOf(t)
	was := x.stop()
	x.start(d)
	return was
}

//model: time.NewTicker
func NewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	x := &timer{tick: &time.Ticker{C: ch}}
	x.fire = func() {
		select {
		case ch <- time.Now():
		default:
		}
		x.start(d)
	}
	timers = append(timers, x)
	x.start(d)
	return x.tick
}

//model: (*time.Ticker).Stop
func TickerStop(t *time.Ticker) {
	for _, x := range timers {
		if x.tick == t {
			x.stop()
		}
	}
}

// No signal arrives.

//model: os/signal.NotifyContext
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}

//model: os/signal.Notify
func SignalNotify(c chan<- os.Signal, sigs ...os.Signal) {}

//model: os/signal.Stop
func SignalStop(c chan<- os.Signal) {}

//model: os/signal.Ignore
func SignalIgnore(sigs ...os.Signal) {}

//model: os/signal.Reset
func SignalReset(sigs ...os.Signal) {}

//model: os.Executable
func Executable() (string, error) { return "/bin/vprog", nil }

//model: os.Getuid
func Getuid() int { return 65534 }

//model: os.Geteuid
func Geteuid() int { return 65534 }

//model: os.Getgid
func Getgid() int { return 65534 }

//model: os.Getppid
func Getppid() int { return 4241 }

//model: os.Chown
func Chown(name string, uid, gid int) error { _, err := os.Stat(name); return err }

//model: os.Lchown
func Lchown(name string, uid, gid int) error { _, err := os.Lstat(name); return err }

//model: (*os.File).ReadAt
func FileReadAt(f *os.File, b []byte, off int64) (int, error) {
	at, err := f.Seek(0, 1)
	if err != nil {
		return 0, err
	}
	defer f.Seek(at, 0)
	if _, err := f.Seek(off, 0); err != nil {
		return 0, err
	}
	n := 0
	for n < len(b) {
		k, err := f.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

//model: (*os.File).WriteAt
func FileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	at, err := f.Seek(0, 1)
	if err != nil {
		return 0, err
	}
	defer f.Seek(at, 0)
	if _, err := f.Seek(off, 0); err != nil {
		return 0, err
	}
	return f.Write(b)
}

// Random numbers are always the first.

//model: math/rand.Intn
func RandIntn(n int) int { return 0 }

//model: math/rand.Int63n
func RandInt63n(n int64) int64 { return 0 }

//model: math/rand.Int31n
func RandInt31n(n int32) int32 { return 0 }

//model: math/rand.Int
func RandInt() int { return 1 }

//model: math/rand.Int63
func RandInt63() int64 { return 1 }

//model: math/rand.Uint32
func RandUint32() uint32 { return 1 }

//model: math/rand.Uint64
func RandUint64() uint64 { return 1 }

//model: math/rand.Float64
func RandFloat64() float64 { return 0.5 }

//model: math/rand.Seed
func RandSeed(int64) {}

//model: math/rand.Shuffle
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, 0)
	}
}

//model: math/rand.Perm
func RandPerm(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = n - 1 - i
	}
	return r
}

//model: crypto/rand.Read
func CryptoRead(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(i)
	}
	return len(b), nil
}
