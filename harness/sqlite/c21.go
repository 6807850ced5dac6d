package sqlite

import (
	"context"
	"errors"
	"os"
	"sync"
	"time"

	"github.com/benbjohnson/clock"

	"github.com/bobg/fab/zzverif/nd"
)

// vhClock is a clock that shows a given time.
type vhClock struct {
	clock.Clock
	now time.Time
}

func (c *vhClock) Now() time.Time { return c.now }

// vhEntry is what is known of a hash.
type vhEntry struct {
	hash    string
	added   bool // ever
	present bool // it must be
	absent  bool // it must not be
	sec     int64
	nsec    int
}

// past is sec and nsec of the given duration later than e's last refresh, compared to the present: -1, 0 or 1.
func (e *vhEntry) cmp(d time.Duration, sec int64, nsec int) int {
	// d is concrete
	s := e.sec + int64(d/time.Second)
	n := e.nsec + int(d%time.Second)
	if n >= 1e9 {
		s++
		n -= 1e9
	}
	switch {
	case s < sec || s == sec && n < nsec:
		return -1
	case s == sec && n == nsec:
		return 0
	}
	return 1
}

// VH_C21_history: three (thorough: four) steps, each of which adds or looks up (quick: the first adds, at a whole second) any of two hashes (of one byte, or longer, or empty), with the database perhaps closed and reopened before the third, at any times between 1970 and 2106 that do not decrease, with either of two (thorough: three) fractions of a second, with any of three (thorough: six) keep times, with and without update on access.
// An entry that has gone unrefreshed for between the keep time and one second more may be present or not.
// vh: budget=80s tbudget=400s
func VH_C21_history() {
	ctx := context.Background()
	path := nd.TempDir() + "/h.db"
	keeps := []time.Duration{0, 2 * time.Second, 500 * time.Millisecond, -time.Second, 24 * time.Hour, 1500 * time.Millisecond}
	keep := keeps[nd.Choice("keep", nd.Tier(3, 6))]
	update := nd.Choice("update", 2) == 1
	clk := &vhClock{}
	opts := []Option{WithClock(clk), Keep(keep)}
	if !update {
		opts = append(opts, UpdateOnAccess(false))
	} else if keep > time.Second {
		opts = append(opts, UpdateOnAccess(true))
	}
	db, err := Open(path, opts...)
	nd.Assert(err == nil, "the database is opened")
	h1 := nd.Bytes("hash", 1, "")
	h2 := nd.Bytes("hash", 2, "\x00'%a\xff")
	nd.Assume(string(h1) != string(h2))
	es := []*vhEntry{{hash: string(h1)}, {hash: string(h2)}}
	sec, nsec := int64(0), 0
	nanos := []int{0, 999999999, 500000000}
	n := nd.Tier(3, 4)
	reopen := 2 * nd.Choice("reopen", 2)
	for i := 0; i < n; i++ {
		if i > 0 && i == reopen {
			nd.Assert(db.Close() == nil, "the database is closed")
			db, err = Open(path, opts...)
			nd.Assert(err == nil, "the database is opened again")
		}
		s := int64(nd.Int("sec", 0, 1<<32-1))
		ns := nanos[nd.Choice("nsec", nd.Tier(1+vhB2i(i > 0), 3))]
		nd.Assume(s > sec || s == sec && ns >= nsec)
		sec, nsec = s, ns
		clk.now = time.Unix(sec, int64(nsec))
		e := es[nd.Choice("which", 1+vhB2i(i > 0))]
		if nd.Choice("op", nd.Tier(1+vhB2i(i > 0), 2)) == 0 {
			nd.Assert(db.Add(ctx, []byte(e.hash)) == nil, "adding succeeds")
			e.added, e.present, e.absent = true, true, false
			e.sec, e.nsec = sec, nsec
			if keep > 0 {
				for _, x := range es {
					if !x.added {
						continue
					}
					if x.cmp(keep, sec, nsec) < 0 {
						x.present = false
					}
					if x.cmp(keep+time.Second, sec, nsec) < 0 {
						x.absent = true
					}
				}
			}
			continue
		}
		has, err := db.Has(ctx, []byte(e.hash))
		nd.Assert(err == nil, "looking up succeeds")
		if !e.added {
			nd.Assert(!has, "a hash that was never added is not present")
			continue
		}
		nd.Assert(has || !e.present, "a hash is present until it has gone unrefreshed for longer than the keep time")
		nd.Assert(!has || !e.absent, "an addition evicts older entries")
		if has && update {
			e.present = true
			e.sec, e.nsec = sec, nsec
		} else if !has {
			e.absent = true
		}
	}
	// whatever happened, this is still so
	for _, e := range es {
		has, err := db.Has(ctx, []byte(e.hash))
		nd.Assert(err == nil && (has || !e.present) && (!has || e.added && !e.absent), "the entries are as they should be at the end")
	}
	nd.Assert(db.Close() == nil, "the database is closed")
	nd.Reach("end")
}

// VH_C21_defaults: a database with the default options (no keep time, update on access, and the real clock), to which any hash is added once or twice; it holds that and no other, also after a second one is added and the file is reopened.
// vh: budget=10s
func VH_C21_defaults() {
	ctx := context.Background()
	path := nd.TempDir() + "/h.db"
	db, err := Open(path)
	nd.Assert(err == nil, "the database is opened")
	h1, h2, h3 := nd.Bytes("hash", 2, ""), nd.Bytes("hash", 2, ""), nd.Bytes("hash", 1, "")
	in := func(h []byte, l ...[]byte) bool {
		for _, x := range l {
			if string(x) == string(h) {
				return true
			}
		}
		return false
	}
	has := func(h []byte) bool {
		ok, err := db.Has(ctx, h)
		nd.Assert(err == nil, "looking up succeeds")
		return ok
	}
	nd.Assert(!has(h1), "a hash that was never added is not present")
	nd.Assert(db.Add(ctx, h1) == nil, "adding succeeds")
	if nd.Bool("twice") {
		nd.Assert(db.Add(ctx, h1) == nil, "adding succeeds")
	}
	nd.Assert(has(h1) && has(h2) == in(h2, h1), "exactly what was added is present")
	nd.Assert(db.Add(ctx, h2) == nil, "adding succeeds")
	nd.Assert(db.Close() == nil, "the database is closed")
	db, err = Open(path)
	nd.Assert(err == nil, "the database is opened again")
	nd.Assert(has(h1) && has(h2) && has(h3) == in(h3, h1, h2), "exactly what was added is present")
	nd.Reach("end")
}

// VH_C21_errors: operations on a closed database or with a cancelled context report an error and a database that cannot be opened is an error; no answer is invented.
// vh: budget=10s
func VH_C21_errors() {
	base := nd.TempDir()
	path := base + "/h.db"
	update := nd.Bool("update")
	db, err := Open(path, UpdateOnAccess(update), Keep(time.Hour))
	nd.Assert(err == nil, "the database is opened")
	h := nd.Bytes("hash", 1, "")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	nd.Assert(db.Add(ctx, h) == nil, "adding succeeds")
	what := nd.Choice("what", 3)
	switch what {
	case 0:
		db.Close()
	case 1:
		cancel()
	case 2:
		os.Mkdir(base+"/d", 0755)
		_, err := Open([]string{base + "/d", base + "/none/h.db", path + "/x"}[nd.Choice("path", 3)])
		nd.Assert(err != nil, "a database that cannot be opened is an error")
		nd.Reach("open")
		return
	}
	ok, err := db.Has(ctx, h)
	nd.Assert(err != nil && !ok, "looking up reports the error")
	err = db.Add(ctx, []byte("x"))
	nd.Assert(err != nil, "adding reports the error")
	nd.Assert(what == 0 || errors.Is(err, context.Canceled), "the error is that of the context")
	nd.Reach("end")
}

// VH_C21_concurrent: two goroutines that each add and look up hashes, the same or others, with update on access or not, and with a keep time, under any schedule with at most two preemptions.
// vh: budget=30s
func VH_C21_concurrent() {
	ctx := context.Background()
	clk := &vhClock{now: time.Unix(1000000, 0)}
	db, err := Open(nd.TempDir()+"/h.db", WithClock(clk), Keep(time.Minute), UpdateOnAccess(nd.Bool("update")))
	nd.Assert(err == nil, "the database is opened")
	old := []byte("old")
	nd.Assert(db.Add(ctx, old) == nil, "adding succeeds")
	clk.now = clk.now.Add(30 * time.Second)
	a := []byte("a")
	b := a
	if nd.Bool("other") {
		b = []byte("b")
	}
	errs := make([]error, 4)
	oks := make([]bool, 2)
	var wg sync.WaitGroup
	wg.Add(2)
	nd.Explore(2, true)
	go func() {
		errs[0] = db.Add(ctx, a)
		oks[0], errs[1] = db.Has(ctx, a)
		wg.Done()
	}()
	go func() {
		oks[1], errs[2] = db.Has(ctx, old)
		errs[3] = db.Add(ctx, b)
		wg.Done()
	}()
	wg.Wait()
	nd.StopExplore()
	for _, err := range errs {
		nd.Assert(err == nil, "concurrent operations succeed")
	}
	nd.Assert(oks[0] && oks[1], "what was added is present")
	for _, h := range [][]byte{a, b, old} {
		ok, err := db.Has(ctx, h)
		nd.Assert(ok && err == nil, "what was added is present")
	}
	nd.Reach("end")
}

func vhB2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
