package zzrules

import (
	"context"
	"sync"

	"github.com/bobg/fab"
)

// Ran is one run of a target.
type Ran struct {
	Name                string
	Args                string
	Verbose, Force, Dry bool
	Had                 bool // the hash DB knew the key
	DB                  bool // there is a hash DB, which remembers
	Top                 string
}

var (
	mu sync.Mutex

	// Log is what ran.
	Log []Ran

	// Failing is the name of the target that fails.
	Failing string

	// Key is for the hash DB.
	Key = "key"
)

// Note records a run.
func Note(ctx context.Context, con *fab.Controller, name string) error {
	args := ""
	for _, a := range fab.GetArgs(ctx) {
		args += a + ";"
	}
	r := Ran{Name: name, Args: args, Verbose: fab.GetVerbose(ctx), Force: fab.GetForce(ctx), Dry: fab.GetDryRun(ctx), Top: con.JoinPath("")}
	if db := fab.GetHashDB(ctx); db != nil {
		var err1, err2 error
		r.Had, err1 = db.Has(ctx, []byte(Key))
		err2 = db.Add(ctx, []byte(Key))
		has, err3 := db.Has(ctx, []byte(Key))
		r.DB = err1 == nil && err2 == nil && err3 == nil && has
	}
	mu.Lock()
	Log = append(Log, r)
	mu.Unlock()
	if name == Failing {
		return &failed{name}
	}
	return nil
}

type failed struct{ name string }

func (f *failed) Error() string { return f.name + " fails" }

type probe struct{ name string }

func (p *probe) Run(ctx context.Context, con *fab.Controller) error { return Note(ctx, con, p.name) }
func (p *probe) Desc() string                                       { return "probe" }

// Alpha is the first.
// It says "a\b".
var Alpha = &probe{"Alpha"}

var (
	Beta  fab.Target = &probe{"Beta"}
	gamma fab.Target = &probe{"gamma"}
	// Count is not a target.
	Count = 3
)

// Gamma is another name.
func Gamma() fab.Target { return gamma }
