package fab

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"os/exec"
	"syscall"

	"github.com/bobg/fab/zzverif/nd"
)

// vhLeaf is a target that counts its executions.
type vhLeaf struct {
	ID      int
	runs    int
	started bool
	done    bool
	fail    bool
	err     error
	during  func(ctx context.Context, con *Controller)
}

func (l *vhLeaf) Run(ctx context.Context, con *Controller) error {
	l.runs++
	l.started = true
	if l.during != nil {
		l.during(ctx, con)
	}
	nd.Yield("leaf")
	l.done = true
	if l.fail {
		return l.err
	}
	return nil
}

func (l *vhLeaf) Desc() string { return "leaf" }

func vhNewLeaf(id int) *vhLeaf {
	// The errors are different though they look the same.
	return &vhLeaf{ID: id, err: &vhErr{"leaf fails"}}
}

// vhVia is t itself, or a reference to it by name.
func vhVia(con *Controller, byName bool, name string, t Target) Target {
	if byName {
		return vhNamed(con, name)
	}
	return t
}

// vhComposite combines targets: All, Seq, Deps (the first after the others), or ArgTarget over All.
func vhComposite(kind int, ts ...Target) Target {
	switch kind {
	case 0:
		return All(ts...)
	case 1:
		return Seq(ts...)
	case 2:
		return Deps(ts[0], ts[1:]...)
	}
	if len(ts) == 1 {
		return ArgTarget(ts[0], "x")
	}
	return ArgTarget(All(ts...), "x")
}

// vhWellKnown is an error with nothing special about it, or one of those that programs like to treat specially.
func vhWellKnown() error {
	return []error{
		errors.New("plain"), context.Canceled, context.DeadlineExceeded, fs.ErrNotExist, io.EOF, UnknownStringListTagError{Tag: "x"},
		&exec.ExitError{}, io.ErrUnexpectedEOF, fs.ErrExist, fs.ErrClosed, exec.ErrNotFound, io.ErrClosedPipe,
		syscall.ENOENT, syscall.EPIPE, syscall.EINTR,
	}[nd.Choice("error", 15)]
}
