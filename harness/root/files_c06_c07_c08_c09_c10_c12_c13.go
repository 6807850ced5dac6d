package fab

import (
	"context"
	"os"
	"path/filepath"
	"sort"

	"github.com/bobg/fab/zzverif/nd"
)

// vhSub is a JSON-encodable subtarget that counts its runs.
type vhSub struct {
	Def  string
	Runs *int                        `json:"-"`
	Do   func(context.Context) error `json:"-"`
}

func (s *vhSub) Run(ctx context.Context, con *Controller) error {
	*s.Runs++
	if s.Do != nil {
		return s.Do(ctx)
	}
	return nil
}
func (*vhSub) Desc() string { return "sub" }

// vhFile is a file and its contents.
type vhFile struct{ path, text string }

// vhSnapshot lists the files at and below the given paths, sorted, without duplicates; those that do not exist have the text "\x00absent".
func vhSnapshot(paths []string) []vhFile {
	m := map[string]string{}
	var add func(p string)
	add = func(p string) {
		info, err := os.Stat(p)
		if err != nil {
			m[p] = "\x00absent"
			return
		}
		if info.IsDir() {
			ents, err := os.ReadDir(p)
			nd.Assert(err == nil, "harness: reading directory")
			for _, e := range ents {
				add(filepath.Join(p, e.Name()))
			}
			return
		}
		b, err := os.ReadFile(p)
		nd.Assert(err == nil, "harness: reading file")
		m[p] = string(b)
	}
	for _, p := range paths {
		add(p)
	}
	var names []string
	for p := range m {
		names = append(names, p)
	}
	sort.Strings(names)
	var r []vhFile
	for _, n := range names {
		r = append(r, vhFile{n, m[n]})
	}
	return r
}

func vhSameFiles(a, b []vhFile) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].path != b[i].path || a[i].text != b[i].text {
			return false
		}
	}
	return true
}

// vhState is the state of a rule: its input and output files.
type vhState struct{ in, out []vhFile }

func (s vhState) in_(l []vhState) bool {
	for _, t := range l {
		if vhSameFiles(s.in, t.in) && vhSameFiles(s.out, t.out) {
			return true
		}
	}
	return false
}

// vhFaultDB is a hash database that may fail.
type vhFaultDB struct {
	vhDB
	hasErr, addErr error
	hasN, addN     int
}

func (d *vhFaultDB) Has(ctx context.Context, h []byte) (bool, error) {
	d.hasN++
	if d.hasErr != nil {
		// The answer that comes with an error means nothing.
		return nd.Bool("answer"), d.hasErr
	}
	return d.vhDB.Has(ctx, h)
}
func (d *vhFaultDB) Add(ctx context.Context, h []byte) error {
	d.addN++
	if d.addErr != nil {
		return d.addErr
	}
	return d.vhDB.Add(ctx, h)
}

// vhTree lists everything below a directory: names, kinds, modes and contents.
func vhTree(dir string) []vhFile {
	var r []vhFile
	ents, err := os.ReadDir(dir)
	nd.Assert(err == nil, "harness: reading directory")
	for _, e := range ents {
		p := dir + "/" + e.Name()
		info, err := os.Lstat(p)
		nd.Assert(err == nil, "harness: file info")
		if info.IsDir() {
			r = append(r, vhFile{p, "\x00" + info.Mode().String()})
			r = append(r, vhTree(p)...)
			continue
		}
		b, err := os.ReadFile(p)
		nd.Assert(err == nil, "harness: reading file")
		r = append(r, vhFile{p, info.Mode().String() + string(b)})
	}
	return r
}
