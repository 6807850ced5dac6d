// Package vm models the parts of the environment that the analysed code uses:
// the file system, processes, the environment, hashing and SQL. The symbolic
// engine interprets these functions in place of those named in the "model:"
// lines. Natively they are not used.
package vm

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/bobg/fab/zzverif/nd"
)

const (
	kFile = iota
	kDir
	kLink
)

type node struct {
	kind   int
	mode   uint32
	data   []byte
	target string
	names  []string
	kids   []*node
	parent *node
}

type ofile struct {
	n      *node
	name   string
	off    int
	flag   int
	closed bool
	dirPos int
	std    int // 1: stdin, 2: stdout, 3: stderr
}

type fileEnt struct {
	f *os.File
	o *ofile
}

var (
	root    = &node{kind: kDir, mode: 0777}
	cwd     = "/w"
	files   []fileEnt
	tempSeq int
	env     []string

	// Stdin is what reading os.Stdin yields.
	Stdin []byte
	// Stdout and Stderr are what was written to the standard streams.
	Stdout, Stderr []byte
)

func init() {
	root.put("w", &node{kind: kDir, mode: 0755})
	root.put("tmp", &node{kind: kDir, mode: 0777})
	root.parent = root
	files = []fileEnt{
		{os.Stdin, &ofile{name: "/dev/stdin", std: 1}},
		{os.Stdout, &ofile{name: "/dev/stdout", std: 2}},
		{os.Stderr, &ofile{name: "/dev/stderr", std: 3}},
	}
}

// indexName is the first index of a name, or -1.
func indexName(names []string, name string) int {
	for i, n := range names {
		if n == name {
			return i
		}
	}
	return -1
}

// namePos is where a new name goes in a sorted list.
func namePos(names []string, name string) int {
	i := 0
	for i < len(names) && names[i] < name {
		i++
	}
	return i
}

// nextElt is the next element of a path from i.
func nextElt(path string, i int) (int, int) {
	for i < len(path) && path[i] == '/' {
		i++
	}
	j := i
	for j < len(path) && path[j] != '/' {
		j++
	}
	return i, j
}

func hasNul(path string) bool {
	for i := 0; i < len(path); i++ {
		if path[i] == 0 {
			return true
		}
	}
	return false
}

func (d *node) lookup(name string) *node {
	if i := indexName(d.names, name); i >= 0 {
		return d.kids[i]
	}
	return nil
}

func (d *node) put(name string, k *node) {
	k.parent = d
	if i := indexName(d.names, name); i >= 0 {
		d.kids[i] = k
		return
	}
	// Keep names sorted, as directory listings are.
	i := namePos(d.names, name)
	names := make([]string, 0, len(d.names)+1)
	kids := make([]*node, 0, len(d.names)+1)
	names = append(names, d.names[:i]...)
	kids = append(kids, d.kids[:i]...)
	names = append(names, name)
	kids = append(kids, k)
	d.names = append(names, d.names[i:]...)
	d.kids = append(kids, d.kids[i:]...)
}

func (d *node) del(name string) {
	for i, n := range d.names {
		if n == name {
			d.names = append(append([]string(nil), d.names[:i]...), d.names[i+1:]...)
			d.kids = append(append([]*node(nil), d.kids[:i]...), d.kids[i+1:]...)
			return
		}
	}
}

// resolve walks path from base. It returns the parent directory, the last name
// and the node (nil if only the last element does not exist).
func walk(base *node, path string, follow bool, depth int) (dir *node, name string, n *node, e syscall.Errno) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if hasNul(path) {
		return nil, "", nil, syscall.EINVAL
	}
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	cur := base
	i := 0
	if path[0] == '/' {
		cur = root
	}
	dir, name, n = cur.parent, ".", cur
	for {
		var j int
		i, j = nextElt(path, i)
		if i == len(path) {
			if len(path) > 0 && path[len(path)-1] == '/' && n != nil && n.kind == kFile {
				return nil, "", nil, syscall.ENOTDIR
			}
			return dir, name, n, 0
		}
		elt := path[i:j]
		if n == nil {
			return nil, "", nil, syscall.ENOENT
		}
		if n.kind != kDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if n.mode&0100 == 0 {
			return nil, "", nil, syscall.EACCES
		}
		if len(elt) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		cur = n
		switch elt {
		case ".":
			dir, name, n = cur.parent, ".", cur
		case "..":
			dir, name, n = cur.parent.parent, "..", cur.parent
		default:
			dir, name, n = cur, elt, cur.lookup(elt)
			last := j == len(path)
			if n != nil && n.kind == kLink && (!last || follow) {
				d2, n2name, n2, e := walk(cur, n.target, true, depth+1)
				if e != 0 {
					return nil, "", nil, e
				}
				dir, name, n = d2, n2name, n2
			}
		}
		i = j
	}
}

func cwdNode() *node {
	_, _, n, e := walk(root, cwd, true, 0)
	if e != 0 || n == nil {
		return root
	}
	return n
}

func find(path string, follow bool) (dir *node, name string, n *node, e syscall.Errno) {
	if path != "" && path[0] == '/' {
		return walk(root, path, follow, 0)
	}
	return walk(cwdNode(), path, follow, 0)
}

func get(path string, follow bool) (*node, syscall.Errno) {
	_, _, n, e := find(path, follow)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	return n, e
}

func perr(op, path string, e syscall.Errno) error {
	return &fs.PathError{Op: op, Path: path, Err: e}
}

type finfo struct {
	name string
	n    *node
	size int64
	mode fs.FileMode
}

func (f *finfo) Name() string       { return f.name }
func (f *finfo) Size() int64        { return f.size }
func (f *finfo) Mode() fs.FileMode  { return f.mode }
func (f *finfo) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (f *finfo) IsDir() bool        { return f.mode.IsDir() }
func (f *finfo) Sys() any           { return nil }
func (f *finfo) Type() fs.FileMode  { return f.mode.Type() }
func (f *finfo) Info() (fs.FileInfo, error) {
	return f, nil
}
func (f *finfo) String() string { return fs.FormatFileInfo(f) }

func info(name string, n *node) *finfo {
	m := fs.FileMode(n.mode & 0777)
	switch n.kind {
	case kDir:
		m |= fs.ModeDir
	case kLink:
		m = fs.ModeSymlink | 0777
	}
	return &finfo{name: name, n: n, size: int64(len(n.data)), mode: m}
}

//model: os.Stat
func Stat(path string) (fs.FileInfo, error) {
	nd.Yield("stat")
	n, e := get(path, true)
	if e != 0 {
		return nil, perr("stat", path, e)
	}
	return info(base(path), n), nil
}

//model: os.Lstat
func Lstat(path string) (fs.FileInfo, error) {
	nd.Yield("lstat")
	n, e := get(path, false)
	if e != 0 {
		return nil, perr("lstat", path, e)
	}
	return info(base(path), n), nil
}

// base is the last element of path, like os.basename.
func base(name string) string {
	i := len(name) - 1
	for ; i > 0 && name[i] == '/'; i-- {
		name = name[:i]
	}
	for i--; i >= 0; i-- {
		if name[i] == '/' {
			name = name[i+1:]
			break
		}
	}
	return name
}

func newFile(o *ofile) *os.File {
	f := new(os.File)
	files = append(files, fileEnt{f, o})
	return f
}

func handle(f *os.File) *ofile {
	for i := len(files) - 1; i >= 0; i-- {
		if files[i].f == f {
			return files[i].o
		}
	}
	return nil
}

//model: os.OpenFile
func OpenFile(path string, flag int, perm fs.FileMode) (*os.File, error) {
	return nd.OpenFile(openFile, path, flag, perm)
}

func openFile(path string, flag int, perm fs.FileMode) (*os.File, error) {
	nd.Yield("open")
	dir, name, n, e := find(path, true)
	if e != 0 {
		return nil, perr("open", path, e)
	}
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", path, syscall.ENOENT)
		}
		if path[len(path)-1] == '/' {
			return nil, perr("open", path, syscall.EISDIR)
		}
		if dir.mode&0200 == 0 || dir.mode&0100 == 0 {
			return nil, perr("open", path, syscall.EACCES)
		}
		n = &node{kind: kFile, mode: uint32(perm) &^ 022}
		dir.put(name, n)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", path, syscall.EEXIST)
		}
		if n.kind == kDir && wr {
			return nil, perr("open", path, syscall.EISDIR)
		}
		if wr && n.mode&0200 == 0 || flag&os.O_WRONLY == 0 && n.mode&0400 == 0 {
			return nil, perr("open", path, syscall.EACCES)
		}
		if flag&os.O_TRUNC != 0 && wr {
			n.data = nil
		}
	}
	return newFile(&ofile{n: n, name: path, flag: flag}), nil
}

//model: os.Open
func Open(path string) (*os.File, error) { return OpenFile(path, os.O_RDONLY, 0) }

//model: os.Create
func Create(path string) (*os.File, error) {
	return OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//model: os.ReadFile
func ReadFile(path string) ([]byte, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	o := handle(f)
	o.closed = true
	if o.n.kind == kDir {
		return nil, perr("read", path, syscall.EISDIR)
	}
	return append([]byte{}, o.n.data...), nil
}

//model: os.WriteFile
func WriteFile(path string, data []byte, perm fs.FileMode) error {
	return nd.WriteFile(writeFile, path, data, perm)
}

func writeFile(path string, data []byte, perm fs.FileMode) error {
	f, err := openFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	handle(f).closed = true
	return err
}

func check(f *os.File, op string) (*ofile, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	o := handle(f)
	if o == nil {
		nd.Unsupported("unknown *os.File")
	}
	if o.closed {
		return o, &fs.PathError{Op: op, Path: o.name, Err: os.ErrClosed}
	}
	return o, nil
}

//model: (*os.File).Read
func FileRead(f *os.File, b []byte) (int, error) {
	o, err := check(f, "read")
	if err != nil {
		return 0, err
	}
	data := Stdin
	if o.std == 0 {
		if o.n.kind == kDir {
			return 0, perr("read", o.name, syscall.EISDIR)
		}
		if o.flag&os.O_WRONLY != 0 {
			return 0, perr("read", o.name, syscall.EBADF)
		}
		data = o.n.data
	} else if o.std != 1 {
		return 0, perr("read", o.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if o.off >= len(data) {
		return 0, io.EOF
	}
	n := copy(b, data[o.off:])
	o.off += n
	return n, nil
}

//model: (*os.File).Write
func FileWrite(f *os.File, b []byte) (int, error) {
	o, err := check(f, "write")
	if err != nil {
		return 0, err
	}
	return o.write(b)
}

func (o *ofile) write(b []byte) (int, error) {
	nd.Yield("write")
	switch o.std {
	case 1:
		return 0, perr("write", o.name, syscall.EBADF)
	case 2:
		Stdout = append(Stdout, b...)
		return len(b), nil
	case 3:
		Stderr = append(Stderr, b...)
		return len(b), nil
	}
	if o.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", o.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if o.flag&os.O_APPEND != 0 {
		o.off = len(o.n.data)
	}
	d := make([]byte, 0, len(o.n.data)+len(b))
	d = append(d, o.n.data...)
	for len(d) < o.off {
		d = append(d, 0)
	}
	d = append(d[:o.off], b...)
	if o.off+len(b) < len(o.n.data) {
		d = append(d, o.n.data[o.off+len(b):]...)
	}
	o.n.data = d
	o.off += len(b)
	return len(b), nil
}

//model: (*os.File).WriteString
func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

type fileReader struct{ f *os.File }

func (r fileReader) Read(b []byte) (int, error) { return FileRead(r.f, b) }

type fileWriter struct{ f *os.File }

func (w fileWriter) Write(b []byte) (int, error) { return FileWrite(w.f, b) }

//model: (*os.File).WriteTo
func FileWriteTo(f *os.File, w io.Writer) (int64, error) {
	if _, err := check(f, "read"); err != nil {
		return 0, err
	}
	return io.Copy(w, fileReader{f})
}

//model: (*os.File).ReadFrom
func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	if _, err := check(f, "write"); err != nil {
		return 0, err
	}
	return io.Copy(fileWriter{f}, r)
}

//model: (*os.File).Close
func FileClose(f *os.File) error {
	o, err := check(f, "close")
	if err != nil {
		return err
	}
	o.closed = true
	return nil
}

//model: (*os.File).Sync
func FileSync(f *os.File) error {
	_, err := check(f, "sync")
	return err
}

//model: (*os.File).Name
func FileName(f *os.File) string { return handle(f).name }

//model: (*os.File).Stat
func FileStat(f *os.File) (fs.FileInfo, error) {
	o, err := check(f, "stat")
	if err != nil {
		return nil, err
	}
	if o.std != 0 {
		nd.Unsupported("Stat of a standard stream")
	}
	return info(base(o.name), o.n), nil
}

//model: (*os.File).Truncate
func FileTruncate(f *os.File, size int64) error {
	o, err := check(f, "truncate")
	if err != nil {
		return err
	}
	d := append([]byte{}, o.n.data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	o.n.data = d[:size]
	return nil
}

//model: (*os.File).Seek
func FileSeek(f *os.File, offset int64, whence int) (int64, error) {
	o, err := check(f, "seek")
	if err != nil {
		return 0, err
	}
	p := int(offset)
	switch whence {
	case 1:
		p += o.off
	case 2:
		p += len(o.n.data)
	}
	if p < 0 {
		return 0, perr("seek", o.name, syscall.EINVAL)
	}
	o.off = p
	return int64(p), nil
}

func list(o *ofile, n int) ([]*finfo, error) {
	if o.n == nil || o.n.kind != kDir {
		return nil, perr("readdirent", o.name, syscall.ENOTDIR)
	}
	var r []*finfo
	for o.dirPos < len(o.n.names) && (n <= 0 || len(r) < n) {
		r = append(r, info(o.n.names[o.dirPos], o.n.kids[o.dirPos]))
		o.dirPos++
	}
	if n > 0 && len(r) == 0 {
		return nil, io.EOF
	}
	return r, nil
}

//model: (*os.File).ReadDir
func FileReadDir(f *os.File, n int) ([]fs.DirEntry, error) {
	o, err := check(f, "readdir")
	if err != nil {
		return nil, err
	}
	l, err := list(o, n)
	r := []fs.DirEntry{}
	for _, x := range l {
		r = append(r, x)
	}
	return r, err
}

//model: (*os.File).Readdir
func FileReaddir(f *os.File, n int) ([]fs.FileInfo, error) {
	o, err := check(f, "readdir")
	if err != nil {
		return nil, err
	}
	l, err := list(o, n)
	r := []fs.FileInfo{}
	for _, x := range l {
		r = append(r, x)
	}
	return r, err
}

//model: (*os.File).Readdirnames
func FileReaddirnames(f *os.File, n int) ([]string, error) {
	o, err := check(f, "readdir")
	if err != nil {
		return nil, err
	}
	l, err := list(o, n)
	r := []string{}
	for _, x := range l {
		r = append(r, x.name)
	}
	return r, err
}

//model: os.ReadDir
func ReadDir(path string) ([]fs.DirEntry, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	r, err := FileReadDir(f, -1)
	handle(f).closed = true
	return r, err
}

//model: os.Mkdir
func Mkdir(path string, perm fs.FileMode) error {
	nd.CrashPoint(path)
	return mkdir(path, perm)
}

func mkdir(path string, perm fs.FileMode) error {
	dir, name, n, e := find(path, false)
	if e == 0 && n != nil {
		e = syscall.EEXIST
	}
	if e == 0 && (dir.mode&0200 == 0 || dir.mode&0100 == 0) {
		e = syscall.EACCES
	}
	if e != 0 {
		return perr("mkdir", path, e)
	}
	dir.put(name, &node{kind: kDir, mode: uint32(perm) &^ 022})
	return nil
}

//model: os.MkdirAll
func MkdirAll(path string, perm fs.FileMode) error {
	nd.CrashPoint(path)
	return mkdirAll(path, perm)
}

func mkdirAll(path string, perm fs.FileMode) error {
	if n, e := get(path, true); e == 0 {
		if n.kind == kDir {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	i := len(path)
	for i > 0 && path[i-1] == '/' {
		i--
	}
	for i > 0 && path[i-1] != '/' {
		i--
	}
	for i > 1 && path[i-1] == '/' {
		i--
	}
	if i > 0 {
		if err := mkdirAll(path[:i], perm); err != nil {
			return err
		}
	}
	err := mkdir(path, perm)
	if err != nil {
		n, e := get(path, false)
		if e == 0 && n.kind == kDir {
			return nil
		}
	}
	return err
}

//model: os.Remove
func Remove(path string) error {
	nd.CrashPoint(path)
	return remove(path)
}

func remove(path string) error {
	nd.Yield("remove")
	dir, name, n, e := find(path, false)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && (name == "." || name == "..") {
		e = syscall.EINVAL
	}
	if e == 0 && (dir.mode&0200 == 0 || dir.mode&0100 == 0) {
		e = syscall.EACCES
	}
	if e == 0 && n.kind == kDir && len(n.names) > 0 {
		e = syscall.ENOTEMPTY
	}
	if e != 0 {
		return perr("remove", path, e)
	}
	dir.del(name)
	return nil
}

//model: os.RemoveAll
func RemoveAll(path string) error {
	nd.CrashPoint(path)
	return removeAll(path)
}

func removeAll(path string) error {
	if path == "" {
		return nil
	}
	if b := base(path); b == "." || b == ".." {
		return perr("RemoveAll", path, syscall.EINVAL)
	}
	dir, name, n, e := find(path, false)
	if e == syscall.ENOENT || e == 0 && n == nil {
		return nil
	}
	if e == 0 && (dir.mode&0200 == 0 || dir.mode&0100 == 0) {
		e = syscall.EACCES
	}
	if e != 0 {
		return perr("unlinkat", path, e)
	}
	dir.del(name)
	return nil
}

//model: os.Rename
func Rename(from, to string) error {
	nd.CrashPoint(from, to)
	return rename(from, to)
}

func rename(from, to string) error {
	nd.Yield("rename")
	fdir, fname, fn, e := find(from, false)
	if e == 0 && fn == nil {
		e = syscall.ENOENT
	}
	var tdir, tn *node
	var tname string
	if e == 0 {
		tdir, tname, tn, e = find(to, false)
	}
	if e == 0 && tn != nil && tn.kind == kDir {
		if fn.kind != kDir {
			e = syscall.EEXIST
		} else if len(tn.names) > 0 {
			e = syscall.ENOTEMPTY
		}
	}
	if e == 0 && tn != nil && tn.kind != kDir && fn.kind == kDir {
		e = syscall.ENOTDIR
	}
	if e == 0 && (fdir.mode&0300 != 0300 || tdir.mode&0300 != 0300) {
		e = syscall.EACCES
	}
	if e != 0 {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	if tn == fn {
		return nil
	}
	fdir.del(fname)
	tdir.put(tname, fn)
	return nil
}

//model: os.Symlink
func Symlink(target, path string) error {
	dir, name, n, e := find(path, false)
	if e == 0 && n != nil {
		e = syscall.EEXIST
	}
	if e != 0 {
		return &os.LinkError{Op: "symlink", Old: target, New: path, Err: e}
	}
	dir.put(name, &node{kind: kLink, mode: 0777, target: target})
	return nil
}

//model: os.Link
func Link(from, to string) error {
	n, e := get(from, false)
	var dir, tn *node
	var name string
	if e == 0 {
		dir, name, tn, e = find(to, false)
	}
	if e == 0 && tn != nil {
		e = syscall.EEXIST
	}
	if e != 0 {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: e}
	}
	p := n.parent
	dir.put(name, n)
	n.parent = p
	return nil
}

//model: os.Readlink
func Readlink(path string) (string, error) {
	n, e := get(path, false)
	if e == 0 && n.kind != kLink {
		e = syscall.EINVAL
	}
	if e != 0 {
		return "", perr("readlink", path, e)
	}
	return n.target, nil
}

//model: os.Chmod
func Chmod(path string, mode fs.FileMode) error {
	n, e := get(path, true)
	if e != 0 {
		return perr("chmod", path, e)
	}
	n.mode = uint32(mode) & 0777
	return nil
}

//model: (*os.File).Chmod
func FileChmod(f *os.File, mode fs.FileMode) error {
	o, err := check(f, "chmod")
	if err != nil {
		return err
	}
	o.n.mode = uint32(mode) & 0777
	return nil
}

//model: os.Chtimes
func Chtimes(path string, a, m time.Time) error {
	_, e := get(path, true)
	if e != 0 {
		return perr("chtimes", path, e)
	}
	return nil
}

//model: os.Truncate
func Truncate(path string, size int64) error {
	f, err := OpenFile(path, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer FileClose(f)
	return FileTruncate(f, size)
}

//model: os.Chdir
func Chdir(path string) error {
	n, e := get(path, true)
	if e == 0 && n.kind != kDir {
		e = syscall.ENOTDIR
	}
	if e != 0 {
		return perr("chdir", path, e)
	}
	p := ""
	for n != root {
		i := 0
		for n.parent.kids[i] != n {
			i++
		}
		p = "/" + n.parent.names[i] + p
		n = n.parent
	}
	if p == "" {
		p = "/"
	}
	cwd = p
	return nil
}

//model: os.Getwd
func Getwd() (string, error) { return cwd, nil }

//model: os.TempDir
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

func tempName(pattern string) string {
	tempSeq++
	s := string(rune('0'+tempSeq/100%10)) + string(rune('0'+tempSeq/10%10)) + string(rune('0'+tempSeq%10))
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			return pattern[:i] + s + pattern[i+1:]
		}
	}
	return pattern + s
}

//model: os.MkdirTemp
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	nd.CrashPoint(dir)
	name := dir + "/" + tempName(pattern)
	return name, mkdir(name, 0700)
}

//model: os.CreateTemp
func CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = TempDir()
	}
	nd.CrashPoint(dir)
	return openFile(dir+"/"+tempName(pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

//model: os.Exit
func Exit(code int) {
	panic(nd.ExitPanic{Code: code})
}

//model: os.SameFile
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*finfo)
	y, ok2 := b.(*finfo)
	return ok1 && ok2 && x.n == y.n
}

// dirFS is the model of os.DirFS's result.
type dirFS string

//model: os.DirFS
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) join(op, name string) (string, error) {
	if d == "" {
		return "", &fs.PathError{Op: op, Path: name, Err: os.ErrInvalid}
	}
	if !fs.ValidPath(name) {
		return "", &fs.PathError{Op: op, Path: name, Err: os.ErrInvalid}
	}
	if d[len(d)-1] == '/' {
		return string(d) + name, nil
	}
	return string(d) + "/" + name, nil
}

func (d dirFS) Open(name string) (fs.File, error) {
	p, err := d.join("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(p)
	if err != nil {
		err.(*fs.PathError).Path = name
		return nil, err
	}
	return f, nil
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, err := d.join("readfile", name)
	if err != nil {
		return nil, err
	}
	b, err := ReadFile(p)
	if err != nil {
		if e, ok := err.(*fs.PathError); ok {
			e.Path = name
		}
		return nil, err
	}
	return b, nil
}

func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := d.join("readdir", name)
	if err != nil {
		return nil, err
	}
	l, err := ReadDir(p)
	if err != nil {
		if e, ok := err.(*fs.PathError); ok {
			e.Path = name
		}
		return nil, err
	}
	return l, nil
}

func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	p, err := d.join("stat", name)
	if err != nil {
		return nil, err
	}
	i, err := Stat(p)
	if err != nil {
		err.(*fs.PathError).Path = name
		return nil, err
	}
	return i, nil
}

// --- environment

func envIdx(key string) int {
	for i, kv := range env {
		if len(kv) > len(key) && kv[:len(key)] == key && kv[len(key)] == '=' {
			return i
		}
	}
	return -1
}

//model: os.Getenv
func Getenv(key string) string {
	if i := envIdx(key); i >= 0 {
		return env[i][len(key)+1:]
	}
	return ""
}

//model: os.LookupEnv
func LookupEnv(key string) (string, bool) {
	if i := envIdx(key); i >= 0 {
		return env[i][len(key)+1:], true
	}
	return "", false
}

//model: os.Setenv
func Setenv(key, value string) error {
	if i := envIdx(key); i >= 0 {
		env[i] = key + "=" + value
	} else {
		env = append(env, key+"="+value)
	}
	return nil
}

//model: os.Unsetenv
func Unsetenv(key string) error {
	if i := envIdx(key); i >= 0 {
		env = append(append([]string(nil), env[:i]...), env[i+1:]...)
	}
	return nil
}

//model: os.Clearenv
func Clearenv() { env = nil }

//model: os.Environ
func Environ() []string { return append([]string{}, env...) }

//model: os.UserHomeDir
func UserHomeDir() (string, error) { return Getenv("HOME"), nil }

//model: os.UserCacheDir
func UserCacheDir() (string, error) {
	dir := Getenv("XDG_CACHE_HOME")
	if dir == "" {
		if dir = Getenv("HOME"); dir == "" {
			return "", vmErr("neither $XDG_CACHE_HOME nor $HOME are defined")
		}
		dir += "/.cache"
	} else if !filepath.IsAbs(dir) {
		return "", vmErr("path in $XDG_CACHE_HOME is relative")
	}
	return dir, nil
}

//model: os.Getpid
func Getpid() int { return 4242 }

//model: os.Hostname
func Hostname() (string, error) { return "host", nil }

type vmErr string

func (e vmErr) Error() string { return string(e) }

//model: os.Expand
func Expand(s string, mapping func(string) string) string {
	var buf []byte
	// ${} is all ASCII, so bytes are fine for this operation.
	i := 0
	for j := 0; j < len(s); j++ {
		if s[j] == '$' && j+1 < len(s) {
			if buf == nil {
				buf = make([]byte, 0, 2*len(s))
			}
			buf = append(buf, s[i:j]...)
			name, w := getShellName(s[j+1:])
			if name == "" && w > 0 {
				// Encountered invalid syntax; eat the
				// characters.
			} else if name == "" {
				// Valid syntax, but $ was not followed by a
				// name. Leave the dollar character untouched.
				buf = append(buf, s[j])
			} else {
				buf = append(buf, mapping(name)...)
			}
			j += w
			i = j + 1
		}
	}
	if buf == nil {
		return s
	}
	return string(buf) + s[i:]
}

//model: os.ExpandEnv
func ExpandEnv(s string) string { return Expand(s, Getenv) }

func isShellSpecialVar(c uint8) bool {
	switch c {
	case '*', '#', '$', '@', '!', '?', '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
		return true
	}
	return false
}

func isAlphaNum(c uint8) bool {
	return c == '_' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

func getShellName(s string) (string, int) {
	switch {
	case s[0] == '{':
		if len(s) > 2 && isShellSpecialVar(s[1]) && s[2] == '}' {
			return s[1:2], 3
		}
		// Scan to closing brace
		for i := 1; i < len(s); i++ {
			if s[i] == '}' {
				if i == 1 {
					return "", 2 // Bad syntax; eat "${}"
				}
				return s[1:i], i + 1
			}
		}
		return "", 1 // Bad syntax; eat "${"
	case isShellSpecialVar(s[0]):
		return s[0:1], 1
	}
	// Scan alphanumerics.
	var i int
	for i = 0; i < len(s) && isAlphaNum(s[i]); i++ {
	}
	return s[:i], i
}

//model: os.IsPathSeparator
func IsPathSeparator(c uint8) bool { return c == '/' }
