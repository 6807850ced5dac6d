package main

import (
	"path"
	"path/filepath"
	"strings"
	"unicode/utf8"
)

// fast are functions of the standard library and of the models that are
// computed directly when all their arguments are concrete.
var fast = map[string]func(c *Call) (Value, bool){}

// cstr is the concrete string argument i.
func (c *Call) cstr(i int) (string, bool) {
	switch s := c.args[i].p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

// cstrs is the concrete string slice argument i.
func (c *Call) cstrs(i int) ([]string, bool) {
	sl, _ := c.args[i].p.(*Slice)
	if sl == nil {
		return nil, true
	}
	r := make([]string, sl.len)
	for k := range r {
		switch s := sl.o.cells[sl.base+k].p.(type) {
		case nil:
		case string:
			r[k] = s
		default:
			return nil, false
		}
	}
	return r, true
}

func (c *Call) cint(i int) (int, bool) { return int(int64(c.args[i].n)), c.args[i].p == nil }

func init() {
	s1 := func(f func(string) string, names ...string) {
		for _, n := range names {
			fast[n] = func(c *Call) (Value, bool) {
				s, ok := c.cstr(0)
				if !ok {
					return Value{}, false
				}
				return vStr(f(s)), true
			}
		}
	}
	s2 := func(f func(a, b string) Value, names ...string) {
		for _, n := range names {
			fast[n] = func(c *Call) (Value, bool) {
				a, ok1 := c.cstr(0)
				b, ok2 := c.cstr(1)
				if !ok1 || !ok2 {
					return Value{}, false
				}
				return f(a, b), true
			}
		}
	}
	s1(filepath.Clean, "path/filepath.Clean", "internal/filepathlite.Clean")
	s1(path.Clean, "path.Clean")
	s1(filepath.Base, "path/filepath.Base", "internal/filepathlite.Base")
	s1(filepath.Dir, "path/filepath.Dir", "internal/filepathlite.Dir")
	s1(strings.TrimSpace, "strings.TrimSpace")
	s1(strings.ToLower, "strings.ToLower")
	s2(func(a, b string) Value { return vBool(strings.HasPrefix(a, b)) }, "strings.HasPrefix", "internal/stringslite.HasPrefix")
	s2(func(a, b string) Value { return vBool(strings.HasSuffix(a, b)) }, "strings.HasSuffix", "internal/stringslite.HasSuffix")
	s2(func(a, b string) Value { return vBool(strings.Contains(a, b)) }, "strings.Contains")
	s2(func(a, b string) Value { return vInt(int64(strings.Index(a, b))) }, "strings.Index", "internal/stringslite.Index")
	s2(func(a, b string) Value { return vInt(int64(strings.LastIndex(a, b))) }, "strings.LastIndex")
	s2(func(a, b string) Value { return vStr(strings.TrimPrefix(a, b)) }, "strings.TrimPrefix", "internal/stringslite.TrimPrefix")
	s2(func(a, b string) Value { return vStr(strings.TrimSuffix(a, b)) }, "strings.TrimSuffix", "internal/stringslite.TrimSuffix")
	join := func(f func(...string) string, names ...string) {
		for _, n := range names {
			fast[n] = func(c *Call) (Value, bool) {
				l, ok := c.cstrs(0)
				if !ok {
					return Value{}, false
				}
				return vStr(f(l...)), true
			}
		}
	}
	join(filepath.Join, "path/filepath.Join")
	join(path.Join, "path.Join")
	fast["strings.Join"] = func(c *Call) (Value, bool) {
		l, ok := c.cstrs(0)
		sep, ok2 := c.cstr(1)
		if !ok || !ok2 {
			return Value{}, false
		}
		return vStr(strings.Join(l, sep)), true
	}
	fast["unicode/utf8.ValidString"] = func(c *Call) (Value, bool) {
		s, ok := c.cstr(0)
		return vBool(utf8.ValidString(s)), ok
	}
	fast["unicode/utf8.DecodeRuneInString"] = func(c *Call) (Value, bool) {
		s, ok := c.cstr(0)
		if !ok {
			return Value{}, false
		}
		r, n := utf8.DecodeRuneInString(s)
		return vTuple(vInt(int64(r)), vInt(int64(n))), true
	}
	// the first index of a name, or -1
	fast[vmPath+".indexName"] = func(c *Call) (Value, bool) {
		sl, _ := c.args[0].p.(*Slice)
		name, ok := c.cstr(1)
		if !ok {
			return Value{}, false
		}
		if sl == nil {
			return vInt(-1), true
		}
		for k := 0; k < sl.len; k++ {
			switch s := sl.o.cells[sl.base+k].p.(type) {
			case nil:
				if name == "" {
					return vInt(int64(k)), true
				}
			case string:
				if s == name {
					return vInt(int64(k)), true
				}
			default:
				return Value{}, false
			}
		}
		return vInt(-1), true
	}
	// where a new name goes in a sorted list
	fast[vmPath+".namePos"] = func(c *Call) (Value, bool) {
		l, ok1 := c.cstrs(0)
		name, ok2 := c.cstr(1)
		if !ok1 || !ok2 {
			return Value{}, false
		}
		i := 0
		for i < len(l) && l[i] < name {
			i++
		}
		return vInt(int64(i)), true
	}
	// the next element of a path from i
	fast[vmPath+".nextElt"] = func(c *Call) (Value, bool) {
		s, ok1 := c.cstr(0)
		i, ok2 := c.cint(1)
		if !ok1 || !ok2 {
			return Value{}, false
		}
		a, b := nextElt(s, i)
		return vTuple(vInt(int64(a)), vInt(int64(b))), true
	}
	fast[vmPath+".hasNul"] = func(c *Call) (Value, bool) {
		s, ok := c.cstr(0)
		return vBool(strings.IndexByte(s, 0) >= 0), ok
	}
}

func nextElt(path string, i int) (int, int) {
	for i < len(path) && path[i] == '/' {
		i++
	}
	j := i
	for j < len(path) && path[j] != '/' {
		j++
	}
	return i, j
}
