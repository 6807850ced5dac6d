package fab

import "strings"

// vhClean is the lexically shortest equivalent of path.
func vhClean(path string) string {
	abs := strings.HasPrefix(path, "/")
	var out []string
	for _, c := range strings.Split(path, "/") {
		switch {
		case c == "" || c == ".":
		case c == ".." && len(out) > 0 && out[len(out)-1] != "..":
			out = out[:len(out)-1]
		case c == ".." && abs:
		default:
			out = append(out, c)
		}
	}
	s := strings.Join(out, "/")
	if abs {
		return "/" + s
	}
	if s == "" {
		return "."
	}
	return s
}

// vhJoin is what JoinPath should return.
func vhJoin(top string, elts ...string) string {
	s := top
	for _, e := range elts {
		if strings.HasPrefix(e, "/") {
			s = e
		} else if e != "" && s != "" {
			s += "/" + e
		} else if s == "" {
			s = e
		}
	}
	if s == "" {
		return ""
	}
	return vhClean(s)
}
