package fab

import (
	"io"

	"github.com/bobg/fab/zzverif/nd"
)

type vhSink struct {
	got   []byte
	fail  int // number of the write that fails, 0: none
	calls int
}

var vhErrSink = &vhErr{"sink"}

func (s *vhSink) Write(p []byte) (int, error) {
	s.calls++
	if s.calls == s.fail {
		return 0, vhErrSink
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

// vhLines is data with \r\n and \r converted to \n; a \r at the very end is dropped.
func vhLines(data string) string {
	var out []byte
	for i := 0; i < len(data); i++ {
		if data[i] != '\r' {
			out = append(out, data[i])
			continue
		}
		if i == len(data)-1 || data[i+1] == '\n' {
			continue
		}
		out = append(out, '\n')
	}
	return string(out)
}

// vhIndented is data with prefix at the start of each nonempty line.
func vhIndented(prefix, data string) string {
	var out []byte
	bol := true
	for i := 0; i < len(data); i++ {
		if data[i] == '\n' {
			bol = true
		} else if bol {
			out = append(out, prefix...)
			bol = false
		}
		out = append(out, data[i])
	}
	return string(out)
}

// VH_C14_split: any data, split in any way into three writes, at depth 0 to 2.
func VH_C14_split() {
	con := NewController("")
	depth := nd.Choice("depth", 3)
	data := nd.Str("data", nd.Tier(4, 6), "")
	a := nd.Int("cut1", 0, 8)
	b := nd.Int("cut2", 0, 8)
	nd.Assume(a <= b && b <= len(data))
	sink := &vhSink{}
	var w io.Writer
	vhAtDepth(con, depth, func() { w = con.IndentingCopier(sink, "> ") })
	prefix := "    "[:2*depth] + "> "
	done := 0
	for _, part := range []string{data[:a], data[a:b], data[b:]} {
		buf := []byte(part)
		done += len(part)
		m, err := w.Write(buf)
		nd.Assert(err == nil, "Write succeeds")
		nd.Assert(m == len(part), "Write reports all bytes written")
		nd.Assert(string(buf) == part, "Write leaves its argument unmodified")
		nd.Assert(string(sink.got) == vhIndented(prefix, vhLines(data[:done])), "everything that can be decided is delivered after each write")
	}
	nd.Observe("got", string(sink.got))
	nd.Assert(string(sink.got) == vhIndented(prefix, vhLines(data)), "the output is the data with each line indented")
	nd.Reach("end")
}

// VH_C14_fail: up to three writes of any data of up to two bytes each, the underlying writer failing at any call or never,
// with an error or a short write.
// vh: budget=15s
func VH_C14_fail() {
	con := NewController("")
	sink := &vhSink{fail: nd.Choice("fail", 4)}
	w := con.IndentingCopier(sink, "> ")
	for i := 0; i < 3; i++ {
		part := nd.Str("part", 2, "a\r\n")
		m, err := w.Write([]byte(part))
		failed := sink.fail > 0 && sink.calls >= sink.fail
		if failed {
			nd.Assert(err != nil, "a failure of the underlying writer is reported")
			nd.Reach("failed")
		} else {
			nd.Assert(err == nil && m == len(part), "Write succeeds when the underlying writer does")
		}
	}
	nd.Reach("end")
}

// VH_C14_long: lines around the size of the buffer (4096): a line of 4090 to 4097 bytes, then any two bytes, then another such line, in three writes;
// no or the second call of the underlying writer fails.
// vh: budget=20s samples=4
func VH_C14_long() {
	con := NewController("")
	sink := &vhSink{}
	if nd.Bool("fails") {
		sink.fail = 2
	}
	n := nd.Choice("len", nd.Tier(4, 8))
	if n == 3 {
		n = 7
	}
	line := make([]byte, 4090+n)
	for i := range line {
		line[i] = 'x'
	}
	mid := nd.StrN("mid", 2, "a\r\n")
	w := con.IndentingCopier(sink, "> ")
	data := ""
	for _, part := range []string{string(line), mid, string(line)} {
		m, err := w.Write([]byte(part))
		if sink.fail > 0 && sink.calls >= sink.fail {
			nd.Assert(err != nil, "a failure of the underlying writer is reported")
			nd.Reach("failed")
			return
		}
		data += part
		nd.Assert(err == nil && m == len(part), "Write succeeds")
		nd.Assert(string(sink.got) == vhIndented("> ", vhLines(data)), "the output is the data with each line indented")
	}
	nd.Reach("end")
}
