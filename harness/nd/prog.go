package nd

import (
	"io"
	"os"
	"strings"
)

// Invocation is one start of a scripted program.
type Invocation struct {
	Name  string
	Args  []string
	Dir   string
	Env   []string
	Stdin string // what the program read, if it read
}

// Getenv is the value of a variable in the program's environment; the last setting counts.
func (in *Invocation) Getenv(key string) (string, bool) {
	for i := len(in.Env) - 1; i >= 0; i-- {
		kv := in.Env[i]
		if len(kv) > len(key) && kv[:len(key)] == key && kv[len(key)] == '=' {
			return kv[len(key)+1:], true
		}
	}
	return "", false
}

// Proc is a running scripted program. The names "vprog", "sh", "go" and
// "protoc" in BinDir are such programs: each argument is an action
// (for sh, each word of the string after -c); others are ignored.
//
//	out:TEXT  err:TEXT         write TEXT to standard output or error
//	in                         copy standard input to standard output
//	exit:N                     end with exit code N, one byte counted from '0'
//	kill                       be killed by a signal
//	big:N                      write N thousand bytes to standard output
//	write:FILE:TEXT            write TEXT to FILE
//	append:FILE:TEXT           append TEXT to FILE
//	rm:FILE                    remove FILE
//	fail                       end with exit code 1
//
// As "go", it knows "mod init", "mod tidy" and "build"; what it builds runs as
// "vprog" and holds the value of $ZZVERSION and the Go files it is made from.
// It fails at the one of the three that $ZZFAIL names, and copies the Go files
// of the main package it builds to the directory $ZZKEEP.
type Proc struct {
	Invocation
	In       io.Reader
	Out, Err io.Writer
	Log      func(Invocation)
}

func (p *Proc) path(f string) string {
	if strings.HasPrefix(f, "/") {
		return f
	}
	return p.Dir + "/" + f
}

// Big is the text of n thousand bytes that a program writes.
func Big(n int) string {
	var b []byte
	for i := 0; i < 50; i++ {
		b = append(b, "line "...)
		b = append(b, byte('A'+i/2), byte('a'+i%2))
		b = append(b, " of the text\n"...)
	}
	return strings.Repeat(string(b), n)
}

// Act runs the program and returns its exit code, or -1 if it is killed.
func (p *Proc) Act() int {
	acts := p.Args
	if p.Name == "sh" {
		acts = nil
		if len(p.Args) >= 2 && p.Args[0] == "-c" {
			acts = strings.Fields(p.Args[1])
		}
	}
	if p.Name == "go" && len(p.Args) > 0 && (p.Args[0] == "mod" || p.Args[0] == "build") {
		code := p.golang()
		p.Log(p.Invocation)
		return code
	}
	code := 0
	read := false
	for _, a := range acts {
		switch {
		case strings.HasPrefix(a, "out:"):
			io.WriteString(p.Out, a[4:])
		case strings.HasPrefix(a, "err:"):
			io.WriteString(p.Err, a[4:])
		case a == "in":
			b, _ := io.ReadAll(p.In)
			p.Stdin = string(b)
			read = true
			p.Out.Write(b)
		case strings.HasPrefix(a, "exit:"):
			code = int(a[5] - '0')
		case a == "kill":
			code = -1
		case strings.HasPrefix(a, "big:"):
			p.Out.Write([]byte(Big(int(a[4] - '0'))))
		case a == "fail":
			code = 1
		case strings.HasPrefix(a, "write:"):
			f := a[6:]
			i := strings.IndexByte(f, ':')
			os.WriteFile(p.path(f[:i]), []byte(f[i+1:]), 0644)
		case strings.HasPrefix(a, "append:"):
			f := a[7:]
			i := strings.IndexByte(f, ':')
			w, err := os.OpenFile(p.path(f[:i]), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
			if err == nil {
				io.WriteString(w, f[i+1:])
				w.Close()
			}
		case strings.HasPrefix(a, "rm:"):
			os.Remove(p.path(a[3:]))
		}
		if code != 0 {
			break
		}
	}
	_ = read
	p.Log(p.Invocation)
	return code
}

func (p *Proc) golang() int {
	what, dir, out := p.Args[0], p.Dir, ""
	if what == "mod" && len(p.Args) > 1 {
		what = p.Args[1]
	}
	if fail, _ := p.Getenv("ZZFAIL"); fail == what {
		io.WriteString(p.Err, "go "+what+" fails\n")
		return 1
	}
	switch what {
	case "init":
		os.WriteFile(p.path("go.mod"), []byte("module "+p.Args[len(p.Args)-1]+"\n\ngo 1.20\n"), 0644)
	case "build":
		for i := 1; i+1 < len(p.Args); i++ {
			switch p.Args[i] {
			case "-C":
				dir = p.path(p.Args[i+1])
			case "-o":
				out = p.Args[i+1]
			}
		}
		if out == "" {
			out = "x" // the name given to mod init
		}
		if !strings.HasPrefix(out, "/") {
			out = dir + "/" + out
		}
		exe, _ := p.Getenv("PATH")
		ver, _ := p.Getenv("ZZVERSION")
		text := []byte("#!" + exe + "/vprog\nversion " + ver + "\n")
		pkgs, err := os.ReadDir(dir + "/pkg")
		if err != nil {
			text = append(text, gofiles(dir)...)
		}
		for _, e := range pkgs {
			text = append(text, gofiles(dir+"/pkg/"+e.Name())...)
		}
		if keep, _ := p.Getenv("ZZKEEP"); keep != "" {
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				if strings.HasSuffix(e.Name(), ".go") {
					b, _ := os.ReadFile(dir + "/" + e.Name())
					os.WriteFile(keep+"/"+e.Name(), b, 0644)
				}
			}
		}
		os.MkdirAll(out[:strings.LastIndexByte(out, '/')], 0755)
		os.Remove(out)
		if err := os.WriteFile(out, text, 0755); err != nil {
			return 1
		}
	}
	return 0
}

// gofiles is the names and contents of the Go files of a directory.
func gofiles(dir string) []byte {
	var r []byte
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") {
			b, _ := os.ReadFile(dir + "/" + e.Name())
			r = append(append(append(r, "file "+e.Name()+"\n"...), b...), '\n')
		}
	}
	return r
}
