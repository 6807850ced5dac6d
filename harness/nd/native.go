package nd

import (
	"bufio"
	"encoding/json"
	"os"
)

func nativeInvocations() []Invocation {
	f, err := os.Open(Dir + "/log")
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []Invocation
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var raw struct {
			Name  []byte
			Args  [][]byte
			Dir   []byte
			Env   [][]byte
			Stdin []byte
		}
		if err := json.Unmarshal(sc.Bytes(), &raw); err != nil {
			panic(err)
		}
		in := Invocation{Name: string(raw.Name), Dir: string(raw.Dir), Stdin: string(raw.Stdin)}
		for _, a := range raw.Args {
			in.Args = append(in.Args, string(a))
		}
		for _, a := range raw.Env {
			in.Env = append(in.Env, string(a))
		}
		r = append(r, in)
	}
	return r
}

// AppendLog records an invocation natively.
func AppendLog(dir string, in Invocation) {
	raw := struct {
		Name  []byte
		Args  [][]byte
		Dir   []byte
		Env   [][]byte
		Stdin []byte
	}{Name: []byte(in.Name), Dir: []byte(in.Dir), Stdin: []byte(in.Stdin)}
	for _, a := range in.Args {
		raw.Args = append(raw.Args, []byte(a))
	}
	for _, a := range in.Env {
		raw.Env = append(raw.Env, []byte(a))
	}
	b, _ := json.Marshal(raw)
	f, err := os.OpenFile(dir+"/log", os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0666)
	if err != nil {
		panic(err)
	}
	f.Write(append(b, '\n'))
	f.Close()
}
