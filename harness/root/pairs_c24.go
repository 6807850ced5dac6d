package fab

import (
	"reflect"
	"unsafe"

	"github.com/bobg/go-generics/v2/set"

	"github.com/bobg/fab/zzverif/nd"
)

type vhRec struct {
	Next *vhRec `json:"next"`
	Arr  [3]int8
	M    map[string][]*vhRec
	F    func(int, ...string) (vhRec, error)
	C    <-chan float64
}

type vhAll struct {
	vhRec
	A [2]map[int32]complex64
	S chan<- [0]uint16
	B chan struct{ X, y int64 }
	I interface {
		M(a uint8, b ...uintptr) bool
	}
	F2 func() func(*vhAll)
	P  unsafe.Pointer `k:"v"`
	E  any
	U  []uint
	V  struct{}
	G  func(uint32, []uint64)
	H  complex128
	K  int
	L  float32
	N  string
	O  int16
	Q  bool
}

// VH_C24_pairs: a recursive type with every kind of component matches its go/types form, and no longer does when any one component of that is changed in any of its ways.
// vh: budget=30s
func VH_C24_pairs() {
	r := reflect.TypeOf(vhAll{})
	count := newVhMirror(-1)
	count.typ(r)
	m := newVhMirror(nd.Choice("component", count.n+1) - 1)
	t := m.typ(r)
	nd.Assert((m.change < 0) == (m.changed == ""), "the change is applied")
	ch := typeChecker{seen: set.New[typeCheckerPair]()}
	err := ch.checkTypesMatch(t, r)
	nd.Assert((err == nil) == (m.change < 0), "types match iff they agree in every component (a "+m.changed+" is changed)")
	nd.Reach("end")
}
