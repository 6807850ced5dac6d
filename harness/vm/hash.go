package vm

import (
	"hash"

	"github.com/bobg/fab/zzverif/nd"
)

// digest is a hash.Hash over the ideal hash nd.HashOf.
type digest struct {
	kind  string
	size  int
	block int
	data  []byte
}

func (d *digest) Write(b []byte) (int, error) {
	d.data = append(d.data[:len(d.data):len(d.data)], b...)
	return len(b), nil
}
func (d *digest) WriteString(s string) (int, error) { return d.Write([]byte(s)) }
func (d *digest) Sum(b []byte) []byte               { return append(b, nd.HashOf(d.kind, d.data)...) }
func (d *digest) Reset()                            { d.data = nil }
func (d *digest) Size() int                         { return d.size }
func (d *digest) BlockSize() int                    { return d.block }

//model: crypto/sha256.New224
func New224() hash.Hash { return &digest{kind: "sha224", size: 28, block: 64} }

//model: crypto/sha256.New
func New256() hash.Hash { return &digest{kind: "sha256", size: 32, block: 64} }

//model: crypto/sha1.New
func NewSHA1() hash.Hash { return &digest{kind: "sha1", size: 20, block: 64} }

//model: crypto/md5.New
func NewMD5() hash.Hash { return &digest{kind: "md5", size: 16, block: 64} }

//model: crypto/sha512.New
func New512() hash.Hash { return &digest{kind: "sha512", size: 64, block: 128} }

//model: crypto/sha256.Sum224
func Sum224(b []byte) (r [28]byte) { copy(r[:], nd.HashOf("sha224", b)); return r }

//model: crypto/sha256.Sum256
func Sum256(b []byte) (r [32]byte) { copy(r[:], nd.HashOf("sha256", b)); return r }

//model: crypto/sha1.Sum
func SumSHA1(b []byte) (r [20]byte) { copy(r[:], nd.HashOf("sha1", b)); return r }

//model: crypto/md5.Sum
func SumMD5(b []byte) (r [16]byte) { copy(r[:], nd.HashOf("md5", b)); return r }

//model: crypto/sha512.Sum512
func Sum512(b []byte) (r [64]byte) { copy(r[:], nd.HashOf("sha512", b)); return r }
