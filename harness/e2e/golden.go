package e2e

import (
	"compress/gzip"
	"encoding/gob"
	"os"
	"path/filepath"
)

// Entry is a sequence whose last frame has the first Len bits of the family's data, with byte At replaced, and then the final
// bit pattern, and what the independent decoder makes of it.
type Entry struct {
	At, Value, Len int
	Hash           uint16
}

// Family holds what the independent decoder makes of the sequences of a kind.
type Family struct {
	Name   string
	Fixed  [][]byte // tile data of the frames before the last
	Valid  []byte   // a bit for each two-byte tile data of the last frame
	Short  []uint16 // hashes of those
	Before []byte   // what precedes the last tile's data in the last frame
	Bases  []Base
}

// Base is a sequence whose neighbours are explored.
type Base struct {
	Seed, Len int
	Near      []Entry
}

// Load reads what was recorded.
func Load(root, kind string) (fs []Family) {
	f, err := os.Open(filepath.Join(root, "golden", "e2e-"+kind+".gz"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		panic(err)
	}
	if err := gob.NewDecoder(z).Decode(&fs); err != nil {
		panic(err)
	}
	return fs
}

// Fold makes a short hash.
func (h Hash) Fold() uint16 { return uint16(h ^ h>>16 ^ h>>32 ^ h>>48) }

// Short is tile data number v.
func Short(v int) []byte { return []byte{byte(v >> 8), byte(v)} }

// Data is byte i of the long data of a seed.
func Data(seed, i int) byte {
	v := uint32(2166136261)
	for _, x := range []int{seed, i, 77} {
		v = (v ^ uint32(x+1)) * 16777619
		v ^= v >> 13
	}
	return byte(v >> 9)
}

// Cut is the first n bits of the data, with byte at replaced if at is not negative, and the final bit pattern.
func Cut(seed, at, value, n int) []byte {
	o := make([]byte, n/8+1)
	for i := range o {
		o[i] = Data(seed, i)
		if i == at {
			o[i] = byte(value)
		}
	}
	o[n/8] &= 255 << uint(8-n&7)
	o[n/8] |= 128 >> uint(n&7)
	return o
}
