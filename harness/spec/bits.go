// Package spec is the reference model: the parts of the AV1 bitstream specification (v1.0.0 with errata 1)
// that the checks compare the decoder with, written from the specification and free of any code of the
// repository. The header syntax is written once, against a source of fields: a generator (the explorer picks
// each field and the model writes it) or a reader (fields come from given bits).
package spec

// Writer accumulates bits, most significant first.
type Writer struct {
	B   []byte
	Pos int
}

func (w *Writer) Bit(v int) {
	if w.Pos&7 == 0 {
		w.B = append(w.B, 0)
	}
	if v&1 != 0 {
		w.B[w.Pos>>3] |= 0x80 >> uint(w.Pos&7)
	}
	w.Pos++
}

func (w *Writer) Put(n int, v int) {
	for i := n - 1; i >= 0; i-- {
		w.Bit(v >> uint(i))
	}
}

// BitAt returns bit i of the data.
func BitAt(b []byte, i int) int { return int(b[i>>3]>>(7-uint(i&7))) & 1 }

// Bits returns the n-bit big-endian number at bit position pos.
func Bits(b []byte, pos, n int) int {
	x := 0
	for i := 0; i < n; i++ {
		x = x<<1 | BitAt(b, pos+i)
	}
	return x
}

// Shift copies w behind `off` leading bits taken from lead, and pads the last byte with tail bits (0 or 1).
func Shift(w *Writer, off int, lead int, tail int, extra int) []byte {
	var o Writer
	for i := 0; i < off; i++ {
		o.Bit(lead >> uint(i%8))
	}
	for i := 0; i < w.Pos; i++ {
		o.Bit(BitAt(w.B, i))
	}
	for o.Pos&7 != 0 {
		o.Bit(tail)
	}
	for i := 0; i < extra; i++ {
		o.Put(8, tail*255)
	}
	return o.B
}

// Leb128 encodes v in at least min bytes.
func Leb128(v int, min int) []byte {
	var o []byte
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if v != 0 || len(o)+1 < min {
			o = append(o, c|0x80)
			continue
		}
		return append(o, c)
	}
}

// Source supplies the syntax elements of a header.
type Source interface {
	F(n int, name string, idx int) int             // f(n)
	Forced(n int, name string, idx int, v int) int // f(n), v being the only supported value
	Uvlc(name string) int
	Pos() int
}

// Su is su(n).
func Su(s Source, n int, name string, idx int) int {
	v := s.F(n, name, idx)
	if v >= 1<<uint(n-1) {
		v -= 1 << uint(n)
	}
	return v
}

// Ns is ns(n).
func Ns(s Source, n int, name string, idx int) int {
	w := FloorLog2(n) + 1
	m := (1 << uint(w)) - n
	v := s.F(w-1, name, idx)
	if v < m {
		return v
	}
	return (v << 1) - m + s.F(1, name+".extra_bit", idx)
}

func FloorLog2(x int) int {
	s := -1
	for x > 0 {
		x >>= 1
		s++
	}
	return s
}

// Reader is a Source over existing bits.
type Reader struct {
	B           []byte
	P           int
	Unsupported string
}

func (r *Reader) Pos() int { return r.P }
func (r *Reader) F(n int, name string, idx int) int {
	v := Bits(r.B, r.P, n)
	r.P += n
	return v
}
func (r *Reader) Forced(n int, name string, idx int, v int) int {
	x := r.F(n, name, idx)
	if x != v && r.Unsupported == "" {
		r.Unsupported = name
	}
	return x
}
func (r *Reader) Uvlc(name string) int {
	z := 0
	for r.F(1, name, 0) == 0 {
		z++
	}
	if z >= 32 {
		return 1<<32 - 1
	}
	return r.F(z, name, 0) + (1 << uint(z)) - 1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func clip3(lo, hi, x int) int { return maxI(lo, minI(hi, x)) }
