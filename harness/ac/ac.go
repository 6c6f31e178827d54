// Package ac is the reference model of the arithmetic coder: exact interval arithmetic on unbounded integers,
// an encoder that picks a code word inside the final interval, and the specified adaptation.
package ac

import "math/big"

// Cur is the lower edge of symbol s within a range: what the range keeps above it belongs to symbols up to s (8.2.6).
func Cur(cdf []int, rng, s int) int {
	n := len(cdf) - 1
	if s < 0 {
		return rng
	}
	f := 32768 - cdf[s]
	return ((rng/256)*(f/64))/2 + 4*(n-1-s)
}

// Model is the state of coding: code words of 15+K bits, of which those c with 2^(15+K)-1-c-Base in [0,Range) are still possible.
type Model struct {
	K     int
	Base  *big.Int
	Range int
}

func New() *Model { return &Model{Base: new(big.Int), Range: 1 << 15} }

func (m *Model) Copy() *Model { return &Model{m.K, new(big.Int).Set(m.Base), m.Range} }

// Take narrows to symbol s of the distribution.
func (m *Model) Take(cdf []int, s int) {
	hi, lo := Cur(cdf, m.Range, s-1), Cur(cdf, m.Range, s)
	m.Base.Add(m.Base, big.NewInt(int64(lo)))
	m.Range = hi - lo
	k := uint(0)
	for m.Range<<k < 1<<15 {
		k++
	}
	if k > 0 {
		m.Range <<= k
		m.Base.Lsh(m.Base, k)
		m.K += int(k)
	}
}

// Code is the first 15+K bits of the data of the given size, followed by zeros.
func Code(data []byte, size, n int) *big.Int {
	if size > len(data) {
		size = len(data)
	}
	x := new(big.Int).SetBytes(data[:size])
	if n >= 8*size {
		return x.Lsh(x, uint(n-8*size))
	}
	return x.Rsh(x, uint(8*size-n))
}

// Value is the offset of the data within the interval: what the decoder keeps as SymbolValue.
func (m *Model) Value(data []byte, size int) int {
	v := new(big.Int).Lsh(big.NewInt(1), uint(15+m.K))
	v.Sub(v, big.NewInt(1))
	v.Sub(v, Code(data, size, 15+m.K))
	v.Sub(v, m.Base)
	if !v.IsInt64() {
		return -1
	}
	return int(v.Int64())
}

// MaxBits is what the decoder keeps as SymbolMaxBits.
func (m *Model) MaxBits(size int) int { return 8*size - 15 - m.K }

// Pos is the number of bits taken from the stream.
func (m *Model) Pos(size int) int {
	if 15+m.K < 8*size {
		return 15 + m.K
	}
	return 8 * size
}

// Decode finds the symbol whose interval the value is in.
func (m *Model) Decode(cdf []int, data []byte, size int) int {
	v := m.Value(data, size)
	for s := 0; ; s++ {
		if v >= Cur(cdf, m.Range, s) {
			return s
		}
	}
}

// Word writes a code word of the interval. how: 0 the lowest, 1 the highest, 2 the one with most trailing
// zeros, which are left away. pad bytes of zeros follow.
func (m *Model) Word(how int, pad int) []byte {
	n := uint(15 + m.K)
	top := new(big.Int).Lsh(big.NewInt(1), n)
	top.Sub(top, big.NewInt(1))
	hi := new(big.Int).Sub(top, m.Base)
	lo := new(big.Int).Sub(hi, big.NewInt(int64(m.Range-1)))
	w := lo
	switch how {
	case 1:
		w = hi
	case 2:
		for b := n; ; b-- {
			// round lo up to a multiple of 2^b
			one := new(big.Int).Lsh(big.NewInt(1), b)
			x := new(big.Int).Add(lo, new(big.Int).Sub(one, big.NewInt(1)))
			x.Rsh(x, b)
			x.Lsh(x, b)
			if x.Cmp(hi) <= 0 {
				w = x
				break
			}
		}
	}
	bytes := int(n+7) / 8
	w = new(big.Int).Lsh(w, uint(bytes*8)-n)
	out := make([]byte, bytes, bytes+pad)
	w.FillBytes(out)
	if how == 2 {
		for len(out) > 1 && out[len(out)-1] == 0 {
			out = out[:len(out)-1]
		}
	}
	for i := 0; i < pad; i++ {
		out = append(out, 0)
	}
	return out
}

// Adapt is the adaptation of a distribution to a symbol (8.2.6 last part).
func Adapt(cdf []int, s int) {
	n := len(cdf) - 1
	rate := uint(3)
	if cdf[n] > 15 {
		rate++
	}
	if cdf[n] > 31 {
		rate++
	}
	switch {
	case n >= 4:
		rate += 2
	case n >= 2:
		rate++
	}
	for i := 0; i < n-1; i++ {
		if i >= s {
			cdf[i] += (32768 - cdf[i]) >> rate
		} else {
			cdf[i] -= cdf[i] >> rate
		}
	}
	if cdf[n] < 32 {
		cdf[n]++
	}
}

// Shapes lists distributions over n symbols: even, skewed to either side, nearly certain, alternating.
func Shapes(n int) [][]int {
	var o [][]int
	add := func(f func(i int) int) {
		c := make([]int, n+1)
		for i := 0; i < n; i++ {
			c[i] = f(i)
		}
		c[n-1] = 32768
		for i := 1; i < n; i++ {
			if c[i] <= c[i-1] {
				return
			}
		}
		for _, x := range o {
			same := true
			for i := range x {
				same = same && x[i] == c[i]
			}
			if same {
				return
			}
		}
		o = append(o, c)
	}
	add(func(i int) int { return 32768 * (i + 1) / n })
	add(func(i int) int { return 32768 - 32768>>uint(i+1) })                     // halves
	add(func(i int) int { return 32768 >> uint(n-1-i) })                         // halves, the other way
	add(func(i int) int { return 32768 - (n - 1 - i) })                          // first nearly certain
	add(func(i int) int { return i + 1 })                                        // last nearly certain
	add(func(i int) int { return 128*(i+1) + 31000*b2i(i >= (n-1)/2) })          // middle nearly certain
	add(func(i int) int { return 32768*(i+1)/n - 500/n*(i%2) - 63*b2i(i == 0) }) // uneven
	return o
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
