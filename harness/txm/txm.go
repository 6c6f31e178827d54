// Package txm is a model of the AV1 inverse transforms, written recursively from their structure.
package txm

import "math"

func cos(a int) int { return int(math.Round(4096 * math.Cos(math.Pi*float64(a)/128))) }
func sin(a int) int { return cos(a - 64) }

// Round2 rounds half up.
func Round2(x, n int) int {
	if n == 0 {
		return x
	}
	return (x + 1<<uint(n-1)) >> uint(n)
}

func clip(x, r int) int {
	if lo := -(1 << uint(r-1)); x < lo {
		return lo
	}
	if hi := 1<<uint(r-1) - 1; x > hi {
		return hi
	}
	return x
}

func rot(x, y, angle int) (int, int) {
	return Round2(x*cos(angle)-y*sin(angle), 12), Round2(x*sin(angle)+y*cos(angle), 12)
}

// angles of the rotations that combine x[k] and x[n-k], k odd, in bit-reversed order of k.
func angles(n int) []int {
	if n == 2 {
		return []int{32}
	}
	var a []int
	for _, k := range oddOrder(n)[:n/4] {
		a = append(a, 64-64*k/n)
	}
	return a
}

// oddOrder lists the odd numbers below n in bit-reversed order.
func oddOrder(n int) []int {
	o := []int{1}
	for s := 2; s < n; s *= 2 {
		var q []int
		for _, v := range o {
			q = append(q, v, v+s)
		}
		o = q
	}
	return o
}

// Dct returns the inverse DCT of x with intermediate sums held to r bits.
func Dct(x []int, r int) []int {
	n := len(x)
	if n == 2 {
		// a rotation by 45 degrees, outputs exchanged
		a, b := rot(x[0], x[1], 32)
		return []int{b, a}
	}
	even := make([]int, n/2)
	for i := range even {
		even[i] = x[2*i]
	}
	e := Dct(even, r)
	m := n / 2
	o := make([]int, m)
	for i, k := range oddOrder(n) {
		o[i] = x[k]
	}
	for i, a := range angles(n) {
		o[i], o[m-1-i] = rot(o[i], o[m-1-i], a)
	}
	for g := 2; g <= m/2; g *= 2 {
		for s, odd := 0, false; s < m; s, odd = s+g, !odd {
			for j := 0; j < g/2; j++ {
				a, b := o[s+j], o[s+g-1-j]
				if odd {
					o[s+g-1-j], o[s+j] = clip(b+a, r), clip(b-a, r)
				} else {
					o[s+j], o[s+g-1-j] = clip(a+b, r), clip(a-b, r)
				}
			}
		}
		if g == m/2 {
			for p := g / 2; p < g; p++ {
				v, w := rot(o[m-1-p], o[p], 32)
				o[m-1-p], o[p] = w, v
			}
		} else {
			for i, a := range angles(m / g) {
				for j := 0; j < g; j++ {
					p := 2*g*i + g/2 + j
					if j == g/2 {
						a += 64
					}
					v, w := rot(o[m-1-p], o[p], a)
					o[m-1-p], o[p] = w, v
				}
			}
		}
	}
	out := make([]int, n)
	for i := 0; i < m; i++ {
		out[i] = clip(e[i]+o[m-1-i], r)
		out[n-1-i] = clip(e[i]-o[m-1-i], r)
	}
	return out
}

func add(s []int, i, j, r int) { s[i], s[j] = clip(s[i]+s[j], r), clip(s[i]-s[j], r) }

// turn rotates the pair and exchanges it.
func turn(s []int, i, j, angle int) {
	a, b := rot(s[i], s[j], angle)
	s[i], s[j] = b, a
}

// Adst returns the inverse ADST of 4, 8 or 16 values.
func Adst(x []int, r int) []int {
	n := len(x)
	switch n {
	case 4:
		s := [5]int{0, 1321, 2482, 3344, 3803}
		a := s[1]*x[0] + s[4]*x[2] + s[2]*x[3]
		b := s[2]*x[0] - s[1]*x[2] - s[4]*x[3]
		c := s[3] * (x[0] - x[2] + x[3])
		d := s[3] * x[1]
		return []int{Round2(a+d, 12), Round2(b+d, 12), Round2(c, 12), Round2(a+b-d, 12)}
	case 8:
		s := []int{x[7], x[0], x[5], x[2], x[3], x[4], x[1], x[6]}
		for i, a := range []int{60, 44, 28, 12} {
			turn(s, 2*i, 2*i+1, a)
		}
		for i := 0; i < 4; i++ {
			add(s, i, i+4, r)
		}
		turn(s, 4, 5, 48)
		turn(s, 7, 6, 16)
		for _, p := range [][2]int{{0, 2}, {1, 3}, {4, 6}, {5, 7}} {
			add(s, p[0], p[1], r)
		}
		turn(s, 2, 3, 32)
		turn(s, 6, 7, 32)
		return []int{s[0], -s[4], s[6], -s[2], s[3], -s[7], s[5], -s[1]}
	}
	s := []int{x[15], x[0], x[13], x[2], x[11], x[4], x[9], x[6], x[7], x[8], x[5], x[10], x[3], x[12], x[1], x[14]}
	for i, a := range []int{62, 54, 46, 38, 30, 22, 14, 6} {
		turn(s, 2*i, 2*i+1, a)
	}
	for i := 0; i < 8; i++ {
		add(s, i, i+8, r)
	}
	turn(s, 8, 9, 56)
	turn(s, 10, 11, 24)
	turn(s, 13, 12, 8)
	turn(s, 15, 14, 40)
	for _, b := range []int{0, 8} {
		for i := 0; i < 4; i++ {
			add(s, b+i, b+i+4, r)
		}
	}
	for _, b := range []int{4, 12} {
		turn(s, b, b+1, 48)
		turn(s, b+3, b+2, 16)
	}
	for b := 0; b < 16; b += 4 {
		add(s, b, b+2, r)
		add(s, b+1, b+3, r)
	}
	for b := 2; b < 16; b += 4 {
		turn(s, b, b+1, 32)
	}
	return []int{s[0], -s[8], s[12], -s[4], s[6], -s[14], s[10], -s[2], s[3], -s[11], s[15], -s[7], s[5], -s[13], s[9], -s[1]}
}

// Identity scales 4, 8, 16 or 32 values by sqrt(2), 2, 2 sqrt(2) and 4.
func Identity(x []int) []int {
	out := make([]int, len(x))
	for i, v := range x {
		switch len(x) {
		case 4:
			out[i] = Round2(v*5793, 12)
		case 8:
			out[i] = 2 * v
		case 16:
			out[i] = Round2(v*11586, 12)
		default:
			out[i] = 4 * v
		}
	}
	return out
}

// Wht is the lossless Walsh-Hadamard transform of 4 values.
func Wht(x []int, shift uint) []int {
	a, c, d, b := x[0]>>shift, x[1]>>shift, x[2]>>shift, x[3]>>shift
	a += c
	d -= b
	e := (a - d) >> 1
	b = e - b
	c = e - c
	return []int{a - b, b, c, d + c}
}

// Sizes lists log2 of width and height by transform size.
var Sizes = [19][2]int{{2, 2}, {3, 3}, {4, 4}, {5, 5}, {6, 6}, {2, 3}, {3, 2}, {3, 4}, {4, 3}, {4, 5}, {5, 4}, {5, 6}, {6, 5}, {2, 4}, {4, 2}, {3, 5}, {5, 3}, {4, 6}, {6, 4}}

// Kinds: vertical and horizontal kind of each transform type. D = DCT, A = ADST, F = flipped ADST, I = identity.
var Kinds = [16]string{"DD", "AD", "DA", "AA", "FD", "DF", "FF", "AF", "FA", "II", "DI", "ID", "AI", "IA", "FI", "IF"}

// rowShift by transform size: 4x4, 4x8: 0; up to a factor of 2 and 8x8 .. 32x64, 4x16: 1; 16x16, 32x32, 64x64, 8x32, 16x64: 2.
var rowShift = [19]int{0, 1, 2, 2, 2, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2}

// Allowed tells whether a transform of the size can have the type.
func Allowed(size, typ int) bool {
	big := Sizes[size][0]
	if Sizes[size][1] > big {
		big = Sizes[size][1]
	}
	switch big {
	case 6:
		return typ == 0
	case 5:
		return typ == 0 || typ == 9
	}
	return true
}

func one(kind byte, x []int, r int) []int {
	switch kind {
	case 'D':
		return Dct(x, r)
	case 'I':
		return Identity(x)
	}
	return Adst(x, r)
}

// Inverse returns the residual of a block, before flips. in has the coefficients of the top left 32x32 at most.
func Inverse(size, typ, depth int, lossless bool, in func(i, j int) int) [][]int {
	lw, lh := Sizes[size][0], Sizes[size][1]
	w, h := 1<<uint(lw), 1<<uint(lh)
	shift := rowShift[size]
	col := depth + 6
	if col < 16 {
		col = 16
	}
	res := make([][]int, h)
	x := make([]int, w)
	for i := range res {
		for j := range x {
			x[j] = 0
			if i < 32 && j < 32 {
				x[j] = in(i, j)
			}
			if lw-lh == 1 || lh-lw == 1 {
				x[j] = Round2(x[j]*2896, 12)
			}
		}
		if lossless {
			res[i] = Wht(x, 2)
			continue
		}
		res[i] = append([]int{}, one(Kinds[typ][1], x, depth+8)...)
		for j, v := range res[i] {
			res[i][j] = clip(Round2(v, shift), col)
		}
	}
	y := make([]int, h)
	for j := 0; j < w; j++ {
		for i := range y {
			y[i] = res[i][j]
		}
		var o []int
		if lossless {
			o = Wht(y, 0)
		} else {
			o = one(Kinds[typ][0], y, col)
		}
		for i, v := range o {
			if !lossless {
				v = Round2(v, 4)
			}
			res[i][j] = v
		}
	}
	return res
}
