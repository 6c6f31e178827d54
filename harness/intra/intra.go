// Package intra is the reference model of intra prediction (AV1 specification 7.11.2).
package intra

// Modes.
const (
	DC, V, H, D45, D135, D113, D157, D203, D67 = 0, 1, 2, 3, 4, 5, 6, 7, 8
	Smooth, SmoothV, SmoothH, Paeth            = 9, 10, 11, 12
)

// Angles of the directional modes.
var Angles = map[int]int{V: 90, H: 180, D45: 45, D135: 135, D113: 113, D157: 157, D203: 203, D67: 67}

// Block is what is asked for.
type Block struct {
	X, Y, W, H               int
	Left, Above, Right, Down bool // what is available
	MaxX, MaxY               int  // last sample of the plane
	Mode, Delta              int
	Filter                   int // recursive mode, or -1
	Depth                    int
	EdgeFilter, SmoothAround bool
}

const off = 16

type edge struct{ v [off + 320]int }

func (e *edge) at(i int) int     { return e.v[off+i] }
func (e *edge) set(i int, x int) { e.v[off+i] = x }

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func (b *Block) clip(v int) int {
	if v < 0 {
		return 0
	}
	return least(v, 1<<uint(b.Depth)-1)
}

// Predict gives the prediction; sample returns what is decoded of the plane at (row, column).
func Predict(b Block, sample func(y, x int) int) [][]int {
	var above, left edge
	w, h := b.W, b.H
	for i := 0; i < w+h; i++ {
		switch {
		case b.Above:
			n := w
			if b.Right {
				n = 2 * w
			}
			above.set(i, sample(b.Y-1, least(least(b.MaxX, b.X+n-1), b.X+i)))
		case b.Left:
			above.set(i, sample(b.Y, b.X-1))
		default:
			above.set(i, 1<<uint(b.Depth-1)-1)
		}
		switch {
		case b.Left:
			n := h
			if b.Down {
				n = 2 * h
			}
			left.set(i, sample(least(least(b.MaxY, b.Y+n-1), b.Y+i), b.X-1))
		case b.Above:
			left.set(i, sample(b.Y-1, b.X))
		default:
			left.set(i, 1<<uint(b.Depth-1)+1)
		}
	}
	corner := 1 << uint(b.Depth-1)
	switch {
	case b.Above && b.Left:
		corner = sample(b.Y-1, b.X-1)
	case b.Above:
		corner = sample(b.Y-1, b.X)
	case b.Left:
		corner = sample(b.Y, b.X-1)
	}
	above.set(-1, corner)
	left.set(-1, corner)

	pred := make([][]int, h)
	for i := range pred {
		pred[i] = make([]int, w)
	}
	_, directional := Angles[b.Mode]
	switch {
	case b.Filter >= 0:
		b.recursive(pred, &above, &left)
	case directional:
		b.directional(pred, &above, &left)
	case b.Mode == DC:
		dc := b.dc(&above, &left)
		for i := range pred {
			for j := range pred[i] {
				pred[i][j] = dc
			}
		}
	default:
		wx, wy := weights[log2(w)], weights[log2(h)]
		for i := range pred {
			for j := range pred[i] {
				vert := wy[i]*above.at(j) + (256-wy[i])*left.at(h-1)
				hor := wx[j]*left.at(i) + (256-wx[j])*above.at(w-1)
				switch b.Mode {
				case Smooth:
					pred[i][j] = (vert + hor + 256) >> 9
				case SmoothV:
					pred[i][j] = (vert + 128) >> 8
				case SmoothH:
					pred[i][j] = (hor + 128) >> 8
				default:
					a, l := above.at(j), left.at(i)
					base := a + l - corner
					dl, da, dc := abs(base-l), abs(base-a), abs(base-corner)
					switch {
					case dl <= da && dl <= dc:
						pred[i][j] = l
					case da <= dc:
						pred[i][j] = a
					default:
						pred[i][j] = corner
					}
				}
			}
		}
	}
	return pred
}

func log2(n int) int {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	return k
}

func (b *Block) dc(above, left *edge) int {
	if !b.Above && !b.Left {
		return 1 << uint(b.Depth-1)
	}
	sum, n := 0, 0
	if b.Above {
		for i := 0; i < b.W; i++ {
			sum += above.at(i)
		}
		n += b.W
	}
	if b.Left {
		for i := 0; i < b.H; i++ {
			sum += left.at(i)
		}
		n += b.H
	}
	return (sum + n>>1) / n
}

func (b *Block) recursive(pred [][]int, above, left *edge) {
	at := func(y, x int) int {
		switch {
		case y < 0:
			return above.at(x)
		case x < 0:
			return left.at(y)
		}
		return pred[y][x]
	}
	for y := 0; y < b.H; y += 2 {
		for x := 0; x < b.W; x += 4 {
			p := [7]int{at(y-1, x-1), at(y-1, x), at(y-1, x+1), at(y-1, x+2), at(y-1, x+3), at(y, x-1), at(y+1, x-1)}
			for k := 0; k < 8; k++ {
				s := 0
				for i := range p {
					s += taps[b.Filter][k][i] * p[i]
				}
				if s < 0 {
					s = -((-s + 8) >> 4)
				} else {
					s = (s + 8) >> 4
				}
				pred[y+k/4][x+k%4] = b.clip(s)
			}
		}
	}
}

// strength of the edge filter.
func strength(sum int, smooth bool, d int) int {
	pick := func(limits ...int) int { // the last strength whose limit is reached
		s := 0
		for i := 0; i+1 < len(limits); i += 2 {
			if d >= limits[i] {
				s = limits[i+1]
			}
		}
		return s
	}
	if smooth {
		switch {
		case sum <= 8:
			return pick(40, 1, 64, 2)
		case sum <= 16:
			return pick(20, 1, 48, 2)
		case sum <= 24:
			return pick(4, 3)
		}
		return 3
	}
	switch {
	case sum <= 8:
		return pick(56, 1)
	case sum <= 16:
		return pick(40, 1)
	case sum <= 24:
		return pick(8, 1, 16, 2, 32, 3)
	case sum <= 32:
		return pick(0, 1, 4, 2, 32, 3)
	}
	return 3
}

var kernel = [4][5]int{{}, {0, 4, 8, 4, 0}, {0, 5, 6, 5, 0}, {2, 4, 4, 4, 2}}

func filter(e *edge, n, s int) {
	if s == 0 {
		return
	}
	old := *e
	for i := 1; i < n; i++ {
		sum := 8
		for j, k := range kernel[s] {
			at := i - 2 + j
			if at < 0 {
				at = 0
			}
			if at > n-1 {
				at = n - 1
			}
			sum += k * old.at(at-1)
		}
		e.set(i-1, sum>>4)
	}
}

func (b *Block) upsample(e *edge, n int) {
	old := *e
	at := func(i int) int { // with the ends repeated
		if i < -1 {
			i = -1
		}
		if i > n-1 {
			i = n - 1
		}
		return old.at(i)
	}
	e.set(-2, at(-1))
	for i := 0; i < n; i++ {
		e.set(2*i-1, b.clip((9*(at(i-1)+at(i))-at(i-2)-at(i+1)+8)>>4))
		e.set(2*i, at(i))
	}
}

func (b *Block) directional(pred [][]int, above, left *edge) {
	w, h := b.W, b.H
	angle := Angles[b.Mode] + 3*b.Delta
	var upA, upL uint
	if b.EdgeFilter && angle != 90 && angle != 180 {
		if angle > 90 && angle < 180 && w+h >= 24 {
			c := (left.at(0)*5 + above.at(-1)*6 + above.at(0)*5 + 8) >> 4
			above.set(-1, c)
			left.set(-1, c)
		}
		moreA, moreL := 0, 0
		if angle < 90 {
			moreA = h
		}
		if angle > 180 {
			moreL = w
		}
		if b.Above {
			filter(above, least(w, b.MaxX-b.X+1)+moreA+1, strength(w+h, b.SmoothAround, abs(angle-90)))
		}
		if b.Left {
			filter(left, least(h, b.MaxY-b.Y+1)+moreL+1, strength(w+h, b.SmoothAround, abs(angle-180)))
		}
		limit := 16
		if b.SmoothAround {
			limit = 8
		}
		if abs(angle-90) < 40 && w+h <= limit {
			upA = 1
			b.upsample(above, w+moreA)
		}
		if abs(angle-180) < 40 && w+h <= limit {
			upL = 1
			b.upsample(left, h+moreL)
		}
	}
	mix := func(e *edge, base, shift int) int { return (e.at(base)*(32-shift) + e.at(base+1)*shift + 16) >> 5 }
	for i := range pred {
		for j := range pred[i] {
			switch {
			case angle == 90:
				pred[i][j] = above.at(j)
			case angle == 180:
				pred[i][j] = left.at(i)
			case angle < 90:
				idx := (i + 1) * derivative[angle]
				base := idx>>(6-upA) + j<<upA
				last := (w + h - 1) << upA
				if base < last {
					pred[i][j] = mix(above, base, (idx<<upA)>>1&31)
				} else {
					pred[i][j] = above.at(last)
				}
			case angle > 180:
				idx := (j + 1) * derivative[270-angle]
				pred[i][j] = mix(left, idx>>(6-upL)+i<<upL, (idx<<upL)>>1&31)
			default:
				idx := j<<6 - (i+1)*derivative[180-angle]
				if base := idx >> (6 - upA); base >= -(1 << upA) {
					pred[i][j] = mix(above, base, (idx<<upA)>>1&31)
				} else {
					idx = i<<6 - (j+1)*derivative[angle-90]
					pred[i][j] = mix(left, idx>>(6-upL), (idx<<upL)>>1&31)
				}
			}
		}
	}
}
