//go:build !noshim

// C47: loop restoration units.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/sym"
)

const (
	none = iota
	wiener
	sgr
	any
)

type work struct {
	t *tilegroup.TileGroup
	s *state.State
	k *sym.Coder
}

func get(c *mc.Ch) *work {
	if w, ok := c.Local["w"].(*work); ok {
		return w
	}
	w := &work{t: &tilegroup.TileGroup{}, s: &state.State{}}
	w.k = sym.New(w.s, "UseWiener", "UseSgrproj", "RestorationType")
	c.Local["w"] = w
	return w
}

type unit struct {
	typ int
	wn  [2][3]int
	set int
	xqd [2]int
}

// frame is a frame and what its units are to be.
type frame struct {
	width, height int // upscaled
	denom         int // 8: no superres
	subX, subY    bool
	planes        int
	sb            int // superblock size in 4x4 units
	size          [3]int
	typ           [3]int
	intrabc       bool
	refW          [3][2][3]int
	refS          [3][2]int
	unit          func(plane, row, col int, f *frame) unit
}

var wlo, whi, wk = [3]int{-5, -23, -17}, [3]int{10, 8, 46}, [3]int{1, 2, 3}
var slo, shi = [2]int{-96, -32}, [2]int{31, 95}

// subexp encodes a value below n, small ones with few bits.
func subexp(k *sym.Coder, n, b, v int) {
	lo, size := 0, 1<<uint(b)
	for i := 0; ; i++ {
		if n <= lo+3*size {
			k.NS(n-lo, v-lo)
			return
		}
		if v < lo+size {
			k.Lit(1, 0)
			bits := 0
			for 1<<uint(bits) < size {
				bits++
			}
			k.Lit(bits, v-lo)
			return
		}
		k.Lit(1, 1)
		lo += size
		if i > 0 {
			size *= 2
		}
	}
}

// recenter numbers the values by their distance from r.
func recenter(r, v int) int {
	switch {
	case v > 2*r:
		return v
	case v >= r:
		return 2 * (v - r)
	}
	return 2*(r-v) - 1
}

func near(k *sym.Coder, lo, hi, b, ref, v int) {
	n := hi - lo + 1
	r, x := ref-lo, v-lo
	if 2*r <= n {
		subexp(k, n, b, recenter(r, x))
	} else {
		subexp(k, n, b, recenter(n-1-r, n-1-x))
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func clip(lo, hi, v int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// encode writes a unit; what is not coded of it is filled in.
func (f *frame) encode(k *sym.Coder, plane int, u unit) unit {
	switch f.typ[plane] {
	case wiener:
		k.Sym("UseWiener", b2i(u.typ != none))
	case sgr:
		k.Sym("UseSgrproj", b2i(u.typ != none))
	default:
		k.Sym("RestorationType", u.typ)
	}
	switch u.typ {
	case wiener:
		for pass := 0; pass < 2; pass++ {
			for j := 0; j < 3; j++ {
				if plane > 0 && j == 0 {
					u.wn[pass][0] = 0
					continue
				}
				near(k, wlo[j], whi[j], wk[j], f.refW[plane][pass][j], u.wn[pass][j])
				f.refW[plane][pass][j] = u.wn[pass][j]
			}
		}
	case sgr:
		k.Lit(4, u.set)
		switch {
		case u.set >= 14: // no second filter
			near(k, slo[0], shi[0], 4, f.refS[plane][0], u.xqd[0])
			u.xqd[1] = clip(slo[1], shi[1], 128-u.xqd[0])
		case u.set >= 10: // no first filter
			u.xqd[0] = 0
			near(k, slo[1], shi[1], 4, f.refS[plane][1], u.xqd[1])
		default:
			for i := 0; i < 2; i++ {
				near(k, slo[i], shi[i], 4, f.refS[plane][i], u.xqd[i])
			}
		}
		f.refS[plane] = u.xqd
	}
	return u
}

func round2(x, n int) int { return (x + n) >> uint(n) }

// units is the number of units along a side.
func units(side, size int) int {
	if n := (side + size/2) / size; n > 1 {
		return n
	}
	return 1
}

type place struct{ plane, row, col int }

func (w *work) decode(c *mc.Ch, f *frame) *mc.Fail {
	k, t, s := w.k, w.t, w.s
	k.Reset()
	k.Trace = c.Tracing()
	decoded := (f.width*8 + f.denom/2) / f.denom
	miRows, miCols := (f.height+7)/8*2, (decoded+7)/8*2
	t.RefLrWiener, t.RefSgrXqd = f.refW, f.refS
	want := map[place]unit{}
	var log []string
	sbr, sbc := (miRows+f.sb-1)/f.sb, (miCols+f.sb-1)/f.sb
	for r := 0; r < sbr; r++ {
		for x := 0; x < sbc; x++ {
			for p := 0; p < f.planes && !f.intrabc; p++ {
				if f.typ[p] == none {
					continue
				}
				sx, sy := 0, 0
				if p > 0 {
					sx, sy = b2i(f.subX), b2i(f.subY)
				}
				ur, uc := units(round2(f.height, sy), f.size[p]), units(round2(f.width, sx), f.size[p])
				// the units whose first sample lies in the superblock
				for i := 0; i < ur; i++ {
					if y := i * f.size[p]; y < r*f.sb*4>>uint(sy) || y >= (r+1)*f.sb*4>>uint(sy) {
						continue
					}
					for j := 0; j < uc; j++ {
						// positions times 8, scaled
						if y := j * f.size[p] * 8; y < (x*f.sb*4>>uint(sx))*f.denom || y >= ((x+1)*f.sb*4>>uint(sx))*f.denom {
							continue
						}
						u := f.encode(k, p, f.unit(p, i, j, f))
						want[place{p, i, j}] = u
						if c.Tracing() {
							log = append(log, fmt.Sprintf("superblock %d,%d: plane %d unit %d,%d: %v", r, x, p, i, j, u))
						}
					}
				}
			}
		}
	}
	br := k.Start()
	s.LoopRestorationSize = f.size
	s.MiRows, s.MiCols = miRows, miCols
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.NumPlanes, sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = f.planes, f.subX, f.subY
	sh.ColorConfig.MonoChrome = f.planes == 1
	uh := uncompressedheader.UncompressedHeader{}
	uh.FrameRestorationType = f.typ
	uh.FrameHeight, uh.FrameWidth, uh.UpscaledWidth = f.height, decoded, f.width
	uh.UseSuperRes, uh.SuperResDenom = f.denom != 8, f.denom
	uh.AllowIntraBc = f.intrabc
	const mark = -77
	top := 0
	for p := range want {
		top = maxi(top, maxi(p.row, p.col))
	}
	top = clip(0, 63, top+2)
	for p := 0; p < 3; p++ {
		for i := 0; i <= top; i++ {
			for j := 0; j <= top; j++ {
				tilegroup.VerifSetLr(t, p, i, j, mark)
			}
		}
	}
	if c.Tracing() {
		c.Note("frame %dx%d, denominator %d, %d planes, subsampling %v %v, units of %v, types %v, superblocks of %d, block copy %v", f.width, f.height, f.denom, f.planes, f.subX, f.subY, f.size, f.typ, f.sb*4, f.intrabc)
		for _, l := range log {
			c.Note("%s", l)
		}
	}
	size := 12
	if f.sb == 32 {
		size = 15
	}
	for r := 0; r < sbr; r++ {
		for x := 0; x < sbc; x++ {
			c.Steps++
			if e := mc.Catch(func() { tilegroup.VerifReadLr(t, r*f.sb, x*f.sb, size, br, s, uh, sh) }); e != nil {
				return mc.Failf("panic", "reading the units of superblock %d,%d: %v", r, x, e)
			}
		}
	}
	for p := 0; p < 3; p++ {
		for i := 0; i <= top; i++ {
			for j := 0; j <= top; j++ {
				typ, wn, set, xqd := tilegroup.VerifLr(t, p, i, j)
				u, ok := want[place{p, i, j}]
				if !ok {
					if typ != mark {
						return mc.Failf("unit that does not exist", "plane %d: unit %d,%d was read", p, i, j)
					}
					continue
				}
				if typ != u.typ {
					return mc.Failf("type", "plane %d, unit %d,%d: type %d, want %d", p, i, j, typ, u.typ)
				}
				if typ == wiener && wn != u.wn {
					return mc.Failf("Wiener coefficients", "plane %d, unit %d,%d: coefficients %v, want %v", p, i, j, wn, u.wn)
				}
				if typ == sgr && (set != u.set || xqd != u.xqd) {
					return mc.Failf("self-guided weights", "plane %d, unit %d,%d: set %d, weights %v, want %d, %v", p, i, j, set, xqd, u.set, u.xqd)
				}
			}
		}
	}
	if t.RefLrWiener != f.refW || t.RefSgrXqd != f.refS {
		return mc.Failf("references", "values the next unit refers to: %v, %v, want %v, %v", t.RefLrWiener, t.RefSgrXqd, f.refW, f.refS)
	}
	return k.Check(br)
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func refs(f *frame) {
	for p := 0; p < 3; p++ {
		f.refW[p] = [2][3]int{{3, -7, 15}, {3, -7, 15}}
		f.refS[p] = [2]int{-32, 31}
	}
}

// one is a frame with one unit per plane, or more.
func one(n int) *frame {
	f := &frame{width: 64 * n, height: 64, denom: 8, planes: 3, sb: 16, size: [3]int{64, 64, 64}}
	refs(f)
	return f
}

func main() {
	r := mc.Start()
	th := r.Thorough()
	r.Explore(
		mc.Scenario{Name: "places of units", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := &frame{planes: 3}
			refs(f)
			switch c.All(4) {
			case 1:
				f.subX = true
			case 2:
				f.subX, f.subY = true, true
			case 3:
				f.planes = 1
			}
			sides := []int{8, 31, 32, 63, 95, 96, 97, 128, 159, 160, 191, 192, 193, 256}
			f.width, f.height = sides[c.All(len(sides))], sides[c.All(len(sides))]
			f.denom = 8 + c.Pick(9, 1)
			f.sb = 16 << uint(c.All(2))
			f.intrabc = c.Pick(2, 2) == 1
			n := 6 + c.All(3)
			if f.sb == 32 && n == 6 {
				n = 7 // the smallest with large superblocks
			}
			f.size[0] = 1 << uint(n)
			f.size[1] = f.size[0]
			if f.subX && f.subY {
				f.size[1] >>= uint(c.All(2))
			}
			f.size[2] = f.size[1]
			on := 1 + c.All(1<<uint(f.planes)-1)
			for p := 0; p < f.planes; p++ {
				if on>>uint(p)&1 == 1 {
					f.typ[p] = []int{any, wiener, sgr}[(c.Pick(3, 1)+p)%3]
				}
			}
			kind := c.Pick(2, 1)
			f.unit = func(p, i, j int, f *frame) unit {
				if kind == 1 {
					return unit{}
				}
				u := unit{typ: f.typ[p], wn: [2][3]int{{i, j, i + j}, {j, -i, 7}}, set: (i + 3*j) % 16, xqd: [2]int{i - j, j * 7}}
				if u.typ == any {
					u.typ = (i + j + p) % 3
				}
				return u
			}
			return w.decode(c, f)
		}, Bound: 1 + b2i(th)},
		mc.Scenario{Name: "kinds of units", Run: func(c *mc.Ch) *mc.Fail {
			// up to three units after each other, of each plane
			w := get(c)
			f := one(1 + c.All(3))
			f.planes = 3 - 2*c.All(2)
			for p := 0; p < f.planes; p++ {
				f.typ[p] = c.All(4)
			}
			f.unit = func(p, i, j int, f *frame) unit {
				u := unit{wn: [2][3]int{{5, -9, 20 + j}, {-1 - p, 2, j}}, xqd: [2]int{-60 + 10*j + p, 40 + j}}
				if f.typ[p] == any {
					u.typ = c.All(3)
				} else if c.All(2) == 1 {
					u.typ = f.typ[p]
				}
				if u.typ == sgr {
					u.set = []int{3, 12, 15}[c.Pick(3, 1)]
				}
				return u
			}
			return w.decode(c, f)
		}, Bound: 1 + b2i(th)},
		mc.Scenario{Name: "Wiener coefficients", Run: func(c *mc.Ch) *mc.Fail {
			// every value of a coefficient after every other
			w := get(c)
			f := one(2)
			p := c.All(3)
			f.typ[p] = wiener
			if c.All(2) == 1 {
				f.typ[p] = any
			}
			j, pass := c.All(3), c.All(2)
			n := whi[j] - wlo[j] + 1
			a, b := wlo[j]+c.All(n), wlo[j]+c.All(n)
			f.unit = func(_, _, col int, f *frame) unit {
				u := unit{typ: wiener, wn: [2][3]int{{3, -7, 15}, {3, -7, 15}}}
				u.wn[pass][j] = []int{a, b}[col]
				u.wn[1-pass][(j+1)%3] = []int{0, 1}[col]
				return u
			}
			return w.decode(c, f)
		}},
		mc.Scenario{Name: "self-guided weights", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := one(2)
			p := c.All(3)
			f.typ[p] = sgr
			if c.All(2) == 1 {
				f.typ[p] = any
			}
			first, second := c.Pick(16, 1), 0
			kind := c.All(4)
			second = []int{first, 9, 10, 14}[kind]
			i := c.All(2)
			a, b := slo[i]+c.All(128), slo[i]+c.All(128)
			f.unit = func(_, _, col int, f *frame) unit {
				u := unit{typ: sgr, set: []int{first, second}[col], xqd: [2]int{-10, 20}}
				u.xqd[i] = []int{a, b}[col]
				return u
			}
			return w.decode(c, f)
		}, Bound: b2i(th)},
		mc.Scenario{Name: "sets", Run: func(c *mc.Ch) *mc.Fail {
			w := get(c)
			f := one(3)
			f.typ[0] = sgr
			sets := [3]int{c.All(16), c.All(16), c.All(16)}
			v := c.All(4)
			f.unit = func(_, _, col int, f *frame) unit {
				return unit{typ: sgr, set: sets[col], xqd: [2]int{[]int{-96, 31, 0, -50}[v] + (col-1)*(1-v), []int{-32, 95, 0, 50}[v] - (col-1)*(v-1)}}
			}
			// weights beyond their limits are none
			g := f.unit
			f.unit = func(p, i, j int, f *frame) unit {
				u := g(p, i, j, f)
				for n := range u.xqd {
					u.xqd[n] = clip(slo[n], shi[n], u.xqd[n])
				}
				return u
			}
			return w.decode(c, f)
		}},
	)
	r.Bound("14x14 frame sizes x 4 formats x 2 superblock sizes x unit sizes x planes restored, with at most %d departures in superres denominator, types and content; all sequences of kinds of up to 3 units; every Wiener coefficient and every self-guided weight after every other; all triples of sets", 1+b2i(th))
	r.Finish()
}
