//go:build !noshim

// C38: motion vectors.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/sym"
)

type mv = [2]int

type work struct {
	t *tilegroup.TileGroup
	s *state.State
	k *sym.Coder
}

func get(c *mc.Ch) *work {
	if w, ok := c.Local["w"].(*work); ok {
		return w
	}
	w := &work{t: &tilegroup.TileGroup{}, s: &state.State{}}
	w.k = sym.New(w.s, "MvJoint", "MvSign", "MvClass", "MvClass0Bit", "MvClass0Fr", "MvClass0Hp", "MvBit", "MvFr", "MvHp")
	c.Local["w"] = w
	return w
}

// precision: 0 high, 1 quarter sample, 2 integer
type block struct {
	mode              int // 1..4: NEAREST, NEAR, GLOBAL, NEW of one vector; 5.. : the compound modes
	intrabc           bool
	prec              int
	found, idx        int
	stack             [4][2]mv
	global            [2]mv
	sb128             bool
	miRow, miRowStart int
	diff              [2]mv // in units of an eighth sample
	noAdapt           bool
}

// Modes: what each of the two vectors is made of.
const (
	nearest = iota
	near
	global
	newmv
)

var parts = [][]int{
	{nearest}, {near}, {global}, {newmv},
	{nearest, nearest}, {near, near}, {nearest, newmv}, {newmv, nearest}, {near, newmv}, {newmv, near}, {global, global}, {newmv, newmv},
}

const firstMode = 14 // NEARESTMV in gov1's numbering, which runs through the modes in the order above

// component encodes a non-zero difference; it must be possible at the precision.
func component(k *sym.Coder, ctx, comp, v, prec int) {
	sign := 0
	if v < 0 {
		sign, v = 1, -v
	}
	k.Sym("MvSign", sign, ctx, comp)
	v--
	class := 0
	for v>>uint(class+4) > 0 {
		class++
	}
	k.Sym("MvClass", class, ctx, comp)
	if class == 0 {
		b := v >> 3
		k.Sym("MvClass0Bit", b, ctx, comp)
		if prec < 2 {
			k.Sym("MvClass0Fr", v>>1&3, ctx, comp, b)
		}
		if prec < 1 {
			k.Sym("MvClass0Hp", v&1, ctx, comp)
		}
		return
	}
	v -= 16 << uint(class-1)
	for i := 0; i < class; i++ {
		k.Sym("MvBit", v>>uint(3+i)&1, ctx, comp, i)
	}
	if prec < 2 {
		k.Sym("MvFr", v>>1&3, ctx, comp)
	}
	if prec < 1 {
		k.Sym("MvHp", v&1, ctx, comp)
	}
}

// encode writes what the block's vectors need, and returns them.
func (b *block) encode(k *sym.Coder) (out [2]mv, n int) {
	p := parts[b.mode]
	if b.intrabc {
		p = []int{newmv}
	}
	for i, m := range p {
		var pred mv
		switch {
		case b.intrabc:
			pred = b.stack[0][0]
			if pred == (mv{}) {
				pred = b.stack[1][0]
			}
			if pred == (mv{}) {
				sb := 64
				if b.sb128 {
					sb = 128
				}
				if b.miRow*4-sb < b.miRowStart*4 {
					pred = mv{0, -8 * (sb + 256)}
				} else {
					pred = mv{-8 * sb, 0}
				}
			}
		case m == global:
			pred = b.global[i]
		case m == nearest || m == newmv && b.found <= 1:
			pred = b.stack[0][i]
		default:
			pred = b.stack[b.idx][i]
		}
		if m == newmv {
			d := b.diff[i]
			ctx := 0
			if b.intrabc {
				ctx = 1
			}
			joint := 0
			if d[1] != 0 {
				joint |= 1
			}
			if d[0] != 0 {
				joint |= 2
			}
			k.Sym("MvJoint", joint, ctx)
			for comp, v := range d {
				if v != 0 {
					component(k, ctx, comp, v, b.prec)
				}
			}
			pred[0] += d[0]
			pred[1] += d[1]
		}
		out[i] = pred
	}
	return out, len(p)
}

func check(c *mc.Ch, bs ...*block) *mc.Fail {
	w := get(c)
	w.k.Trace = c.Tracing()
	w.k.Reset()
	w.k.Adapt = !bs[0].noAdapt
	var want [][2]mv
	var ns []int
	for _, b := range bs {
		m, n := b.encode(w.k)
		want, ns = append(want, m), append(ns, n)
	}
	if c.Tracing() {
		c.Note("%s", fmt.Sprint(w.k.Log))
	}
	br := w.k.Start()
	c.Inner++
	for i, b := range bs {
		t, s := w.t, w.s
		uh := uncompressedheader.UncompressedHeader{ForceIntegerMv: b.prec == 2, AllowHighPrecisionMv: b.prec == 0, DisableCdfUpdate: b.noAdapt}
		sh := sequenceheader.SequenceHeader{Use128x128SuperBlock: b.sb128}
		ui := 0
		if b.intrabc {
			ui = 1
		}
		tilegroup.VerifUseIntrabc(t, ui)
		t.YMode, t.NumMvFound, t.RefMvIdx = firstMode+b.mode, b.found, b.idx
		for j := range b.stack {
			t.RefStackMv[j] = b.stack[j]
		}
		t.GlobalMvs = b.global
		t.PredMv, t.Mv = [2]mv{{77, 77}, {77, 77}}, [2]mv{{99, 99}, {99, 99}}
		s.MiRow, s.MiRowStart = b.miRow, b.miRowStart
		c.Steps++
		tilegroup.VerifAssignMv(t, ns[i]-1, br, s, sh, uh)
		for j := 0; j < ns[i]; j++ {
			if t.Mv[j] != want[i][j] {
				return mc.Failf("vector", "%+v: vector %d is %v, want %v", *b, j, t.Mv[j], want[i][j])
			}
		}
	}
	if f := w.k.Check(br); f != nil {
		f.Desc = fmt.Sprintf("%+v: %s", *bs[len(bs)-1], f.Desc)
		return f
	}
	return nil
}

func base() *block {
	b := &block{found: 4, miRow: 40, miRowStart: 0}
	for i := range b.stack {
		b.stack[i] = [2]mv{{100 + 16*i, -200 - 32*i}, {-300 - 8*i, 400 + 64*i}}
	}
	b.global = [2]mv{{-8, 24}, {40, -56}}
	return b
}

// step is the unit of a precision.
func step(prec int) int { return []int{1, 2, 8}[prec] }

func main() {
	r := mc.Start()
	thorough := r.Thorough()
	sizes := func(prec int) []int {
		l := []int{0}
		for _, v := range []int{1, 2, 5, 8, 9, 16, 17, 31, 33, 100, 1024, 4095, 16384} {
			u := step(prec)
			x := (v + u - 1) / u * u
			l = append(l, x, -x)
		}
		return l
	}
	r.Explore(
		mc.Scenario{Name: "every component", Run: func(c *mc.Ch) *mc.Fail {
			prec, intrabc, comp, sign := c.All(3), c.All(2), c.All(2), c.All(2)
			top := c.All(64)
			c.Note("precision %d, block copy %d, component %d, sign %d, values from %d", prec, intrabc, comp, sign, top<<8)
			for v := top<<8 + 1; v <= top<<8+256; v++ {
				if v%step(prec) != 0 {
					continue
				}
				b := base()
				b.mode, b.prec, b.intrabc = newmv, prec, intrabc == 1
				b.diff[0][comp] = v - 2*v*sign
				if f := check(c, b); f != nil {
					return f
				}
			}
			return nil
		}},
		mc.Scenario{Name: "pairs of components", Run: func(c *mc.Ch) *mc.Fail {
			prec, intrabc := c.All(3), c.All(2)
			l := sizes(prec)
			d0 := l[c.All(len(l))]
			c.Note("precision %d, block copy %d, row %d", prec, intrabc, d0)
			for _, d1 := range l {
				b := base()
				b.mode, b.prec, b.intrabc = newmv, prec, intrabc == 1
				b.diff[0] = mv{d0, d1}
				if f := check(c, b); f != nil {
					return f
				}
			}
			return nil
		}},
		mc.Scenario{Name: "modes", Run: func(c *mc.Ch) *mc.Fail {
			m, found, idx := c.All(12), c.All(5), c.All(4)
			c.Note("mode %d, %d found, index %d", m, found, idx)
			for _, d0 := range []mv{{0, 0}, {3, 0}, {0, -20}, {-500, 1}} {
				for _, d1 := range []mv{{0, 0}, {3, 0}, {0, -20}, {-500, 1}} {
					for na := 0; na < 2; na++ {
						b := base()
						b.mode, b.found, b.idx, b.noAdapt = m, found, idx, na == 1
						b.diff = [2]mv{d0, d1}
						if f := check(c, b); f != nil {
							return f
						}
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "block copies", Run: func(c *mc.Ch) *mc.Fail {
			a, b2 := c.All(4), c.All(4)
			sb := c.All(2)
			row, start := c.All(100), []int{0, 16, 32, 64}[c.All(4)]
			if row < start {
				return nil
			}
			c.Note("candidates %d %d, 128x128 superblocks %d, row %d of a tile from %d", a, b2, sb, row, start)
			vs := []mv{{}, {-8, 0}, {0, -16}, {-64, 800}}
			for _, d := range []mv{{0, 0}, {-8, 0}, {0, 2000}, {-128, -64}} {
				b := base()
				b.intrabc, b.prec, b.sb128, b.miRow, b.miRowStart = true, 2, sb == 1, row, start
				b.stack[0][0], b.stack[1][0] = vs[a], vs[b2]
				b.diff[0] = d
				b.mode, b.found = row%12, 2
				if f := check(c, b); f != nil {
					return f
				}
			}
			return nil
		}},
		mc.Scenario{Name: "sequences", Run: func(c *mc.Ch) *mc.Fail {
			n := 3
			if thorough {
				n = 4
			}
			prec := c.All(3)
			l := []mv{{0, 0}, {8, 0}, {0, -16}, {24, 8}, {-800, 80}, {16, -4000}}
			var bs []*block
			for i := 0; i < n; i++ {
				b := base()
				b.prec = prec
				b.diff[0] = l[c.All(len(l))]
				b.diff[1] = mv{-b.diff[0][1], b.diff[0][0]}
				switch c.All(4) {
				case 0:
					b.mode = 3
				case 1:
					b.intrabc = true
				case 2:
					b.mode = 11
				case 3:
					b.mode = 8
				}
				bs = append(bs, b)
			}
			c.Note("%d blocks", n)
			return check(c, bs...)
		}},
	)
	r.Bound("every difference from -16384 to 16384 in either component at each of 3 precisions, for motion vectors and block copies; 27x27 pairs of components; 12 modes x 0..4 candidates x 4 indices x 16 pairs of differences, with and without adaptation; block copies: 16 pairs of candidates, both superblock sizes, rows 0..99 of tiles from 4 rows; sequences of 3 blocks (4 in the thorough tier)")
	r.Assume("the reference encoder follows assign_mv and read_mv of the AV1 specification")
	r.Finish()
}
