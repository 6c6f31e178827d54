//go:build !noshim

// C35: dequantization.
package main

import (
	"fmt"
	"os"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/tabs"
	"github.com/m4tthewde/gov1/internal/zzverif/txm"
)

var dcTab, acTab [][]int
var qm [][][]int

// qmAt is where the matrix of a transform size starts: the sizes up to 32x32 in order, 64-point sizes sharing those of 32 points.
func qmAt(size int) int {
	lw, lh := txm.Sizes[size][0], txm.Sizes[size][1]
	if lw > 5 {
		lw = 5
	}
	if lh > 5 {
		lh = 5
	}
	at := 0
	for _, s := range [][2]int{{2, 2}, {3, 3}, {4, 4}, {5, 5}, {2, 3}, {3, 2}, {3, 4}, {4, 3}, {4, 5}, {5, 4}, {2, 4}, {4, 2}, {3, 5}, {5, 3}} {
		if s[0] == lw && s[1] == lh {
			return at
		}
		at += 1 << uint(s[0]+s[1])
	}
	panic("size")
}

type work struct {
	t *tilegroup.TileGroup
	s *state.State
}

type conf struct {
	depth, plane, size, typ, seg int
	base, cur                    int
	delta                        [5]int // Y dc, U dc, U ac, V dc, V ac
	qmOn                         bool
	level                        [3][8]int
	deltaQ, segOn                bool
	alt                          [8]int // segment offset, 1000: none
}

// qidx is the quantizer index of the block.
func (k *conf) qidx() int {
	q := k.base
	if k.deltaQ {
		q = k.cur
	}
	if k.segOn && k.alt[k.seg] != 1000 {
		q += k.alt[k.seg]
		if q < 0 {
			q = 0
		}
		if q > 255 {
			q = 255
		}
	}
	return q
}

func (k *conf) String() string { return fmt.Sprintf("%+v", *k) }

func (k *conf) want(i, j, level int) int {
	bd := (k.depth - 8) / 2
	tw := 1 << uint(txm.Sizes[k.size][0])
	if tw > 32 {
		tw = 32
	}
	var d int
	tab := acTab
	switch {
	case i+j == 0 && k.plane == 0:
		d, tab = k.delta[0], dcTab
	case i+j == 0 && k.plane == 1:
		d, tab = k.delta[1], dcTab
	case i+j == 0:
		d, tab = k.delta[3], dcTab
	case k.plane == 1:
		d = k.delta[2]
	case k.plane == 2:
		d = k.delta[4]
	}
	x := k.qidx() + d
	if x < 0 {
		x = 0
	}
	if x > 255 {
		x = 255
	}
	q := tab[bd][x]
	if k.qmOn && k.typ < 9 && k.level[k.plane][k.seg] < 15 {
		uv := 0
		if k.plane > 0 {
			uv = 1
		}
		q = (q*qm[k.level[k.plane][k.seg]][uv][qmAt(k.size)+i*tw+j] + 16) / 32
	}
	v := level * q
	neg := v < 0
	if neg {
		v = -v
	}
	v &= 0xffffff
	switch area := txm.Sizes[k.size][0] + txm.Sizes[k.size][1]; {
	case area > 10:
		v /= 4
	case area > 8:
		v /= 2
	}
	lim := 1 << uint(k.depth+7)
	if neg {
		v = -v
		if v < -lim {
			v = -lim
		}
		return v
	}
	if v > lim-1 {
		v = lim - 1
	}
	return v
}

// check dequantizes a block of the given levels and compares every coefficient.
func check(c *mc.Ch, k *conf, level func(n int) int) *mc.Fail {
	w, ok := c.Local["w"].(*work)
	if !ok {
		w = &work{&tilegroup.TileGroup{}, &state.State{}}
		for p := range w.s.CurrFrame {
			for y := 0; y < 64; y++ {
				w.s.CurrFrame[p] = append(w.s.CurrFrame[p], make([]int, 64))
			}
		}
		c.Local["w"] = w
	}
	t, s := w.t, w.s
	lw, lh := txm.Sizes[k.size][0], txm.Sizes[k.size][1]
	tw, th := 1<<uint(lw), 1<<uint(lh)
	small := tw <= 16 && th <= 16
	if tw > 32 {
		tw = 32
	}
	if th > 32 {
		th = 32
	}
	for n := 0; n < tw*th; n++ {
		t.Quant[n] = level(n)
	}
	for i := range t.Dequant {
		for j := range t.Dequant[i] {
			t.Dequant[i][j] = 7777777
		}
	}
	t.PlaneTxType, t.SegmentId, t.Lossless = k.typ, k.seg, false
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth, sh.ColorConfig.NumPlanes = k.depth, 3
	uh := uncompressedheader.UncompressedHeader{}
	uh.BaseQIdx, uh.DeltaQYDc, uh.DeltaQUDc, uh.DeltaQUAc, uh.DeltaQVDc, uh.DeltaQVAc = k.base, k.delta[0], k.delta[1], k.delta[2], k.delta[3], k.delta[4]
	uh.UsingQMatrix = k.qmOn
	for p := 0; p < 3; p++ {
		for g := 0; g < 8; g++ {
			uh.SegQMLevel[p][g] = k.level[p][g]
		}
	}
	uh.DeltaQPresent, uh.SegmentationEnabled = k.deltaQ, k.segOn
	s.CurrentQIndex = k.cur
	for g := 0; g < 8; g++ {
		s.FeatureEnabled[g][shared.SEG_LVL_ALT_Q], s.FeatureData[g][shared.SEG_LVL_ALT_Q] = 0, 0
		if k.alt[g] != 1000 {
			s.FeatureEnabled[g][shared.SEG_LVL_ALT_Q], s.FeatureData[g][shared.SEG_LVL_ALT_Q] = 1, k.alt[g]
		}
	}
	e := mc.Catch(func() { tilegroup.VerifReconstruct(t, k.plane, 0, 0, k.size, sh, uh, s) })
	c.Inner++
	c.Steps++
	if e != nil && small {
		return mc.Failf("panic", "%v: %v", k, e)
	}
	for i := 0; i < th; i++ {
		for j := 0; j < tw; j++ {
			l := level(i*tw + j)
			if g, x := t.Dequant[i][j], k.want(i, j, l); g != x {
				return mc.Failf("coefficient", "%v: level %d at row %d column %d becomes %d, want %d", k, l, i, j, g, x)
			}
		}
	}
	return nil
}

func base() *conf {
	k := &conf{depth: 8, base: 100, cur: 100}
	for g := range k.alt {
		k.alt[g] = 1000
		for p := 0; p < 3; p++ {
			k.level[p][g] = 15
		}
	}
	return k
}

func main() {
	r := mc.Start()
	t := tabs.Load(os.Args[3])
	dcTab, acTab, qm = t.I2("Dc_Qlookup"), t.I2("Ac_Qlookup"), t.I3("Quantizer_Matrix")
	deltas := []int{-64, -63, -17, -1, 0, 1, 30, 63}
	r.Explore(
		mc.Scenario{Name: "quantizer index and offsets", Run: func(c *mc.Ch) *mc.Fail {
			k := base()
			k.depth, k.plane = 8+2*c.All(3), c.All(3)
			n := c.All(len(deltas))
			part := c.All(8)
			c.Note("depth %d plane %d offsets from %d, indices from %d", k.depth, k.plane, deltas[n], part*32)
			for q := part * 32; q < part*32+32; q++ {
				for m := range k.delta {
					k.delta[m] = deltas[(n+m)%len(deltas)]
				}
				k.base = q
				k.cur = 255 - q
				for _, size := range []int{0, 7} {
					k.size = size
					if f := check(c, k, func(n int) int { return 1 - 2*(n&1) }); f != nil {
						return f
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "segments and block offsets", Run: func(c *mc.Ch) *mc.Fail {
			k := base()
			k.plane, k.seg = c.All(3), c.All(8)
			k.segOn, k.deltaQ = c.All(2) == 1, c.All(2) == 1
			c.Note("plane %d segment %d segmentation %v delta_q %v", k.plane, k.seg, k.segOn, k.deltaQ)
			k.delta = [5]int{1, 2, 3, 4, 5}
			for set := 0; set < 3; set++ {
				for g := range k.alt {
					k.alt[g] = []int{-255, 17 * g, 1000}[(g+set)%3]
					if set == 2 && g == k.seg {
						k.alt[g] = 255
					}
				}
				for _, k.base = range []int{1, 60, 200, 255} {
					for _, k.cur = range []int{1, 90, 255} {
						if f := check(c, k, func(n int) int { return 1 }); f != nil {
							return f
						}
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "quantizer matrices", Run: func(c *mc.Ch) *mc.Fail {
			k := base()
			k.plane, k.size = c.All(3), c.All(19)
			k.seg = c.All(2) * 5
			k.qmOn = c.All(2) == 0
			c.Note("plane %d transform size %d segment %d matrices %v", k.plane, k.size, k.seg, k.qmOn)
			for lvl := 0; lvl < 16; lvl++ {
				for p := 0; p < 3; p++ {
					for g := 0; g < 8; g++ {
						k.level[p][g] = (lvl + 5*((p-k.plane+3)%3) + (g-k.seg+8)%8) % 16
					}
				}
				for typ := 0; typ < 16; typ++ {
					if !txm.Allowed(k.size, typ) || lvl > 2 && typ > 0 && typ != 8 && typ != 9 {
						continue
					}
					k.typ = typ
					for _, k.base = range []int{160, 255} {
						if f := check(c, k, func(n int) int { return 8 }); f != nil {
							return f
						}
						if !r.Thorough() {
							break
						}
					}
				}
			}
			return nil
		}},
		mc.Scenario{Name: "levels", Run: func(c *mc.Ch) *mc.Fail {
			k := base()
			k.size = c.All(19)
			k.depth = 8 + 2*c.All(3)
			k.base = []int{0, 1, 2, 50, 128, 200, 254, 255}[c.All(8)]
			sign := 1 - 2*c.All(2)
			c.Note("size %d depth %d index %d sign %d", k.size, k.depth, k.base, sign)
			n := 1 << uint(txm.Sizes[k.size][0]+txm.Sizes[k.size][1])
			if n > 1024 {
				n = 1024
			}
			var lv []int
			top := 256
			if r.Thorough() {
				top = 1 << 15
			}
			for l := 0; l < top; l++ {
				lv = append(lv, l)
			}
			for b := uint(8); b < 21; b++ {
				for d := -3; d <= 3; d++ {
					lv = append(lv, 1<<b+d, 3<<b+d)
				}
			}
			// around the limit of the coefficient and the 24-bit wrap
			for _, q := range []int{k.want(0, 0, 1), k.want(0, 1, 1)} {
				for _, e := range []int{1 << uint(k.depth+7), 1 << uint(k.depth+8), 1 << uint(k.depth+9), 1 << 24, 1 << 25} {
					for d := -2; q > 0 && d <= 2; d++ {
						if v := e/q + d; v >= 0 && v < 1<<21 {
							lv = append(lv, v)
						}
					}
				}
			}
			for a := 0; a < len(lv); a += n - 1 {
				// every level is seen as an AC coefficient; those that start a round also as the DC coefficient
				if f := check(c, k, func(i int) int { return sign * lv[(a+i)%len(lv)] }); f != nil {
					return f
				}
			}
			for a := 0; n > 64 && a < len(lv); a += 1 + len(lv)/64 {
				if f := check(c, k, func(i int) int {
					if i == 0 {
						return sign * lv[a]
					}
					return 0
				}); f != nil {
					return f
				}
			}
			return nil
		}},
	)
	r.Bound("quantizer index 0..255 x 8 rotations of 5 distinct offsets x 3 planes x 3 bit depths; 8 segments with and without offsets, delta_q on and off; 16 matrix levels x 19 transform sizes x 3 planes at every position; levels up to 2^21 in both signs x 19 sizes x 3 depths x 8 indices")
	r.Assume("golden/tables.json.gz holds the quantizer tables and matrices of the AV1 specification: validated against libaom 3.8.2 when it was made")
	r.Finish()
}
