//go:build !noshim

package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// internal runs the motion parameters against previous parameters that headers alone cannot set up yet.
func internal(thorough bool) []mc.Scenario {
	prevs := []int{0, 1, -1, 4096, -4096, 2047, -2047, 3000, -3001, 777, 4095, -4095, 100, -50}
	run := func(c *mc.Ch, typ, hp, param, prev int, cost func(string, int) int, bound int) *mc.Fail {
		w := hdr.W(c)
		st := hdr.Prior(0)
		for r := 1; r < 8; r++ {
			for i := 0; i < 6; i++ {
				prec := uint(1)
				if i < 2 {
					prec = 10
					if typ == 1 {
						prec = uint(13 + 1 - hp)
					}
				}
				v := prev
				if r != 1 || i != param {
					v = (prev*(r+3) + i*97) % 4096
				}
				if typ == 1 && i < 2 {
					v %= 256 << uint(hp)
				}
				st.PrevGmParams[r][i] = v << prec
				if i%3 == 2 {
					st.PrevGmParams[r][i] += 1 << 16
				}
			}
		}
		hdr.Apply(st, &w.S)
		over := map[string]int{"is_global": 1, "is_rot_zoom": b2i(typ == 2), "is_translation": b2i(typ == 1)}
		g := &gen.Gen{C: c, Base: gen.With(hdr.Profile(2), over), Cost: cost, Whole: 13, Bound: bound}
		f := &spec.Frame{HighPrec: hp}
		spec.Motion(f, g, st)
		u := &uncompressedheader.UncompressedHeader{AllowHighPrecisionMv: hp == 1}
		b := bitstream.BitStream{Data: spec.Shift(&g.W, 3, 0xff, 1, 8), Position: 3}
		c.Steps++
		if e := mc.Catch(func() { uncompressedheader.VerifGlobalMotion(u, &b, &w.S) }); e != nil {
			return mc.Failf("panic", "global motion fails: %v", e)
		}
		for r := 1; r < 8; r++ {
			if w.S.GmType[r] != st.GmType[r] {
				return mc.Failf("GmType", "GmType[%d] = %d, want %d", r, w.S.GmType[r], st.GmType[r])
			}
			if u.GmParams[r] != f.Gm[r] {
				return mc.Failf("gm_params", "gm_params[%d] = %v, want %v (previous %v, type %d)", r, u.GmParams[r], f.Gm[r], st.PrevGmParams[r], typ)
			}
		}
		if b.Position-3 != g.W.Pos {
			return mc.Failf("bits consumed", "global motion consumes %d bits, want %d", b.Position-3, g.W.Pos)
		}
		return nil
	}
	at := func(param int) func(name string, idx int) int {
		return func(name string, idx int) int {
			if name == "subexp_more_bits" && idx/16 == 6+param || (name == "subexp_bits" || name == "subexp_final_bits" || name == "subexp_final_bits.extra_bit") && idx == 6+param {
				return -1
			}
			return 0
		}
	}
	if !thorough {
		prevs = prevs[:10]
	}
	return []mc.Scenario{
		{Name: "every code word around previous parameters", Run: func(c *mc.Ch) *mc.Fail {
			typ := 1 + c.All(3)
			hp := 0
			if typ == 1 {
				hp = c.All(2)
			}
			param := c.All(6)
			if typ == 1 && param > 1 || typ == 2 && param > 3 {
				return nil
			}
			return run(c, typ, hp, param, prevs[c.All(len(prevs))], at(param), 0)
		}},
		{Name: "previous parameters over their range", Bound: 1, Run: func(c *mc.Ch) *mc.Fail {
			typ := 1 + c.All(3)
			hp := c.All(2)
			n := 257
			if thorough {
				n = 8193
			}
			prev := (c.All(n) - n/2) * (8192 / (n - 1))
			return run(c, typ, hp, 2, prev, func(name string, idx int) int {
				if name == "subexp_more_bits" && idx/96 == 1 {
					return 1
				}
				return 0
			}, 1)
		}},
	}
}
