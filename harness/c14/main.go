// C14: order hints, sign bias and skip-mode references.
package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// refIdx gives each reference its slot.
func refIdx(pattern [7]int) func(name string, idx int) (int, bool) {
	return func(name string, idx int) (int, bool) {
		if name == "ref_frame_idx" {
			return pattern[idx], true
		}
		return 0, false
	}
}

var patterns = [][7]int{{0, 1, 2, 3, 4, 5, 6}, {7, 6, 5, 4, 3, 2, 1}, {0, 1, 2, 3, 0, 1, 2}, {3, 3, 2, 2, 1, 1, 0}, {0, 0, 0, 1, 1, 2, 3}, {1, 0, 1, 0, 3, 2, 3}, {2, 2, 2, 2, 2, 2, 2}}

func scenario(name string, kinds hdr.Axis, bits int, pats [][7]int, slots []int, values []int, bound int, profiles []int) mc.Scenario {
	over := gen.Merge(hdr.Small, map[string]int{"enable_order_hint": 1, "order_hint_bits_minus_1": bits - 1, "film_grain_params_present": 0, "uniform_tile_spacing_flag": 1,
		"frame_refs_short_signaling": 0, "base_q_idx": 10})
	return mc.Scenario{Name: name, Bound: bound, Run: func(c *mc.Ch) *mc.Fail {
		w := hdr.W(c)
		o := gen.Merge(over, kinds[c.All(len(kinds))])
		pat := refIdx(pats[c.All(len(pats))])
		o["order_hint"] = values[c.All(len(values))]
		o["reference_select"] = 1 - c.Pick(2, 1)
		k := profiles[c.All(len(profiles))]
		base := gen.With(hdr.Profile(k), o)
		all := func(name string, idx, n int) int {
			if v, ok := pat(name, idx); ok {
				return v
			}
			return base(name, idx, n)
		}
		off, tail := (k*3)%8, k&1
		sg := &gen.Gen{C: c, Base: base, Cost: func(string, int) int { return 0 }}
		q := spec.ReadSeq(sg)
		h, end, e := hdr.ParseSeq(c, &sg.W, off, 0, tail, &w.S)
		if e != nil || end != sg.W.Pos || len(hdr.Seq(q, &h, &w.S)) > 0 {
			return nil
		}
		st := hdr.Prior(k % 3)
		for _, s := range slots {
			st.RefOrderHint[s] = values[c.All(len(values))]
		}
		for i := 0; i < 8; i++ {
			st.RefOrderHint[i] &= 1<<uint(bits) - 1
		}
		c.Note("stored hints %v, %d bits", st.RefOrderHint, bits)
		hdr.Apply(st, &w.S)
		fg := &gen.Gen{C: c, Base: all, Cost: hdr.Focus(bound+1, "skip_mode_present", "ref_frame_idx", "ref_order_hint"), Whole: 3, Bound: bound}
		f := spec.ReadFrame(fg, q, 0, 0, st)
		r := hdr.ParseFrame(c, q, &h, f, &fg.W, off, 0, tail, 0, 0, st, &w.S)
		return r.Attribute("hint", "skip")
	}}
}

func upTo(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

func main() {
	r := mc.Start()
	deep := 1
	if r.Thorough() {
		deep = 2
	}
	shown := hdr.Axis{hdr.Kinds[3]}
	scs := []mc.Scenario{
		{Name: "relative distance", Run: func(c *mc.Ch) *mc.Fail {
			bits := c.All(9)
			q := &spec.Seq{OrderHint: b2i(bits > 0), OrderHintBits: bits}
			sh := sequenceheader.SequenceHeader{EnableOrderHint: bits > 0, OrderHintBits: bits}
			u := uncompressedheader.UncompressedHeader{}
			n := 1 << uint(bits)
			if bits == 0 {
				n = 16
			}
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					c.Inner++
					c.Steps++
					if got, want := u.GetRelativeDist(a, b, sh), spec.RelDist(q, a, b); got != want {
						return mc.Failf("relative distance", "relative distance of %d and %d with %d bits = %d, want %d", a, b, bits, got, want)
					}
				}
			}
			c.Note("relative distance of every pair of %d-bit hints", bits)
			return nil
		}},
		scenario("every hint of every reference, 2 bits", shown, 2, patterns[:1], []int{0, 1, 2, 3, 4, 5, 6}, upTo(4), 0, []int{2}),
		scenario("four slots, 3 bits", hdr.InterKinds, 3, patterns, []int{0, 1, 2, 3}, upTo(8), 0, []int{2}),
		scenario("references changed", hdr.Axis{hdr.Kinds[3], hdr.Kinds[2]}, 2, patterns[:2], []int{0, 3, 6}, upTo(4), deep, []int{0, 1}),
		scenario("three slots, extreme 8-bit hints", shown, 8, patterns[:6], []int{0, 1, 2}, []int{0, 1, 2, 126, 127, 128, 129, 254, 255}, deep-1, []int{3}),
		scenario("1 bit", hdr.InterKinds, 1, patterns[:2], []int{0, 2, 4, 5}, upTo(2), 1, []int{2}),
		scenario("2 bits, one departure", hdr.InterKinds, 2, patterns[:3], []int{1, 2, 3, 4}, upTo(4), 1, []int{4}),
		hdr.Plan{Name: "order hints off", Over: map[string]int{"enable_order_hint": 0}, Axes: []hdr.Axis{hdr.InterKinds}, Priors: []int{0, 1, 2}, Cost: hdr.Focus(2, "reference_select", "ref_frame_idx"), Bound: 2, Own: []string{"hint", "skip"}}.Scenario(),
		hdr.Plan{Name: "intra frames", Axes: []hdr.Axis{hdr.IntraKinds, hdr.Flag("enable_order_hint")}, Priors: []int{0, 1, 2}, Cost: hdr.Focus(1), Bound: 1, Own: []string{"hint", "skip"}}.Scenario(),
	}
	if r.Thorough() {
		scs = append(scs,
			scenario("every hint of every reference, 2 bits, reversed", hdr.InterKinds, 2, patterns[1:2], []int{1, 2, 3, 4, 5, 6, 7}, upTo(4), 1, []int{2}),
			scenario("five slots, 3 bits", shown, 3, [][7]int{{0, 1, 2, 3, 4, 0, 1}, {4, 3, 2, 1, 0, 4, 3}}, []int{0, 1, 2, 3, 4}, upTo(8), 1, []int{2}),
			scenario("six slots, 3 bits", shown, 3, [][7]int{{0, 1, 2, 3, 4, 5, 0}}, []int{0, 1, 2, 3, 4, 5}, upTo(8), 0, []int{0}),
		)
	}
	r.Explore(scs...)
	r.Bound("relative distance of every pair of hints of 0..8 bits; every assignment of 2-bit hints to 7 references and the frame; every assignment of 3-bit hints to 4 slots under 7 reference maps; extreme 8-bit hints")
	r.Finish()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
