// C17: reference bookkeeping over histories of frame headers.
package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

type history struct {
	name    string
	depth   int
	bound   int
	seq     map[string]int
	kinds   hdr.Axis
	priors  []int
	values  map[string][]int
	cost    func(step int, name string, idx int) int
	profile int
}

type thread struct {
	s state.State
	u *updater
}

func (h history) scenario() mc.Scenario {
	return mc.Scenario{Name: h.name, Bound: h.bound, Run: func(c *mc.Ch) *mc.Fail {
		t, ok := c.Local["thread"].(*thread)
		if !ok {
			t = &thread{}
			t.u = newUpdater(&t.s)
			c.Local["thread"] = t
		}
		s := &t.s
		over := gen.Merge(hdr.Small, map[string]int{"max_frame_width_minus_1": 7, "max_frame_height_minus_1": 7, "frame_width_minus_1": 7, "frame_height_minus_1": 7, "enable_superres": 0, "film_grain_params_present": 0,
			"frame_id_numbers_present_flag": 1, "enable_order_hint": 1}, h.seq)
		base := gen.With(hdr.Profile(h.profile), over)
		sg := &gen.Gen{C: c, Base: base, Cost: func(string, int) int { return 0 }}
		q := spec.ReadSeq(sg)
		var sh sequenceheader.SequenceHeader
		sh, end, e := hdr.ParseSeq(c, &sg.W, 0, 0, 0, s)
		if e != nil || end != sg.W.Pos || len(hdr.Seq(q, &sh, s)) > 0 {
			return nil
		}
		st := hdr.Prior(h.priors[c.All(len(h.priors))])
		for i := 0; i < 8; i++ {
			st.RefFrameId[i] &= 1<<uint(q.IdLen()) - 1
			st.RefOrderHint[i] &= 1<<uint(q.OrderHintBits) - 1
		}
		st.CurrentFrameId &= 1<<uint(q.IdLen()) - 1
		hdr.Apply(st, s)
		for i := 0; i < h.depth; i++ {
			i := i
			kind := h.kinds[c.All(len(h.kinds))]
			b := gen.With(base, kind)
			fg := &gen.Gen{C: c, Whole: 3, Bound: h.bound, Values: h.values,
				Base: func(name string, idx, n int) int {
					if name == "ref_order_hint" {
						return st.RefOrderHint[idx]
					}
					return b(name, idx, n)
				},
				Cost: func(name string, idx int) int {
					if h.cost == nil {
						return 0
					}
					return h.cost(i, name, idx)
				}}
			f := spec.ReadFrame(fg, q, 0, 0, st)
			before := *st
			r := hdr.ParseFrame(c, q, &sh, f, &fg.W, i%8, 0xa5, 1, 0, 0, st, s)
			if r.Panic != nil {
				if f.ShowExisting == 1 {
					return mc.Failf("panic", "show_existing_frame fails: %v", r.Panic)
				}
				return r.Attribute("ref")
			}
			if fl := r.Attribute("ref"); fl != nil {
				return fl
			}
			if f.ShowExisting == 1 {
				// nothing else moves
				if d := hdr.Kept(&before, s); d != nil {
					return mc.Failf("show_existing_frame: "+d.Name, "show_existing_frame changes %v", d)
				}
				continue
			}
			for _, d := range r.Diffs {
				if d.Part == "ctl" {
					return nil // the header itself is not understood: not this property's business
				}
			}
			st.Update(f)
			c.Steps++
			if e := mc.Catch(func() { t.u.update(s, st, &r.U, &sh) }); e != nil {
				return mc.Failf("panic in update", "the reference update fails: %v", e)
			}
			if d := hdr.Refs(st, s); len(d) > 0 {
				return mc.Failf("after update: "+d[0].Name, "after the reference update of frame %d (refresh %#x): %v", i, f.Refresh, d[0])
			}
			if d := updated(f, q, s); d != "" {
				return mc.Failf("saved frame parameters", "%s", d)
			}
		}
		return nil
	}}
}

// Kinds, with show_existing_frame.
var kinds = hdr.Axis{hdr.Kinds[0], hdr.Kinds[1], hdr.Kinds[2], hdr.Kinds[3], hdr.Kinds[4], hdr.Kinds[5], {"show_existing_frame": 1}}

func all(names ...string) func(int, string, int) int {
	f := hdr.Focus(0, names...)
	return func(step int, name string, idx int) int { return -f(name, idx) }
}

func dev(names ...string) func(int, string, int) int {
	f := hdr.Focus(0, names...)
	return func(step int, name string, idx int) int { return f(name, idx) }
}

func main() {
	r := mc.Start()
	ids := func(delta, add int) map[string]int {
		return map[string]int{"delta_frame_id_length_minus_2": delta, "additional_frame_id_length_minus_1": add, "order_hint_bits_minus_1": 1}
	}
	refresh := map[string][]int{"refresh_frame_flags": {0, 1, 0x80, 0x55, 0x7f}}
	deep := 0
	if r.Thorough() {
		deep = 1
	}
	scs := []mc.Scenario{
		history{name: "two frames, everything", depth: 2, seq: ids(0, 0), kinds: kinds, priors: []int{0, 1}, values: refresh,
			cost: func(step int, name string, idx int) int {
				switch name {
				case "current_frame_id", "frame_to_show_map_idx":
					return -1
				case "order_hint", "refresh_frame_flags":
					if step == 0 || r.Thorough() {
						return -1
					}
				case "display_frame_id":
					return -step
				}
				return 0
			}}.scenario(),
		history{name: "two frames, wider ids", depth: 2, seq: ids(1, 0), kinds: kinds[:6], priors: []int{1, 2}, values: map[string][]int{"refresh_frame_flags": {1, 0xc}}, profile: 2,
			cost: all("current_frame_id", "refresh_frame_flags")}.scenario(),
		history{name: "one frame, every refresh mask", depth: 1, seq: ids(0, 0), kinds: kinds, priors: []int{0, 1, 2}, profile: 2, values: map[string][]int{"refresh_frame_flags": seq(256), "current_frame_id": {0, 3, 7}},
			cost: all("refresh_frame_flags", "current_frame_id", "frame_to_show_map_idx")}.scenario(),
		history{name: "one frame, ids and window of every length", depth: 1, seq: nil, kinds: kinds[2:3], priors: []int{1, 2}, values: refresh,
			cost: nil}.lengths(),
		history{name: "ref_order_hint departures", depth: 2, bound: 2 + deep, seq: ids(0, 0), kinds: hdr.Axis{kinds[2], kinds[4], {"frame_type": 1, "show_frame": 0, "showable_frame": 1, "error_resilient_mode": 1}}, priors: []int{0, 1, 2}, values: map[string][]int{"refresh_frame_flags": {0, 1, 0x55}},
			cost: dev("ref_order_hint", "order_hint", "refresh_frame_flags")}.scenario(),
		history{name: "four frames, departures", depth: 4, bound: 2 + deep, seq: ids(0, 0), kinds: hdr.Axis{kinds[0], kinds[3], kinds[2], kinds[6]}, priors: []int{0, 1}, values: map[string][]int{"refresh_frame_flags": {1, 0x82}, "current_frame_id": {1, 4, 7}, "frame_to_show_map_idx": {0, 1, 7}}, profile: 2,
			cost: dev("order_hint", "refresh_frame_flags", "current_frame_id", "ref_order_hint", "frame_to_show_map_idx")}.scenario(),
		history{name: "no frame ids, no order hints", depth: 2, bound: 2 + deep, seq: map[string]int{"frame_id_numbers_present_flag": 0, "enable_order_hint": 0}, kinds: kinds, priors: []int{0, 1, 2}, values: refresh,
			cost: dev("refresh_frame_flags", "frame_to_show_map_idx", "error_resilient_mode")}.scenario(),
	}
	if r.Thorough() {
		scs = append(scs,
			history{name: "three frames", depth: 3, seq: ids(0, 0), kinds: hdr.Axis{kinds[0], kinds[3], kinds[4], kinds[6]}, priors: []int{0, 1}, values: map[string][]int{"refresh_frame_flags": {1, 0x82}, "current_frame_id": {1, 4, 7}, "frame_to_show_map_idx": {0, 1, 7}}, profile: 2,
				cost: all("order_hint", "refresh_frame_flags", "current_frame_id", "frame_to_show_map_idx")}.scenario(),
			history{name: "six frames, departures", depth: 6, bound: 2, seq: ids(0, 0), kinds: hdr.Axis{kinds[0], kinds[3], kinds[2]}, priors: []int{1}, values: map[string][]int{"refresh_frame_flags": {1, 0x82}, "current_frame_id": {1, 4, 7}, "frame_to_show_map_idx": {0, 1, 7}}, profile: 2,
				cost: dev("order_hint", "refresh_frame_flags", "current_frame_id", "ref_order_hint")}.scenario(),
		)
	}
	r.Explore(scs...)
	r.Bound("every pair of frames (7 kinds incl. show_existing_frame, all 3-bit ids, 2-bit hints, 6 refresh masks, 2 prior states), every refresh mask, every length of ids and id windows with ids at their borders, up to %d departures over 4 frames; real reference update in between: %v", 2+deep, real)
	r.Finish()
}

func seq(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

// lengths explores ids around the borders of the window for every length of ids and window.
func (h history) lengths() mc.Scenario {
	return mc.Scenario{Name: h.name, Run: func(c *mc.Ch) *mc.Fail {
		delta, add := c.All(15), c.All(8)
		idLen := delta + add + 3
		if idLen > 16 {
			return nil
		}
		m := 1<<uint(idLen) - 1
		win := 1 << uint(delta+2)
		curs := []int{0, 1, win - 1, win, win + 1, m, m - 1, m / 2, 3*win + 2}
		cur := curs[c.All(len(curs))] & m
		w := hdr.W(c)
		over := gen.Merge(hdr.Small, map[string]int{"frame_id_numbers_present_flag": 1, "delta_frame_id_length_minus_2": delta, "additional_frame_id_length_minus_1": add, "film_grain_params_present": 0, "current_frame_id": cur},
			h.kinds[0])
		base := gen.With(hdr.Profile(2*c.All(2)), over)
		sg := &gen.Gen{C: c, Base: base, Cost: func(string, int) int { return 0 }}
		q := spec.ReadSeq(sg)
		sh, end, e := hdr.ParseSeq(c, &sg.W, 0, 0, 0, &w.S)
		if e != nil || end != sg.W.Pos || len(hdr.Seq(q, &sh, &w.S)) > 0 {
			return nil
		}
		st := hdr.Prior(1)
		ids := []int{cur, cur + 1, cur - 1, cur - win, cur - win - 1, cur - win + 1, 0, m}
		for i := range ids {
			st.RefFrameId[i] = ids[i] & m
		}
		st.CurrentFrameId = m / 3
		hdr.Apply(st, &w.S)
		fg := &gen.Gen{C: c, Base: func(name string, idx, n int) int {
			if name == "ref_order_hint" {
				return st.RefOrderHint[idx]
			}
			return base(name, idx, n)
		}, Cost: func(string, int) int { return 0 }}
		f := spec.ReadFrame(fg, q, 0, 0, st)
		return hdr.ParseFrame(c, q, &sh, f, &fg.W, 3, 0, 0, 0, 0, st, &w.S).Attribute("ref")
	}}
}
