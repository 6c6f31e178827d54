// C21: default distributions.
package main

import (
	"os"
	"reflect"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

type thread struct {
	s      state.State
	fields map[string]reflect.Value
}

func get(c *mc.Ch) *thread {
	if t, ok := c.Local["t"].(*thread); ok {
		return t
	}
	t := &thread{fields: map[string]reflect.Value{}}
	v := reflect.ValueOf(&t.s).Elem()
	for _, n := range hdr.CdfFields() {
		t.fields[n] = v.FieldByName(n)
	}
	c.Local["t"] = t
	return t
}

func main() {
	r := mc.Start()
	golden := hdr.LoadGolden(os.Args[3])
	names := hdr.CdfFields()
	compare := func(fields func(string) reflect.Value, q int, what string) *mc.Fail {
		for _, n := range names {
			want, ok := golden.Get(n, hdr.Context(q))
			if !ok {
				continue
			}
			f := fields(n)
			if !f.IsValid() {
				continue
			}
			if dims, same := hdr.Dims(f); !same || !reflect.DeepEqual(dims, want.Dims) {
				return mc.Failf("sizes of "+n, "%s %s at base_q_idx %d: sizes %v (the same everywhere: %v), want %v", what, n, q, dims, same, want.Dims)
			}
			if same, at := hdr.Same(f, want); !same {
				nums, _ := hdr.Flat(f)
				got := interface{}("missing")
				if at < len(nums) {
					got = nums[at]
				}
				w := interface{}("nothing")
				if at < len(want.Nums) {
					w = want.Nums[at]
				}
				return mc.Failf(n, "%s %s at base_q_idx %d: number %d is %v, want %v", what, n, q, at, got, w)
			}
		}
		return nil
	}
	run := func(c *mc.Ch, kind map[string]int, prof, q, before int, inTile bool) *mc.Fail {
		t := get(c)
		over := gen.Merge(hdr.Small, kind, map[string]int{"base_q_idx": q, "max_frame_width_minus_1": 7, "max_frame_height_minus_1": 7, "frame_width_minus_1": 7, "frame_height_minus_1": 7})
		base := gen.With(hdr.Profile(prof), over)
		zero := func(string, int) int { return 0 }
		sg := &gen.Gen{C: c, Base: base, Cost: zero}
		sq := spec.ReadSeq(sg)
		sh, end, e := hdr.ParseSeq(c, &sg.W, 0, 0, 0, &t.s)
		if e != nil || end != sg.W.Pos {
			return nil
		}
		// what an earlier frame left
		for _, n := range names {
			f := t.fields[n]
			switch before {
			case 0:
				f.Set(reflect.Zero(f.Type()))
			case 1:
				f.Set(junk(f.Type()))
			}
		}
		st := hdr.Prior(before)
		hdr.Apply(st, &t.s)
		fg := &gen.Gen{C: c, Base: base, Cost: zero}
		f := spec.ReadFrame(fg, sq, 0, 0, st)
		res := hdr.ParseFrame(c, sq, &sh, f, &fg.W, 0, 0, 0, 0, 0, st, &t.s)
		if res.Panic != nil || res.U.BaseQIdx != q {
			return nil // the header is not understood
		}
		if f := compare(func(n string) reflect.Value { return t.fields[n] }, q, "a fresh frame has the wrong"); f != nil {
			return f
		}
		if inTile && tile != nil {
			c.Steps++
			tile(&t.s)
			v := reflect.ValueOf(&t.s).Elem()
			if f := compare(func(n string) reflect.Value { return v.FieldByName("Tile" + n) }, q, "a tile of a fresh frame has the wrong"); f != nil {
				return f
			}
			if same, at := hdr.Same(reflect.ValueOf(t.s.TileIntraFrameYModeCdf), golden["IntraFrameYModeCdf"][0]); !same {
				return mc.Failf("IntraFrameYModeCdf", "number %d of the intra frame y mode distributions of a tile is wrong", at)
			}
		}
		return nil
	}
	step := 3
	if r.Thorough() {
		step = 1
	}
	scs := []mc.Scenario{
		{Name: "every quantizer index", Run: func(c *mc.Ch) *mc.Fail {
			q, kind, before := c.All(256), c.All(len(hdr.Kinds)), c.All(2)
			c.Note("base_q_idx %d, frame kind %v, distributions before: %d", q, hdr.Kinds[kind], before)
			return run(c, hdr.Kinds[kind], 2*(q%2), q, before, before == 1 && q%step == 0)
		}},
		{Name: "every pair of quantizer ranges", Run: func(c *mc.Ch) *mc.Fail {
			qs := []int{0, 20, 21, 60, 61, 120, 121, 255}
			k := c.All(len(hdr.Kinds))
			a, b := qs[c.All(8)], qs[c.All(8)]
			if f := run(c, hdr.Kinds[0], 0, a, 0, true); f != nil {
				return f
			}
			c.Note("base_q_idx %d, then %d", a, b)
			return run(c, hdr.Kinds[k], 0, b, 2, true)
		}},
		{Name: "validity of every distribution", Run: func(c *mc.Ch) *mc.Fail {
			ctx := c.All(4)
			if f := run(c, hdr.Kinds[0], 0, []int{10, 30, 100, 200}[ctx], 0, false); f != nil {
				return f
			}
			t := get(c)
			for _, n := range names {
				nums, ends := hdr.Flat(t.fields[n])
				from := 0
				if len(ends) == 0 {
					return mc.Failf("empty", "%s has no distributions", n)
				}
				for _, e := range ends {
					c.Inner++
					d := nums[from:e]
					from = e
					k := len(d) - 1
					bad := k < 2 || d[k] != 0 || d[k-1] != 32768 || d[0] <= 0
					for i := 1; i < k && !bad; i++ {
						bad = d[i] <= d[i-1] && d[i] != 32768
					}
					if bad {
						return mc.Failf("invalid "+n, "%s contains %v", n, d)
					}
				}
			}
			return nil
		}},
	}
	r.Explore(scs...)
	r.Bound("all 256 base quantizer indices x 7 frame kinds x 2 previous contents; every pair of range borders; all %d distribution arrays; tile entry: %v", len(golden), real)
	r.Assume("golden/cdfs.json.gz holds the tables of the AV1 specification: validated number by number against libaom 3.8.2 when it was made")
	r.Finish()
}

// junk is a distribution array of the right type and the wrong content.
func junk(t reflect.Type) reflect.Value {
	switch {
	case t.Kind() == reflect.Slice:
		v := reflect.MakeSlice(t, 2, 2)
		for i := 0; i < 2; i++ {
			v.Index(i).Set(junk(t.Elem()))
		}
		return v
	case t.Kind() == reflect.Array:
		v := reflect.New(t).Elem()
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(junk(t.Elem()))
		}
		return v
	}
	return reflect.ValueOf(77)
}
