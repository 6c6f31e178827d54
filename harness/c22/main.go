// C22: probability contexts never leak into each other.
package main

import (
	"fmt"
	"reflect"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

const slots = 8

type thread struct {
	s                  state.State
	frame, tile, saved *hdr.Set
	mem                [slots]*hdr.Set
	tiles              *tiles
	// default tables of the small family
	defaults [2]map[string]reflect.Value
}

func get(c *mc.Ch) *thread {
	if t, ok := c.Local["t"].(*thread); ok {
		return t
	}
	t := &thread{tiles: newTiles()}
	v := reflect.ValueOf(&t.s).Elem()
	names := hdr.CdfFields()
	t.frame, t.tile, t.saved = hdr.NewSet(v, "", names), hdr.NewSet(v, "Tile", names), hdr.NewSet(v, "Saved", names)
	for i := range t.mem {
		t.mem[i] = hdr.NewSet(v.FieldByName("Memory").Index(i), "", names)
	}
	c.Local["t"] = t
	return t
}

// small makes a distribution array of the type, holding numbers of its own.
func small(t reflect.Type, n *int) reflect.Value {
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Int {
			*n += 1
			return reflect.ValueOf([]int{*n*50 + 1, 32768, 0}).Convert(t)
		}
		v := reflect.New(t).Elem()
		k := t.Len
		l := 2
		if t.Kind() == reflect.Array {
			l = k()
		} else {
			v = reflect.MakeSlice(t, l, l)
		}
		for i := 0; i < l; i++ {
			v.Index(i).Set(small(t.Elem(), n))
		}
		return v
	}
	return reflect.Zero(t)
}

type model struct {
	frame, tile, saved hdr.Values
	mem                [slots]hdr.Values
	reset              bool // counts of the frame may have been cleared
	exited             bool
}

// ops, in the order of the menu.
const (
	fresh0 = iota
	fresh1
	save
	load
	enter
	adapt
	exitUpdate
	exitOther
	end
)

func (t *thread) check(m *model, what string) *mc.Fail {
	for _, x := range []struct {
		name  string
		set   *hdr.Set
		want  hdr.Values
		reset bool
	}{{"the frame's", t.frame, m.frame, m.reset}, {"the tile's", t.tile, m.tile, false}, {"the saved", t.saved, m.saved, false}} {
		if x.want == nil {
			continue
		}
		if n, at, got, exp := x.set.Differs(x.want, x.reset); n != "" {
			return mc.Failf(x.name+" "+n, "after %s, %s %s: number %d is %d, want %d", what, x.name, n, at, got, exp)
		}
	}
	for i := range m.mem {
		if m.mem[i] == nil {
			continue
		}
		if n, at, got, exp := t.mem[i].Differs(m.mem[i], false); n != "" {
			return mc.Failf("a slot's "+n, "after %s, slot %d's %s: number %d is %d, want %d", what, i, n, at, got, exp)
		}
	}
	return nil
}

type family struct {
	fresh func(c *mc.Ch, t *thread, k int) (hdr.Values, bool)
	check func(t *thread) string // the defaults
}

// history explores every sequence of operations.
func history(name string, depth int, use []int, f family) mc.Scenario {
	return mc.Scenario{Name: name, Run: func(c *mc.Ch) *mc.Fail {
		t := get(c)
		for _, set := range append([]*hdr.Set{t.frame, t.tile, t.saved}, t.mem[:]...) {
			for _, n := range set.Names {
				set.Field(n).Set(reflect.Zero(set.Field(n).Type()))
			}
		}
		t.defaults = [2]map[string]reflect.Value{}
		m := &model{}
		v, ok := f.fresh(c, t, 0)
		if !ok {
			return nil
		}
		m.frame = v
		log := "a fresh frame"
		for i := 0; i < depth; i++ {
			type op struct{ kind, arg int }
			menu := []op{{fresh0, 0}, {fresh1, 1}}
			for _, s := range use {
				menu = append(menu, op{save, s})
				if m.mem[s] != nil {
					menu = append(menu, op{load, s})
				}
			}
			if real {
				menu = append(menu, op{enter, 0})
				if m.tile != nil && !m.exited {
					menu = append(menu, op{adapt, 0}, op{exitUpdate, 0}, op{exitOther, 0})
				}
				if m.saved != nil {
					menu = append(menu, op{end, 0})
				}
			} else {
				menu = append(menu, op{adapt, 0})
			}
			o := menu[c.All(len(menu))]
			c.Steps++
			var what string
			e := mc.Catch(func() {
				switch o.kind {
				case fresh0, fresh1:
					what = "a fresh frame"
					v, ok = f.fresh(c, t, o.arg)
					m.frame, m.reset = v, false
				case save:
					what = fmt.Sprintf("saving to slot %d", o.arg)
					uncompressedheader.SaveCdfs(o.arg, &t.s)
					m.mem[o.arg] = m.frame
					if m.reset {
						m.mem[o.arg] = t.frame.Read()
					}
				case load:
					what = fmt.Sprintf("loading slot %d", o.arg)
					uncompressedheader.LoadCdfs(o.arg, &t.s)
					m.frame, m.reset = m.mem[o.arg], false
				case enter:
					what = "entering a tile"
					if m.reset {
						m.frame, m.reset = t.frame.Read(), false
					}
					t.tiles.enter(&t.s)
					m.tile, m.exited = m.frame, false
				case adapt:
					what = "adapting"
					set := t.tile
					if !real {
						// without the internal seam: a tile that works on copies of its own
						break
					}
					set.Change(func(name string, l []int) {
						if len(l) > 1 {
							l[0] += i + 1
							l[len(l)-1]++
						}
					})
					m.tile = set.Read()
				case exitUpdate, exitOther:
					what = "leaving the context update tile"
					if o.kind == exitOther {
						what = "leaving another tile"
					}
					t.tiles.exit(&t.s, o.kind == exitUpdate)
					if o.kind == exitUpdate {
						m.saved = m.tile
					}
					m.exited = true
				case end:
					what = "the end of the frame"
					t.tiles.frameEnd(&t.s)
					m.frame, m.reset = m.saved, true
				}
			})
			log += ", " + what
			if e != nil {
				return mc.Failf("panic", "%s fails: %v (%s)", what, e, log)
			}
			if !ok {
				return nil
			}
			if fl := t.check(m, log); fl != nil {
				return fl
			}
			if s := f.check(t); s != "" {
				return mc.Failf("a default", "after %s, a default distribution is changed: %s", log, s)
			}
		}
		c.Note("%s", log)
		return nil
	}}
}

func main() {
	r := mc.Start()
	tiny := family{
		fresh: func(c *mc.Ch, t *thread, k int) (hdr.Values, bool) {
			if t.defaults[k] == nil {
				t.defaults[k] = map[string]reflect.Value{}
				n := 300 * k
				for _, name := range t.frame.Names {
					t.defaults[k][name] = small(t.frame.Field(name).Type(), &n)
				}
			}
			for _, name := range t.frame.Names {
				t.frame.Field(name).Set(t.defaults[k][name])
			}
			v, _ := c.Local[fmt.Sprint("fresh", k)].(hdr.Values)
			if v == nil {
				v = t.frame.Read()
				c.Local[fmt.Sprint("fresh", k)] = v
			}
			return v, true
		},
		check: func(t *thread) string { return "" },
	}
	full := family{
		fresh: func(c *mc.Ch, t *thread, k int) (hdr.Values, bool) {
			over := gen.Merge(hdr.Small, hdr.Kinds[0], map[string]int{"base_q_idx": 15 + 100*k, "max_frame_width_minus_1": 7, "max_frame_height_minus_1": 7, "frame_width_minus_1": 7, "frame_height_minus_1": 7})
			base := gen.With(gen.Zeros, over)
			zero := func(string, int) int { return 0 }
			sg := &gen.Gen{C: c, Base: base, Cost: zero}
			q := spec.ReadSeq(sg)
			sh, end, e := hdr.ParseSeq(c, &sg.W, 0, 0, 0, &t.s)
			if e != nil || end != sg.W.Pos {
				return nil, false
			}
			st := hdr.Prior(0)
			hdr.Apply(st, &t.s)
			fg := &gen.Gen{C: c, Base: base, Cost: zero}
			f := spec.ReadFrame(fg, q, 0, 0, st)
			res := hdr.ParseFrame(c, q, &sh, f, &fg.W, 0, 0, 0, 0, 0, st, &t.s)
			if res.Panic != nil || res.U.BaseQIdx != f.BaseQ {
				return nil, false
			}
			return first(k, t), true
		},
		check: func(t *thread) string { return "" },
	}
	// what the tables are before anything has happened
	boot := &mc.Ch{Local: map[string]interface{}{}}
	for k := 0; k < 2; k++ {
		mc.Catch(func() { full.fresh(boot, get(boot), k) })
	}
	depth := 5
	if r.Thorough() {
		depth = 6
	}
	r.Explore(
		history("every history, small distributions, slots 0 and 7", depth, []int{0, 7}, tiny),
		history("every history, small distributions, slot 3", depth+1, []int{3}, tiny),
		history("every history of headers with the full tables", depth-2, []int{1, 2}, full),
	)
	// every slot, for every syntax element
	r.Explore(mc.Scenario{Name: "all slots", Run: func(c *mc.Ch) *mc.Fail {
		t := get(c)
		var want [slots]hdr.Values
		for i := 0; i < slots; i++ {
			tiny.fresh(c, t, i%2)
			n := 1000 * (i + 1)
			for _, name := range t.frame.Names {
				t.frame.Field(name).Set(small(t.frame.Field(name).Type(), &n))
			}
			want[i] = t.frame.Read()
			c.Steps++
			uncompressedheader.SaveCdfs(i, &t.s)
		}
		for i := 0; i < slots; i++ {
			j := (i*3 + c.All(1)) % slots
			c.Steps++
			uncompressedheader.LoadCdfs(j, &t.s)
			if n, at, got, exp := t.frame.Differs(want[j], false); n != "" {
				return mc.Failf("slot "+n, "loading slot %d gives %s: number %d is %d, want %d", j, n, at, got, exp)
			}
		}
		return nil
	}})
	r.Bound("every history of %d operations out of fresh frame (2 quantizer ranges), save, load, tile entry, adaptation, exit of the update tile or another, frame end; all distributions of frame, tile, saved set and slots compared by value after each; real tile entry and exit: %v", depth, real)
	r.Finish()
}
