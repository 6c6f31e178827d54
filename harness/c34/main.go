// C34: end-of-frame probabilities come only from the context update tile.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
	"github.com/m4tthewde/gov1/internal/zzverif/tg"
	"go.uber.org/zap"
)

type thread struct {
	s           state.State
	frame, tile *hdr.Set
	loose       *hdr.Set   // of the tile's, those the frame has no counterpart of
	looseStart  hdr.Values // what they start a frame with, if known
	looseLeft   map[int]hdr.Values
	adapt       int // tiles that adapt
	start       hdr.Values
	left        map[int]hdr.Values
	fail        *mc.Fail
	ends        int
	atEnd       func()
	log         string
}

// leaf is a distribution of the tile's that symbols are read with.
func (t *thread) leaf(name string) []int {
	v := t.tile.Field(name)
	for v.IsValid() && (v.Kind() == reflect.Slice || v.Kind() == reflect.Array) && v.Len() > 0 {
		if l, ok := v.Interface().([]int); ok {
			return l
		}
		v = v.Index(v.Len() - 1)
	}
	return nil
}

func get(c *mc.Ch) *thread {
	if t, ok := c.Local["c34"].(*thread); ok {
		return t
	}
	t := &thread{}
	v := reflect.ValueOf(&t.s).Elem()
	names := hdr.CdfFields()
	t.frame, t.tile = hdr.NewSet(v, "", names), hdr.NewSet(v, "Tile", names)
	t.loose = hdr.NewSet(v, "Tile", loose(names))
	tg.Watch(&t.s, &tg.Stand{
		Tile: func(e tg.Env) {
			n := e.S.TileNum
			if t.fail != nil {
				return
			}
			if f, at, got, exp := t.tile.Differs(t.start, true); f != "" {
				t.fail = mc.Failf("start "+f, "tile %d starts with %s: number %d is %d, the frame's is %d (%s)", n, f, at, got, exp, t.log)
				return
			}
			if t.looseStart == nil {
				t.looseStart = t.loose.Read()
			} else if f, at, got, exp := t.loose.Differs(t.looseStart, true); f != "" {
				t.fail = mc.Failf("start "+f, "tile %d starts with %s: number %d is %d, want %d, as the frame before left it (%s)", n, f, at, got, exp, t.log)
				return
			}
			if t.adapt>>uint(n)&1 == 1 {
				if e.B != nil && e.UH != nil {
					for i := 0; i < 6 && e.S.SymbolMaxBits > 15; i++ {
						for _, name := range []string{"YModeCdf", "SkipCdf", "PartitionW8Cdf", "DeltaLFCdf", "CoeffBaseCdf"} {
							if l := t.leaf(name); len(l) > 2 {
								symbol.ReadSymbol(l, e.S, e.B, *e.UH)
							}
						}
					}
				}
				change := func(name string, l []int) {
					if len(l) > 1 {
						l[0] += n + 1
						l[len(l)-1] = (l[len(l)-1] + n + 1) % 33
					}
				}
				t.tile.Change(change)
				t.loose.Change(change)
			}
			t.left[n], t.looseLeft[n] = t.tile.Read(), t.loose.Read()
		},
		End: func(e tg.Env) { t.ends++; t.atEnd() },
	})
	c.Local["c34"] = t
	return t
}

// loose names the distributions a tile has and a frame does not.
func loose(names []string) (o []string) {
	of := map[string]bool{}
	for _, n := range names {
		of["Tile"+n] = true
	}
	t := reflect.TypeOf(state.State{})
	for i := 0; i < t.NumField(); i++ {
		if n := t.Field(i).Name; strings.HasPrefix(n, "Tile") && strings.HasSuffix(n, "Cdf") && !of[n] {
			o = append(o, n[4:])
		}
	}
	return
}

// small makes a distribution array of the type, holding numbers of its own.
func small(t reflect.Type, n *int) reflect.Value {
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Int {
			*n++
			return reflect.ValueOf([]int{*n%600*50 + 1, 32768, 0}).Convert(t)
		}
		v := reflect.New(t).Elem()
		l := 2
		if t.Kind() == reflect.Array {
			l = t.Len()
		} else {
			v = reflect.MakeSlice(t, l, l)
		}
		for i := 0; i < l; i++ {
			v.Index(i).Set(small(t.Elem(), n))
		}
		return v
	}
	return reflect.Zero(t)
}

func tiny(c *mc.Ch, t *thread) bool {
	n := 0
	for _, name := range t.frame.Names {
		t.frame.Field(name).Set(small(t.frame.Field(name).Type(), &n))
	}
	return true
}

// defaults come out of a frame header.
func defaults(c *mc.Ch, t *thread) bool {
	over := gen.Merge(hdr.Small, hdr.Kinds[0], map[string]int{"base_q_idx": 90, "max_frame_width_minus_1": 7, "max_frame_height_minus_1": 7, "frame_width_minus_1": 7, "frame_height_minus_1": 7})
	base := gen.With(gen.Zeros, over)
	zero := func(string, int) int { return 0 }
	sg := &gen.Gen{C: c, Base: base, Cost: zero}
	q := spec.ReadSeq(sg)
	sh, end, e := hdr.ParseSeq(c, &sg.W, 0, 0, 0, &t.s)
	if e != nil || end != sg.W.Pos {
		return false
	}
	st := hdr.Prior(0)
	hdr.Apply(st, &t.s)
	fg := &gen.Gen{C: c, Base: base, Cost: zero}
	f := spec.ReadFrame(fg, q, 0, 0, st)
	res := hdr.ParseFrame(c, q, &sh, f, &fg.W, 0, 0, 0, 0, 0, st, &t.s)
	return res.Panic == nil && res.U.BaseQIdx == f.BaseQ
}

// group writes a tile group.
func group(first, last, n, bits, k int) []byte {
	var w spec.Writer
	if n > 1 {
		coded := 1
		if first == 0 && last == n-1 {
			coded = k & 1
		}
		w.Put(1, coded)
		if coded == 1 {
			w.Put(bits, first)
			w.Put(bits, last)
		}
		for w.Pos%8 != 0 {
			w.Put(1, 0)
		}
	}
	for t := first; t <= last; t++ {
		sz := 20 + 3*t
		if t < last {
			w.Put(8, sz-1)
		}
		for i := 0; i < sz; i++ {
			w.Put(8, (t*89+i*37+19*k)*(i+t+3)^i>>3)
		}
	}
	return w.B
}

func log2(n int) int {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	return k
}

func frames(name string, shapes [][2]int, count int, fresh func(c *mc.Ch, t *thread) bool) mc.Scenario {
	return mc.Scenario{Name: name, Run: func(c *mc.Ch) *mc.Fail {
		t := get(c)
		s := &t.s
		for _, set := range []*hdr.Set{t.frame, t.tile, hdr.NewSet(reflect.ValueOf(s).Elem(), "Saved", t.frame.Names)} {
			for _, n := range set.Names {
				set.Field(n).Set(reflect.Zero(set.Field(n).Type()))
			}
		}
		t.fail, t.log = nil, ""
		if !fresh(c, t) {
			return nil
		}
		sh := shapes[c.All(len(shapes))]
		n := sh[0] * sh[1]
		kept := t.frame.Read()
		t.looseStart = nil
		for k := 0; k < count; k++ {
			// where the probabilities of the frame come from
			if k > 0 {
				switch c.All(3) {
				case 0:
					t.log += "; the next frame goes on with them"
				case 1:
					t.log += "; the next frame starts afresh"
					t.looseStart = nil
					if !fresh(c, t) {
						return nil
					}
				case 2:
					t.log += "; a later frame loads them"
					uncompressedheader.SaveCdfs(3, s)
					if !fresh(c, t) {
						return nil
					}
					uncompressedheader.LoadCdfs(3, s)
				}
				kept = t.frame.Read()
			}
			s.TileCols, s.TileRows, s.TileColsLog2, s.TileRowsLog2, s.TileSizeBytes = sh[0], sh[1], log2(sh[0]), log2(sh[1]), 1
			s.MiColStarts, s.MiRowStarts = nil, nil
			for i := 0; i <= sh[0]; i++ {
				s.MiColStarts = append(s.MiColStarts, 16*i)
			}
			for i := 0; i <= sh[1]; i++ {
				s.MiRowStarts = append(s.MiRowStarts, 16*i)
			}
			s.SeenFrameHeader = true
			uh := uncompressedheader.UncompressedHeader{BaseQIdx: 90}
			designated := c.All(n)
			uh.TileInfo.ContextUpdateTileId = designated
			uh.DisableFrameEndUpdateCdf = c.All(2) == 1
			cuts := (1 << uint(n-1)) - 1
			if k == 0 {
				t.adapt = c.All(1 << uint(n))
				cuts = c.All(1 << uint(n-1))
			} else {
				t.adapt = 1<<uint(n) - 1
				cuts &= 5 * c.All(2)
			}
			t.start, t.left, t.ends = kept, map[int]hdr.Values{}, 0
			t.looseLeft = map[int]hdr.Values{}
			t.log += fmt.Sprintf("frame of %d tiles, divided by %b, update from %d (disabled: %v), tiles %b adapt", n, cuts, designated, uh.DisableFrameEndUpdateCdf, t.adapt)
			var ended *mc.Fail
			t.atEnd = func() {
				want, whose := t.start, "those the frame started with"
				if !uh.DisableFrameEndUpdateCdf {
					want, whose = t.left[designated], "those of the context update tile"
				}
				if want == nil {
					return
				}
				if f, at, got, exp := t.frame.Differs(want, true); f != "" {
					ended = mc.Failf("end "+f, "the frame ends with %s: number %d is %d, %s have %d (%s)", f, at, got, whose, exp, t.log)
				}
			}
			first := 0
			for i := 0; i < n; i++ {
				if i < n-1 && cuts>>uint(i)&1 == 0 {
					continue
				}
				data := group(first, i, n, s.TileColsLog2+s.TileRowsLog2, k)
				b := &bitstream.BitStream{Data: append(data, make([]byte, 20)...)}
				c.Steps++
				e := mc.Catch(func() { tilegroup.NewTileGroup(len(data), b, s, uh, sequenceheader.SequenceHeader{}) })
				if t.fail != nil {
					return t.fail
				}
				if ended != nil {
					return ended
				}
				if e != nil {
					return mc.Failf("panic", "a tile group fails: %v (%s)", e, t.log)
				}
				first = i + 1
				if i < n-1 {
					// nothing has ended
					if f, at, got, exp := t.frame.Differs(t.start, true); f != "" {
						return mc.Failf("amid "+f, "between two tile groups, the frame's %s: number %d is %d, was %d (%s)", f, at, got, exp, t.log)
					}
				}
			}
			if t.ends != 1 {
				return nil // C33's business
			}
			// after it as well
			t.atEnd()
			if ended != nil {
				return ended
			}
			kept = t.frame.Read()
			if !uh.DisableFrameEndUpdateCdf {
				t.looseStart = t.looseLeft[designated]
			}
		}
		c.Note("%s", t.log)
		return nil
	}}
}

func main() {
	r := mc.Start()
	logger.Logger = zap.NewNop()
	r.Assume("the decoding of a tile's blocks is replaced with reading symbols and changing every distribution of the tile; the filters and output at the end of a frame with a comparison")
	r.Assume("the counts in the distributions may be cleared at the end of a frame or not")
	if !tg.Real() {
		r.Assume("the functions to replace were not found: nothing was explored")
		r.Finish()
	}
	shapes := [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 1}, {2, 2}}
	n := 2
	if r.Thorough() {
		shapes = append(shapes, [2]int{4, 1}, [2]int{1, 4}, [2]int{3, 2}, [2]int{5, 1})
		n = 3
	}
	r.Explore(
		frames("small distributions", shapes, n, tiny),
		frames("all distributions", [][2]int{{1, 1}, {2, 1}, {1, 3}}, 2, defaults),
	)
	r.Bound("histories of %d frames, of up to 4 tiles (6 in the thorough tier): every context update tile, update on and off, every subset of adapting tiles and division into tile groups of the first frame; the later ones go on from it, load it or start afresh", n)
	r.Finish()
}
