// golden_dump writes the default tables of the working tree. It is a tool for the author: the tables it wrote
// were validated against the specification before they were committed, and no check runs it.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

func main() {
	g := hdr.Golden{}
	c := &mc.Ch{Local: map[string]interface{}{}}
	for ctx, qidx := range []int{10, 40, 90, 200} {
		s := &state.State{}
		over := gen.Merge(hdr.Small, hdr.Kinds[0], map[string]int{"base_q_idx": qidx})
		zero := func(string, int) int { return 0 }
		sg := &gen.Gen{C: c, Base: gen.With(gen.Zeros, over), Cost: zero}
		q := spec.ReadSeq(sg)
		sh, _, _ := hdr.ParseSeq(c, &sg.W, 0, 0, 0, s)
		st := hdr.Prior(0)
		fg := &gen.Gen{C: c, Base: gen.With(gen.Zeros, over), Cost: zero}
		spec.ReadFrame(fg, q, 0, 0, st)
		b := bitstream.BitStream{Data: spec.Shift(&fg.W, 0, 0, 0, 40)}
		uncompressedheader.NewUncompressedHeader(header.Header{Type: header.OBU_FRAME_HEADER}, sh, &b, s)
		v := reflect.ValueOf(s).Elem()
		for _, n := range hdr.CdfFields() {
			nums, ends := hdr.Flat(v.FieldByName(n))
			g[n] = append(g[n], hdr.Table{nums, ends, dims(v.FieldByName(n))})
		}
		_ = ctx
	}
	for n, t := range g {
		if reflect.DeepEqual(t[0], t[1]) && reflect.DeepEqual(t[0], t[2]) && reflect.DeepEqual(t[0], t[3]) {
			g[n] = t[:1]
		}
	}
	nums, ends := hdr.Flat(reflect.ValueOf(uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF))
	g["IntraFrameYModeCdf"] = []hdr.Table{{nums, ends, dims(reflect.ValueOf(uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF))}}
	b, _ := json.Marshal(g)
	os.Stdout.Write(b)
	fmt.Fprintln(os.Stderr, len(g), "tables")
}

func dims(v reflect.Value) []int {
	d, ok := hdr.Dims(v)
	if !ok {
		panic("a table with arrays of different sizes")
	}
	return d
}
