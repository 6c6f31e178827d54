// C04: OBU headers.
package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

func main() {
	r := mc.Start()
	leads := []int{0, 0xff, 0x5a}
	r.Explore(mc.Scenario{Name: "every header and extension byte", Run: func(c *mc.Ch) *mc.Fail {
		off := c.All(8)
		lead := leads[c.All(len(leads))]
		tail := c.All(2)
		b0 := c.All(256)
		ext := (b0>>2)&1 == 1
		for b1 := 0; b1 < 256; b1++ {
			var w spec.Writer
			w.Put(8, b0)
			w.Put(8, b1)
			b := bitstream.BitStream{Data: spec.Shift(&w, off, lead, tail, 1), Position: off}
			var h header.Header
			if e := mc.Catch(func() { h = header.NewHeader(&b) }); e != nil {
				return mc.Failf("panic", "header %02x %02x at bit %d fails: %v", b0, b1, off, e)
			}
			want := header.Header{ForbiddenBit: b0>>7 == 1, Type: (b0 >> 3) & 15, ExtensionFlag: ext, HasSizeField: (b0>>1)&1 == 1, ReservedBit: b0&1 == 1}
			n := 8
			if ext {
				want.ExtensionHeader = header.ExtensionHeader{TemporalID: b1 >> 5, SpatialID: (b1 >> 3) & 3, Reserved3Bits: b1 & 7}
				n = 16
			}
			c.Inner++
			c.Steps++
			if h != want {
				return mc.Failf("value", "header %02x %02x at bit %d = %+v, want %+v", b0, b1, off, h, want)
			}
			if b.Position-off != n {
				return mc.Failf("bits consumed", "header %02x %02x at bit %d consumes %d bits, want %d", b0, b1, off, b.Position-off, n)
			}
		}
		c.Note("header byte %02x at bit %d behind %02x, every second byte, padded with %d", b0, off, lead, tail)
		return nil
	}})
	r.Bound("every first and second byte, 8 alignments, 3 leading patterns, 2 trailing patterns: the whole domain")
	r.Finish()
}
