// C01: fixed-width reads.
package main

import (
	"bytes"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

var patterns = [][]byte{
	{0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0xa5, 0x3c, 0x96, 0x0f, 0xe1, 0x78, 0xd2, 0x4b, 0x87},
	{0x01, 0x80, 0x01, 0x80, 0x01, 0x80, 0x01, 0x80, 0x01},
	{0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0, 0x0f},
	{0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55, 0x55},
	{0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10, 0xff},
}

func check(c *mc.Ch, data []byte, pos, n int) *mc.Fail {
	keep := append([]byte{}, data...)
	b := bitstream.BitStream{Data: data, Position: pos}
	want := spec.Bits(data, pos, n)
	c.Steps++
	var got int
	if e := mc.Catch(func() { got = b.F(n) }); e != nil {
		return mc.Failf("panic", "f(%d) at bit %d of % x fails: %v", n, pos, keep, e)
	}
	if got != want {
		return mc.Failf("value", "f(%d) at bit %d of % x = %d, want %d", n, pos, keep, got, want)
	}
	if b.Position != pos+n {
		return mc.Failf("cursor", "f(%d) at bit %d leaves the cursor at %d", n, pos, b.Position)
	}
	if !bytes.Equal(keep, b.Data) || !bytes.Equal(keep, data) {
		return mc.Failf("buffer", "f(%d) at bit %d changes the buffer % x to % x", n, pos, keep, data)
	}
	return nil
}

func main() {
	r := mc.Start()
	lens := 9
	scs := []mc.Scenario{
		{Name: "every offset and width, patterned buffers", Run: func(c *mc.Ch) *mc.Fail {
			p := patterns[c.All(len(patterns))]
			flip := c.All(8*lens + 1) // complement one bit
			data := append([]byte{}, p...)
			if flip > 0 {
				data[(flip-1)/8] ^= 0x80 >> uint((flip-1)%8)
			}
			pos := c.All(8*lens + 1)
			for n := 0; n <= 62 && pos+n <= 8*lens; n++ {
				c.Inner++
				if f := check(c, data, pos, n); f != nil {
					return f
				}
				// exactly the addressed bytes
				last := (pos + n + 7) / 8
				if f := check(c, append([]byte{}, data[:last]...), pos, n); f != nil {
					return f
				}
			}
			c.Note("buffer % x, bit %d, every width that fits", data, pos)
			return nil
		}},
		{Name: "every two-byte buffer", Run: func(c *mc.Ch) *mc.Fail {
			hi, lo := c.All(256), c.All(256)
			data := []byte{byte(hi), byte(lo)}
			for pos := 0; pos <= 16; pos++ {
				for n := 0; pos+n <= 16; n++ {
					c.Inner++
					if f := check(c, data, pos, n); f != nil {
						return f
					}
				}
			}
			c.Note("buffer % x, every position and width", data)
			return nil
		}},
	}
	top := 24
	if r.Thorough() {
		top = 28
	}
	big := make([]byte, 1<<uint(top-3)+64)
	for i := range big {
		big[i] = byte(i*0x9d + i>>8*0x35 + i>>16*0x6b + 0x17)
	}
	scs = append(scs, mc.Scenario{Name: "large offsets", Run: func(c *mc.Ch) *mc.Fail {
		k := 6 + c.All(top-6+1)
		d := c.All(141) - 70
		pos := 1<<uint(k) + d
		for _, n := range []int{1, 2, 7, 8, 9, 13, 31, 32, 33, 55, 62} {
			if pos < 0 || pos+n > 8*len(big) {
				continue
			}
			c.Inner++
			c.Steps++
			b := bitstream.BitStream{Data: big, Position: pos}
			want := spec.Bits(big, pos, n)
			if got := b.F(n); got != want || b.Position != pos+n {
				return mc.Failf("large offset", "f(%d) at bit %d = %d, cursor %d, want %d, %d", n, pos, got, b.Position, want, pos+n)
			}
		}
		c.Note("bit 2^%d%+d of a %d byte buffer, 11 widths", k, d, len(big))
		return nil
	}})
	r.Explore(scs...)
	r.Bound("buffers of 9 bytes from %d patterns with every single bit complemented, every position 0..72, every width 0..62 that fits; all 65536 two-byte buffers; positions 2^k-70..2^k+70 for k up to %d", len(patterns), top)
	r.Assume("widths above 62 bits are not fields of the format")
	r.Finish()
}
