// C03: sequences of reads share one cursor.
package main

import (
	"bytes"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

type op struct {
	name string
	// model returns the value and the new position, or ok=false when the data ends first
	model func(d []byte, pos int) (v, next int, ok bool)
	impl  func(b *bitstream.BitStream) int
}

func field(n int, conv func(int) int, name string, impl func(b *bitstream.BitStream) int) op {
	return op{name, func(d []byte, pos int) (int, int, bool) {
		if pos+n > 8*len(d) {
			return 0, 0, false
		}
		return conv(spec.Bits(d, pos, n)), pos + n, true
	}, impl}
}

func id(v int) int { return v }

// via runs a decoder of the model over the data.
func via(name string, f func(r *spec.Reader) int, impl func(b *bitstream.BitStream) int) op {
	return op{name, func(d []byte, pos int) (v, next int, ok bool) {
		r := &spec.Reader{B: d, P: pos}
		if mc.Catch(func() { v = f(r) }) != nil {
			return 0, 0, false
		}
		return v, r.P, true
	}, impl}
}

var ops = []op{
	field(1, id, "f(1)", func(b *bitstream.BitStream) int { return b.F(1) }),
	field(3, id, "f(3)", func(b *bitstream.BitStream) int { return b.F(3) }),
	field(8, id, "f(8)", func(b *bitstream.BitStream) int { return b.F(8) }),
	field(13, id, "f(13)", func(b *bitstream.BitStream) int { return b.F(13) }),
	field(0, id, "f(0)", func(b *bitstream.BitStream) int { return b.F(0) }),
	{"byte_alignment", func(d []byte, pos int) (int, int, bool) { return 0, (pos + 7) &^ 7, true },
		func(b *bitstream.BitStream) int { b.ByteAlignment(); return 0 }},
	field(1, func(int) int { return 0 }, "trailing_bits(1)", func(b *bitstream.BitStream) int { b.TrailingBits(1); return 0 }),
	field(2, func(int) int { return 0 }, "trailing_bits(2)", func(b *bitstream.BitStream) int { b.TrailingBits(2); return 0 }),
	field(8, func(int) int { return 0 }, "trailing_bits(8)", func(b *bitstream.BitStream) int { b.TrailingBits(8); return 0 }),
	field(19, func(int) int { return 0 }, "trailing_bits(19)", func(b *bitstream.BitStream) int { b.TrailingBits(19); return 0 }),
	via("uvlc", func(r *spec.Reader) int { return r.Uvlc("") }, func(b *bitstream.BitStream) int { return b.Uvlc() }),
	via("leb128", func(r *spec.Reader) int {
		v := 0
		for i := 0; i < 8; i++ {
			x := r.F(8, "", 0)
			v |= (x & 0x7f) << uint(7*i)
			if x < 128 {
				break
			}
		}
		return v
	}, func(b *bitstream.BitStream) int { return b.Leb128() }),
	via("su(7)", func(r *spec.Reader) int { return spec.Su(r, 7, "", 0) }, func(b *bitstream.BitStream) int { return b.Su(7) }),
	via("ns(5)", func(r *spec.Reader) int { return spec.Ns(r, 5, "", 0) }, func(b *bitstream.BitStream) int { return b.Ns(5) }),
	via("le(2)", func(r *spec.Reader) int { x := r.F(8, "", 0); return x + r.F(8, "", 0)<<8 }, func(b *bitstream.BitStream) int { return b.Le(2) }),
}

var datas = [][]byte{
	{0xa5, 0x3c, 0x96, 0x0f, 0xe1, 0x78, 0xd2},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0x00, 0x01, 0x00, 0x00, 0x80, 0x00, 0x00},
	{0x11, 0x22},
	{0x49, 0x92, 0x24},
	{},
}

func main() {
	r := mc.Start()
	depth := 4
	if r.Thorough() {
		depth = 6
	}
	r.Explore(mc.Scenario{Name: "operation sequences", Run: func(c *mc.Ch) *mc.Fail {
		d := datas[c.All(len(datas))]
		keep := append([]byte{}, d...)
		b := bitstream.NewBitStream(append([]byte{}, d...))
		pos := 0
		if b.Position != 0 || !bytes.Equal(b.Data, d) {
			return mc.Failf("new", "a new reader of % x stands at %d", d, b.Position)
		}
		more := func() *mc.Fail {
			if got, want := b.MoreDataInBistream(), pos < 8*len(d); got != want {
				return mc.Failf("more data", "at bit %d of %d, more data = %v", pos, 8*len(d), got)
			}
			return nil
		}
		if f := more(); f != nil {
			return f
		}
		c.Note("data % x", d)
		for i := 0; i < depth; i++ {
			k := c.All(len(ops) + 1)
			if k == 0 {
				return nil
			}
			o := ops[k-1]
			want, next, ok := o.model(d, pos)
			if !ok {
				c.Note("%s does not fit at bit %d", o.name, pos)
				return nil
			}
			c.Steps++
			got := o.impl(&b)
			c.Note("%s at bit %d = %d, cursor %d", o.name, pos, got, b.Position)
			if got != want {
				return mc.Failf(o.name+" value", "%s at bit %d of % x = %d, want %d", o.name, pos, d, got, want)
			}
			if b.Position != next {
				return mc.Failf(o.name+" cursor", "%s at bit %d of % x moves to %d, want %d", o.name, pos, d, b.Position, next)
			}
			fresh := bitstream.BitStream{Data: append([]byte{}, d...), Position: pos}
			if g2 := o.impl(&fresh); g2 != got || fresh.Position != b.Position {
				return mc.Failf(o.name+" history", "%s at bit %d of % x depends on the reads before it", o.name, pos, d)
			}
			if !bytes.Equal(b.Data, keep) {
				return mc.Failf(o.name+" buffer", "%s changes the data", o.name)
			}
			pos = next
			if f := more(); f != nil {
				return f
			}
		}
		return nil
	}})
	r.Bound("all sequences of up to %d of %d operations over %d buffers of 0 to 7 bytes", depth, len(ops), len(datas))
	r.Finish()
}
