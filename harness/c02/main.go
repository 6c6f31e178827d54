// C02: variable-length, signed and non-symmetric codes.
package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// run decodes one code word placed at bit `off` of a buffer, and then the field behind it.
func run(c *mc.Ch, what string, off, lead int, w *spec.Writer, want int, f func(b *bitstream.BitStream) int) *mc.Fail {
	for _, sentinel := range []int{0, 0x1f, 0x15} {
		var w2 spec.Writer
		w2.B, w2.Pos = append([]byte{}, w.B...), w.Pos
		w2.Put(5, sentinel)
		data := spec.Shift(&w2, off, lead, sentinel&1, 2)
		b := bitstream.BitStream{Data: data, Position: off, Leb128Bytes: 5}
		c.Steps++
		c.Inner++
		var got, next int
		if e := mc.Catch(func() { got = f(&b) }); e != nil {
			return mc.Failf(what+" panic", "%s at bit %d of % x fails: %v", what, off, data, e)
		}
		if got != want {
			return mc.Failf(what+" value", "%s at bit %d of % x = %d, want %d", what, off, data, got, want)
		}
		if b.Position != off+w.Pos {
			return mc.Failf(what+" cursor", "%s at bit %d of % x ends at bit %d, want %d", what, off, data, b.Position, off+w.Pos)
		}
		if next = b.F(5); next != sentinel {
			return mc.Failf(what+" next", "the field after %s at bit %d of % x = %d, want %d", what, off, data, next, sentinel)
		}
	}
	return nil
}

func fill(n int) []int {
	if n == 0 {
		return []int{0}
	}
	m := 1<<uint(n) - 1
	o := []int{}
	for _, v := range []int{0, m, 1, m - 1, m >> 1, m>>1 + 1, 0x2D5A6E93C1B7 & m, 0x52A5916C3E48 & m} {
		if v < 0 || v > m {
			continue
		}
		dup := false
		for _, x := range o {
			dup = dup || x == v
		}
		if !dup {
			o = append(o, v)
		}
	}
	return o
}

func main() {
	r := mc.Start()
	nsTop, exact := 260, 10
	if r.Thorough() {
		nsTop, exact = 1100, 14
	}
	leads := []int{0, 0xff, 0x5a}
	at := func(c *mc.Ch) (int, int) { return c.All(8), leads[c.All(len(leads))] }
	scs := []mc.Scenario{
		{Name: "uvlc", Run: func(c *mc.Ch) *mc.Fail {
			off, lead := at(c)
			z := c.All(41)
			vals := fill(z)
			if z <= exact {
				vals = vals[:0]
				for v := 0; v < 1<<uint(z); v++ {
					vals = append(vals, v)
				}
			}
			if z >= 32 {
				vals = []int{0}
			}
			for _, v := range vals {
				var w spec.Writer
				w.Put(z, 0)
				w.Put(1, 1)
				want := 1<<32 - 1
				if z < 32 {
					w.Put(z, v)
					want = v + 1<<uint(z) - 1
				}
				if f := run(c, "uvlc", off, lead, &w, want, func(b *bitstream.BitStream) int { return b.Uvlc() }); f != nil {
					return f
				}
			}
			c.Note("uvlc with %d leading zeros at bit %d, %d values", z, off, len(vals))
			return nil
		}},
		{Name: "leb128, first two bytes exhaustive", Run: func(c *mc.Ch) *mc.Fail {
			off, lead := at(c)
			b0 := c.All(256)
			for b1 := 0; b1 < 256; b1++ {
				var w spec.Writer
				w.Put(8, b0)
				want, n := b0&0x7f, 1
				if b0 >= 128 {
					w.Put(8, b1)
					want |= (b1 & 0x7f) << 7
					n = 2
					if b1 >= 128 {
						w.Put(8, 0x25)
						want |= 0x25 << 14
						n = 3
					}
				}
				if f := leb(c, off, lead, &w, want, n); f != nil {
					return f
				}
				if b0 < 128 {
					break
				}
			}
			c.Note("leb128 starting with %#x at bit %d", b0, off)
			return nil
		}},
		{Name: "leb128, every length", Run: func(c *mc.Ch) *mc.Fail {
			off, lead := at(c)
			n := 1 + c.All(8)
			p := c.All(5)
			open := n == 8 && c.All(2) == 1
			var w spec.Writer
			want := 0
			for i := 0; i < n; i++ {
				v := []int{0, 0x7f, 0x55, 0x2a, (i*37 + 11) & 0x7f}[p]
				want |= v << uint(7*i)
				if i < n-1 || open {
					v |= 0x80
				}
				w.Put(8, v)
			}
			c.Note("leb128 of %d bytes at bit %d, last byte open %v: %d", n, off, open, want)
			return leb(c, off, lead, &w, want, n)
		}},
		{Name: "su", Run: func(c *mc.Ch) *mc.Fail {
			off, lead := at(c)
			n := 1 + c.All(40)
			vals := fill(n)
			if n <= exact {
				vals = vals[:0]
				for v := 0; v < 1<<uint(n); v++ {
					vals = append(vals, v)
				}
			}
			for _, v := range vals {
				var w spec.Writer
				w.Put(n, v)
				want := v
				if v >= 1<<uint(n-1) {
					want -= 1 << uint(n)
				}
				if f := run(c, "su", off, lead, &w, want, func(b *bitstream.BitStream) int { return b.Su(n) }); f != nil {
					return f
				}
			}
			c.Note("su(%d) at bit %d, %d values", n, off, len(vals))
			return nil
		}},
		{Name: "ns, every value", Run: func(c *mc.Ch) *mc.Fail {
			off := c.All(8)
			n := 1 + c.All(nsTop)
			for v := 0; v < n; v++ {
				if f := ns(c, off, 0xff, n, v); f != nil {
					return f
				}
			}
			c.Note("ns(%d) at bit %d, every value", n, off)
			return nil
		}},
		{Name: "ns, large", Run: func(c *mc.Ch) *mc.Fail {
			off, lead := at(c)
			k := 8 + c.All(20)
			d := c.All(5) - 2
			n := 1<<uint(k) + d
			if d == 2 {
				n = 1<<uint(k) + 1<<uint(k-1) + 3
			}
			w := spec.FloorLog2(n) + 1
			m := 1<<uint(w) - n
			for _, v := range []int{0, 1, m - 2, m - 1, m, m + 1, m + 2, m + 3, n / 2, n - 3, n - 2, n - 1} {
				if v < 0 || v >= n {
					continue
				}
				if f := ns(c, off, lead, n, v); f != nil {
					return f
				}
			}
			c.Note("ns(%d) at bit %d, values around the boundary", n, off)
			return nil
		}},
		{Name: "le", Run: func(c *mc.Ch) *mc.Fail {
			off, lead := at(c)
			n := 1 + c.All(7)
			a := c.All(256)
			for b := 0; b < 256; b++ {
				var w spec.Writer
				want := 0
				for i := 0; i < n; i++ {
					v := []int{a, b, (a ^ 0xff), (b * 5) & 255, 0x80, 0x7f, 0x33}[i]
					w.Put(8, v)
					want += v << uint(8*i)
				}
				if f := run(c, "le", off, lead, &w, want, func(b *bitstream.BitStream) int { return b.Le(n) }); f != nil {
					return f
				}
				if n == 1 {
					break
				}
			}
			c.Note("le(%d) at bit %d, first byte %#x, every second byte", n, off, a)
			return nil
		}},
	}
	r.Explore(scs...)
	r.Bound("8 alignments x 3 leading patterns x 3 following patterns; uvlc 0..40 leading zeros (all values up to %d bits); leb128 1..8 bytes with the first two exhaustive; su 1..40 bits (all values up to %d); ns(1..%d) all values and ns up to 2^27 around the boundary; le 1..7 bytes", exact, exact, nsTop)
	r.Finish()
}

func leb(c *mc.Ch, off, lead int, w *spec.Writer, want, n int) *mc.Fail {
	bytes := 0
	f := run(c, "leb128", off, lead, w, want, func(b *bitstream.BitStream) int {
		v := b.Leb128()
		bytes = b.Leb128Bytes
		return v
	})
	if f == nil && bytes != n {
		f = mc.Failf("leb128 bytes", "leb128 of %d bytes at bit %d reports %d bytes", n, off, bytes)
	}
	return f
}

func ns(c *mc.Ch, off, lead, n, v int) *mc.Fail {
	// 4.10.7, from the encoder's side
	var w spec.Writer
	k := spec.FloorLog2(n) + 1
	m := 1<<uint(k) - n
	if v < m {
		w.Put(k-1, v)
	} else {
		w.Put(k-1, (v+m)>>1)
		w.Put(1, (v+m)&1)
	}
	return run(c, "ns", off, lead, &w, v, func(b *bitstream.BitStream) int { return b.Ns(n) })
}
