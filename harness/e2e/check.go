package e2e

import (
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

// Check decodes every recorded sequence of a kind.
func Check(root, kind string, configs []Config) {
	logger.Initialize()
	r := mc.Start()
	fams := Load(root, kind)
	heads := make([]*Headers, len(fams))
	for i, f := range fams {
		for k := range configs {
			if configs[k].Name == f.Name {
				heads[i] = configs[k].Build()
			}
		}
	}
	// starts of the recorded two-byte data, by first byte
	index := make([][257]int, len(fams))
	for i, f := range fams {
		n := 0
		for v := 0; v < 65536; v++ {
			if v&255 == 0 {
				index[i][v>>8] = n
			}
			n += int(f.Valid[v/8] >> uint(v&7) & 1)
		}
		index[i][256] = n
	}
	// starts of the recorded neighbours, by position
	near := make([][][]int, len(fams))
	places := 0
	for i, f := range fams {
		for _, b := range f.Bases {
			p := []int{0}
			for k := 1; k <= len(b.Near); k++ {
				if k == len(b.Near) || b.Near[k].At != b.Near[k-1].At {
					p = append(p, k)
				}
			}
			near[i] = append(near[i], p)
			if len(p)-1 > places {
				places = len(p) - 1
			}
		}
	}
	one := func(c *mc.Ch, i int, data []byte, want uint16) *mc.Fail {
		f := &fams[i]
		w, _ := c.Local["worker"].(*Worker)
		if w == nil {
			w = New()
			c.Local["worker"] = w
		}
		all := append(append([][]byte{}, f.Fixed...), append(append([]byte{}, f.Before...), data...))
		c.Inner++
		c.Steps += int64(len(all))
		var got Hash
		show := func(key, how string) *mc.Fail {
			units := heads[i].Stream(all)
			for k, u := range units {
				c.Note("temporal unit %d: %x", k, u)
			}
			return mc.Failf(key, "a sequence of the kind %q (temporal units %x) %s", f.Name, units, how)
		}
		if e := mc.Catch(func() { got = w.Decode(heads[i], all) }); e != nil {
			c.Note("panic: %v", e)
			return show("panic", "panics")
		}
		if got.Fold() != want {
			return show("samples", "decodes to other samples than the independent decoder's")
		}
		return nil
	}
	r.Bound("%d kinds of sequence, up to %d positions replaced", len(fams), places)
	scenarios := []mc.Scenario{{Name: "every tile data of two bytes", Bound: 0, Run: func(c *mc.Ch) *mc.Fail {
		i := c.All(len(fams))
		hi := c.All(256)
		c.Note("kind %q, first byte %d", fams[i].Name, hi)
		n := index[i][hi]
		for lo := 0; lo < 256; lo++ {
			v := hi<<8 | lo
			if fams[i].Valid[v/8]>>uint(v&7)&1 == 0 {
				continue
			}
			if f := one(c, i, Short(v), fams[i].Short[n]); f != nil {
				return f
			}
			n++
		}
		return nil
	}}}
	step := 1
	if !r.Thorough() {
		step = Step
	}
	for k, name := range []string{"a short sequence", "a longer sequence", "a long sequence"} {
		k := k
		step := step
		if k == 0 {
			step = 1
		}
		scenarios = append(scenarios, mc.Scenario{Name: "every byte of " + name + " replaced by every value", Bound: 0, Run: func(c *mc.Ch) *mc.Fail {
			i := c.All(len(fams))
			if k >= len(near[i]) {
				return nil
			}
			b := &fams[i].Bases[k]
			p := near[i][k]
			at := c.All((len(p)-1+step-1)/step) * step
			if step > 1 && at+i%step < len(p)-1 {
				at += i % step
			}
			c.Note("kind %q, data of seed %d, %d bits, byte %d replaced", fams[i].Name, b.Seed, b.Len, at)
			for _, e := range b.Near[p[at]:p[at+1]] {
				if f := one(c, i, Cut(b.Seed, e.At, e.Value, e.Len), e.Hash); f != nil {
					return f
				}
			}
			return nil
		}})
	}
	r.Bound("of the longer sequences one position in %d is replaced", step)
	r.Explore(scenarios...)
	r.Finish()
}

// Step thins out the positions explored in longer sequences, when the check is to be quick.
const Step = 6
