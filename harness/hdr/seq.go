package hdr

import (
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// SeqPlan describes a family of sequence headers.
type SeqPlan struct {
	Name     string
	Axes     []Axis
	Over     map[string]int
	Profiles []int
	Cost     func(name string, idx int) int
	Values   map[string][]int
	All      func(name string) bool
	Whole    int
	Bound    int
	Own      []string
}

func (p SeqPlan) Scenario() mc.Scenario {
	whole := p.Whole
	if whole == 0 {
		whole = 3
	}
	profiles := p.Profiles
	if profiles == nil {
		profiles = []int{0, 1, 2, 3}
	}
	vals := map[string][]int{"seq_profile": {0, 1, 2}}
	for k, v := range p.Values {
		vals[k] = v
	}
	return mc.Scenario{Name: p.Name, Bound: p.Bound, Run: func(c *mc.Ch) *mc.Fail {
		w := W(c)
		over := gen.Merge(map[string]int{"seq_profile": 0}, p.Over)
		for _, a := range p.Axes {
			over = gen.Merge(over, a[c.All(len(a))])
		}
		k := profiles[c.All(len(profiles))]
		off, lead, tail := (k*3)%8, 0xa5*(k&1), k&1
		g := &gen.Gen{C: c, Base: gen.With(Profile(k), over), Cost: p.Cost, Whole: whole, All: p.All, Values: vals, Bound: p.Bound}
		q := spec.ReadSeq(g)
		w.S.OperatingPointIdc = 0x5a5 * (k & 1)
		h, end, e := ParseSeq(c, &g.W, off, lead, tail, &w.S)
		return AttributeSeq(q, &h, &w.S, end, g.W.Pos, e, p.Own...)
	}}
}
