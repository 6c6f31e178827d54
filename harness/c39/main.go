//go:build !noshim

// C39: prediction of motion vectors.
package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

type mv = [2]int

// width and height of the block sizes, in units of 4 samples.
var wide = []int{1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 1, 4, 2, 8, 4, 16}
var high = []int{1, 2, 1, 2, 4, 2, 4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 4, 1, 8, 2, 16, 4}

// Prediction modes in gov1's numbering.
const (
	nearestMv   = 14
	globalMv    = 16
	newMv       = 17
	nearestNear = 18
	nearNew     = 22
	globGlob    = 24
	newNew      = 25
)

const n = 64
const invalid = -1 << 15

// kind is what a decoded block holds.
type kind struct {
	inter bool
	refs  [2]int
	mode  int
	mvs   [2]mv
}

type cell struct {
	size, kind int
	written    bool
}

type setup struct {
	row, col, size         int
	refs                   [2]int
	prec                   int
	gmType                 [8]int
	gm                     [8][6]int
	bias                   [8]bool
	rows, cols             int    // of the frame
	tile                   [4]int // row start, end, column start, end
	temporal               bool
	motion                 func(ref, y8, x8 int) mv
	kinds                  []kind
	at                     func(r, c int) cell
}

// The model.

type entry struct {
	v [2]mv
	w int
}

type model struct {
	*setup
	stack          []entry
	news           int
	found          bool
	global         [2]mv
	zero           int
	drl            []int
	newCtx, refCtx int
	extra          []mv // of the list of a single reference, after the stack
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (m *model) compound() bool { return m.refs[1] > 0 }

func (m *model) inside(r, c int) bool {
	return r >= m.tile[0] && r < m.tile[1] && c >= m.tile[2] && c < m.tile[3]
}

func (m *model) lower(v mv) mv {
	for i, x := range v {
		a, s := abs(x), 1
		if x < 0 {
			s = -1
		}
		switch m.prec {
		case 1:
			a &^= 1
		case 2:
			a = (a + 3) / 8 * 8
		}
		v[i] = a * s
	}
	return v
}

func round(x, bits int) int {
	s := 1
	if x < 0 {
		x, s = -x, -1
	}
	return s * ((x + 1<<uint(bits-1)) >> uint(bits))
}

func (m *model) setupGlobal(ref int) mv {
	g := m.gm[ref]
	var v mv
	switch {
	case ref == 0 || m.gmType[ref] == 0:
	case m.gmType[ref] == 1:
		v = mv{g[0] >> 13, g[1] >> 13}
	default:
		x, y := m.col*4+wide[m.size]*2-1, m.row*4+high[m.size]*2-1
		px := (g[2]-65536)*x + g[3]*y + g[0]
		py := g[4]*x + (g[5]-65536)*y + g[1]
		if m.prec == 0 {
			v = mv{round(py, 13), round(px, 13)}
		} else {
			v = mv{2 * round(py, 14), 2 * round(px, 14)}
		}
	}
	return m.lower(v)
}

func (m *model) push(v [2]mv, w int) {
	for i := range m.stack {
		if m.stack[i].v == v {
			m.stack[i].w += w
			return
		}
	}
	if len(m.stack) < 8 {
		m.stack = append(m.stack, entry{v, w})
	}
}

func (m *model) candidate(r, c, w int) {
	x := m.at(r, c)
	k := m.kinds[x.kind]
	if !k.inter {
		return
	}
	isNew := k.mode == newMv || k.mode == newNew || k.mode >= 20 && k.mode <= 23
	if m.compound() {
		if k.refs != m.refs {
			return
		}
		v := k.mvs
		if k.mode == globGlob {
			for i := range v {
				if m.gmType[m.refs[i]] > 1 {
					v[i] = m.global[i]
				}
			}
		}
		m.found = true
		m.push([2]mv{m.lower(v[0]), m.lower(v[1])}, w)
		m.news += b2i(isNew)
		return
	}
	for i := range k.refs {
		if k.refs[i] != m.refs[0] {
			continue
		}
		v := k.mvs[i]
		if (k.mode == globalMv || k.mode == globGlob) && m.gmType[m.refs[0]] > 1 && min(wide[x.size], high[x.size]) >= 2 {
			v = m.global[0]
		}
		m.found = true
		m.news += b2i(isNew)
		m.push([2]mv{m.lower(v)}, w)
	}
}

// line looks at the blocks in the row dist above (vertical false) or the column dist to the left.
func (m *model) line(dist int, vertical bool) {
	length, pos, across := wide, [2]int{m.row, m.col}, 0
	end := m.cols - m.col
	if vertical {
		length, across = high, 1
		end = m.rows - m.row
	}
	size := length[m.size]
	end = min(min(end, size), 16)
	along := 1 - across
	start := pos
	start[across] -= dist
	if dist > 1 {
		start[across] += pos[across] & 1
		start[along] += 1 - pos[along]&1
	}
	for i := 0; i < end; {
		p := start
		p[along] += i
		if !m.inside(p[0], p[1]) {
			break
		}
		l := min(size, length[m.at(p[0], p[1]).size])
		if dist > 1 {
			l = max(l, 2)
		}
		if size >= 16 {
			l = max(l, 4)
		}
		m.candidate(p[0], p[1], 2*l)
		i += l
	}
}

func (m *model) point(dr, dc int) {
	r, c := m.row+dr, m.col+dc
	if m.inside(r, c) && m.at(r, c).written {
		m.candidate(r, c, 4)
	}
}

func (m *model) sample(dr, dc int) {
	r, c := (m.row+dr)|1, (m.col+dc)|1
	if !m.inside(r, c) {
		return
	}
	first := dr == 0 && dc == 0
	if first {
		m.zero = 1
	}
	var v [2]mv
	far := false
	for i := 0; i <= b2i(m.compound()); i++ {
		x := m.motion(m.refs[i], r>>1, c>>1)
		if x[0] == invalid {
			return
		}
		v[i] = m.lower(x)
		far = far || abs(v[i][0]-m.global[i][0]) >= 16 || abs(v[i][1]-m.global[i][1]) >= 16
	}
	if first {
		m.zero = b2i(far)
	}
	m.push(v, 2)
}

func (m *model) sort(from, to int) {
	// stable, by falling weight
	for i := from + 1; i < to; i++ {
		for j := i; j > from && m.stack[j-1].w < m.stack[j].w; j-- {
			m.stack[j-1], m.stack[j] = m.stack[j], m.stack[j-1]
		}
	}
}

func (m *model) more() {
	w, h := min(min(16, wide[m.size]), m.cols-m.col), min(min(16, high[m.size]), m.rows-m.row)
	var same, diff [2][]mv
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < min(w, h) && len(m.stack) < 2; {
			r, c := m.row-1, m.col+i
			if pass == 1 {
				r, c = m.row+i, m.col-1
			}
			if !m.inside(r, c) {
				break
			}
			x := m.at(r, c)
			k := m.kinds[x.kind]
			for j, ref := range k.refs {
				if ref <= 0 {
					continue
				}
				turn := func(to int) mv {
					if m.bias[ref] != m.bias[to] {
						return mv{-k.mvs[j][0], -k.mvs[j][1]}
					}
					return k.mvs[j]
				}
				if m.compound() {
					for l := range m.refs {
						if ref == m.refs[l] && len(same[l]) < 2 {
							same[l] = append(same[l], k.mvs[j])
						} else if len(diff[l]) < 2 {
							diff[l] = append(diff[l], turn(m.refs[l]))
						}
					}
					continue
				}
				v := turn(m.refs[0])
				known := false
				for _, e := range m.stack {
					known = known || e.v[0] == v
				}
				if !known {
					m.stack = append(m.stack, entry{[2]mv{v}, 2})
				}
			}
			if pass == 0 {
				i += wide[x.size]
			} else {
				i += high[x.size]
			}
		}
	}
	if !m.compound() {
		for i := len(m.stack); i < 2; i++ {
			m.extra = append(m.extra, m.global[0])
		}
		return
	}
	var both [2][2]mv
	for l := range m.refs {
		all := append(append(append([]mv{}, same[l]...), diff[l]...), m.global[l], m.global[l])
		both[0][l], both[1][l] = all[0], all[1]
	}
	if len(m.stack) == 1 {
		v := both[0]
		if v == m.stack[0].v {
			v = both[1]
		}
		m.stack = append(m.stack, entry{v, 2})
		return
	}
	m.stack = append(m.stack, entry{both[0], 2}, entry{both[1], 2})
}

func clamp(x, lo, hi int) int { return max(lo, min(hi, x)) }

func (m *model) run() {
	w, h := wide[m.size], high[m.size]
	for i := 0; i <= b2i(m.compound()); i++ {
		m.global[i] = m.setupGlobal(m.refs[i])
	}
	above, left := false, false
	take := func(where *bool) {
		*where = *where || m.found
		m.found = false
	}
	m.line(1, false)
	take(&above)
	m.line(1, true)
	take(&left)
	if max(w, h) <= 16 {
		m.point(-1, w)
	}
	take(&above)
	closeBy := b2i(above) + b2i(left)
	nearest, news := len(m.stack), m.news
	for i := range m.stack {
		m.stack[i].w += 640
	}
	if m.temporal {
		sh, sw := 2, 2
		if h >= 16 {
			sh = 4
		}
		if w >= 16 {
			sw = 4
		}
		for dr := 0; dr < min(h, 16); dr += sh {
			for dc := 0; dc < min(w, 16); dc += sw {
				m.sample(dr, dc)
			}
		}
		if h >= 2 && h < 16 && w >= 2 && w < 16 {
			for _, p := range [][2]int{{h, -2}, {h, w}, {h - 2, w}} {
				r, c := m.row%16+p[0], m.col%16+p[1]
				if r >= 0 && r < 16 && c >= 0 && c < 16 {
					m.sample(p[0], p[1])
				}
			}
		}
	}
	m.point(-1, -1)
	take(&above)
	m.line(3, false)
	take(&above)
	m.line(3, true)
	take(&left)
	if h > 1 {
		m.line(5, false)
		take(&above)
	}
	if w > 1 {
		m.line(5, true)
		take(&left)
	}
	total := b2i(above) + b2i(left)
	m.sort(0, nearest)
	m.sort(nearest, len(m.stack))
	if len(m.stack) < 2 {
		m.more()
	}
	for i, e := range m.stack {
		z := 0
		if i+1 < len(m.stack) {
			switch next := m.stack[i+1].w; {
			case e.w < 640:
				z = 2
			case next < 640:
				z = 1
			}
		}
		m.drl = append(m.drl, z)
		for l := 0; l <= b2i(m.compound()); l++ {
			v := &m.stack[i].v[l]
			v[0] = clamp(v[0], -m.row*32-128-h*32, (m.rows-h-m.row)*32+128+h*32)
			v[1] = clamp(v[1], -m.col*32-128-w*32, (m.cols-w-m.col)*32+128+w*32)
		}
	}
	switch closeBy {
	case 0:
		m.newCtx, m.refCtx = min(total, 1), total
	case 1:
		m.newCtx, m.refCtx = 3-min(news, 1), 2+total
	default:
		m.newCtx, m.refCtx = 5-min(news, 1), 5
	}
}

type work struct {
	t      *tilegroup.TileGroup
	s      *state.State
	uh     uncompressedheader.UncompressedHeader
	motion [8][][]mv
	area   [4]int // that the last setup filled
}

func get(c *mc.Ch) *work {
	if w, ok := c.Local["w"].(*work); ok {
		return w
	}
	w := &work{t: &tilegroup.TileGroup{}, s: &state.State{}}
	w.t.MotionFieldMvs = nil
	for i := 0; i < 8; i++ {
		f := make([][][2]int, n/2)
		for j := range f {
			f[j] = make([][2]int, n/2)
		}
		w.t.MotionFieldMvs = append(w.t.MotionFieldMvs, f)
	}
	c.Local["w"] = w
	return w
}

func check(c *mc.Ch, x *setup) *mc.Fail {
	m := &model{setup: x}
	m.run()
	w := get(c)
	t, s, uh := w.t, w.s, &w.uh
	h, wd := high[x.size], wide[x.size]
	for r := max(0, x.row-6); r < min(n, x.row+h+1); r++ {
		for q := max(0, x.col-6); q < min(n, x.col+wd+2); q++ {
			e := x.at(r, q)
			if !e.written || r >= x.row && q >= x.col {
				s.RefFrames[r][q] = [2]int{-1, x.refs[0]}
				t.IsInters[r][q], t.Mvs[r][q] = 1, [2][2]int{{3333, 3333}, {4444, 4444}}
				s.MiSizes[r][q] = 3
				continue
			}
			k := &x.kinds[e.kind]
			s.RefFrames[r][q], s.MiSizes[r][q] = k.refs, e.size
			t.IsInters[r][q], t.YModes[r][q], t.Mvs[r][q] = b2i(k.inter), k.mode, k.mvs
		}
	}
	if x.temporal {
		for i := 0; i <= b2i(x.refs[1] > 0); i++ {
			f := t.MotionFieldMvs[x.refs[i]]
			for r := max(0, x.row-4) >> 1; r < min(n, x.row+h+4)>>1; r++ {
				for q := max(0, x.col-4) >> 1; q < min(n, x.col+wd+4)>>1; q++ {
					f[r][q] = x.motion(x.refs[i], r, q)
				}
			}
		}
	}
	s.MiRow, s.MiCol, s.MiSize, s.MiRows, s.MiCols = x.row, x.col, x.size, x.rows, x.cols
	s.MiRowStart, s.MiRowEnd, s.MiColStart, s.MiColEnd = x.tile[0], x.tile[1], x.tile[2], x.tile[3]
	s.RefFrame = x.refs
	for i := range x.gmType {
		s.GmType[i] = x.gmType[i]
	}
	uh.GmParams = x.gm
	for i := range uh.RefFrameSignBias {
		if i < 8 {
			uh.RefFrameSignBias[i] = x.bias[i]
		}
	}
	uh.UseRefFrameMvs, uh.ForceIntegerMv, uh.AllowHighPrecisionMv = x.temporal, x.prec == 2, x.prec == 0
	for i := range t.RefStackMv {
		t.RefStackMv[i] = [2][2]int{{-7777, 7777}, {7777, -7777}}
	}
	t.NewMvContext, t.RefMvContext, t.ZeroMvContext = 9, 9, 9
	c.Steps++
	c.Inner++
	tilegroup.VerifFindMvStack(t, m.compound(), s, *uh)
	desc := func() string {
		return fmt.Sprintf("block size %d at %d,%d refs %v precision %d gm types %v of %v, frame %dx%d tile %v temporal %v", x.size, x.row, x.col, x.refs, x.prec, x.gmType, x.gm, x.rows, x.cols, x.tile, x.temporal)
	}
	lists := 1 + b2i(m.compound())
	for l := 0; l < lists; l++ {
		if t.GlobalMvs[l] != m.global[l] {
			return mc.Failf("global vector", "%s: global vector %d is %v, want %v", desc(), l, t.GlobalMvs[l], m.global[l])
		}
	}
	if t.NumMvFound != len(m.stack) {
		return mc.Failf("number of candidates", "%s: %d candidates %v, want %d: %v", desc(), t.NumMvFound, t.RefStackMv[:t.NumMvFound], len(m.stack), m.stack)
	}
	for i, e := range m.stack {
		for l := 0; l < lists; l++ {
			if t.RefStackMv[i][l] != e.v[l] {
				return mc.Failf("candidates", "%s: candidates %v, want %v", desc(), t.RefStackMv[:t.NumMvFound], m.stack)
			}
		}
		if t.DrlCtxStack[i] != m.drl[i] {
			return mc.Failf("drl contexts", "%s: drl context %d is %d, want %d; %v", desc(), i, t.DrlCtxStack[i], m.drl[i], m.stack)
		}
	}
	for i, v := range m.extra {
		if g := t.RefStackMv[len(m.stack)+i][0]; g != v {
			return mc.Failf("fill", "%s: entry %d after the candidates is %v, want %v", desc(), i, g, v)
		}
	}
	if t.NewMvContext != m.newCtx || t.RefMvContext != m.refCtx || t.ZeroMvContext != m.zero {
		return mc.Failf("contexts", "%s: contexts new %d ref %d zero %d, want %d %d %d", desc(), t.NewMvContext, t.RefMvContext, t.ZeroMvContext, m.newCtx, m.refCtx, m.zero)
	}
	return nil
}

// Reference frames: 1 is the block's (of the first list), 5 that of the second, 2 and 7 others.
func kinds() []kind {
	return []kind{
		{false, [2]int{0, -1}, 0, [2]mv{}},
		{true, [2]int{1, -1}, nearestMv, [2]mv{{40, -24}}},
		{true, [2]int{1, -1}, newMv, [2]mv{{-63, 17}}},
		{true, [2]int{1, 5}, newNew, [2]mv{{40, -24}, {-100, 8}}},
		{true, [2]int{5, -1}, newMv, [2]mv{{16, 16}}},
		{true, [2]int{1, -1}, globalMv, [2]mv{{5, -3}}},
		{true, [2]int{1, 5}, globGlob, [2]mv{{2, 2}, {-6, 6}}},
		{true, [2]int{1, 5}, nearestNear, [2]mv{{41, -25}, {-101, 9}}},
		{true, [2]int{2, 7}, nearNew, [2]mv{{-16, -16}, {33, 65}}},
		{true, [2]int{1, 0}, nearestMv, [2]mv{{2000, -2000}}},
		{true, [2]int{5, 7}, nearNew, [2]mv{{-100, 8}, {11, 13}}},
		{true, [2]int{0, -1}, 0, [2]mv{{-64, 80}}}, // a block copy
		{true, [2]int{0, -1}, 0, [2]mv{{-64, -160}}},
	}
}

var spatial = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
var copies = []int{0, 11, 12}

func gmOf(ref, typ int) (g [6]int) {
	g = [6]int{0, 0, 65536, 0, 0, 65536}
	if typ >= 1 {
		g[0], g[1] = 40000*ref-90000, 30000-25000*ref
	}
	if typ >= 2 {
		g[2], g[3], g[4], g[5] = 65536+300*ref, 150-ref, -150+ref, 65536+300*ref
	}
	if typ >= 3 {
		g[4], g[5] = 700, 65536-450
	}
	return
}

func base(size int) *setup {
	x := &setup{size: size, refs: [2]int{1, -1}, rows: n, cols: n, tile: [4]int{0, n, 0, n}, kinds: kinds()}
	x.row, x.col = 8, 24
	if high[size] > 8 {
		x.row = high[size]
	}
	if wide[size] > 8 {
		x.col = wide[size]
	}
	x.bias = [8]bool{5: true, 6: true, 7: true}
	x.motion = func(ref, y, q int) mv { return mv{invalid, 0} }
	return x
}

func (x *setup) setGm(a, b int) {
	for i, t := range []int{a, b} {
		ref := []int{1, 5}[i]
		x.gmType[ref], x.gm[ref] = t, gmOf(ref, t)
	}
}

// who sets the block's references; false if the block cannot have them.
func (x *setup) who(k int) []int {
	switch k {
	case 1:
		x.refs = [2]int{1, 5}
	case 2:
		x.refs = [2]int{0, -1}
		x.prec = 2
		return copies
	}
	return spatial
}

func main() {
	r := mc.Start()
	thorough := r.Thorough()
	deep := 0
	if thorough {
		deep = 1
	}
	small := []int{0, 1, 2, 3, 4, 6, 16, 17}
	r.Explore(
		mc.Scenario{Name: "periodic neighbourhoods", Run: func(c *mc.Ch) *mc.Fail {
			x := base(c.All(22))
			var ks []int
			who := c.All(3)
			ks = x.who(who)
			if who == 1 && min(wide[x.size], high[x.size]) < 2 {
				return nil
			}
			sizes := []int{0, 3, 6, 9, 12, 1, 5, 18}
			ns := sizes[c.All(len(sizes))]
			m := 3 + deep
			if len(ks) < 4 {
				m = 4 + 2*deep
			}
			v := make([]int, m)
			for i := range v {
				v[i] = ks[c.All(len(ks))]
			}
			c.Note("blocks of size %d of kinds %v", ns, v)
			x.at = func(r, q int) cell {
				return cell{ns, v[(r/high[ns]*2+q/wide[ns])%m], !(r >= x.row && q >= x.col) && (r < x.row+high[x.size] || q < x.col-1) && !(r == x.row-1 && q >= x.col+wide[x.size] && v[0]%2 == 1)}
			}
			gm := (v[0]*3 + v[1] + ns) % 4
			x.setGm(gm, 3-gm)
			if who != 2 {
				x.prec = (v[0] + v[1] + v[m-1]) % 3
			}
			return check(c, x)
		}},
		mc.Scenario{Name: "every neighbour on its own", Bound: 3 + deep, Run: func(c *mc.Ch) *mc.Fail {
			x := base(small[c.All(len(small))])
			who := c.All(3)
			ks := x.who(who)
			if who == 1 && min(wide[x.size], high[x.size]) < 2 {
				return nil
			}
			x.row += c.All(2) * (2 - b2i(high[x.size] == 1))
			x.col += c.All(2) * (2 - b2i(wide[x.size] == 1))
			// kinds by region: above, beyond it, far above, further above, the same to the left, corner
			var reg [11]int
			for i := range reg {
				reg[i] = ks[c.Pick(len(ks), 1)]
			}
			tr := c.All(2) == 1
			if who != 2 {
				x.prec = c.Pick(3, 1)
			}
			x.setGm(c.Pick(4, 1), c.Pick(4, 1))
			ns := []int{0, 3}[c.All(2)]
			c.Note("kinds %v, beyond written %v", reg, tr)
			x.at = func(r, q int) cell {
				w := true
				k := 0
				dr, dc := x.row-r, x.col-q
				switch {
				case dr > 0 && dc > 0:
					k = 10
				case dr > 0:
					if q >= x.col+wide[x.size] {
						k, w = 1, tr || dr > 1
					} else if q >= x.col+(wide[x.size]+1)/2 {
						k = 2
					}
					switch {
					case dr > 4:
						k = 4
					case dr > 2:
						k = 3
					}
				case dc > 0:
					k = 5
					if r >= x.row+(high[x.size]+1)/2 {
						k = 6
					}
					w = r < x.row+high[x.size] || dc > 1
					switch {
					case dc > 4:
						k = 8
					case dc > 2:
						k = 7
					}
				default:
					w = false
				}
				return cell{ns, reg[k], w}
			}
			return check(c, x)
		}},
		mc.Scenario{Name: "edges", Run: func(c *mc.Ch) *mc.Fail {
			x := base(c.All(22))
			who := c.All(3)
			ks := x.who(who)
			if who == 1 && min(wide[x.size], high[x.size]) < 2 {
				return nil
			}
			e := [4]int{c.All(5), c.All(3), c.All(5), c.All(3)}
			a, b := ks[c.All(len(ks))], ks[c.All(len(ks))]
			c.Note("edges %v kinds %d %d", e, a, b)
			x.at = func(r, q int) cell {
				return cell{3, []int{a, b}[(r/2+q/2)%2], !(r >= x.row && q >= x.col)}
			}
			x.tile[0] = max(0, x.row-[]int{0, 1, 2, 4, 8}[e[0]])
			x.tile[2] = max(0, x.col-[]int{0, 1, 2, 4, 8}[e[2]])
			h, w := high[x.size], wide[x.size]
			switch e[1] {
			case 1:
				x.tile[1] = min(n, x.row+h)
			case 2:
				x.tile[1] = min(n, x.row+(h+1)/2)
				x.rows = x.tile[1]
			}
			switch e[3] {
			case 1:
				x.tile[3] = min(n, x.col+w)
			case 2:
				x.tile[3] = min(n, x.col+(w+1)/2)
				x.cols = x.tile[3]
			}
			x.setGm(a%4, b%4)
			if who != 2 {
				x.prec = (a + b) % 3
			}
			return check(c, x)
		}},
		mc.Scenario{Name: "motion field", Run: func(c *mc.Ch) *mc.Fail {
			x := base(c.All(22))
			who := c.All(2)
			ks := x.who(who)
			if who == 1 && min(wide[x.size], high[x.size]) < 2 {
				return nil
			}
			x.temporal = true
			x.row += c.All(2) * high[x.size]
			x.col += c.All(2) * wide[x.size]
			if x.row+high[x.size] > n || x.col+wide[x.size] > n {
				return nil
			}
			x.prec = c.All(3)
			a := ks[c.All(len(ks))]
			tiled := c.All(2)
			if tiled == 1 {
				x.tile = [4]int{x.row / 16 * 16, min(n, x.row/16*16+16+high[x.size]/32*16), x.col / 16 * 16, min(n, x.col+wide[x.size])}
			}
			c.Note("neighbours of kind %d", a)
			x.at = func(r, q int) cell { return cell{3, a, !(r >= x.row && q >= x.col)} }
			vs := []mv{{invalid, 0}, {40, -24}, {41, -25}, {5, -3}, {100, 100}, {-1000, 31}}
			m := 3
			for p := 0; p < 216; p++ {
				x.motion = func(ref, y, q int) mv {
					i := (y*2 + q + ref/5) % m
					return vs[p/[]int{1, 6, 36}[i]%6]
				}
				x.setGm(p%4, p/4%4)
				if f := check(c, x); f != nil {
					return f
				}
			}
			return nil
		}},
		mc.Scenario{Name: "global motion", Run: func(c *mc.Ch) *mc.Fail {
			x := base(c.All(22))
			x.row, x.col = []int{0, 1, 7, 30}[c.All(4)], []int{0, 1, 7, 30}[c.All(4)]
			if x.row+high[x.size] > n || x.col+wide[x.size] > n {
				return nil
			}
			x.at = func(r, q int) cell { return cell{3, 5, !(r >= x.row && q >= x.col)} }
			x.gmType[1] = c.All(4)
			vals := []int{0, 1, -1, 4095, 8191, -8191, 123457}
			for p := 0; p < 343*3; p++ {
				x.prec = p % 3
				a, b, d := vals[p/3%7], vals[p/21%7], vals[p/147%7]
				x.gm[1] = [6]int{a * 31, b * 57, 65536 + d, b, -b, 65536 + d}
				if x.gmType[1] == 3 {
					x.gm[1][4], x.gm[1][5] = a, 65536 - b
				}
				if f := check(c, x); f != nil {
					return f
				}
			}
			return nil
		}},
	)
	r.Bound("all 22 block sizes; references single, compound and block copy; blocks around of 8 sizes with all periodic patterns of 3 of 11 kinds (4 in the thorough tier): intra, inter with equal, nearly equal, different, global and far vectors of the same and other references of either sign, compound, inter-intra")
	r.Bound("11 regions around blocks of 8 sizes at every parity, each with its own kind: up to 3 (thorough 4) departures; tile and frame edges at 5x3x5x3 distances; motion field patterns of 6 values with period 3; global motion models of 4 types x 343 parameters x 16 positions")
	r.Assume("the model follows section 7.10.2 of the AV1 specification", "motion fields are given by the harness: gov1 does not derive any yet")
	r.Finish()
}
