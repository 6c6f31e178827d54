// C30: decoders do not influence each other.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
	"github.com/m4tthewde/gov1/internal/zzverif/snap"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
	"go.uber.org/zap"
)

// decoder is one decoder with its stream, and what it has produced.
type decoder struct {
	s   state.State
	sh  sequenceheader.SequenceHeader
	uh  uncompressedheader.UncompressedHeader
	t   *tiles
	b   *bitstream.BitStream
	p   parser.Parser
	out []int
}

// step is a part of decoding that a caller can have done before turning to another decoder.
type step struct {
	name string
	do   func(d *decoder)
}

type script struct {
	name  string
	steps []step
}

var small = gen.Merge(hdr.Small, map[string]int{"max_frame_width_minus_1": 7, "max_frame_height_minus_1": 7, "frame_width_minus_1": 7, "frame_height_minus_1": 7, "film_grain_params_present": 0,
	"enable_superres": 0, "frame_size_override_flag": 0, "operating_point_idc": 0})

// maker writes the OBUs of a stream.
type maker struct {
	q  *spec.Seq
	st *spec.State
}

func wrap(typ int, w *spec.Writer) []byte {
	var p spec.Writer
	if w != nil {
		for i := 0; i < w.Pos; i++ {
			p.Bit(spec.BitAt(w.B, i))
		}
		p.Bit(1)
		for p.Pos%8 != 0 {
			p.Bit(0)
		}
	}
	return append(append([]byte{byte(typ<<3 | 2)}, spec.Leb128(len(p.B), 1)...), p.B...)
}

func (m *maker) seq(k int) []byte { return m.seqIdc(k, 0) }

func (m *maker) seqIdc(k, idc int) []byte {
	g := &gen.Gen{C: &mc.Ch{}, Base: gen.With(hdr.Profile(k), gen.Merge(small, map[string]int{"use_128x128_superblock": k & 1, "operating_point_idc": idc})), Cost: func(string, int) int { return 0 }}
	m.q = spec.ReadSeq(g)
	return wrap(1, &g.W)
}

func (m *maker) frame(k int, kind map[string]int) []byte {
	g := &gen.Gen{C: &mc.Ch{}, Base: gen.With(hdr.Profile(k), gen.Merge(small, map[string]int{"base_q_idx": 10 + 60*k}, kind)), Cost: func(string, int) int { return 0 }}
	f := spec.ReadFrame(g, m.q, 0, 0, m.st)
	m.st.Update(f)
	return wrap(3, &g.W)
}

// open reads one OBU.
func open(name string, data []byte) step {
	return step{name, func(d *decoder) {
		b := &bitstream.BitStream{Data: append([]byte{}, data...)}
		d.b = b
		o := obu.NewObu(len(data), &d.s, b, d.sh, d.uh)
		switch o.Header.Type {
		case 1:
			d.sh = o.SequenceHeader
		case 3:
			d.uh = o.UncompressedHeader
		}
		d.out = append(d.out, o.Header.Type, o.Size, b.Position)
	}}
}

func enter(k int) step {
	return step{"tile start", func(d *decoder) {
		data := make([]byte, 40)
		for i := range data {
			data[i] = byte((i*37 + 11*k + 5) * (i + 3*k + 1))
		}
		d.b = &bitstream.BitStream{Data: data}
		d.s.TileNum = 0
		d.t.enter(len(data), d.b, &d.s)
	}}
}

// names of the distributions that symbols are read with.
var fields = []string{"YModeCdf", "SkipCdf", "TxbSkipCdf", "MvJointCdf", "PartitionW8Cdf", "CoeffBaseCdf", "IntraFrameYModeCdf", "InterpFilterCdf", "DeltaQCdf", "MvClassCdf"}

// leaf is a distribution of the family.
func leaf(s *state.State, name string, k int) []int {
	v := reflect.ValueOf(s).Elem().FieldByName("Tile" + name)
	if !v.IsValid() {
		return nil
	}
	for v.Kind() == reflect.Slice || v.Kind() == reflect.Array {
		if v.Len() == 0 {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Int {
			if v.Kind() == reflect.Array {
				return nil
			}
			return v.Interface().([]int)
		}
		v = v.Index(k % v.Len())
	}
	return nil
}

func symbols(k, n int) step {
	return step{fmt.Sprintf("%d symbols", n), func(d *decoder) {
		uh := d.uh
		uh.DisableCdfUpdate = false
		for i := 0; i < n; i++ {
			cdf := leaf(&d.s, fields[(i+3*k)%len(fields)], i/len(fields))
			if len(cdf) < 3 {
				continue
			}
			d.out = append(d.out, symbol.ReadSymbol(cdf, &d.s, d.b, uh))
		}
		d.out = append(d.out, literal.L(3, &d.s, d.b, uh), literal.NS(5, &d.s, d.b, uh))
	}}
}

func leave() step {
	return step{"tile end", func(d *decoder) {
		uh := d.uh
		uh.TileInfo.ContextUpdateTileId = 0
		d.t.exit(d.b, &d.s, uh)
		d.out = append(d.out, d.b.Position)
	}}
}

func finish() step {
	return step{"frame end", func(d *decoder) {
		d.t.frameEnd(&d.s)
		d.t.update(&d.s, d.uh, d.sh)
	}}
}

// feed gives a parser one more temporal unit.
func feed(name string, obus ...[]byte) step {
	var fu []byte
	for _, o := range obus {
		fu = append(append(fu, spec.Leb128(len(o), 1)...), o...)
	}
	tu := append(spec.Leb128(len(fu), 1), fu...)
	all := append(spec.Leb128(len(tu), 1), tu...)
	return step{name, func(d *decoder) {
		if d.b == nil {
			d.b = &bitstream.BitStream{}
			d.p = parser.NewParser(d.b)
			logger.Logger = nop
		}
		d.b.Data = append(append([]byte{}, d.b.Data...), all...)
		n := parse(&d.p)
		d.out = append(d.out, n, d.b.Position)
	}}
}

var delimiter = wrap(2, nil)
var nop = zap.NewNop()

var inter = map[string]int{"frame_type": 1, "show_frame": 1, "error_resilient_mode": 1, "refresh_frame_flags": 5}

func headers(k int) script {
	m := &maker{st: &spec.State{}}
	return script{fmt.Sprintf("headers %d", k), []step{open("sequence header", m.seq(k)), open("key frame header", m.frame(k, hdr.Kinds[0])), open("temporal delimiter", delimiter), open("inter frame header", m.frame(k+1, inter))}}
}

func short(k int) script {
	m := &maker{st: &spec.State{}}
	return script{fmt.Sprintf("short %d", k), []step{open("sequence header", m.seq(k)), open("key frame header", m.frame(k, hdr.Kinds[0]))}}
}

func whole(k int) script {
	m := &maker{st: &spec.State{}}
	both := func(name string, a, b step) step { return step{name, func(d *decoder) { a.do(d); b.do(d) }} }
	return script{fmt.Sprintf("frames %d", k), []step{
		both("headers", open("", m.seq(k)), open("", m.frame(k, hdr.Kinds[0]))),
		enter(k), symbols(k, 13), leave(), finish(),
		both("delimiter and inter frame header", open("", delimiter), open("", m.frame(k+1, inter))),
	}}
}

// layer puts an OBU into a layer.
func layer(o []byte, tid, sid int) []byte {
	return append([]byte{o[0] | 4, byte(tid<<5 | sid<<3)}, o[1:]...)
}

// layered is a stream whose sequence header selects other layers than those of the other decoders.
func layered(k int) script {
	m := &maker{st: &spec.State{}}
	return script{fmt.Sprintf("layers %d", k), []step{
		open("sequence header", m.seqIdc(k, []int{0, 0x101, 0x303}[k])), open("temporal delimiter", layer(delimiter, 0, 0)), open("key frame header", layer(m.frame(k, hdr.Kinds[0]), 0, 0)),
		open("temporal delimiter", layer(delimiter, 0, 0)), open("inter frame header", layer(m.frame(k+1, inter), 1, 0)), open("padding", layer(wrap(15, nil), 0, 1)),
	}}
}

// layeredParser is the same through a parser.
func layeredParser(k int) script {
	m := &maker{st: &spec.State{}}
	return script{fmt.Sprintf("layered parser %d", k), []step{
		feed("unit 1", delimiter, m.seqIdc(k, []int{0, 0x101, 0x303}[k])), feed("unit 2", layer(m.frame(k, hdr.Kinds[0]), 0, 0)), feed("unit 3", delimiter, layer(m.frame(k+1, inter), 1, 0), layer(wrap(15, nil), 0, 1)),
	}}
}

func symbolScript(k int) script {
	m := &maker{st: &spec.State{}}
	s := m.seq(k)
	f := m.frame(k, hdr.Kinds[0])
	return script{fmt.Sprintf("symbols %d", k), []step{open("sequence header", s), open("key frame header", f), enter(k), symbols(k, 9), leave(), finish()}}
}

func parsers(k int) script {
	m := &maker{st: &spec.State{}}
	return script{fmt.Sprintf("parser %d", k), []step{
		feed("unit 1", delimiter, m.seq(k)), feed("unit 2", m.frame(k, hdr.Kinds[0])), feed("unit 3", delimiter, m.frame(k+1, inter)), feed("unit 4", m.seq(k+2), delimiter),
	}}
}

var scripts = map[string]script{}

func init() {
	for k := 0; k < 3; k++ {
		for _, s := range []script{headers(k), short(k), whole(k), symbolScript(k), parsers(k), layered(k), layeredParser(k)} {
			scripts[s.name] = s
		}
	}
}

// result is everything a decoder is left with.
type result struct {
	Out   []int
	State map[string]snap.Sum
	Panic string
}

func (d *decoder) result(e interface{}) result {
	r := result{Out: d.out, State: snap.Fields(&d.s, nil)}
	r.State["the sequence header"] = snap.Of(&d.sh)
	r.State["the frame header"] = snap.Of(&d.uh)
	r.State["the parser's sequence header"] = snap.Of(&d.p.SequenceHeader)
	r.State["the parser's frame header"] = snap.Of(&d.p.UncompressedHeader)
	if real && d.b != nil {
		for n, x := range snap.Fields(stateOf(&d.p), nil) {
			r.State["the parser's "+n] = x
		}
	}
	if e != nil {
		r.Panic = fmt.Sprint(e)
	}
	return r
}

func alone(s script) result {
	d := &decoder{t: &tiles{}}
	e := mc.Catch(func() {
		for _, x := range s.steps {
			x.do(d)
		}
	})
	return d.result(e)
}

var baselines = map[string]result{}

// baseline runs the script in a process of its own.
func baseline(s script) result {
	if r, ok := baselines[s.name]; ok {
		return r
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_BASELINE="+s.name)
	out, err := cmd.Output()
	var r result
	if err == nil {
		err = json.Unmarshal(out, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot run", s.name, "alone:", err)
		os.Exit(2)
	}
	baselines[s.name] = r
	return r
}

func differs(name string, want, got result) *mc.Fail {
	if want.Panic != got.Panic {
		return mc.Failf("panic", "%s fails with %q, alone with %q", name, got.Panic, want.Panic)
	}
	if fmt.Sprint(want.Out) != fmt.Sprint(got.Out) {
		return mc.Failf("output", "%s reads %v, alone %v", name, got.Out, want.Out)
	}
	if x := snap.Changed(want.State, got.State); x != "" {
		return mc.Failf(x, "%s is left with another value of %s than alone", name, x)
	}
	return nil
}

// thread runs a script as a coroutine.
type thread struct {
	d      *decoder
	s      script
	resume chan bool
	done   bool
	err    interface{}
	at     int
}

// explore runs two scripts under every schedule: switches between steps are free or cost one, switches at each
// read of bits cost one.
func explore(name string, pairs [][2]script, fine bool, bound int) mc.Scenario {
	return mc.Scenario{Name: name, Bound: bound, Serial: true, Run: func(c *mc.Ch) *mc.Fail {
		pair := pairs[c.All(len(pairs))]
		pool, ok := c.Local["pool"].(*[2]*decoder)
		if !ok {
			pool = &[2]*decoder{{t: &tiles{}}, {t: &tiles{}}}
			c.Local["pool"] = pool
		}
		var th [2]*thread
		back := make(chan int)
		cur := 0
		reads := 0
		schedule := ""
		// point lets the other thread run, if the explorer says so.
		point := func(me int, cost int, where func() string) {
			other := th[1-me]
			if other.done {
				return
			}
			if c.Pick(2, cost) == 1 {
				if c.Tracing() {
					schedule += fmt.Sprintf("%d until %s; ", me, where())
				}
				cur = 1 - me
				other.resume <- true
				if !<-th[me].resume {
					panic(stop{})
				}
			}
		}
		for i := 0; i < 2; i++ {
			*pool[i] = decoder{t: pool[i].t}
			*pool[i].t = tiles{}
			th[i] = &thread{d: pool[i], s: pair[i], resume: make(chan bool)}
		}
		if fine {
			onRead(func(b *bitstream.BitStream) {
				me := cur
				if b != th[me].d.b {
					return
				}
				reads++
				point(me, 1, func() string { return fmt.Sprintf("bit %d of %s", b.Position, th[me].s.steps[th[me].at].name) })
			})
			defer onRead(nil)
		}
		for i := 0; i < 2; i++ {
			go func(me int) {
				t := th[me]
				defer func() {
					t.err = recover()
					if _, ok := t.err.(stop); ok {
						return
					}
					t.done = true
					if o := th[1-me]; !o.done && !mc.Diverged(t.err) {
						cur = 1 - me
						o.resume <- true
						return
					}
					back <- me
				}()
				if !<-t.resume {
					panic(stop{})
				}
				for k := range t.s.steps {
					t.at = k
					if k > 0 {
						cost := 0
						if fine {
							cost = 1
						}
						point(me, cost, func() string { return "before " + t.s.steps[k].name })
					}
					c.Steps++
					t.s.steps[k].do(t.d)
				}
			}(i)
		}
		first := c.All(2)
		cur = first
		th[first].resume <- true
		<-back
		for i := range th {
			if mc.Diverged(th[i].err) {
				for _, t := range th {
					if !t.done {
						select {
						case t.resume <- false:
						default:
						}
					}
				}
				panic(th[i].err)
			}
		}
		c.Note("%s and %s, starting with %d: %s (%d reads)", pair[0].name, pair[1].name, first, schedule, reads)
		for i := range th {
			if f := differs(th[i].s.name, baseline(th[i].s), th[i].d.result(th[i].err)); f != nil {
				return f
			}
		}
		return nil
	}}
}

type stop struct{}

func pairs(name string, ks ...[2]int) (o [][2]script) {
	for _, k := range ks {
		o = append(o, [2]script{scripts[fmt.Sprint(name, " ", k[0])], scripts[fmt.Sprint(name, " ", k[1])]})
	}
	return
}

func main() {
	logger.Logger = nop
	if s := os.Getenv("VERIF_BASELINE"); s != "" {
		json.NewEncoder(os.Stdout).Encode(alone(scripts[s]))
		return
	}
	r := mc.Start()
	for _, s := range scripts {
		if b := baseline(s); b.Panic != "" {
			r.Assume("script " + s.name + " fails alone: " + b.Panic)
		}
	}
	ab, ba, ac, aa := [2]int{0, 1}, [2]int{1, 2}, [2]int{0, 2}, [2]int{1, 1}
	r.Explore(
		explore("all interleavings of OBUs in layers", pairs("layers", ab, ba, ac), false, 0),
		explore("all interleavings of parser calls with layers", pairs("layered parser", ab, ba, ac), false, 0),
		explore("all interleavings of header OBUs", pairs("headers", ab, ba, ac, aa), false, 0),
		explore("all interleavings of parser calls", pairs("parser", ab, ba), false, 0),
		explore("all interleavings of frames with symbols", pairs("frames", ab, ba), false, 0),
		explore("switching at reads inside headers", pairs("headers", ab), true, 1),
		explore("switching at reads inside tiles", pairs("symbols", ab), true, 1),
	)
	if r.Thorough() {
		r.Explore(
			explore("switching at reads inside headers, more", pairs("headers", ba, ac), true, 1),
			explore("switching at reads inside headers in layers", pairs("layers", ab), true, 1),
			explore("switching at reads inside headers, two switches", pairs("short", ab), true, 2),
			explore("switching at reads inside tiles, two switches", pairs("symbols", ba), true, 2),
		)
	}
	r.Bound("two decoders: every interleaving of 4+4 header OBUs, 6+6 OBUs in layers of which each decoder selects its own, 4+4 temporal units through parsers and 6+6 parts of a frame with adapting symbols; one switch at any read of bits, two for a key frame")
	r.Assume("code that runs between two reads of bits is not interrupted; each decoder's own result is taken from a process in which it runs alone")
	if !real {
		r.Assume("internal seams were not found: no symbols, no parser")
	}
	r.Finish()
}
