// Command e2egold records what libaom makes of the sequences of package e2e: e2egold ROOT AOMREF KIND [NAME...]
// (other kinds are left as they were recorded).
package main

import (
	"bufio"
	"compress/gzip"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/zzverif/e2e"
)

type ref struct {
	in  *bufio.Writer
	out io.Reader
}

func start(path string) *ref {
	c := exec.Command(path)
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic(err)
	}
	return &ref{bufio.NewWriter(in), out}
}

func (r *ref) ask(h *e2e.Headers, data [][]byte) e2e.Hash {
	units := h.Stream(data)
	planes := uint32(3)
	if h.Mono {
		planes = 1
	}
	binary.Write(r.in, binary.LittleEndian, []uint32{uint32(len(units)), planes})
	for _, u := range units {
		binary.Write(r.in, binary.LittleEndian, uint32(len(u)))
		r.in.Write(u)
	}
	binary.Write(r.in, binary.LittleEndian, uint32(0))
	r.in.Flush()
	var v uint64
	if err := binary.Read(r.out, binary.LittleEndian, &v); err != nil {
		panic(err)
	}
	return e2e.Hash(v)
}

// end decodes with the code at hand and gives the number of bits it used of the last frame's data.
func end(w *e2e.Worker, h *e2e.Headers, data [][]byte) (n int) {
	defer func() {
		if e := recover(); e != nil {
			n = -1
		}
	}()
	w.Decode(h, data)
	return 8*len(data[len(data)-1]) - w.Max - 15
}

type job struct {
	w *e2e.Worker
	r *ref
	h *e2e.Headers
	// headers up to each frame
	part []*e2e.Headers
}

func (j *job) last(fixed [][]byte, d []byte) [][]byte { return append(append([][]byte{}, fixed...), d) }

// find looks for the length at which the data end.
func (j *job) find(h *e2e.Headers, fixed [][]byte, before []byte, seed, at, value, long int) (int, e2e.Hash) {
	cut := func(n int) []byte { return append(append([]byte{}, before...), e2e.Cut(seed, at, value, n)...) }
	n := end(j.w, h, j.last(fixed, cut(long*8))) - 8*len(before)
	if n < 0 || n >= long*8-16 {
		return -1, 0
	}
	for _, k := range []int{0, 1, -1, 2, -2, 3, -3} {
		if n+k < 1 {
			continue
		}
		if v := j.r.ask(h, j.last(fixed, cut(n+k))); v != 0 {
			return n + k, v
		}
	}
	return -1, 0
}

// skip lists what is left out (kind, seed, position, value): streams whose coefficients are beyond what a conforming stream has
// (all but one have one at the limit, that of the references by segment has one of 28272), so that the values inside the
// transforms leave the range the specification requires, and those of libaom, of 16 bits, saturate.
var skip = map[string]bool{
	"16x16 bilinear 5006 16 75":               true,
	"16x16 bilinear 5006 19 89":               true,
	"16x16 bilinear 5006 19 146":              true,
	"16x16 bilinear 5006 27 19":               true,
	"16x16 bilinear 5006 28 138":              true,
	"16x16 bilinear 5006 39 133":              true,
	"16x16 bilinear 5006 39 199":              true,
	"16x16 bilinear 5006 40 192":              true,
	"24x16 affine 5020 24 38":                 true,
	"16x16 three frames 5012 12 177":          true,
	"16x16 skip mode 5012 12 177":             true,
	"24x24 references by segment 5038 16 60":  true,
	"32x16 4:2:0 12 bits restored 5000 0 113": true,
	"24x24 lossless segments 5033 0 75":       true,
	"72x16 tiles 5000 9 162":                  true,
	"32x16 4:2:0 12 bits restored 5009 15 98": true,
	"72x24 large superblocks 5009 15 7":       true,
}

var ranges = [][2]int{{5, 13}, {13, 26}, {26, 60}}

func main() {
	logger.Initialize()
	root, path, kind := os.Args[1], os.Args[2], os.Args[3]
	configs := map[string]func() []e2e.Config{"intra": e2e.Intra, "inter": e2e.Inter}[kind]()
	fams := make([]e2e.Family, len(configs))
	var wg sync.WaitGroup
	sem := make(chan int, 8)
	for i := range configs {
		if len(os.Args) > 4 && !slices.Contains(os.Args[4:], configs[i].Name) {
			for _, f := range e2e.Load(root, kind) {
				if f.Name == configs[i].Name {
					for k := range f.Bases {
						b := &f.Bases[k]
						b.Near = slices.DeleteFunc(b.Near, func(e e2e.Entry) bool { return skip[fmt.Sprintf("%s %d %d %d", f.Name, b.Seed, e.At, e.Value)] })
					}
					fams[i] = f
				}
			}
			continue
		}
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- 1
			defer func() { <-sem }()
			c := configs[i]
			j := &job{w: e2e.New(), r: start(path)}
			long := 600
			if c.Tail > 0 {
				long = 3000
			}
			f := e2e.Family{Name: c.Name, Valid: make([]byte, 8192)}
			for k := range c.Frames {
				d := c
				d.Frames = c.Frames[:k+1]
				j.part = append(j.part, d.Build())
			}
			frame := func(h *e2e.Headers, fixed [][]byte, from, min, max int, want func(*e2e.Worker) bool) []byte {
				for seed := from; seed < from+900; seed++ {
					n, v := j.find(h, fixed, nil, seed, -1, 0, 600)
					if v != 0 && n/8 >= min && n/8 < max && (want == nil || want(j.w)) {
						return e2e.Cut(seed, -1, 0, n)
					}
				}
				panic(c.Name + ": no data")
			}
			for k, h := range j.part[:len(c.Frames)-1] {
				f.Fixed = append(f.Fixed, frame(h, f.Fixed, 1000*k, 14, 200, nil))
			}
			for k, t := range c.Tiles {
				var before [][]byte
				for m := range t.Frames[1:] {
					u := t
					u.Frames = t.Frames[:m+1]
					before = append(before, frame(u.Build(), before, 7000+1000*m, 10, 250, nil))
				}
				d := frame(t.Build(), before, 3000+1000*k, 10, 250, t.Want)
				for m := 0; m <= c.Frames[len(c.Frames)-1]["tile_size_bytes_minus_1"]; m++ {
					f.Before = append(f.Before, byte((len(d)-1)>>uint(8*m)))
				}
				f.Before = append(f.Before, d...)
			}
			h := j.part[len(j.part)-1]
			differ, fails, n := 0, 0, 0
			check := func(data [][]byte, v e2e.Hash) {
				defer func() {
					if e := recover(); e != nil {
						if fails++; fails < 3 {
							fmt.Println(c.Name, "panic", e, data)
						}
					}
				}()
				if g := j.w.Decode(h, data); g != v {
					if differ++; differ < 30 {
						fmt.Println(c.Name, "differs", len(data[len(data)-1]))
						var o []byte
						for _, u := range h.Stream(data) {
							o = append(o, u...)
						}
						os.WriteFile(fmt.Sprintf("/tmp/differs-%s-%d.obu", strings.ReplaceAll(c.Name, " ", "-"), differ), o, 0o644)
					}
				}
			}
			for v := 0; v < 65536; v++ {
				d := j.last(f.Fixed, append(append([]byte{}, f.Before...), e2e.Short(v)...))
				if g := j.r.ask(h, d); g != 0 {
					f.Valid[v/8] |= 1 << uint(v&7)
					f.Short = append(f.Short, g.Fold())
					if n++; n%37 == 0 {
						check(d, g)
					}
				}
			}
			text := ""
			seed := 5000
			for _, r := range ranges {
				for stop := seed + 3000; seed < stop; seed++ {
					n, v := j.find(h, f.Fixed, f.Before, seed, -1, 0, long)
					if v == 0 || c.Tail == 0 && (n/8 < r[0] || n/8 >= r[1]) || c.Want != nil && !c.Want(j.w) {
						continue
					}
					o := e2e.Base{Seed: seed, Len: n}
					first := 0
					if c.Tail > 0 && n/8 > c.Tail {
						first = n/8 - c.Tail
					}
					for at := first; at <= n/8; at++ {
						for v := 0; v < 256; v++ {
							k, g := j.find(h, f.Fixed, f.Before, seed, at, v, long)
							if g == 0 {
								continue
							}
							was := differ
							check(j.last(f.Fixed, append(append([]byte{}, f.Before...), e2e.Cut(seed, at, v, k)...)), g)
							if differ > was && skip[fmt.Sprintf("%s %d %d %d", c.Name, seed, at, v)] {
								continue
							}
							if differ > was {
								fmt.Println(c.Name, "seed", seed, "at", at, "value", v)
							}
							o.Near = append(o.Near, e2e.Entry{At: at, Value: v, Len: k, Hash: g.Fold()})
						}
					}
					text += fmt.Sprintf(" %d bits %d near,", n, len(o.Near))
					f.Bases = append(f.Bases, o)
					seed++
					break
				}
			}
			fmt.Printf("%s: %d short,%s %d differ, %d fail\n", c.Name, len(f.Short), text, differ, fails)
			fams[i] = f
		}()
	}
	wg.Wait()
	o, err := os.Create(filepath.Join(root, "golden", "e2e-"+kind+".gz"))
	if err != nil {
		panic(err)
	}
	z := gzip.NewWriter(o)
	if err := gob.NewEncoder(z).Encode(fams); err != nil {
		panic(err)
	}
	z.Close()
	o.Close()
}
