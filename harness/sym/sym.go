// Package sym codes the syntax elements of a tile: a reference encoder with distributions of its own, and the
// decoder's distributions laid out so that every one of them differs and all can be compared after decoding.
package sym

import (
	"fmt"
	"reflect"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/ac"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

// shapes gives the dimensions of each syntax element's distributions; the last number is that of symbols.
var shapes = map[string][]int{
	"AngleDelta": {8, 7}, "CflAlpha": {6, 16}, "CflSign": {8}, "CoeffBase": {5, 2, 42, 4}, "CoeffBaseEob": {5, 2, 4, 3},
	"CoeffBr": {5, 2, 21, 4}, "CompBwdRef": {3, 2, 2}, "CompGroupIdx": {6, 2}, "CompMode": {5, 2}, "CompRef": {3, 3, 2},
	"CompRefType": {5, 2}, "CompoundIdx": {6, 2}, "CompoundMode": {8, 8}, "CompoundType": {22, 2}, "DcSign": {2, 3, 2},
	"DeltaLF": {4}, "DeltaLFMulti": {4, 4}, "DeltaQ": {4}, "DrlMode": {3, 2}, "EobExtra": {5, 2, 9, 2}, "EobPt16": {2, 2, 5},
	"EobPt32": {2, 2, 6}, "EobPt64": {2, 2, 7}, "EobPt128": {2, 2, 8}, "EobPt256": {2, 2, 9}, "EobPt512": {2, 10},
	"EobPt1024": {2, 11}, "FilterIntra": {22, 2}, "FilterIntraMode": {5}, "InterIntra": {3, 2}, "InterIntraMode": {3, 4},
	"InterTxTypeSet1": {2, 16}, "InterTxTypeSet2": {12}, "InterTxTypeSet3": {4, 2}, "InterpFilter": {16, 3},
	"IntraFrameYMode": {5, 5, 13}, "IntraTxTypeSet1": {2, 13, 7}, "IntraTxTypeSet2": {3, 13, 5}, "Intrabc": {2},
	"IsInter": {4, 2}, "MotionMode": {22, 3}, "MvBit": {2, 2, 10, 2}, "MvClass": {2, 2, 11}, "MvClass0Bit": {2, 2, 2},
	"MvClass0Fr": {2, 2, 2, 4}, "MvClass0Hp": {2, 2, 2}, "MvFr": {2, 2, 4}, "MvHp": {2, 2, 2}, "MvJoint": {2, 4}, "MvSign": {2, 2, 2},
	"NewMv": {6, 2}, "PaletteSize2UVColor": {5, 2}, "PaletteSize2YColor": {5, 2}, "PaletteSize3UVColor": {5, 3},
	"PaletteSize3YColor": {5, 3}, "PaletteSize4UVColor": {5, 4}, "PaletteSize4YColor": {5, 4}, "PaletteSize5UVColor": {5, 5},
	"PaletteSize5YColor": {5, 5}, "PaletteSize6UVColor": {5, 6}, "PaletteSize6YColor": {5, 6}, "PaletteSize7UVColor": {5, 7},
	"PaletteSize7YColor": {5, 7}, "PaletteSize8UVColor": {5, 8}, "PaletteSize8YColor": {5, 8}, "PaletteUVMode": {2, 2},
	"PaletteUVSize": {7, 7}, "PaletteYMode": {7, 3, 2}, "PaletteYSize": {7, 7}, "PartitionW8": {4, 4}, "PartitionW16": {4, 10}, "PartitionW32": {4, 10},
	"PartitionW64": {4, 10}, "PartitionW128": {4, 8}, "RefMv": {6, 2}, "RestorationType": {3}, "SegmentId": {3, 8},
	"SegmentIdPredicted": {3, 2}, "SingleRef": {3, 6, 2}, "Skip": {3, 2}, "SkipMode": {3, 2}, "Tx8x8": {3, 2}, "Tx16x16": {3, 3},
	"Tx32x32": {3, 3}, "Tx64x64": {3, 3}, "TxbSkip": {5, 13, 2}, "TxfmSplit": {21, 2}, "UVModeCflAllowed": {13, 14},
	"UVModeCflNotAllowed": {13, 13}, "UniCompRef": {3, 3, 2}, "UseObmc": {22, 2}, "UseSgrproj": {2}, "UseWiener": {2},
	"WedgeIndex": {22, 16}, "WedgeInterIntra": {22, 2}, "YMode": {4, 13}, "ZeroMv": {2, 2},
}

// Coder is an encoder together with the distributions of a decoder's State.
type Coder struct {
	M      *ac.Model
	Adapt  bool // distributions adapt
	Log    []string
	Trace  bool
	S      *state.State
	base   []int
	model  []int
	real   []int
	at     map[string]int // where a name's distributions start
	names  []string
	data   []byte
	padded int
}

// New prepares a State for decoding what is encoded with the names, or with all known ones.
func New(s *state.State, names ...string) *Coder {
	k := &Coder{S: s, at: map[string]int{}, Adapt: true}
	v := reflect.ValueOf(s).Elem()
	if len(names) == 0 {
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			n := t.Field(i).Name
			if len(n) > 7 && n[:4] == "Tile" && n[len(n)-3:] == "Cdf" && shapes[n[4:len(n)-3]] != nil {
				names = append(names, n[4:len(n)-3])
			}
		}
	}
	size := 0
	for _, n := range names {
		k.at[n] = size
		sh := shapes[n]
		x := sh[len(sh)-1] + 1
		for _, d := range sh[:len(sh)-1] {
			x *= d
		}
		size += x
	}
	k.names = names
	k.base, k.model, k.real = make([]int, size), make([]int, size), make([]int, size)
	leaf := 0
	for _, n := range names {
		sh := shapes[n]
		f := v.FieldByName("Tile" + n + "Cdf")
		at := k.at[n]
		var build func(t reflect.Type, dims []int) reflect.Value
		build = func(t reflect.Type, dims []int) reflect.Value {
			if len(dims) == 1 {
				m := dims[0]
				c := k.base[at : at+m+1]
				for i := 0; i < m-1; i++ {
					h := (leaf*7919+i*104729+leaf*leaf*31)%1009 - 504
					c[i] = 32768*(i+1)/m + h*(32768/m/4)/504
				}
				c[m-1], c[m] = 32768, leaf*5%33
				leaf++
				r := k.real[at : at+m+1 : at+m+1]
				at += m + 1
				return reflect.ValueOf(r)
			}
			if t.Kind() == reflect.Array {
				x := reflect.New(t).Elem()
				for i := 0; i < dims[0] && i < t.Len(); i++ {
					x.Index(i).Set(build(t.Elem(), dims[1:]))
				}
				return x
			}
			x := reflect.MakeSlice(t, dims[0], dims[0])
			for i := 0; i < dims[0]; i++ {
				x.Index(i).Set(build(t.Elem(), dims[1:]))
			}
			return x
		}
		if !f.IsValid() {
			panic("no distributions for " + n)
		}
		f.Set(build(f.Type(), sh))
	}
	k.Reset()
	return k
}

// Reset starts a new tile with the distributions as they were at first.
func (k *Coder) Reset() {
	copy(k.model, k.base)
	copy(k.real, k.base)
	k.M, k.Log = ac.New(), nil
}

// S codes a symbol.
func (k *Coder) Sym(name string, sym int, idx ...int) {
	sh := shapes[name]
	if len(idx) != len(sh)-1 {
		panic("indices of " + name)
	}
	l := 0
	for i, x := range idx {
		if x < 0 || x >= sh[i] {
			panic(fmt.Sprintf("model: %s%v", name, idx))
		}
		l = l*sh[i] + x
	}
	m := sh[len(sh)-1]
	if sym < 0 || sym >= m {
		panic(fmt.Sprintf("model: symbol %d of %s%v", sym, name, idx))
	}
	a, ok := k.at[name]
	if !ok {
		panic("model: no " + name)
	}
	c := k.model[a+l*(m+1) : a+(l+1)*(m+1)]
	if k.Trace {
		k.Log = append(k.Log, fmt.Sprintf("%s%v=%d", name, idx, sym))
	}
	k.M.Take(c, sym)
	if k.Adapt {
		ac.Adapt(c, sym)
	}
}

var even = []int{16384, 32768, 0}

// Prob is the probability of a symbol, of 32768.
func (k *Coder) Prob(name string, sym int, idx ...int) int {
	sh := shapes[name]
	l := 0
	for i, x := range idx {
		l = l*sh[i] + x
	}
	m := sh[len(sh)-1]
	c := k.model[k.at[name]+l*(m+1):]
	if sym == 0 {
		return c[0]
	}
	return c[sym] - c[sym-1]
}

// Once codes a binary symbol with a distribution made up for it; p is the probability of 1.
func (k *Coder) Once(what string, p, v int) {
	if k.Trace {
		k.Log = append(k.Log, fmt.Sprintf("%s=%d", what, v))
	}
	k.M.Take([]int{32768 - p, 32768, 0}, v)
}

// Lit codes a number of a given number of bits.
func (k *Coder) Lit(n, v int) {
	if k.Trace {
		k.Log = append(k.Log, fmt.Sprintf("L(%d)=%d", n, v))
	}
	for i := n - 1; i >= 0; i-- {
		k.M.Take(even, v>>uint(i)&1)
	}
}

// NS codes a value below n.
func (k *Coder) NS(n, v int) {
	w := 0
	for 1<<uint(w) <= n {
		w++
	}
	m := 1<<uint(w) - n
	if v < m {
		k.Lit(w-1, v)
	} else {
		k.Lit(w-1, (v+m)>>1)
		k.Lit(1, (v+m)&1)
	}
}

// Start ends the encoding and gives the decoder the data, its symbol decoder initialised.
func (k *Coder) Start() *bitstream.BitStream {
	k.data = k.M.Word(0, 2)
	b := &bitstream.BitStream{Data: append(append([]byte{}, k.data...), 0xff, 0xff), Position: 15}
	k.S.SymbolRange = 1 << 15
	k.S.SymbolValue = (1<<15 - 1) ^ (int(k.data[0])<<7 | int(k.data[1])>>1)
	k.S.SymbolMaxBits = 8*len(k.data) - 15
	return b
}

// Check compares the decoder's position, its state and every distribution with the encoder's.
func (k *Coder) Check(b *bitstream.BitStream) *mc.Fail {
	s := k.S
	if v := k.M.Value(k.data, len(k.data)); s.SymbolRange != k.M.Range || s.SymbolValue != v || s.SymbolMaxBits != k.M.MaxBits(len(k.data)) {
		return mc.Failf("symbol state", "the decoder's state afterwards is range %d, value %d, %d bits left; the encoder's is %d, %d, %d", s.SymbolRange, s.SymbolValue, s.SymbolMaxBits, k.M.Range, v, k.M.MaxBits(len(k.data)))
	}
	if p := k.M.Pos(len(k.data)); b.Position != p {
		return mc.Failf("position", "at bit %d afterwards, want %d", b.Position, p)
	}
	for i, x := range k.real {
		if x != k.model[i] {
			name := ""
			for _, n := range k.names {
				if k.at[n] <= i {
					name = n
				}
			}
			sh := shapes[name]
			return mc.Failf("distributions of "+name, "%s: distribution %d, entry %d is %d, want %d", name, (i-k.at[name])/(sh[len(sh)-1]+1), (i-k.at[name])%(sh[len(sh)-1]+1), x, k.model[i])
		}
	}
	return nil
}
