package inter

import "sync"

var made sync.Map

// The wedge masks, by the definition of the specification.
const (
	horz = iota
	vert
	o27
	o63
	o117
	o153
)

type wedge struct{ dir, x, y int }

var tail = []wedge{{o27, 4, 2}, {o27, 4, 6}, {o153, 4, 2}, {o153, 4, 6}, {o63, 2, 4}, {o63, 6, 4}, {o117, 2, 4}, {o117, 6, 4}}
var head = []wedge{{o27, 4, 4}, {o63, 4, 4}, {o117, 4, 4}, {o153, 4, 4}}

func codebook(w, h int) []wedge {
	var m []wedge
	switch {
	case h > w:
		m = []wedge{{horz, 4, 2}, {horz, 4, 4}, {horz, 4, 6}, {vert, 4, 4}}
	case h < w:
		m = []wedge{{vert, 2, 4}, {vert, 4, 4}, {vert, 6, 4}, {horz, 4, 4}}
	default:
		m = []wedge{{horz, 4, 2}, {horz, 4, 6}, {vert, 2, 4}, {vert, 6, 4}}
	}
	return append(append(append([]wedge{}, head...), m...), tail...)
}

// rise is a transition from 0 to 64 whose middle values are given.
func rise(first int, mid ...int) func(x int) int {
	return func(x int) int {
		switch {
		case x < first:
			return 0
		case x < first+len(mid):
			return mid[x-first]
		}
		return 64
	}
}

var (
	odd      = rise(28, 1, 2, 6, 18, 37, 53, 60, 63)
	even     = rise(28, 1, 4, 11, 27, 46, 58, 62, 63)
	straight = rise(29, 2, 7, 21, 43, 57, 62)
)

// master is the 64x64 mask of a direction at row i, column j.
func master(dir, i, j int) int {
	switch dir {
	case vert:
		return straight(j)
	case horz:
		return straight(i)
	case o63:
		if i%2 == 0 {
			return even(clamp(0, 63, j-16+i/2))
		}
		return odd(clamp(0, 63, j-16+(i+1)/2))
	case o27:
		return master(o63, j, i)
	case o117:
		return 64 - master(o63, i, 63-j)
	case o153:
		return 64 - master(o63, j, 63-i)
	}
	panic("dir")
}

// WedgeMask is the mask of a block, by the definition of the specification.
func WedgeMask(w, h, index, sign int) [][]int {
	key := [4]int{w, h, index, sign}
	if m, ok := made.Load(key); ok {
		return m.([][]int)
	}
	m := build(w, h, index, sign)
	made.Store(key, m)
	return m
}

func build(w, h, index, sign int) [][]int {
	k := codebook(w, h)[index]
	x0, y0 := 32-(k.x*w>>3), 32-(k.y*h>>3)
	sum := 0
	for i := 0; i < w; i++ {
		sum += master(k.dir, y0, x0+i)
	}
	for i := 1; i < h; i++ {
		sum += master(k.dir, y0+i, x0)
	}
	flip := 0
	if (sum+(w+h-1)/2)/(w+h-1) < 32 {
		flip = 1
	}
	o := make([][]int, h)
	for i := range o {
		o[i] = make([]int, w)
		for j := range o[i] {
			o[i][j] = master(k.dir, y0+i, x0+j)
			if sign != flip {
				o[i][j] = 64 - o[i][j]
			}
		}
	}
	return o

}
