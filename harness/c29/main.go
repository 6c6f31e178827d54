// C29: block geometry tables.
package main

import (
	"math/bits"

	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

// sizes in the order of the AV1 block size constants.
var sizes = [][2]int{{4, 4}, {4, 8}, {8, 4}, {8, 8}, {8, 16}, {16, 8}, {16, 16}, {16, 32}, {32, 16}, {32, 32}, {32, 64}, {64, 32}, {64, 64}, {64, 128}, {128, 64}, {128, 128},
	{4, 16}, {16, 4}, {8, 32}, {32, 8}, {16, 64}, {64, 16}}

func find(w, h int) int {
	for i, s := range sizes {
		if s == [2]int{w, h} {
			return i
		}
	}
	return -1
}

var names = []int{shared.BLOCK_4X4, shared.BLOCK_4X8, shared.BLOCK_8X4, shared.BLOCK_8X8, shared.BLOCK_8X16, shared.BLOCK_16X8, shared.BLOCK_16X16, shared.BLOCK_16X32, shared.BLOCK_32X16, shared.BLOCK_32X32,
	shared.BLOCK_32X64, shared.BLOCK_64X32, shared.BLOCK_64X64, shared.BLOCK_64X128, shared.BLOCK_128X64, shared.BLOCK_128X128, shared.BLOCK_4X16, shared.BLOCK_16X4, shared.BLOCK_8X32, shared.BLOCK_32X8, shared.BLOCK_16X64, shared.BLOCK_64X16}

var partitions = []string{"NONE", "HORZ", "VERT", "SPLIT", "HORZ_A", "HORZ_B", "VERT_A", "VERT_B", "HORZ_4", "VERT_4"}

// sub gives the size a partition divides a square of n into, and whether the partition exists there.
func sub(n, p int) (w, h int, ok bool) {
	if n == 4 {
		return 4, 4, p == 0
	}
	switch p {
	case 0:
		return n, n, true
	case 1:
		return n, n / 2, true
	case 2:
		return n / 2, n, true
	case 3:
		return n / 2, n / 2, true
	case 4, 5:
		return n, n / 2, n > 8
	case 6, 7:
		return n / 2, n, n > 8
	case 8:
		return n, n / 4, n > 8 && n < 128
	case 9:
		return n / 4, n, n > 8 && n < 128
	}
	return
}

func log2(x int) int { return bits.Len(uint(x)) - 1 }

func guard(run func(c *mc.Ch) *mc.Fail) func(c *mc.Ch) *mc.Fail {
	return func(c *mc.Ch) (f *mc.Fail) {
		if e := mc.Catch(func() { f = run(c) }); e != nil {
			return mc.Failf("panic", "reading the tables fails: %v", e)
		}
		return
	}
}

func main() {
	r := mc.Start()
	r.Explore(
		mc.Scenario{Name: "dimensions", Run: guard(func(c *mc.Ch) *mc.Fail {
			b := c.All(len(sizes))
			w, h := sizes[b][0], sizes[b][1]
			c.Note("block %dx%d", w, h)
			c.Steps++
			if names[b] != b || shared.BLOCK_SIZES != len(sizes) {
				return mc.Failf("constant", "the constant of block %dx%d is %d, want %d", w, h, names[b], b)
			}
			got := [6]int{shared.BLOCK_WIDTH[b], shared.BLOCK_HEIGHT[b], shared.NUM_4X4_BLOCKS_WIDE[b], shared.NUM_4X4_BLOCKS_HIGH[b], shared.MI_WIDTH_LOG2[b], shared.MI_HEIGHT_LOG2[b]}
			want := [6]int{w, h, w / 4, h / 4, log2(w / 4), log2(h / 4)}
			if got != want {
				return mc.Failf("dimensions", "block %dx%d has width, height, 4x4 columns, rows and their log2 %v, want %v", w, h, got, want)
			}
			return nil
		})},
		mc.Scenario{Name: "partitions", Run: guard(func(c *mc.Ch) *mc.Fail {
			n := 4 << uint(c.All(6))
			p := c.All(len(partitions))
			w, h, ok := sub(n, p)
			if !ok {
				return nil
			}
			c.Note("PARTITION_%s of %dx%d", partitions[p], n, n)
			c.Steps++
			got := shared.Partition_Subsize[p][find(n, n)]
			if want := find(w, h); got != want {
				return mc.Failf("partition", "PARTITION_%s of %dx%d gives block size %d, want %d (%dx%d)", partitions[p], n, n, got, want, w, h)
			}
			return nil
		})},
		mc.Scenario{Name: "subsampling", Run: guard(func(c *mc.Ch) *mc.Fail {
			b, sx, sy := c.All(len(sizes)), c.All(2), c.All(2)
			w, h := sizes[b][0], sizes[b][1]
			// Halving one dimension only is not allowed for blocks that are longer in the other.
			if sx == 1 && sy == 0 && w < h || sx == 0 && sy == 1 && h < w {
				return nil
			}
			w, h = w>>uint(sx), h>>uint(sy)
			if w < 4 {
				w = 4
			}
			if h < 4 {
				h = 4
			}
			c.Note("block %dx%d subsampled by (%d,%d)", sizes[b][0], sizes[b][1], sx, sy)
			c.Steps++
			if got := shared.Subsampled_Size[b][sx][sy]; got != find(w, h) {
				return mc.Failf("subsampling", "block %dx%d subsampled by (%d,%d) gives block size %d, want %d (%dx%d)", sizes[b][0], sizes[b][1], sx, sy, got, find(w, h), w, h)
			}
			return nil
		})},
	)
	r.Bound("all 22 block sizes, 10 partitions of the 6 squares, 4 subsamplings: the whole domain of valid combinations")
	r.Assume("combinations AV1 does not allow (their entries are never used by a conforming stream) are not looked at")
	r.Finish()
}
