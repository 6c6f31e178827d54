package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func VerifReadLr(t *TileGroup, r, c, size int, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	t.readLr(r, c, size, b, s, uh, sh)
}

// VerifLr is what is known of a unit: type, Wiener coefficients, set and weights.
func VerifLr(t *TileGroup, plane, row, col int) (int, [2][3]int, int, [2]int) {
	return t.LrType[plane][row][col], t.LrWiener[plane][row][col], t.LrSgrSet[plane][row][col], t.LrSgrXqd[plane][row][col]
}

func VerifSetLr(t *TileGroup, plane, row, col, v int) {
	t.LrType[plane][row][col] = v
	t.LrSgrSet[plane][row][col] = v
	for i := 0; i < 2; i++ {
		for j := 0; j < 3; j++ {
			t.LrWiener[plane][row][col][i][j] = v
		}
		t.LrSgrXqd[plane][row][col][i] = v
	}
}
