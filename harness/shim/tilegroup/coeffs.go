package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func VerifCoeffs(t *TileGroup, plane, startX, startY, txSz int, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, s *state.State, sh sequenceheader.SequenceHeader) int {
	return t.coeffs(plane, startX, startY, txSz, b, uh, s, sh)
}

func VerifClearContexts(t *TileGroup, s *state.State) {
	t.clearAboveContext(s)
	t.clearLeftContext(s)
}
