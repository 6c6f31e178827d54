package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func VerifReconstruct(t *TileGroup, plane, x, y, txSz int, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, s *state.State) {
	t.reconstruct(plane, x, y, txSz, sh, uh, s)
}
