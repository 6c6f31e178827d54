package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func VerifResidual(t *TileGroup, sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
	t.residual(sh, s, b, uh)
}

func VerifComputePrediction(t *TileGroup, sh sequenceheader.SequenceHeader, s *state.State, uh uncompressedheader.UncompressedHeader) {
	t.computePrediction(s, sh, uh)
}
