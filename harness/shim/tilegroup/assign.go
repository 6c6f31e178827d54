package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func VerifAssignMv(t *TileGroup, compound int, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	t.assignMv(compound, b, s, sh, uh)
}

func VerifUseIntrabc(t *TileGroup, v int) { t.useIntrabc = v }
