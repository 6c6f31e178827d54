package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func VerifDecodeBlock(t *TileGroup, r, c, size int, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	t.decodeBlock(r, c, size, b, s, sh, uh)
}

func VerifGetUseIntrabc(t *TileGroup) int { return t.useIntrabc }

func VerifSetUseIntrabc(t *TileGroup, v int) { t.useIntrabc = v }
