package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// VerifBuild decodes a tile group into t, which has to be zero.
func VerifBuild(t *TileGroup, sz int, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	t.build(sz, b, s, uh, sh)
}
