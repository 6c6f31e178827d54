package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func VerifReadBlockTxSize(t *TileGroup, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader) {
	t.readBlockTxSize(b, s, uh)
}
