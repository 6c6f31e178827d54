package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func VerifPaletteModeInfo(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	t.paletteModeInfo(b, s, sh, uh)
}

func VerifPaletteTokens(t *TileGroup, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	t.paletteTokens(b, s, sh, uh)
}

func VerifColorMap(t *TileGroup, uv bool, r, c int) int {
	if uv {
		return t.ColorMapUV[r][c]
	}
	return t.ColorMapY[r][c]
}
