package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func VerifUpscale(t *TileGroup, f [3][][]int, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][][]int {
	return t.upscalingProcess(f, s, sh, uh)
}
