package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
)

func VerifPredictIntra(t *TileGroup, plane, x, y int, left, above, aboveRight, belowLeft bool, mode, log2W, log2H int, s *state.State, sh sequenceheader.SequenceHeader) {
	t.predictIntra(plane, x, y, left, above, aboveRight, belowLeft, mode, log2W, log2H, s, sh)
}
