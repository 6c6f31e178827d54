package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func VerifFindMvStack(t *TileGroup, compound bool, s *state.State, uh uncompressedheader.UncompressedHeader) {
	t.findMvStack(compound, s, uh)
}
