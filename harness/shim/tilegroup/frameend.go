package tilegroup

import "github.com/m4tthewde/gov1/internal/state"

func VerifFrameEnd(t *TileGroup, s *state.State) { t.frameEndUpdateCdf(s) }
