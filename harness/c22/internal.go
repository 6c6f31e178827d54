//go:build !noshim

package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

const real = true

type tiles struct {
	t tilegroup.TileGroup
	b bitstream.BitStream
}

func newTiles() *tiles { return &tiles{} }

func (t *tiles) enter(s *state.State) bool {
	t.b = bitstream.BitStream{Data: []byte{0x55, 0xaa, 0x33, 0xcc}}
	tilegroup.VerifInitSymbol(&t.t, 4, &t.b, s)
	return true
}

// exit leaves the tile; it is the context update tile or not.
func (t *tiles) exit(s *state.State, update bool) bool {
	s.TileNum = 3
	uh := uncompressedheader.UncompressedHeader{}
	uh.TileInfo.ContextUpdateTileId = 3
	if !update {
		uh.TileInfo.ContextUpdateTileId = 2
	}
	tilegroup.VerifExitSymbol(&t.t, &t.b, s, uh)
	return true
}

func (t *tiles) frameEnd(s *state.State) { tilegroup.VerifFrameEnd(&t.t, s) }
