//go:build !noshim

package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

const real = true

func tg(c *mc.Ch) *tilegroup.TileGroup {
	if t, ok := c.Local["tg"].(*tilegroup.TileGroup); ok {
		return t
	}
	t := &tilegroup.TileGroup{}
	c.Local["tg"] = t
	return t
}

func initSymbol(c *mc.Ch, sz int, b *bitstream.BitStream, s *state.State) {
	tilegroup.VerifInitSymbol(tg(c), sz, b, s)
}

func exitSymbol(c *mc.Ch, sz int, b *bitstream.BitStream, s *state.State) {
	s.TileNum = 1 // not the context update tile
	tilegroup.VerifExitSymbol(tg(c), b, s, uncompressedheader.UncompressedHeader{})
}
