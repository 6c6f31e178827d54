//go:build !noshim

package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
)

const real = true

var tile = func(s *state.State) {
	t := tilegroup.TileGroup{}
	tilegroup.VerifInitSymbol(&t, 4, &bitstream.BitStream{Data: []byte{1, 2, 3, 4}}, s)
}
