//go:build noshim

package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

const real = false

func initSymbol(c *mc.Ch, sz int, b *bitstream.BitStream, s *state.State) {
	n := 8 * sz
	if n > 15 {
		n = 15
	}
	s.SymbolValue = 32767 - b.F(n)<<uint(15-n)
	s.SymbolRange = 32768
	s.SymbolMaxBits = 8*sz - 15
}

func exitSymbol(c *mc.Ch, sz int, b *bitstream.BitStream, s *state.State) {
	if s.SymbolMaxBits > 0 {
		b.Position += s.SymbolMaxBits
	}
}
