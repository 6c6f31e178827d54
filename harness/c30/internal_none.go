//go:build noshim

package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

const real = false

func onRead(f func(b *bitstream.BitStream)) {}

type tiles struct{}

func (t *tiles) enter(sz int, b *bitstream.BitStream, s *state.State) {
	s.SymbolValue, s.SymbolRange, s.SymbolMaxBits = 12345, 1<<15, 8*sz-15
}
func (t *tiles) exit(b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader) {
}
func (t *tiles) frameEnd(s *state.State) {}
func (t *tiles) update(s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
}

func parse(p *parser.Parser) int            { return 0 }
func stateOf(p *parser.Parser) *state.State { return &state.State{} }
