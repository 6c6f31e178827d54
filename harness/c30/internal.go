//go:build !noshim

package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

const real = true

func onRead(f func(b *bitstream.BitStream)) { bitstream.VerifHook = f }

type tiles struct{ t tilegroup.TileGroup }

func (t *tiles) enter(sz int, b *bitstream.BitStream, s *state.State) {
	tilegroup.VerifInitSymbol(&t.t, sz, b, s)
}

func (t *tiles) exit(b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader) {
	tilegroup.VerifExitSymbol(&t.t, b, s, uh)
}

func (t *tiles) frameEnd(s *state.State) { tilegroup.VerifFrameEnd(&t.t, s) }

func (t *tiles) update(s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	tilegroup.VerifReferenceUpdate(&t.t, s, uh, sh)
}

func parse(p *parser.Parser) int            { return len(parser.VerifBitstream(p)) }
func stateOf(p *parser.Parser) *state.State { return parser.VerifState(p) }
