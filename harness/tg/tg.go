// Package tg runs tile groups with stand-ins for the decoding of a tile's blocks and for the filters and output at the
// end of a frame, so that what surrounds them can be watched.
package tg

import (
	"sync"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// Env is what a stand-in is called with; parts it is not called with are nil.
type Env struct {
	B  *bitstream.BitStream
	S  *state.State
	UH *uncompressedheader.UncompressedHeader
	SH *sequenceheader.SequenceHeader
}

// Stand holds the stand-ins for the decoder whose state is S.
type Stand struct {
	Tile func(e Env) // the blocks of a tile
	End  func(e Env) // the end of a frame
}

var stands sync.Map // *state.State to *Stand

// Watch sets the stand-ins of a decoder.
func Watch(s *state.State, x *Stand) { stands.Store(s, x) }

func env(args []interface{}) (e Env) {
	for _, a := range args {
		switch a := a.(type) {
		case *bitstream.BitStream:
			e.B = a
		case *state.State:
			e.S = a
		case uncompressedheader.UncompressedHeader:
			e.UH = &a
		case *uncompressedheader.UncompressedHeader:
			e.UH = a
		case sequenceheader.SequenceHeader:
			e.SH = &a
		case *sequenceheader.SequenceHeader:
			e.SH = a
		}
	}
	return
}

func call(args []interface{}, f func(x *Stand, e Env)) {
	e := env(args)
	if x, ok := stands.Load(e.S); ok {
		f(x.(*Stand), e)
		return
	}
	panic("no stand-in for this decoder")
}

// Real says that the seams were found.
func Real() bool { return install() }
