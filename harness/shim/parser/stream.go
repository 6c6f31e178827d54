package parser

import (
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/state"
)

// VerifBitstream parses what is left of the bitstream.
func VerifBitstream(p *Parser) []obu.Obu { return p.bitstream() }

// VerifState is the decoder state of the parser.
func VerifState(p *Parser) *state.State { return &p.state }
