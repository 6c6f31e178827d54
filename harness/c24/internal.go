//go:build !noshim

package main

import (
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/state"
)

const real = true

func bitstream(p *parser.Parser) []obu.Obu  { return parser.VerifBitstream(p) }
func stateOf(p *parser.Parser) *state.State { return parser.VerifState(p) }
