//go:build noshim

package main

import (
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/state"
)

const real = false

func bitstream(p *parser.Parser) []obu.Obu  { return nil }
func stateOf(p *parser.Parser) *state.State { return nil }
