//go:build noshim

package main

import "github.com/m4tthewde/gov1/internal/state"

const real = false

type tiles struct{}

func newTiles() *tiles { return &tiles{} }

func (t *tiles) enter(s *state.State) bool             { return false }
func (t *tiles) exit(s *state.State, update bool) bool { return false }
func (t *tiles) frameEnd(s *state.State)               {}
