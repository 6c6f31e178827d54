//go:build noshim

package main

import "github.com/m4tthewde/gov1/internal/state"

const real = false

var tile func(s *state.State)
