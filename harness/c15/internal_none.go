//go:build noshim

package main

import "github.com/m4tthewde/gov1/internal/zzverif/mc"

func internal(thorough bool) []mc.Scenario { return nil }
