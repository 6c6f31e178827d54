//go:build noshim

package main

import "github.com/m4tthewde/gov1/internal/zzverif/none"

func main() { none.Main() }
