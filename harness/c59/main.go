// C59: what whole sequences of single key frames decode to.
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/zzverif/e2e"
)

func main() { e2e.Check(os.Args[3], "intra", e2e.Intra()) }
