// C60: what whole sequences of frames predicted from each other decode to.
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/zzverif/e2e"
)

func main() { e2e.Check(os.Args[3], "inter", e2e.Inter()) }
