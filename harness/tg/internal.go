//go:build !noshim

package tg

import (
	"os"

	"github.com/m4tthewde/gov1/internal/tilegroup"
)

func install() bool {
	if os.Getenv("VERIF_SEAMS_MISSING") != "" {
		return false
	}
	tilegroup.VerifStub["decodeTile"] = func(_ *tilegroup.TileGroup, a ...interface{}) { call(a, func(x *Stand, e Env) { x.Tile(e) }) }
	tilegroup.VerifStub["decodeFrameWrapup"] = func(_ *tilegroup.TileGroup, a ...interface{}) { call(a, func(x *Stand, e Env) { x.End(e) }) }
	return true
}
