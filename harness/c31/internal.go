//go:build !noshim

package main

import (
	"reflect"

	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	"github.com/m4tthewde/gov1/internal/wedgemask"
	"github.com/m4tthewde/gov1/internal/zzverif/snap"
)

var tables map[string]snap.Sum

// sums are the fingerprints of all package variables.
func sums() map[string]snap.Sum {
	o := map[string]snap.Sum{}
	for p, m := range map[string]map[string]interface{}{"shared": shared.VerifVars, "util": util.VerifVars, "wedgemask": wedgemask.VerifVars, "tilegroup": tilegroup.VerifVars, "uncompressedheader": uncompressedheader.VerifVars} {
		for n, v := range m {
			if reflect.TypeOf(v).Elem().Kind() == reflect.Func {
				continue
			}
			o[p+"."+n] = snap.Of(v)
		}
	}
	return o
}
