package tilegroup

import "github.com/m4tthewde/gov1/internal/state"

func VerifFindWarpSamples(t *TileGroup, s *state.State) { t.findWarpSamples(s) }

func VerifWarpEstimation(t *TileGroup, s *state.State) { t.warpEstimationProcess(s) }

func VerifSetupShear(t *TileGroup, m [6]int) (bool, int, int, int, int) {
	return t.setupShearProcess(m)
}

func VerifResolveDivisor(t *TileGroup, d int) (int, int) { return t.resolveDivisorProcess(d) }
