package mc

import (
	"os"
	"runtime/pprof"
)

func init() {
	if p := os.Getenv("MC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		profStop = pprof.StopCPUProfile
	}
}
