//go:build !noshim

package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

const real = true

type updater struct {
	t     *tilegroup.TileGroup
	clear func()
}

func newUpdater(s *state.State) *updater {
	return &updater{&tilegroup.TileGroup{}, hdr.CdfClearer(s)}
}

// update runs the reference frame update of the decoder.
func (u *updater) update(s *state.State, st *spec.State, uh *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
	for p := range s.LrFrame {
		s.LrFrame[p] = make([][]int, uh.FrameHeight)
		for y := range s.LrFrame[p] {
			s.LrFrame[p][y] = make([]int, uh.UpscaledWidth)
		}
	}
	u.clear() // what happens to the probabilities is not looked at here
	tilegroup.VerifReferenceUpdate(u.t, s, *uh, *sh)
}

// updated compares what else a refreshed slot keeps of the frame.
func updated(f *spec.Frame, q *spec.Seq, s *state.State) string {
	for i := 0; i < 8; i++ {
		if (f.Refresh>>uint(i))&1 == 0 {
			continue
		}
		got := [8]int{s.RefUpscaledWidth[i], s.RefFrameWidth[i], s.RefFrameHeight[i], s.RefRenderWidth[i], s.RefRenderHeight[i], s.RefBitDepth[i], s.RefSubsamplingX[i], s.RefSubsamplingY[i]}
		want := [8]int{f.UpW, f.W, f.H, f.RenderW, f.RenderH, q.Color.BitDepth, q.Color.SubX, q.Color.SubY}
		if got != want {
			return fmt.Sprintf("slot %d keeps %v of the frame, want %v (upscaled width, width, height, render size, bit depth, subsampling)", i, got, want)
		}
		for r := 1; r < 8; r++ {
			if f.Intra == 0 && s.SavedOrderHints[i][r] != f.OrderHints[r] {
				return fmt.Sprintf("SavedOrderHints[%d][%d] = %d, want %d", i, r, s.SavedOrderHints[i][r], f.OrderHints[r])
			}
			if s.SavedGmParams[i][r] != f.Gm[r] {
				return fmt.Sprintf("SavedGmParams[%d][%d] = %v, want %v", i, r, s.SavedGmParams[i][r], f.Gm[r])
			}
		}
	}
	return ""
}
