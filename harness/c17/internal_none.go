//go:build noshim

package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

const real = false

type updater struct{}

func newUpdater(s *state.State) *updater { return &updater{} }

// update puts the references where the decoder's own update would.
func (u *updater) update(s *state.State, st *spec.State, uh *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
	for i := 0; i < 8; i++ {
		s.RefValid[i], s.RefFrameId[i], s.RefOrderHint[i], s.RefFrameType[i] = st.RefValid[i], st.RefFrameId[i], st.RefOrderHint[i], st.RefFrameType[i]
	}
}

func updated(f *spec.Frame, q *spec.Seq, s *state.State) string { return "" }
