package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
)

// VerifGlobalMotion runs global_motion_params( ) against the previous parameters the state holds.
func VerifGlobalMotion(u *UncompressedHeader, b *bitstream.BitStream, s *state.State) {
	u.globalMotionParams(b, s)
}
