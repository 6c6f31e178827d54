//go:build noshim

package e2e

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// tiles decodes a tile group.
func (w *Worker) tiles(sz int, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	*w.T = tilegroup.NewTileGroup(sz, b, w.S, uh, sh)
}
