// C10: frame size, superres and render size.
package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func main() {
	r := mc.Start()
	bound := 2
	if r.Thorough() {
		bound = 3
	}
	fields := hdr.Focus(2, "frame_size_override_flag", "frame_width_minus_1", "frame_height_minus_1", "use_superres", "coded_denom",
		"render_and_frame_size_different", "render_width_minus_1", "render_height_minus_1", "allow_intrabc", "allow_screen_content_tools")
	sizes := hdr.Axis{
		{"max_frame_width_minus_1": 199, "max_frame_height_minus_1": 119},
		{"max_frame_width_minus_1": 0, "max_frame_height_minus_1": 0},
		{"frame_width_bits_minus_1": 15, "max_frame_width_minus_1": 65535, "frame_height_bits_minus_1": 2, "max_frame_height_minus_1": 7},
		{"frame_width_bits_minus_1": 2, "max_frame_width_minus_1": 6, "frame_height_bits_minus_1": 11, "max_frame_height_minus_1": 4000},
		{"frame_width_bits_minus_1": 9, "max_frame_width_minus_1": 1000, "frame_height_bits_minus_1": 3, "max_frame_height_minus_1": 8},
	}
	r.Explore(
		hdr.Plan{Name: "sizes", Axes: []hdr.Axis{hdr.Kinds, sizes, hdr.Flag("enable_superres"), hdr.Flag("seq_choose_screen_content_tools")}, Cost: fields,
			Bound: bound, Own: []string{"size"}}.Scenario(),
	)
	r.Finish()
}
