// C05: general syntax of the sequence header.
package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func main() {
	r := mc.Start()
	bound := 3
	if r.Thorough() {
		bound = 5
	}
	fields := []string{"seq_profile", "still_picture", "reduced_still_picture_header", "frame_width_bits_minus_1", "frame_height_bits_minus_1",
		"max_frame_width_minus_1", "max_frame_height_minus_1", "frame_id_numbers_present_flag", "delta_frame_id_length_minus_2",
		"additional_frame_id_length_minus_1", "use_128x128_superblock", "enable_filter_intra", "enable_intra_edge_filter",
		"enable_interintra_compound", "enable_masked_compound", "enable_warped_motion", "enable_dual_filter", "enable_order_hint",
		"enable_jnt_comp", "enable_ref_frame_mvs", "seq_choose_screen_content_tools", "seq_force_screen_content_tools",
		"seq_choose_integer_mv", "seq_force_integer_mv", "order_hint_bits_minus_1", "enable_superres", "enable_cdef",
		"enable_restoration", "film_grain_params_present"}
	ops := hdr.Axis{{"timing_info_present_flag": 0, "operating_points_cnt_minus_1": 0},
		{"timing_info_present_flag": 1, "decoder_model_info_present_flag": 1, "operating_points_cnt_minus_1": 2}}
	r.Explore(
		hdr.SeqPlan{Name: "departures from base headers", Axes: []hdr.Axis{ops}, Profiles: []int{0, 1, 2, 3, 4, 5}, Cost: hdr.Focus(2, fields...), Whole: 4, Bound: bound, Own: []string{"general"}}.Scenario(),
		hdr.SeqPlan{Name: "every combination of tools", Axes: []hdr.Axis{ops}, Profiles: []int{0, 3}, Bound: 1, Own: []string{"general"}, Whole: 3,
			Cost: func(name string, idx int) int {
				switch name {
				case "reduced_still_picture_header", "enable_order_hint", "enable_jnt_comp", "enable_ref_frame_mvs", "seq_choose_screen_content_tools", "seq_force_screen_content_tools",
					"seq_choose_integer_mv", "seq_force_integer_mv", "frame_id_numbers_present_flag", "enable_warped_motion", "order_hint_bits_minus_1", "enable_superres":
					return -1
				}
				return 1
			}}.Scenario(),
		hdr.SeqPlan{Name: "every field width of the frame size", Axes: []hdr.Axis{ops}, Bound: 1, Whole: 4, Own: []string{"general"}, Profiles: []int{0, 1, 2},
			Cost: func(name string, idx int) int {
				switch name {
				case "frame_width_bits_minus_1", "frame_height_bits_minus_1":
					return -1
				case "max_frame_width_minus_1", "max_frame_height_minus_1":
					return 1
				}
				return 0
			}}.Scenario(),
	)
	r.Bound("up to %d departures among the general fields from 6 base assignments of all fields, every combination of the inter/screen-content tools, every width of the size fields", bound)
	r.Finish()
}
