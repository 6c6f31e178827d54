// C09: control flow, flags and inferred values of the frame header.
package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func main() {
	r := mc.Start()
	bound := 2
	if r.Thorough() {
		bound = 3
	}
	own := []string{"ctl", "ctl2", "ctl3", "ctl4", "end"}
	ctl := []string{"show_existing_frame", "frame_to_show_map_idx", "frame_presentation_time", "display_frame_id", "frame_type", "show_frame", "showable_frame",
		"error_resilient_mode", "disable_cdf_update", "allow_screen_content_tools", "force_integer_mv", "current_frame_id", "frame_size_override_flag",
		"order_hint", "primary_ref_frame", "buffer_removal_time_present_flag", "buffer_removal_time", "refresh_frame_flags", "ref_order_hint",
		"ref_frame_idx", "delta_frame_id_minus_1", "allow_high_precision_mv", "is_filter_switchable", "interpolation_filter", "is_motion_mode_switchable",
		"disable_frame_end_update_cdf", "reference_select", "allow_warped_motion", "reduced_tx_set"}
	seqs := hdr.Axis{
		{},
		{"enable_order_hint": 0, "enable_warped_motion": 0, "seq_choose_screen_content_tools": 0, "seq_force_screen_content_tools": 0},
		{"enable_order_hint": 1, "order_hint_bits_minus_1": 6, "enable_warped_motion": 1, "seq_choose_screen_content_tools": 1, "seq_choose_integer_mv": 1},
		{"enable_order_hint": 1, "order_hint_bits_minus_1": 0, "frame_id_numbers_present_flag": 1, "delta_frame_id_length_minus_2": 3, "additional_frame_id_length_minus_1": 2,
			"seq_choose_screen_content_tools": 1, "seq_choose_integer_mv": 0, "seq_force_integer_mv": 1},
		{"timing_info_present_flag": 1, "equal_picture_interval": 0, "decoder_model_info_present_flag": 1, "buffer_removal_time_length_minus_1": 6, "frame_presentation_time_length_minus_1": 9,
			"operating_points_cnt_minus_1": 2, "decoder_model_present_for_this_op": 1, "operating_point_idc": 0, "seq_choose_screen_content_tools": 0, "seq_force_screen_content_tools": 1, "seq_choose_integer_mv": 0, "seq_force_integer_mv": 0},
	}
	models := hdr.Axis{}
	for _, idc := range []int{0, 0x101, 0x203, 0x1fe, 0xf0f, 0x880, 0x301} {
		for _, eq := range []int{0, 1} {
			models = append(models, map[string]int{"operating_point_idc": idc, "equal_picture_interval": eq})
		}
	}
	var layers [][2]int
	for t := 0; t < 8; t++ {
		for s := 0; s < 4; s++ {
			layers = append(layers, [2]int{t, s})
		}
	}
	screen := hdr.Axis{
		{"seq_choose_screen_content_tools": 1, "seq_choose_integer_mv": 1},
		{"seq_choose_screen_content_tools": 1, "seq_choose_integer_mv": 0, "seq_force_integer_mv": 0},
		{"seq_choose_screen_content_tools": 1, "seq_choose_integer_mv": 0, "seq_force_integer_mv": 1},
		{"seq_choose_screen_content_tools": 0, "seq_force_screen_content_tools": 0},
		{"seq_choose_screen_content_tools": 0, "seq_force_screen_content_tools": 1, "seq_choose_integer_mv": 1},
		{"seq_choose_screen_content_tools": 0, "seq_force_screen_content_tools": 1, "seq_choose_integer_mv": 0, "seq_force_integer_mv": 1},
	}
	flags := map[string]bool{"frame_type": true, "show_frame": true, "showable_frame": true, "error_resilient_mode": true, "disable_cdf_update": true,
		"allow_screen_content_tools": true, "force_integer_mv": true, "frame_size_override_flag": true, "allow_high_precision_mv": true, "is_filter_switchable": true, "interpolation_filter": true,
		"disable_frame_end_update_cdf": true, "reference_select": true, "allow_warped_motion": true, "reduced_tx_set": true, "is_motion_mode_switchable": true}
	plain := map[string]int{"frame_id_numbers_present_flag": 0, "film_grain_params_present": 0, "frame_width_minus_1": 99, "frame_height_minus_1": 49, "uniform_tile_spacing_flag": 1}
	scs := []mc.Scenario{
		hdr.Plan{Name: "departures from base headers", Axes: []hdr.Axis{hdr.Kinds, seqs}, Profiles: []int{0, 1, 2, 3}, Cost: hdr.Focus(2, ctl...),
			Values: map[string][]int{"refresh_frame_flags": {0, 1, 128, 255, 0x5a}}, Bound: bound, Own: own}.Scenario(),
		hdr.Plan{Name: "every combination of the flags", Over: plain, Axes: []hdr.Axis{screen, hdr.Flag("enable_warped_motion"), hdr.Flag("enable_order_hint")}, Profiles: []int{0, 2},
			Cost: func(name string, idx int) int {
				if flags[name] {
					return -1
				}
				return 0
			}, Own: own}.Scenario(),
		hdr.Plan{Name: "decoder model and layers", Over: map[string]int{"timing_info_present_flag": 1, "decoder_model_info_present_flag": 1, "operating_points_cnt_minus_1": 2,
			"buffer_removal_time_present_flag": 1}, Axes: []hdr.Axis{hdr.Kinds, models, hdr.Flag("decoder_model_present_for_this_op"), {
			{"buffer_removal_time_length_minus_1": 0, "frame_presentation_time_length_minus_1": 0}, {"buffer_removal_time_length_minus_1": 31, "frame_presentation_time_length_minus_1": 31}, {"buffer_removal_time_length_minus_1": 12, "frame_presentation_time_length_minus_1": 3}}},
			Layers: layers, Profiles: []int{1, 2}, Bound: 1, Cost: func(name string, idx int) int {
				if name == "buffer_removal_time_present_flag" || name == "show_frame" {
					return 1
				}
				return 0
			}, Own: own}.Scenario(),
		hdr.Plan{Name: "different operating points", Over: map[string]int{"timing_info_present_flag": 1, "decoder_model_info_present_flag": 1, "buffer_removal_time_present_flag": 1, "equal_picture_interval": 1},
			Axes: []hdr.Axis{{hdr.Kinds[0], hdr.Kinds[2]}, hdr.Flag("operating_points_cnt_minus_1", 0, 1, 2, 5, 17, 31)}, Layers: layers, Profiles: []int{4, 5, 6, 7, 8, 9, 10, 11}, Own: own}.Scenario(),
	}
	r.Explore(scs...)
	r.Bound("7 kinds of frame x 5 kinds of sequence header x 4 base assignments of all fields, up to %d departures among the control fields and 1 elsewhere; every combination of 16 flags; 32 layers x decoder models", bound)
	r.Assume("branches the decoder announces as not implemented (a primary reference frame, short reference signalling, sizes from references, motion field estimation, grain from a reference) are left out")
	r.Finish()
}
