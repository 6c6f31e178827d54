// C06: timing, decoder model and operating points.
package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func main() {
	r := mc.Start()
	bound := 2
	if r.Thorough() {
		bound = 3
	}
	op := []string{"timing_info_present_flag", "num_units_in_display_tick", "time_scale", "equal_picture_interval", "num_ticks_per_picture_minus_1", "num_ticks_per_picture_minus_1.value",
		"decoder_model_info_present_flag", "buffer_delay_length_minus_1", "num_units_in_decoding_tick", "buffer_removal_time_length_minus_1",
		"frame_presentation_time_length_minus_1", "initial_display_delay_present_flag", "operating_points_cnt_minus_1", "operating_point_idc",
		"seq_level_idx", "seq_tier", "decoder_model_present_for_this_op", "decoder_buffer_delay", "encoder_buffer_delay", "low_delay_mode_flag",
		"initial_display_delay_present_for_this_op", "initial_display_delay_minus_1"}
	own := []string{"op"}
	timing := hdr.Axis{{"timing_info_present_flag": 0}, {"timing_info_present_flag": 1, "decoder_model_info_present_flag": 0},
		{"timing_info_present_flag": 1, "decoder_model_info_present_flag": 1}}
	notReduced := map[string]int{"reduced_still_picture_header": 0}
	r.Explore(
		hdr.SeqPlan{Name: "departures, few operating points", Over: notReduced, Axes: []hdr.Axis{timing, hdr.Flag("initial_display_delay_present_flag"), hdr.Flag("operating_points_cnt_minus_1", 0, 1, 3)},
			Profiles: []int{0, 1, 2, 3, 4}, Cost: hdr.Focus(3, op...), Whole: 5, Bound: bound, Own: own}.Scenario(),
		hdr.SeqPlan{Name: "one departure, many operating points", Over: notReduced, Axes: []hdr.Axis{timing, hdr.Flag("initial_display_delay_present_flag"), hdr.Flag("operating_points_cnt_minus_1", 6, 17, 31)},
			Profiles: []int{0, 1, 2, 3, 4}, Cost: hdr.Focus(2, op...), Whole: 5, Bound: 1, Own: own}.Scenario(),
		hdr.SeqPlan{Name: "every count and every delay length", Over: notReduced, Axes: []hdr.Axis{timing, hdr.Flag("initial_display_delay_present_flag")}, Profiles: []int{0, 1, 2, 3}, Whole: 5, Bound: 1, Own: own,
			Cost: func(name string, idx int) int {
				switch name {
				case "operating_points_cnt_minus_1", "buffer_delay_length_minus_1":
					return -1
				}
				return 0
			}}.Scenario(),
		hdr.SeqPlan{Name: "every level and tier, each operating point taking part in the model or not", Over: map[string]int{"reduced_still_picture_header": 0, "operating_points_cnt_minus_1": 3, "decoder_model_info_present_flag": 1},
			Axes: []hdr.Axis{hdr.Flag("timing_info_present_flag"), hdr.Flag("initial_display_delay_present_flag")}, Profiles: []int{0, 1, 2}, Whole: 5, Bound: 1, Own: own,
			Cost: func(name string, idx int) int {
				switch name {
				case "decoder_model_present_for_this_op", "initial_display_delay_present_for_this_op":
					return -1
				case "seq_level_idx", "seq_tier":
					return 1
				}
				return 0
			}}.Scenario(),
		hdr.SeqPlan{Name: "reduced header", Over: map[string]int{"reduced_still_picture_header": 1}, Whole: 5, Bound: 2, Own: own, Cost: hdr.Focus(2, "seq_level_idx")}.Scenario(),
	)
	r.Bound("up to %d departures among the operating point fields (1 with many points), every operating point count, every delay length, every level; 1..32 operating points", bound)
	r.Finish()
}
