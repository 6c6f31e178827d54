// C13: loop filter, CDEF, loop restoration and transform mode.
package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func main() {
	r := mc.Start()
	bound := 2
	if r.Thorough() {
		bound = 3
	}
	own := []string{"lf", "cdef", "lr", "tx"}
	fields := []string{"loop_filter_level", "loop_filter_sharpness", "loop_filter_delta_enabled", "loop_filter_delta_update", "update_ref_delta", "loop_filter_ref_deltas",
		"update_mode_delta", "loop_filter_mode_deltas", "cdef_damping_minus_3", "cdef_bits", "cdef_y_pri_strength", "cdef_y_sec_strength", "cdef_uv_pri_strength",
		"cdef_uv_sec_strength", "lr_type", "lr_unit_shift", "lr_unit_extra_shift", "lr_uv_shift", "tx_mode_select"}
	base := map[string]int{"film_grain_params_present": 0, "uniform_tile_spacing_flag": 1, "segmentation_enabled": 0, "base_q_idx": 100, "seq_choose_screen_content_tools": 0, "seq_force_screen_content_tools": 0}
	planes := hdr.Axis{{"mono_chrome": 0}, {"mono_chrome": 1}, {"seq_profile": 1}, {"seq_profile": 2, "mono_chrome": 0, "high_bitdepth": 0, "color_description_present_flag": 0}}
	kinds := hdr.Axis{hdr.Kinds[0], hdr.Kinds[2]}
	bc := hdr.Axis{
		{},
		{"seq_force_screen_content_tools": 1, "seq_choose_integer_mv": 1, "allow_intrabc": 1},
		{"base_q_idx": 0, "delta_q_y_dc.delta_coded": 0, "delta_q_u_dc.delta_coded": 0, "delta_q_u_ac.delta_coded": 0, "diff_uv_delta": 0},
		{"base_q_idx": 0, "delta_q_y_dc.delta_coded": 0, "delta_q_u_dc.delta_coded": 0, "delta_q_u_ac.delta_coded": 0, "diff_uv_delta": 0, "enable_superres": 1, "use_superres": 1},
	}
	r.Explore(
		hdr.Plan{Name: "departures from base headers", Over: base, Axes: []hdr.Axis{kinds, planes[:2], hdr.Flag("enable_cdef"), hdr.Flag("enable_restoration"), hdr.Flag("use_128x128_superblock")},
			Profiles: []int{0, 1, 2, 3}, Cost: hdr.Focus(3, fields...), Bound: bound, Own: own}.Scenario(),
		hdr.Plan{Name: "lossless, intra block copy", Over: base, Axes: []hdr.Axis{kinds, planes, bc, hdr.Flag("enable_cdef"), hdr.Flag("enable_restoration"), hdr.Flag("use_128x128_superblock")},
			Profiles: []int{0, 1, 2, 3}, Cost: hdr.Focus(2, fields...), Bound: 1, Whole: 4, Own: own}.Scenario(),
		hdr.Plan{Name: "every restoration choice", Over: gen.Merge(base, map[string]int{"enable_restoration": 1}), Axes: []hdr.Axis{kinds, planes, hdr.Flag("use_128x128_superblock")}, Profiles: []int{0, 1}, Own: own,
			Cost: func(name string, idx int) int {
				switch name {
				case "lr_type", "lr_unit_shift", "lr_unit_extra_shift", "lr_uv_shift", "tx_mode_select":
					return -1
				}
				return 0
			}}.Scenario(),
		hdr.Plan{Name: "every level, delta and strength", Over: base, Axes: []hdr.Axis{planes, hdr.Flag("loop_filter_delta_update")}, Profiles: []int{1, 2, 3}, Whole: 7, Bound: 1, Own: own,
			Cost: hdr.Focus(2, fields...)}.Scenario(),
		hdr.Plan{Name: "which deltas are updated", Over: gen.Merge(base, hdr.Kinds[0], map[string]int{"loop_filter_delta_enabled": 1, "loop_filter_delta_update": 1}), Profiles: []int{2}, Own: own,
			Cost: func(name string, idx int) int {
				switch name {
				case "loop_filter_delta_enabled", "loop_filter_delta_update", "update_ref_delta", "update_mode_delta":
					return -1
				}
				return 0
			}}.Scenario(),
		hdr.Plan{Name: "levels zero and not", Over: base, Axes: []hdr.Axis{planes, hdr.Flag("enable_cdef")}, Profiles: []int{0, 2}, Own: own, Whole: 2, Values: map[string][]int{"loop_filter_level": {0, 1, 32, 63}},
			Cost: func(name string, idx int) int {
				switch name {
				case "loop_filter_level", "cdef_bits":
					return -1
				}
				return 0
			}}.Scenario(),
	)
	r.Bound("up to %d departures among the filter fields from 4 base assignments x frame kinds x plane layouts x tools, every restoration type combination, every value of each field, every subset of delta updates", bound)
	r.Finish()
}
