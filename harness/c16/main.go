// C16: film grain parameters.
package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func main() {
	r := mc.Start()
	own := []string{"grain", "end"}
	bound := 2
	if r.Thorough() {
		bound = 3
	}
	fields := []string{"apply_grain", "grain_seed", "update_grain", "num_y_points", "point_y_value", "point_y_scaling", "chroma_scaling_from_luma", "num_cb_points", "point_cb_value",
		"point_cb_scaling", "num_cr_points", "point_cr_value", "point_cr_scaling", "grain_scaling_minus_8", "ar_coeff_lag", "ar_coeffs_y_plus_128", "ar_coeffs_cb_plus_128",
		"ar_coeffs_cr_plus_128", "ar_coeff_shift_minus_6", "grain_scale_shift", "cb_mult", "cb_luma_mult", "cb_offset", "cr_mult", "cr_luma_mult", "cr_offset",
		"overlap_flag", "clip_to_restricted_range"}
	base := map[string]int{"film_grain_params_present": 1, "uniform_tile_spacing_flag": 1, "frame_refs_short_signaling": 0, "segmentation_enabled": 0, "is_global": 0}
	planes := hdr.Axis{{"mono_chrome": 0}, {"mono_chrome": 1}, {"seq_profile": 1}, {"seq_profile": 2, "mono_chrome": 0, "high_bitdepth": 0, "color_description_present_flag": 0}}
	counts := func(name string, idx int) int {
		switch name {
		case "num_y_points", "num_cb_points", "num_cr_points", "ar_coeff_lag", "chroma_scaling_from_luma", "apply_grain":
			return -1
		}
		return 0
	}
	kinds := hdr.Axis{hdr.Kinds[0], hdr.Kinds[2], hdr.Kinds[4]}
	r.Explore(
		hdr.Plan{Name: "present or not", Axes: []hdr.Axis{hdr.Kinds, planes, hdr.Flag("film_grain_params_present"), hdr.Flag("showable_frame")}, Over: map[string]int{"uniform_tile_spacing_flag": 1},
			Cost: hdr.Focus(0, "apply_grain", "show_frame", "showable_frame", "frame_type"), Bound: 3, Own: own}.Scenario(),
		hdr.Plan{Name: "departures from base headers", Over: gen.Merge(base, map[string]int{"apply_grain": 1, "num_y_points": 2, "num_cb_points": 1, "num_cr_points": 2, "ar_coeff_lag": 1}), Axes: []hdr.Axis{kinds, planes},
			Profiles: []int{0, 1, 2}, Cost: hdr.Focus(3, fields...), Bound: bound, Own: own}.Scenario(),
		hdr.Plan{Name: "every count and lag", Over: base, Axes: []hdr.Axis{{hdr.Kinds[0], hdr.Kinds[2]}, planes}, Profiles: []int{2}, Cost: counts, Own: own,
			Whole: 2, Values: map[string][]int{"num_y_points": {0, 1, 2, 13, 14, 15}, "num_cb_points": {0, 1, 2, 9, 10, 15}, "num_cr_points": {0, 1, 2, 9, 10, 15}}}.Scenario(),
		hdr.Plan{Name: "every value", Over: gen.Merge(base, hdr.Kinds[0], map[string]int{"apply_grain": 1}), Axes: []hdr.Axis{planes}, Profiles: []int{1, 3}, Cost: hdr.Focus(2, fields...), Whole: 9, Bound: 1, Own: own}.Scenario(),
	)
	r.Bound("7 frame kinds x 4 chroma layouts x presence; up to %d departures among the grain fields; every combination of counts, lag and derivation from luma; every value of each field", bound)
	r.Assume("grain parameters taken from a reference (update_grain = 0) are announced as not implemented and left out")
	r.Finish()
}
