// C07: color configuration.
package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func main() {
	r := mc.Start()
	own := []string{"color"}
	codes := []int{0, 1, 2, 3, 9, 12, 13, 14, 16, 22, 128, 129, 255}
	few := []int{0, 1, 2, 13, 255}
	if r.Thorough() {
		few = codes
	}
	free := func(name string, idx int) int {
		switch name {
		case "high_bitdepth", "twelve_bit", "mono_chrome", "color_description_present_flag", "color_primaries", "transfer_characteristics",
			"matrix_coefficients", "color_range", "subsampling_x", "subsampling_y", "chroma_sample_position", "separate_uv_delta_q", "film_grain_params_present":
			return -1
		}
		return 0
	}
	profiles := hdr.Flag("seq_profile", 0, 1, 2)
	base := map[string]int{"timing_info_present_flag": 0, "operating_points_cnt_minus_1": 0}
	r.Explore(
		hdr.SeqPlan{Name: "every combination", Over: base, Axes: []hdr.Axis{profiles, hdr.Flag("reduced_still_picture_header")}, Profiles: []int{0, 1}, Cost: free, Whole: 3, Bound: 1, Own: own,
			Values: map[string][]int{"color_primaries": few, "transfer_characteristics": few, "matrix_coefficients": few}}.Scenario(),
		hdr.SeqPlan{Name: "every code point near sRGB", Over: map[string]int{"timing_info_present_flag": 0, "operating_points_cnt_minus_1": 0, "mono_chrome": 0, "color_description_present_flag": 1,
			"color_primaries": 1, "transfer_characteristics": 13, "matrix_coefficients": 0}, Axes: []hdr.Axis{profiles, hdr.Flag("high_bitdepth"), hdr.Flag("twelve_bit"), hdr.Flag("color_range"), hdr.Flag("separate_uv_delta_q")},
			Profiles: []int{0, 1, 2}, Whole: 8, Bound: 1, Own: own, Cost: hdr.Focus(2, "color_primaries", "transfer_characteristics", "matrix_coefficients")}.Scenario(),
		hdr.SeqPlan{Name: "behind other headers", Axes: []hdr.Axis{profiles}, Profiles: []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, Whole: 3, Bound: 2, Own: own, Cost: hdr.Focus(2, "high_bitdepth", "twelve_bit", "mono_chrome", "color_description_present_flag", "color_range",
			"subsampling_x", "subsampling_y", "chroma_sample_position", "separate_uv_delta_q")}.Scenario(),
	)
	r.Bound("every combination of all color fields for profiles 0, 1, 2, with %d code points for each of the three 8-bit codes, and all 256 of each alone around sRGB", len(few))
	r.Finish()
}
