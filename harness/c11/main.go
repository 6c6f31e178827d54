// C11: quantizer, lossless and delta-q/lf state.
package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func main() {
	r := mc.Start()
	bound := 2
	if r.Thorough() {
		bound = 3
	}
	own := []string{"quant", "dq"}
	quant := []string{"base_q_idx", "delta_q_y_dc.delta_coded", "delta_q_y_dc", "diff_uv_delta", "delta_q_u_dc.delta_coded", "delta_q_u_dc", "delta_q_u_ac.delta_coded", "delta_q_u_ac",
		"delta_q_v_dc.delta_coded", "delta_q_v_dc", "delta_q_v_ac.delta_coded", "delta_q_v_ac", "using_qmatrix", "qm_y", "qm_u", "qm_v",
		"delta_q_present", "delta_q_res", "delta_lf_present", "delta_lf_res", "delta_lf_multi", "segmentation_enabled"}
	base := map[string]int{"film_grain_params_present": 0, "uniform_tile_spacing_flag": 1}
	planes := hdr.Axis{{"mono_chrome": 0, "separate_uv_delta_q": 0}, {"mono_chrome": 0, "separate_uv_delta_q": 1}, {"mono_chrome": 1}}
	kinds := hdr.Axis{hdr.Kinds[0], hdr.Kinds[2], hdr.Kinds[4]}
	r.Explore(
		hdr.Plan{Name: "departures from base headers", Over: base, Axes: []hdr.Axis{kinds, planes, hdr.Flag("segmentation_enabled"), hdr.Flag("enable_superres")}, Priors: []int{0, 1},
			Profiles: []int{0, 1, 2, 3}, Cost: hdr.Focus(3, quant...), Whole: 4, All: func(n string) bool { return n == "base_q_idx" }, Bound: bound, Own: own}.Scenario(),
		// lossless: everything about index zero
		hdr.Plan{Name: "around lossless", Over: gen.Merge(base, map[string]int{"frame_type": 0, "show_frame": 1, "segmentation_enabled": 1, "feature_enabled": 0, "delta_q_present": 1}),
			Axes: []hdr.Axis{planes, hdr.Flag("base_q_idx", 0, 1, 5, 20), hdr.Flag("enable_superres"), hdr.Flag("use_superres"), hdr.Flag("using_qmatrix")}, Profiles: []int{0, 2}, Priors: []int{1},
			Cost: func(name string, idx int) int {
				switch name {
				case "delta_q_y_dc.delta_coded", "delta_q_u_dc.delta_coded", "delta_q_u_ac.delta_coded", "delta_q_v_dc.delta_coded", "delta_q_v_ac.delta_coded", "diff_uv_delta", "delta_q_present":
					return 1
				case "delta_q_y_dc", "delta_q_u_dc", "delta_q_u_ac", "delta_q_v_dc", "delta_q_v_ac":
					return 1
				case "feature_enabled", "feature_value":
					if idx%8 == 0 {
						return 1
					}
				}
				return 0
			}, Bound: bound + 1, Values: map[string][]int{"feature_value": {0, 1, 5, 20, 255, 256, 511, 512 - 1, 512 - 5, 512 - 20, 512 - 255},
				"delta_q_y_dc": {0, 1, 127}, "delta_q_u_dc": {0, 1, 127}, "delta_q_u_ac": {0, 1, 127}, "delta_q_v_dc": {0, 1, 127}, "delta_q_v_ac": {0, 1, 127}}, Own: own}.Scenario(),
		// every offset of every base index
		hdr.Plan{Name: "every base index and segment offset", Over: gen.Merge(base, map[string]int{"frame_type": 0, "show_frame": 1, "segmentation_enabled": 1, "delta_q_present": 1}), Profiles: []int{0, 2}, Priors: []int{0, 1, 2},
			Cost: func(name string, idx int) int {
				switch {
				case name == "base_q_idx":
					return -1
				case name == "delta_q_present":
					return -1
				case name == "feature_enabled" && idx == 16 || name == "feature_value" && idx == 16:
					return -1
				}
				return 0
			}, Whole: 9, Values: map[string][]int{"feature_value": {0, 1, 2, 100, 200, 254, 255, 256, 257, 300, 400, 510, 511}}, Own: own}.Scenario(),
		hdr.Plan{Name: "every delta", Over: base, Axes: []hdr.Axis{planes, hdr.Flag("diff_uv_delta")}, Profiles: []int{1, 3}, Whole: 7, Bound: 1,
			Cost: hdr.Focus(2, "delta_q_y_dc", "delta_q_u_dc", "delta_q_u_ac", "delta_q_v_dc", "delta_q_v_ac", "qm_y", "qm_u", "qm_v"), Own: own}.Scenario(),
	)
	r.Bound("3 frame kinds x 3 plane layouts x segmentation x superres x 4 base assignments, up to %d departures among the quantizer fields; all 256 base indices; every combination of lossless conditions up to %d departures; every value of each delta", bound, bound+1)
	r.Finish()
}
