// C12: segmentation parameters.
package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

func main() {
	r := mc.Start()
	own := []string{"seg"}
	base := map[string]int{"film_grain_params_present": 0, "uniform_tile_spacing_flag": 1, "segmentation_enabled": 1}
	kinds := hdr.Axis{hdr.Kinds[0], hdr.Kinds[2], hdr.Kinds[3], hdr.Kinds[5]}
	seg := hdr.Focus(3, "segmentation_enabled", "feature_enabled", "feature_value")
	bound := 2
	profiles := []int{0, 1, 2}
	if r.Thorough() {
		profiles = []int{0, 1, 2, 3, 4, 5}
		bound = 3
	}
	kinds2 := kinds
	if !r.Thorough() {
		kinds2 = kinds[:2]
	}
	r.Explore(
		hdr.Plan{Name: "one departure", Over: base, Axes: []hdr.Axis{kinds, hdr.Flag("frame_size_override_flag", 0)}, Profiles: []int{0, 1, 2, 3, 4}, Priors: []int{0, 1, 2}, Cost: seg, Bound: 1, Whole: 9, Own: own}.Scenario(),
		hdr.Plan{Name: "two departures", Over: base, Axes: []hdr.Axis{kinds2}, Profiles: profiles, Priors: []int{1}, Cost: seg, Bound: 2, Own: own,
			Values: map[string][]int{"feature_value": {0, 1, 7, 63, 64, 127, 255, 256, 257, 300, 511}}}.Scenario(),
		hdr.Plan{Name: "off, after anything", Over: map[string]int{"segmentation_enabled": 0, "film_grain_params_present": 0}, Axes: []hdr.Axis{hdr.Kinds}, Priors: []int{0, 1, 2, 3, 4, 5}, Bound: 1, Cost: hdr.Focus(1), Own: own}.Scenario(),
		// which features of which segments: the last active one and the pre-skip flag
		hdr.Plan{Name: "every feature of two segments", Over: gen.Merge(base, hdr.Kinds[0]), Axes: []hdr.Axis{hdr.Flag("frame_size_override_flag", 0)}, Profiles: []int{0}, Priors: []int{2}, Own: own,
			Cost: func(name string, idx int) int {
				if name == "feature_enabled" && (idx/8 == 2 || idx/8 == 5) && idx%8 != 2 && idx%8 != 3 {
					return -1
				}
				return 0
			}}.Scenario(),
		hdr.Plan{Name: "one feature over all segments", Over: gen.Merge(base, hdr.Kinds[0]), Axes: []hdr.Axis{hdr.Flag("base_q_idx", 0, 77)}, Profiles: []int{0, 1, 2}, Priors: []int{1}, Bound: bound, Own: own,
			Cost: func(name string, idx int) int {
				if name == "feature_enabled" && (idx%8 == 0 || idx%8 == 5) {
					return 1
				}
				return 0
			}}.Scenario(),
	)
	r.Bound("every value of every feature of every segment alone, every pair of departures, up to %d enables over segments, every combination of 6 features of 2 segments, 3 to 6 prior states", bound)
	r.Finish()
}
