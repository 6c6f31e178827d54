// C15: global motion parameters.
package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/gen"
	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
	"github.com/m4tthewde/gov1/internal/zzverif/mc"
)

var types = []string{"is_global", "is_rot_zoom", "is_translation"}

func main() {
	r := mc.Start()
	own := []string{"gm"}
	bound := 2
	if r.Thorough() {
		bound = 3
	}
	base := map[string]int{"film_grain_params_present": 0, "uniform_tile_spacing_flag": 1, "frame_refs_short_signaling": 0, "segmentation_enabled": 0,
		"seq_choose_screen_content_tools": 0, "seq_force_screen_content_tools": 0}
	kinds := hdr.Axis{hdr.Kinds[2], hdr.Kinds[3]}
	hp := hdr.Flag("allow_high_precision_mv")
	scs := []mc.Scenario{
		hdr.Plan{Name: "types of the seven references", Over: base, Axes: []hdr.Axis{hdr.Axis{hdr.Kinds[3]}, hp}, Profiles: []int{0, 2}, Own: own,
			Cost: func(name string, idx int) int {
				switch name {
				case "is_global":
					return -1
				case "is_rot_zoom", "is_translation":
					if idx < 3 || idx == 7 {
						return -1
					}
				}
				return 0
			}}.Scenario(),
		hdr.Plan{Name: "departures from base headers", Over: base, Axes: []hdr.Axis{kinds, hp}, Profiles: []int{0, 1, 2, 3, 4}, Priors: []int{0, 1}, Bound: bound, Own: own, Whole: 4,
			Cost: func(name string, idx int) int {
				switch name {
				case "is_global", "is_rot_zoom", "is_translation":
					return 1
				case "subexp_more_bits", "subexp_bits", "subexp_final_bits", "subexp_final_bits.extra_bit":
					ref := idx / 6
					if name == "subexp_more_bits" {
						ref = idx / 16 / 6
					}
					if ref == 1 || ref == 7 {
						return 1
					}
					return 2
				}
				return 0
			}}.Scenario(),
		hdr.Plan{Name: "intra frames", Axes: []hdr.Axis{hdr.IntraKinds}, Priors: []int{0, 1, 2}, Cost: hdr.Focus(1), Bound: 1, Own: own}.Scenario(),
	}
	// every code word of every parameter of one reference
	for _, ref := range []int{1, 4, 7} {
		for typ := 1; typ <= 3; typ++ {
			ref, typ := ref, typ
			over := gen.Merge(base, map[string]int{"is_global": 1, "is_rot_zoom": b2i(typ == 2), "is_translation": b2i(typ == 1), "subexp_more_bits": 0})
			for i := 0; i < 6; i++ {
				if typ == 1 && i > 1 || typ == 2 && i > 3 {
					continue
				}
				if ref == 4 && i > 2 && !r.Thorough() {
					continue
				}
				param := ref*6 + i
				scs = append(scs, hdr.Plan{Name: "every code word of reference " + string(rune('0'+ref)) + ", type " + string(rune('0'+typ)) + ", parameter " + string(rune('0'+i)), Over: over, Axes: []hdr.Axis{{hdr.Kinds[3]}, hp}, Profiles: []int{2}, Own: own, Whole: 13,
					Cost: func(name string, idx int) int {
						if name == "subexp_more_bits" && idx/16 == param || (name == "subexp_bits" || name == "subexp_final_bits" || name == "subexp_final_bits.extra_bit") && idx == param {
							return -1
						}
						return 0
					}}.Scenario())
			}
		}
	}
	scs = append(scs, internal(r.Thorough())...)
	r.Explore(scs...)
	r.Bound("every type assignment of the references (4 fully), up to %d departures, every code word of every parameter of references 1, 4 and 7, and, through an internal seam, every code word around previous parameters over their whole range", bound)
	r.Finish()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
