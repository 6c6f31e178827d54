package spec

// Seq is a sequence header (5.5).
type Seq struct {
	Profile, Still, Reduced                                 int
	TimingInfo                                              int
	UnitsInTick, TimeScale, EqualInterval, TicksPerPicture1 int
	DecoderModelInfo                                        int
	BufDelayLen1, UnitsInDecTick, RemovalLen1, PresLen1     int
	InitialDelay                                            int
	OpCnt1                                                  int
	Idc, Level, Tier                                        []int
	OpModel, DecDelay, EncDelay, LowDelay                   []int
	OpDelayPresent, OpDelay1                                []int
	WBits1, HBits1, MaxW1, MaxH1                            int
	FrameIds, DeltaIdLen2, AddIdLen1                        int
	SB128, FilterIntra, IntraEdge                           int
	InterIntra, Masked, Warped, Dual                        int
	OrderHint, Jnt, RefMvs                                  int
	ChooseSCT, ForceSCT, ForceIntMv                         int
	OrderHintBits                                           int
	SuperRes, Cdef, Restoration, FilmGrain                  int
	Color                                                   Color

	Marks map[string]int // bit position of the end of each part
}

type Color struct {
	HighBitDepth, TwelveBit, BitDepth, Mono, Planes int
	DescPresent, Primaries, Transfer, Matrix        int
	Range, SubX, SubY, SamplePos, SeparateUV        int
}

// ReadSeq is sequence_header_obu( ).
func ReadSeq(s Source) *Seq {
	q := &Seq{Marks: map[string]int{}}
	q.Profile = s.F(3, "seq_profile", 0)
	q.Still = s.F(1, "still_picture", 0)
	q.Reduced = s.F(1, "reduced_still_picture_header", 0)
	q.Marks["start"] = s.Pos()
	if q.Reduced == 1 {
		q.Idc = []int{0}
		q.Level = []int{s.F(5, "seq_level_idx", 0)}
		q.Tier = []int{0}
		q.OpModel = []int{0}
		q.OpDelayPresent = []int{0}
		q.OpDelay1 = []int{0}
		q.DecDelay, q.EncDelay, q.LowDelay = []int{0}, []int{0}, []int{0}
	} else {
		q.TimingInfo = s.F(1, "timing_info_present_flag", 0)
		if q.TimingInfo == 1 {
			q.UnitsInTick = s.F(32, "num_units_in_display_tick", 0)
			q.TimeScale = s.F(32, "time_scale", 0)
			q.EqualInterval = s.F(1, "equal_picture_interval", 0)
			if q.EqualInterval == 1 {
				q.TicksPerPicture1 = s.Uvlc("num_ticks_per_picture_minus_1")
			}
			q.DecoderModelInfo = s.F(1, "decoder_model_info_present_flag", 0)
			if q.DecoderModelInfo == 1 {
				q.BufDelayLen1 = s.F(5, "buffer_delay_length_minus_1", 0)
				q.UnitsInDecTick = s.F(32, "num_units_in_decoding_tick", 0)
				q.RemovalLen1 = s.F(5, "buffer_removal_time_length_minus_1", 0)
				q.PresLen1 = s.F(5, "frame_presentation_time_length_minus_1", 0)
			}
		}
		q.InitialDelay = s.F(1, "initial_display_delay_present_flag", 0)
		q.OpCnt1 = s.F(5, "operating_points_cnt_minus_1", 0)
		for i := 0; i <= q.OpCnt1; i++ {
			q.Idc = append(q.Idc, s.F(12, "operating_point_idc", i))
			q.Level = append(q.Level, s.F(5, "seq_level_idx", i))
			t := 0
			if q.Level[i] > 7 {
				t = s.F(1, "seq_tier", i)
			}
			q.Tier = append(q.Tier, t)
			var m, dd, ed, ld int
			if q.DecoderModelInfo == 1 {
				m = s.F(1, "decoder_model_present_for_this_op", i)
				if m == 1 {
					n := q.BufDelayLen1 + 1
					dd = s.F(n, "decoder_buffer_delay", i)
					ed = s.F(n, "encoder_buffer_delay", i)
					ld = s.F(1, "low_delay_mode_flag", i)
				}
			}
			q.OpModel = append(q.OpModel, m)
			q.DecDelay = append(q.DecDelay, dd)
			q.EncDelay = append(q.EncDelay, ed)
			q.LowDelay = append(q.LowDelay, ld)
			var p, d int
			if q.InitialDelay == 1 {
				p = s.F(1, "initial_display_delay_present_for_this_op", i)
				if p == 1 {
					d = s.F(4, "initial_display_delay_minus_1", i)
				}
			}
			q.OpDelayPresent = append(q.OpDelayPresent, p)
			q.OpDelay1 = append(q.OpDelay1, d)
		}
	}
	q.Marks["op"] = s.Pos()
	q.WBits1 = s.F(4, "frame_width_bits_minus_1", 0)
	q.HBits1 = s.F(4, "frame_height_bits_minus_1", 0)
	q.MaxW1 = s.F(q.WBits1+1, "max_frame_width_minus_1", 0)
	q.MaxH1 = s.F(q.HBits1+1, "max_frame_height_minus_1", 0)
	if q.Reduced == 0 {
		q.FrameIds = s.F(1, "frame_id_numbers_present_flag", 0)
	}
	if q.FrameIds == 1 {
		q.DeltaIdLen2 = s.F(4, "delta_frame_id_length_minus_2", 0)
		q.AddIdLen1 = s.F(3, "additional_frame_id_length_minus_1", 0)
	}
	q.SB128 = s.F(1, "use_128x128_superblock", 0)
	q.FilterIntra = s.F(1, "enable_filter_intra", 0)
	q.IntraEdge = s.F(1, "enable_intra_edge_filter", 0)
	q.ForceSCT, q.ForceIntMv = 2, 2
	if q.Reduced == 0 {
		q.InterIntra = s.F(1, "enable_interintra_compound", 0)
		q.Masked = s.F(1, "enable_masked_compound", 0)
		q.Warped = s.F(1, "enable_warped_motion", 0)
		q.Dual = s.F(1, "enable_dual_filter", 0)
		q.OrderHint = s.F(1, "enable_order_hint", 0)
		if q.OrderHint == 1 {
			q.Jnt = s.F(1, "enable_jnt_comp", 0)
			q.RefMvs = s.F(1, "enable_ref_frame_mvs", 0)
		}
		q.ChooseSCT = s.F(1, "seq_choose_screen_content_tools", 0)
		if q.ChooseSCT == 0 {
			q.ForceSCT = s.F(1, "seq_force_screen_content_tools", 0)
		}
		if q.ForceSCT > 0 {
			if s.F(1, "seq_choose_integer_mv", 0) == 0 {
				q.ForceIntMv = s.F(1, "seq_force_integer_mv", 0)
			}
		}
		if q.OrderHint == 1 {
			q.OrderHintBits = s.F(3, "order_hint_bits_minus_1", 0) + 1
		}
	}
	q.SuperRes = s.F(1, "enable_superres", 0)
	q.Cdef = s.F(1, "enable_cdef", 0)
	q.Restoration = s.F(1, "enable_restoration", 0)
	q.Marks["general"] = s.Pos()
	q.Color = readColor(s, q.Profile)
	q.Marks["color"] = s.Pos()
	q.FilmGrain = s.F(1, "film_grain_params_present", 0)
	q.Marks["end"] = s.Pos()
	return q
}

// readColor is color_config( ).
func readColor(s Source, profile int) Color {
	var c Color
	c.HighBitDepth = s.F(1, "high_bitdepth", 0)
	c.BitDepth = 8
	if c.HighBitDepth == 1 {
		c.BitDepth = 10
		if profile == 2 {
			c.TwelveBit = s.F(1, "twelve_bit", 0)
			if c.TwelveBit == 1 {
				c.BitDepth = 12
			}
		}
	}
	if profile != 1 {
		c.Mono = s.F(1, "mono_chrome", 0)
	}
	c.Planes = 3 - 2*c.Mono
	c.DescPresent = s.F(1, "color_description_present_flag", 0)
	c.Primaries, c.Transfer, c.Matrix = 2, 2, 2
	if c.DescPresent == 1 {
		c.Primaries = s.F(8, "color_primaries", 0)
		c.Transfer = s.F(8, "transfer_characteristics", 0)
		c.Matrix = s.F(8, "matrix_coefficients", 0)
	}
	switch {
	case c.Mono == 1:
		c.Range = s.F(1, "color_range", 0)
		c.SubX, c.SubY = 1, 1
		return c
	case c.Primaries == 1 && c.Transfer == 13 && c.Matrix == 0:
		c.Range = 1
	default:
		c.Range = s.F(1, "color_range", 0)
		switch profile {
		case 0:
			c.SubX, c.SubY = 1, 1
		case 1:
		default:
			if c.BitDepth == 12 {
				c.SubX = s.F(1, "subsampling_x", 0)
				if c.SubX == 1 {
					c.SubY = s.F(1, "subsampling_y", 0)
				}
			} else {
				c.SubX = 1
			}
		}
		if c.SubX == 1 && c.SubY == 1 {
			c.SamplePos = s.F(2, "chroma_sample_position", 0)
		}
	}
	c.SeparateUV = s.F(1, "separate_uv_delta_q", 0)
	return c
}
