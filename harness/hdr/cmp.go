// Package hdr runs header histories on the decoder and on the reference model and compares what they leave.
package hdr

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// Diff is one disagreement, in the part of the header that governs it.
type Diff struct {
	Part, Name string
	Want, Got  interface{}
}

func (d Diff) String() string { return fmt.Sprintf("%s = %v, want %v", d.Name, d.Got, d.Want) }

type list struct {
	part string
	d    []Diff
}

func (l *list) i(name string, want, got int) {
	if want != got {
		l.d = append(l.d, Diff{l.part, name, want, got})
	}
}

func (l *list) b(name string, want int, got bool) {
	if (want == 1) != got {
		l.d = append(l.d, Diff{l.part, name, want, got})
	}
}

func (l *list) s(name string, want, got []int) {
	if len(want) != len(got) {
		l.d = append(l.d, Diff{l.part, name, want, got})
		return
	}
	for i := range want {
		if want[i] != got[i] {
			l.d = append(l.d, Diff{l.part, fmt.Sprintf("%s[%d]", name, i), want[i], got[i]})
			return
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func ints(b []bool) []int {
	o := make([]int, len(b))
	for i := range b {
		o[i] = b2i(b[i])
	}
	return o
}

// Seq compares a sequence header, and what it leaves in the state if that is given: parts "general", "op" and "color".
func Seq(q *spec.Seq, h *sequenceheader.SequenceHeader, s *state.State) []Diff {
	l := list{part: "general"}
	l.i("seq_profile", q.Profile, h.SeqProfile)
	l.b("still_picture", q.Still, h.StillPicture)
	l.b("reduced_still_picture_header", q.Reduced, h.ReducedStillPictureHeader)
	l.part = "op"
	l.i("num_units_in_display_tick", q.UnitsInTick, h.TimingInfo.NumUnitsInDisplayTick)
	l.i("time_scale", q.TimeScale, h.TimingInfo.TimeScale)
	l.b("equal_picture_interval", q.EqualInterval, h.TimingInfo.EqualPictureInterval)
	l.i("num_ticks_per_picture_minus_1", q.TicksPerPicture1, h.TimingInfo.NumTicksPerMinuteMinusOne)
	l.b("decoder_model_info_present_flag", q.DecoderModelInfo, h.DecoderModelInfoPresent)
	l.i("buffer_delay_length_minus_1", q.BufDelayLen1, h.DecoderModelInfo.BufferDelayLengthMinusOne)
	l.i("num_units_in_decoding_tick", q.UnitsInDecTick, h.DecoderModelInfo.NumUnitsInDecodingTick)
	l.i("buffer_removal_time_length_minus_1", q.RemovalLen1, h.DecoderModelInfo.BufferRemovalTimeLengthMinusOne)
	l.i("frame_presentation_time_length_minus_1", q.PresLen1, h.DecoderModelInfo.FramePresentationTimeLengthMinusOne)
	l.b("initial_display_delay_present_flag", q.InitialDelay, h.InitialDisplayDelayPresent)
	l.i("operating_points_cnt_minus_1", q.OpCnt1, h.OperatingPointsCountMinusOne)
	l.s("operating_point_idc", q.Idc, h.OperatingPointIdc)
	l.s("seq_level_idx", q.Level, h.SeqLevelIdx)
	l.s("seq_tier", q.Tier, h.SeqTier)
	l.s("decoder_model_present_for_this_op", q.OpModel, ints(h.DecoderModelPresentForThisOp))
	l.s("initial_display_delay_present_for_this_op", q.OpDelayPresent, ints(h.InitialDisplayDelayPresentForThisOp))
	for i := 0; i <= q.OpCnt1; i++ {
		at := func(name string, want int, got []int) {
			if i >= len(got) {
				l.d = append(l.d, Diff{l.part, fmt.Sprintf("%s[%d]", name, i), want, "missing"})
			} else {
				l.i(fmt.Sprintf("%s[%d]", name, i), want, got[i])
			}
		}
		if q.OpDelayPresent[i] == 1 {
			at("initial_display_delay_minus_1", q.OpDelay1[i], h.InitialDisplayDelayMinusOne)
		}
		if q.OpModel[i] == 1 {
			at("decoder_buffer_delay", q.DecDelay[i], h.DecoderBufferDelay)
			at("encoder_buffer_delay", q.EncDelay[i], h.EncoderBufferDelay)
			at("low_delay_mode_flag", q.LowDelay[i], ints(h.LowDelayModeFlag))
		}
	}
	if s != nil {
		l.i("OperatingPointIdc", q.Idc[0], s.OperatingPointIdc)
	}
	l.part = "general"
	l.i("frame_width_bits_minus_1", q.WBits1, h.FrameWidthBitsMinusOne)
	l.i("frame_height_bits_minus_1", q.HBits1, h.FrameHeightBitsMinusOne)
	l.i("max_frame_width_minus_1", q.MaxW1, h.MaxFrameWidthMinusOne)
	l.i("max_frame_height_minus_1", q.MaxH1, h.MaxFrameHeightMinusOne)
	l.b("frame_id_numbers_present_flag", q.FrameIds, h.FrameIdNumbersPresent)
	l.i("delta_frame_id_length_minus_2", q.DeltaIdLen2, h.DeltaFrameIdLengthMinusTwo)
	l.i("additional_frame_id_length_minus_1", q.AddIdLen1, h.AdditionalFrameIdLengthMinusOne)
	l.b("use_128x128_superblock", q.SB128, h.Use128x128SuperBlock)
	l.b("enable_filter_intra", q.FilterIntra, h.EnableFilterIntra)
	l.b("enable_intra_edge_filter", q.IntraEdge, h.EnableIntraEdgeFilter)
	l.b("enable_interintra_compound", q.InterIntra, h.EnableInterIntraCompound)
	l.b("enable_masked_compound", q.Masked, h.EnableMaskedCompound)
	l.b("enable_warped_motion", q.Warped, h.EnableWarpedMotion)
	l.b("enable_dual_filter", q.Dual, h.EnableDualFilter)
	l.b("enable_order_hint", q.OrderHint, h.EnableOrderHint)
	l.b("enable_jnt_comp", q.Jnt, h.EnableJntComp)
	l.b("enable_ref_frame_mvs", q.RefMvs, h.EnableRefFrameMvs)
	l.b("seq_choose_screen_content_tools", q.ChooseSCT, h.SeqChooseScreenContentTools)
	l.i("seq_force_screen_content_tools", q.ForceSCT, h.SeqForceScreenContentTools)
	l.i("seq_force_integer_mv", q.ForceIntMv, h.SeqForceIntegerMv)
	l.i("OrderHintBits", q.OrderHintBits, h.OrderHintBits)
	l.b("enable_superres", q.SuperRes, h.EnableSuperRes)
	l.b("enable_cdef", q.Cdef, h.EnableCdef)
	l.b("enable_restoration", q.Restoration, h.EnableRestoration)
	l.part = "color"
	c, g := &q.Color, &h.ColorConfig
	l.b("high_bitdepth", c.HighBitDepth, g.HighBitDepth)
	l.b("twelve_bit", c.TwelveBit, g.TwelveBit)
	l.i("BitDepth", c.BitDepth, g.BitDepth)
	l.b("mono_chrome", c.Mono, g.MonoChrome)
	l.i("NumPlanes", c.Planes, g.NumPlanes)
	l.b("color_description_present_flag", c.DescPresent, g.ColorDescriptionPresent)
	l.i("color_primaries", c.Primaries, g.ColorPrimaries)
	l.i("transfer_characteristics", c.Transfer, g.TransferCharacteristics)
	l.i("matrix_coefficients", c.Matrix, g.MatrixCoefficients)
	l.b("color_range", c.Range, g.ColorRange)
	l.b("subsampling_x", c.SubX, g.SubsamplingX)
	l.b("subsampling_y", c.SubY, g.SubsamplingY)
	l.i("chroma_sample_position", c.SamplePos, g.ChromaSamplePosition)
	l.b("separate_uv_delta_q", c.SeparateUV, g.SeparateUvDeltaQ)
	l.part = "general"
	l.b("film_grain_params_present", q.FilmGrain, h.FilmGrainParamsPresent)
	return l.d
}

// Apply puts the decoder in the state of the model. Everything that headers read or write is set.
func Apply(st *spec.State, s *state.State) {
	for i := 0; i < 8; i++ {
		s.RefValid[i], s.RefFrameId[i], s.RefOrderHint[i], s.RefFrameType[i] = st.RefValid[i], st.RefFrameId[i], st.RefOrderHint[i], st.RefFrameType[i]
		for j := 0; j < 8; j++ {
			s.FeatureEnabled[i][j], s.FeatureData[i][j] = st.FeatureEnabled[i][j], st.FeatureData[i][j]
		}
		s.GmType[i] = st.GmType[i]
		s.PrevGmParams[i] = st.PrevGmParams[i]
	}
	s.CurrentFrameId = st.CurrentFrameId
	s.MiCols, s.MiRows = st.MiCols, st.MiRows
	s.TileCols, s.TileRows, s.TileColsLog2, s.TileRowsLog2 = st.Tile.Cols, st.Tile.Rows, st.Tile.ColsLog2, st.Tile.RowsLog2
	s.MiColStarts = append([]int{}, st.Tile.ColStarts...)
	s.MiRowStarts = append([]int{}, st.Tile.RowStarts...)
	s.TileSizeBytes = st.Tile.SizeBytes
	s.LoopRestorationSize = st.LoopRestorationSize
	s.CurrentQIndex = st.CurrentQIndex
	s.PrevSegmentIds = nil
	s.SeenFrameHeader = false
}

// Tiles compares a tile layout.
func Tiles(t *spec.Tiles, ctx int, s *state.State) []Diff {
	l := list{part: "tile"}
	l.tiles(t, ctx, s)
	return l.d
}

func (l *list) tiles(t *spec.Tiles, ctx int, s *state.State) {
	l.i("TileCols", t.Cols, s.TileCols)
	l.i("TileRows", t.Rows, s.TileRows)
	l.i("TileColsLog2", t.ColsLog2, s.TileColsLog2)
	l.i("TileRowsLog2", t.RowsLog2, s.TileRowsLog2)
	starts := func(name string, want, got []int) {
		// room after the last entry is not an entry
		if len(got) > len(want) {
			got = got[:len(want)]
		}
		l.s(name, want, got)
	}
	starts("MiColStarts", t.ColStarts, s.MiColStarts)
	starts("MiRowStarts", t.RowStarts, s.MiRowStarts)
	l.i("context_update_tile_id", t.ContextUpdateId, ctx)
	if t.SizeBytesCoded {
		l.i("TileSizeBytes", t.SizeBytes, s.TileSizeBytes)
	}
}

// Refs compares the reference bookkeeping.
func Refs(st *spec.State, s *state.State) []Diff {
	l := list{part: "ref"}
	for i := 0; i < 8; i++ {
		l.i(fmt.Sprintf("RefValid[%d]", i), st.RefValid[i], s.RefValid[i])
		l.i(fmt.Sprintf("RefFrameId[%d]", i), st.RefFrameId[i], s.RefFrameId[i])
		l.i(fmt.Sprintf("RefOrderHint[%d]", i), st.RefOrderHint[i], s.RefOrderHint[i])
		l.i(fmt.Sprintf("RefFrameType[%d]", i), st.RefFrameType[i], s.RefFrameType[i])
	}
	l.i("current frame id", st.CurrentFrameId, s.CurrentFrameId)
	return l.d
}

// Frame compares a frame header and the state it leaves, in the order of the syntax.
func Frame(q *spec.Seq, f *spec.Frame, u *uncompressedheader.UncompressedHeader, st *spec.State, s *state.State) []Diff {
	l := list{part: "ref"}
	l.d = Refs(st, s)
	l.part = "ctl"
	l.b("show_existing_frame", f.ShowExisting, u.ShowExistingFrame)
	if f.ShowExisting == 1 {
		l.part = "ref"
		l.i("frame_to_show_map_idx", f.FrameToShow, u.FrameToShowMapIdx)
		if f.PresTimeCoded {
			l.i("frame_presentation_time", f.PresTime, u.FramePresentationTime)
		}
		if q.FrameIds == 1 {
			l.i("display_frame_id", f.DisplayId, u.DisplayFrameId)
		}
		l.i("frame_type", f.Type, u.FrameType)
		return l.d
	}
	l.i("frame_type", f.Type, u.FrameType)
	l.b("FrameIsIntra", f.Intra, u.FrameIsIntra)
	l.b("show_frame", f.Show, u.ShowFrame)
	if f.PresTimeCoded {
		l.i("frame_presentation_time", f.PresTime, u.FramePresentationTime)
	}
	l.b("showable_frame", f.Showable, u.ShowableFrame)
	l.b("disable_cdf_update", f.DisableCdf, u.DisableCdfUpdate)
	l.i("allow_screen_content_tools", f.AllowSCT, u.AllowScreenContentTools)
	l.b("force_integer_mv", f.ForceIntMv, u.ForceIntegerMv)
	if q.FrameIds == 1 {
		l.i("current_frame_id", f.CurrentId, u.CurrentFrameId)
		l.i("PrevFrameId", f.PrevId, u.PrevFrameId)
		l.s("RefFrameId", f.RefIds, u.RefFrameId)
	}
	l.b("frame_size_override_flag", f.SizeOverride, u.FrameSizeOverrideFlag)
	l.i("order_hint", f.OrderHint, u.OrderHint)
	l.i("primary_ref_frame", f.PrimaryRef, u.PrimaryRefFrame)
	l.i("refresh_frame_flags", f.Refresh, u.RefreshFrameFlags)
	if f.Intra == 0 {
		l.s("ref_frame_idx", f.RefIdx[:], u.RefFrameIdx[:])
	}
	l.part = "size"
	l.b("use_superres", f.SuperRes, u.UseSuperRes)
	l.i("SuperresDenom", f.Denom, u.SuperResDenom)
	l.i("UpscaledWidth", f.UpW, u.UpscaledWidth)
	l.i("FrameWidth", f.W, u.FrameWidth)
	l.i("FrameHeight", f.H, u.FrameHeight)
	l.i("RenderWidth", f.RenderW, u.RenderWidth)
	l.i("RenderHeight", f.RenderH, u.RenderHeight)
	l.i("MiCols", st.MiCols, s.MiCols)
	l.i("MiRows", st.MiRows, s.MiRows)
	l.b("allow_intrabc", f.IntraBc, u.AllowIntraBc)
	l.part = "ctl2"
	if f.Intra == 0 {
		l.b("allow_high_precision_mv", f.HighPrec, u.AllowHighPrecisionMv)
		l.i("interpolation_filter", f.Filter, u.InterpolationFilter)
		l.b("is_motion_mode_switchable", f.MotionSwitchable, u.IsMotionModeSwitchable)
		l.b("use_ref_frame_mvs", f.RefMvs, u.UseRefFrameMvs)
		l.part = "hint"
		for i := 1; i < 8; i++ {
			l.i(fmt.Sprintf("OrderHints[%d]", i), f.OrderHints[i], u.OrderHints[i])
			l.b(fmt.Sprintf("RefFrameSignBias[%d]", i), f.SignBias[i], u.RefFrameSignBias[i])
		}
	}
	l.part = "ctl2"
	l.b("disable_frame_end_update_cdf", f.DisableEndCdf, u.DisableFrameEndUpdateCdf)
	l.part = "gm"
	for r := 1; r < 8; r++ {
		l.s(fmt.Sprintf("PrevGmParams[%d]", r), st.PrevGmParams[r][:], s.PrevGmParams[r][:])
	}
	l.part = "tile"
	l.tiles(&st.Tile, u.TileInfo.ContextUpdateTileId, s)
	l.part = "quant"
	l.i("base_q_idx", f.BaseQ, u.BaseQIdx)
	l.i("DeltaQYDc", f.YDc, u.DeltaQYDc)
	l.i("DeltaQUDc", f.UDc, u.DeltaQUDc)
	l.i("DeltaQUAc", f.UAc, u.DeltaQUAc)
	l.i("DeltaQVDc", f.VDc, u.DeltaQVDc)
	l.i("DeltaQVAc", f.VAc, u.DeltaQVAc)
	l.b("using_qmatrix", f.UsingQM, u.UsingQMatrix)
	if f.UsingQM == 1 {
		l.i("qm_y", f.QmY, u.Qmy)
		l.i("qm_u", f.QmU, u.Qmu)
		l.i("qm_v", f.QmV, u.Qmv)
	}
	l.part = "seg"
	l.b("segmentation_enabled", f.SegEnabled, u.SegmentationEnabled)
	if f.SegEnabled == 1 {
		l.i("segmentation_update_map", f.SegMap, u.SegmentationUpdateMap)
		l.i("segmentation_temporal_update", f.SegTemporal, u.SegmentationTemporalUpdate)
		l.i("segmentation_update_data", f.SegData, u.SegmentationUpdateData)
	}
	for i := 0; i < 8; i++ {
		l.s(fmt.Sprintf("FeatureEnabled[%d]", i), st.FeatureEnabled[i][:], s.FeatureEnabled[i][:])
		l.s(fmt.Sprintf("FeatureData[%d]", i), st.FeatureData[i][:], s.FeatureData[i][:])
	}
	l.i("SegIdPreSkip", f.SegPreSkip, u.SegIdPreSkip)
	l.i("LastActiveSegId", f.SegLast, u.LastActiveSegId)
	l.part = "dq"
	l.b("delta_q_present", f.DqPresent, u.DeltaQPresent)
	l.i("delta_q_res", f.DqRes, u.DeltaQRes)
	l.b("delta_lf_present", f.DlfPresent, u.DeltaLfPresent)
	l.i("delta_lf_res", f.DlfRes, u.DeltaLfRes)
	l.i("delta_lf_multi", f.DlfMulti, u.DeltaLfMulti)
	for i := 0; i < 8; i++ {
		l.b(fmt.Sprintf("LosslessArray[%d]", i), f.Lossless[i], u.LosslessArray[i])
	}
	if f.UsingQM == 1 {
		for p := 0; p < 3; p++ {
			l.s(fmt.Sprintf("SegQMLevel[%d]", p), f.QMLevel[p][:], u.SegQMLevel[p][:])
		}
	}
	l.b("CodedLossless", f.CodedLossless, u.CodedLossless)
	l.b("AllLossless", f.AllLossless, u.AllLossless)
	for seg := 0; seg < 8; seg++ {
		l.i(fmt.Sprintf("get_qindex(1, %d)", seg), spec.QIndex(f, st, true, seg), u.GetQIndex(1, seg, s))
		// get_qindex( 0 ) looks at the delta-q index of the block, which is not part of the header
		old := s.CurrentQIndex
		s.CurrentQIndex = st.CurrentQIndex
		l.i(fmt.Sprintf("get_qindex(0, %d)", seg), spec.QIndex(f, st, false, seg), u.GetQIndex(0, seg, s))
		s.CurrentQIndex = old
	}
	l.part = "lf"
	l.i("loop_filter_level[0]", f.LfLevel[0], u.LoopFilterLevel[0])
	l.i("loop_filter_level[1]", f.LfLevel[1], u.LoopFilterLevel[1])
	if f.LfUVCoded {
		l.i("loop_filter_level[2]", f.LfLevel[2], u.LoopFilterLevel[2])
		l.i("loop_filter_level[3]", f.LfLevel[3], u.LoopFilterLevel[3])
	}
	if f.LfCoded {
		l.i("loop_filter_sharpness", f.LfSharp, u.LoopFilterSharpness)
		l.b("loop_filter_delta_enabled", f.LfDeltaEnabled, u.LoopFilterDeltaEnabled)
		if f.LfDeltaEnabled == 1 {
			l.i("loop_filter_delta_update", f.LfDeltaUpdate, u.LoopFilterDeltaUpdate)
		}
	}
	l.s("loop_filter_ref_deltas", f.LfRef[:], u.LoopFilterRefDeltas[:])
	l.s("loop_filter_mode_deltas", f.LfMode[:], u.LoopFilterModeDeltas[:])
	l.part = "cdef"
	l.i("CdefDamping", f.CdefDamping, u.CdefDampening)
	l.i("cdef_bits", f.CdefBits, u.CdefBits)
	l.s("cdef_y_pri_strength", f.CdefY, u.CdefYPriStrength)
	l.s("cdef_y_sec_strength", f.CdefYS, u.CdefYSecStrength)
	if len(f.CdefUV) > 0 {
		l.s("cdef_uv_pri_strength", f.CdefUV, u.CdefUVPriStrength)
		l.s("cdef_uv_sec_strength", f.CdefUVS, u.CdefUVSecStrength)
	}
	l.part = "lr"
	l.s("FrameRestorationType", f.LrType[:], u.FrameRestorationType[:])
	l.b("UsesLr", f.UsesLr, u.UsesLr)
	if f.UsesLr == 1 {
		l.s("LoopRestorationSize", st.LoopRestorationSize[:], s.LoopRestorationSize[:])
	}
	l.part = "tx"
	l.i("TxMode", f.TxMode, u.TxMode)
	l.part = "ctl3"
	l.b("reference_select", f.RefSelect, u.ReferenceSelect)
	l.part = "skip"
	l.i("skip_mode_present", f.SkipPresent, u.SkipModePresent)
	if f.SkipAllowed == 1 {
		l.s("SkipModeFrame", f.SkipFrame[:], u.SkipModeFrame)
	}
	l.part = "ctl4"
	l.b("allow_warped_motion", f.WarpAllowed, u.AllowWarpedMotion)
	l.b("reduced_tx_set", f.ReducedTx, u.ReducedTxSet)
	l.part = "gm"
	for r := 1; r < 8; r++ {
		l.i(fmt.Sprintf("GmType[%d]", r), st.GmType[r], s.GmType[r])
		l.s(fmt.Sprintf("gm_params[%d]", r), f.Gm[r][:], u.GmParams[r][:])
	}
	l.part = "grain"
	g := &f.Grain
	l.b("apply_grain", g.Apply, u.ApplyGrain)
	l.i("grain_seed", g.Seed, u.GrainSeed)
	l.s("point_y_value", g.YV, u.PointYValue)
	l.s("point_y_scaling", g.YS, u.PointYScaling)
	l.b("chroma_scaling_from_luma", g.FromLuma, u.ChromaScalingFromLuna)
	l.s("point_cb_value", g.CbV, u.PointCbValue)
	l.s("point_cb_scaling", g.CbS, u.PointCbScaling)
	l.s("point_cr_value", g.CrV, u.PointCrValue)
	l.s("point_cr_scaling", g.CrS, u.PointCrScaling)
	l.i("grain_scaling_minus_8", g.Scaling8, u.GrainScalingMinus8)
	l.i("ar_coeff_lag", g.Lag, u.ArCoeffLag)
	l.s("ar_coeffs_y_plus_128", g.ArY, u.ArCoeffsYPlus128)
	l.s("ar_coeffs_cb_plus_128", g.ArCb, u.ArCoeffsCbPlus128)
	l.s("ar_coeffs_cr_plus_128", g.ArCr, u.ArCoeffsCrPlus128)
	l.i("ar_coeff_shift_minus_6", g.Shift6, u.ArCoeffShiftMinus6)
	l.i("grain_scale_shift", g.ScaleShift, u.GrainScaleShift)
	l.i("cb_mult", g.CbMult, u.CbMult)
	l.i("cb_luma_mult", g.CbLuma, u.CbLumaMult)
	l.i("cb_offset", g.CbOff, u.CbOffset)
	l.i("cr_mult", g.CrMult, u.CrMult)
	l.i("cr_luma_mult", g.CrLuma, u.CrLumaMult)
	l.i("cr_offset", g.CrOff, u.CrOffset)
	l.b("overlap_flag", g.Overlap, u.OverlapFlag)
	l.b("clip_to_restricted_range", g.Clip, u.ClipToRestrictedRange)
	return l.d
}

// Kept tells what of the state that headers govern differs from the state given.
func Kept(st *spec.State, s *state.State) *Diff {
	l := list{part: "kept"}
	l.d = Refs(st, s)
	l.i("MiCols", st.MiCols, s.MiCols)
	l.i("MiRows", st.MiRows, s.MiRows)
	l.i("TileCols", st.Tile.Cols, s.TileCols)
	l.i("TileRows", st.Tile.Rows, s.TileRows)
	l.i("TileColsLog2", st.Tile.ColsLog2, s.TileColsLog2)
	l.i("TileRowsLog2", st.Tile.RowsLog2, s.TileRowsLog2)
	for i := 0; i < 8; i++ {
		l.s(fmt.Sprintf("FeatureEnabled[%d]", i), st.FeatureEnabled[i][:], s.FeatureEnabled[i][:])
		l.s(fmt.Sprintf("FeatureData[%d]", i), st.FeatureData[i][:], s.FeatureData[i][:])
		if i > 0 {
			l.s(fmt.Sprintf("PrevGmParams[%d]", i), st.PrevGmParams[i][:], s.PrevGmParams[i][:])
		}
		if i > 0 {
			l.i(fmt.Sprintf("GmType[%d]", i), st.GmType[i], s.GmType[i])
		}
	}
	l.i("CurrentQIndex", st.CurrentQIndex, s.CurrentQIndex)
	if len(l.d) > 0 {
		return &l.d[0]
	}
	return nil
}
