package spec

// State is what the decoding process keeps between frame headers, as far as headers read or write it.
type State struct {
	RefValid, RefFrameId, RefOrderHint, RefFrameType [8]int
	CurrentFrameId                                   int
	FeatureEnabled, FeatureData                      [8][8]int
	GmType                                           [8]int
	PrevGmParams                                     [8][6]int
	MiCols, MiRows                                   int
	Tile                                             Tiles
	LoopRestorationSize                              [3]int
	CurrentQIndex                                    int
}

// Tiles is the tile layout of the current frame.
type Tiles struct {
	Cols, Rows, ColsLog2, RowsLog2 int
	ColStarts, RowStarts           []int
	SizeBytes                      int
	SizeBytesCoded                 bool
	ContextUpdateId                int
}

// Frame is a frame header (5.9).
type Frame struct {
	ShowExisting, FrameToShow, DisplayId           int
	Type, Intra, Show, Showable, ErrRes            int
	PresTime                                       int
	PresTimeCoded                                  bool
	DisableCdf                                     int
	AllowSCT, ForceIntMv                           int
	CurrentId, PrevId                              int
	RefIds                                         []int
	SizeOverride, OrderHint, PrimaryRef            int
	Refresh                                        int
	W, H, UpW, SuperRes, Denom, RenderW, RenderH   int
	IntraBc                                        int
	RefIdx                                         [7]int
	HighPrec, Filter, MotionSwitchable, RefMvs     int
	OrderHints                                     [8]int
	SignBias                                       [8]int
	DisableEndCdf                                  int
	BaseQ, YDc, UDc, UAc, VDc, VAc                 int
	UsingQM, QmY, QmU, QmV                         int
	SegEnabled, SegMap, SegTemporal, SegData       int
	SegPreSkip, SegLast                            int
	DqPresent, DqRes, DlfPresent, DlfRes, DlfMulti int
	Lossless                                       [8]int
	QMLevel                                        [3][8]int
	CodedLossless, AllLossless                     int
	LfLevel                                        [4]int
	LfUVCoded, LfCoded                             bool
	LfSharp, LfDeltaEnabled, LfDeltaUpdate         int
	LfRef                                          [8]int
	LfMode                                         [2]int
	CdefDamping, CdefBits                          int
	CdefY, CdefYS, CdefUV, CdefUVS                 []int
	LrType                                         [3]int
	UsesLr                                         int
	TxMode, RefSelect                              int
	SkipAllowed, SkipPresent                       int
	SkipFrame                                      [2]int
	WarpAllowed, ReducedTx                         int
	Gm                                             [8][6]int
	Grain                                          Grain
	Ends                                           []Mark
}

// Mark is the end of a part of the header.
type Mark struct {
	Part string
	Pos  int
}

type Grain struct {
	Apply, Seed                int
	YV, YS, CbV, CbS, CrV, CrS []int
	FromLuma, Scaling8, Lag    int
	ArY, ArCb, ArCr            []int
	Shift6, ScaleShift         int
	CbMult, CbLuma, CbOff      int
	CrMult, CrLuma, CrOff      int
	Overlap, Clip              int
}

var featureBits = [8]int{8, 6, 6, 6, 6, 3, 0, 0}
var featureSigned = [8]bool{true, true, true, true, true}
var featureMax = [8]int{255, 63, 63, 63, 63, 7, 0, 0}

// RelDist is get_relative_dist (7.9.3... 5.9.3): the signed distance of two order hints.
func RelDist(q *Seq, a, b int) int {
	if q.OrderHint == 0 {
		return 0
	}
	n := 1 << uint(q.OrderHintBits)
	d := ((a-b)%n + n) % n
	if d >= n/2 {
		d -= n
	}
	return d
}

// IdLen is the number of bits of a frame id.
func (q *Seq) IdLen() int {
	if q.FrameIds == 0 {
		return 0
	}
	return q.AddIdLen1 + q.DeltaIdLen2 + 3
}

// QIndex is get_qindex( ).
func QIndex(f *Frame, st *State, ignoreDelta bool, seg int) int {
	if f.SegEnabled == 1 && st.FeatureEnabled[seg][0] == 1 {
		q := f.BaseQ + st.FeatureData[seg][0]
		if !ignoreDelta && f.DqPresent == 1 {
			q = st.CurrentQIndex + st.FeatureData[seg][0]
		}
		return clip3(0, 255, q)
	}
	if !ignoreDelta && f.DqPresent == 1 {
		return st.CurrentQIndex
	}
	return f.BaseQ
}

// ReadFrame is uncompressed_header( ), leaving out what the decoder does not implement: those choices are
// forced to the supported value.
func ReadFrame(s Source, q *Seq, temporalId, spatialId int, st *State) *Frame {
	f := &Frame{}
	end := func(part string) { f.Ends = append(f.Ends, Mark{part, s.Pos()}) }
	idLen := q.IdLen()
	presTime := func() {
		if q.DecoderModelInfo == 1 && q.EqualInterval == 0 {
			f.PresTime = s.F(q.PresLen1+1, "frame_presentation_time", 0)
			f.PresTimeCoded = true
		}
	}
	if q.Reduced == 1 {
		f.Type, f.Intra, f.Show, f.Showable, f.ErrRes = 0, 1, 1, 0, 1
	} else {
		if q.FilmGrain == 1 {
			f.ShowExisting = s.Forced(1, "show_existing_frame", 0, 0)
		} else {
			f.ShowExisting = s.F(1, "show_existing_frame", 0)
		}
		if f.ShowExisting == 1 {
			f.FrameToShow = s.F(3, "frame_to_show_map_idx", 0)
			presTime()
			if q.FrameIds == 1 {
				f.DisplayId = s.F(idLen, "display_frame_id", 0)
			}
			f.Type = st.RefFrameType[f.FrameToShow]
			end("ctl")
			return f
		}
		f.Type = s.F(2, "frame_type", 0)
		f.Intra = b2i(f.Type == 0 || f.Type == 2)
		f.Show = s.F(1, "show_frame", 0)
		if f.Show == 1 {
			presTime()
			f.Showable = b2i(f.Type != 0)
		} else {
			f.Showable = s.F(1, "showable_frame", 0)
		}
		if f.Type == 3 || f.Type == 0 && f.Show == 1 {
			f.ErrRes = 1
		} else {
			f.ErrRes = s.F(1, "error_resilient_mode", 0)
		}
	}
	if f.Type == 0 && f.Show == 1 {
		for i := 0; i < 8; i++ {
			st.RefValid[i] = 0
			st.RefOrderHint[i] = 0
		}
	}
	f.DisableCdf = s.F(1, "disable_cdf_update", 0)
	if q.ForceSCT == 2 {
		f.AllowSCT = s.F(1, "allow_screen_content_tools", 0)
	} else {
		f.AllowSCT = q.ForceSCT
	}
	if f.AllowSCT == 1 {
		if q.ForceIntMv == 2 {
			f.ForceIntMv = s.F(1, "force_integer_mv", 0)
		} else {
			f.ForceIntMv = q.ForceIntMv
		}
	}
	if f.Intra == 1 {
		f.ForceIntMv = 1
	}
	if q.FrameIds == 1 {
		f.PrevId = st.CurrentFrameId
		f.RefIds = append([]int{}, st.RefFrameId[:]...)
		f.CurrentId = s.F(idLen, "current_frame_id", 0)
		st.CurrentFrameId = f.CurrentId
		diff := 1 << uint(q.DeltaIdLen2+2)
		for i := 0; i < 8; i++ {
			// valid ids: the diff ids up to and including the current one, modulo 2^idLen
			id := st.RefFrameId[i]
			if f.CurrentId > diff {
				if id > f.CurrentId || id < f.CurrentId-diff {
					st.RefValid[i] = 0
				}
			} else if id > f.CurrentId && id < (1<<uint(idLen))+f.CurrentId-diff {
				st.RefValid[i] = 0
			}
		}
	}
	switch {
	case f.Type == 3:
		f.SizeOverride = 1
	case q.Reduced == 1:
	case f.Intra == 0 && f.ErrRes == 0:
		f.SizeOverride = s.Forced(1, "frame_size_override_flag", 0, 0)
	default:
		f.SizeOverride = s.F(1, "frame_size_override_flag", 0)
	}
	f.OrderHint = s.F(q.OrderHintBits, "order_hint", 0)
	if f.Intra == 1 || f.ErrRes == 1 {
		f.PrimaryRef = 7
	} else {
		f.PrimaryRef = s.Forced(3, "primary_ref_frame", 0, 7)
	}
	if q.DecoderModelInfo == 1 {
		if s.F(1, "buffer_removal_time_present_flag", 0) == 1 {
			for op := 0; op <= q.OpCnt1; op++ {
				if q.OpModel[op] == 1 {
					idc := q.Idc[op]
					if idc == 0 || (idc>>uint(temporalId))&1 == 1 && (idc>>uint(spatialId+8))&1 == 1 {
						s.F(q.RemovalLen1+1, "buffer_removal_time", op)
					}
				}
			}
		}
	}
	if f.Type == 3 || f.Type == 0 && f.Show == 1 {
		f.Refresh = 255
	} else {
		f.Refresh = s.F(8, "refresh_frame_flags", 0)
	}
	if f.Intra == 0 || f.Refresh != 255 {
		if f.ErrRes == 1 && q.OrderHint == 1 {
			for i := 0; i < 8; i++ {
				if s.F(q.OrderHintBits, "ref_order_hint", i) != st.RefOrderHint[i] {
					st.RefValid[i] = 0
				}
			}
		}
	}
	end("ctl")
	if f.Intra == 1 {
		f.size(s, q, st)
		if f.AllowSCT == 1 && f.UpW == f.W {
			f.IntraBc = s.F(1, "allow_intrabc", 0)
		}
		end("size")
	} else {
		if q.OrderHint == 1 {
			s.Forced(1, "frame_refs_short_signaling", 0, 0)
		}
		for i := 0; i < 7; i++ {
			f.RefIdx[i] = s.F(3, "ref_frame_idx", i)
			if q.FrameIds == 1 {
				s.F(q.DeltaIdLen2+2, "delta_frame_id_minus_1", i)
			}
		}
		end("ctl")
		f.size(s, q, st)
		end("size")
		if f.ForceIntMv == 0 {
			f.HighPrec = s.F(1, "allow_high_precision_mv", 0)
		}
		if s.F(1, "is_filter_switchable", 0) == 1 {
			f.Filter = 4
		} else {
			f.Filter = s.F(2, "interpolation_filter", 0)
		}
		f.MotionSwitchable = s.F(1, "is_motion_mode_switchable", 0)
		if f.ErrRes == 0 && q.RefMvs == 1 {
			f.RefMvs = s.Forced(1, "use_ref_frame_mvs", 0, 0)
		}
		for i := 0; i < 7; i++ {
			h := st.RefOrderHint[f.RefIdx[i]]
			f.OrderHints[1+i] = h
			f.SignBias[1+i] = b2i(RelDist(q, h, f.OrderHint) > 0)
		}
	}
	if q.Reduced == 1 || f.DisableCdf == 1 {
		f.DisableEndCdf = 1
	} else {
		f.DisableEndCdf = s.F(1, "disable_frame_end_update_cdf", 0)
	}
	end("ctl2")
	// primary_ref_frame is none: setup_past_independence
	st.FeatureEnabled, st.FeatureData = [8][8]int{}, [8][8]int{}
	for r := 1; r < 8; r++ {
		st.PrevGmParams[r] = [6]int{0, 0, 1 << 16, 0, 0, 1 << 16}
	}
	f.LfDeltaEnabled = 1
	f.LfRef = [8]int{1, 0, 0, 0, -1, 0, -1, -1}

	st.Tile = ReadTiles(s, q.SB128 == 1, st.MiCols, st.MiRows)
	end("tile")

	f.BaseQ = s.F(8, "base_q_idx", 0)
	dq := func(name string) int {
		if s.F(1, name+".delta_coded", 0) == 1 {
			return Su(s, 7, name, 0)
		}
		return 0
	}
	f.YDc = dq("delta_q_y_dc")
	if q.Color.Planes > 1 {
		diff := 0
		if q.Color.SeparateUV == 1 {
			diff = s.F(1, "diff_uv_delta", 0)
		}
		f.UDc = dq("delta_q_u_dc")
		f.UAc = dq("delta_q_u_ac")
		f.VDc, f.VAc = f.UDc, f.UAc
		if diff == 1 {
			f.VDc = dq("delta_q_v_dc")
			f.VAc = dq("delta_q_v_ac")
		}
	}
	f.UsingQM = s.F(1, "using_qmatrix", 0)
	if f.UsingQM == 1 {
		f.QmY = s.F(4, "qm_y", 0)
		f.QmU = s.F(4, "qm_u", 0)
		f.QmV = f.QmU
		if q.Color.SeparateUV == 1 {
			f.QmV = s.F(4, "qm_v", 0)
		}
	}
	end("quant")

	f.SegEnabled = s.F(1, "segmentation_enabled", 0)
	if f.SegEnabled == 1 {
		f.SegMap, f.SegData = 1, 1
		for i := 0; i < 8; i++ {
			for j := 0; j < 8; j++ {
				e := s.F(1, "feature_enabled", i*8+j)
				v := 0
				if e == 1 {
					if featureSigned[j] {
						v = clip3(-featureMax[j], featureMax[j], Su(s, 1+featureBits[j], "feature_value", i*8+j))
					} else {
						v = clip3(0, featureMax[j], s.F(featureBits[j], "feature_value", i*8+j))
					}
				}
				st.FeatureEnabled[i][j], st.FeatureData[i][j] = e, v
				if e == 1 {
					f.SegLast = i
					if j >= 5 {
						f.SegPreSkip = 1
					}
				}
			}
		}
	}
	end("seg")

	if f.BaseQ > 0 {
		f.DqPresent = s.F(1, "delta_q_present", 0)
	}
	if f.DqPresent == 1 {
		f.DqRes = s.F(2, "delta_q_res", 0)
		if f.IntraBc == 0 {
			f.DlfPresent = s.F(1, "delta_lf_present", 0)
		}
		if f.DlfPresent == 1 {
			f.DlfRes = s.F(2, "delta_lf_res", 0)
			f.DlfMulti = s.F(1, "delta_lf_multi", 0)
		}
	}
	f.CodedLossless = 1
	for i := 0; i < 8; i++ {
		l := QIndex(f, st, true, i) == 0 && f.YDc == 0 && f.UAc == 0 && f.UDc == 0 && f.VAc == 0 && f.VDc == 0
		f.Lossless[i] = b2i(l)
		if !l {
			f.CodedLossless = 0
		}
		f.QMLevel[0][i], f.QMLevel[1][i], f.QMLevel[2][i] = f.QmY, f.QmU, f.QmV
		if l {
			f.QMLevel[0][i], f.QMLevel[1][i], f.QMLevel[2][i] = 15, 15, 15
		}
	}
	f.AllLossless = b2i(f.CodedLossless == 1 && f.W == f.UpW)
	end("dq")

	if f.CodedLossless == 0 && f.IntraBc == 0 {
		f.LfCoded = true
		f.LfLevel[0] = s.F(6, "loop_filter_level", 0)
		f.LfLevel[1] = s.F(6, "loop_filter_level", 1)
		if q.Color.Planes > 1 && (f.LfLevel[0] != 0 || f.LfLevel[1] != 0) {
			f.LfUVCoded = true
			f.LfLevel[2] = s.F(6, "loop_filter_level", 2)
			f.LfLevel[3] = s.F(6, "loop_filter_level", 3)
		}
		f.LfSharp = s.F(3, "loop_filter_sharpness", 0)
		f.LfDeltaEnabled = s.F(1, "loop_filter_delta_enabled", 0)
		if f.LfDeltaEnabled == 1 {
			f.LfDeltaUpdate = s.F(1, "loop_filter_delta_update", 0)
			if f.LfDeltaUpdate == 1 {
				for i := 0; i < 8; i++ {
					if s.F(1, "update_ref_delta", i) == 1 {
						f.LfRef[i] = Su(s, 7, "loop_filter_ref_deltas", i)
					}
				}
				for i := 0; i < 2; i++ {
					if s.F(1, "update_mode_delta", i) == 1 {
						f.LfMode[i] = Su(s, 7, "loop_filter_mode_deltas", i)
					}
				}
			}
		}
	}
	end("lf")
	f.CdefDamping = 3
	if f.CodedLossless == 1 || f.IntraBc == 1 || q.Cdef == 0 {
		f.CdefY, f.CdefYS, f.CdefUV, f.CdefUVS = []int{0}, []int{0}, []int{0}, []int{0}
	} else {
		f.CdefDamping = 3 + s.F(2, "cdef_damping_minus_3", 0)
		f.CdefBits = s.F(2, "cdef_bits", 0)
		sec := func(v int) int {
			if v == 3 {
				return 4
			}
			return v
		}
		for i := 0; i < 1<<uint(f.CdefBits); i++ {
			f.CdefY = append(f.CdefY, s.F(4, "cdef_y_pri_strength", i))
			f.CdefYS = append(f.CdefYS, sec(s.F(2, "cdef_y_sec_strength", i)))
			if q.Color.Planes > 1 {
				f.CdefUV = append(f.CdefUV, s.F(4, "cdef_uv_pri_strength", i))
				f.CdefUVS = append(f.CdefUVS, sec(s.F(2, "cdef_uv_sec_strength", i)))
			}
		}
	}
	end("cdef")
	if f.AllLossless == 0 && f.IntraBc == 0 && q.Restoration == 1 {
		remap := [4]int{0, 3, 1, 2}
		chroma := false
		for i := 0; i < q.Color.Planes; i++ {
			f.LrType[i] = remap[s.F(2, "lr_type", i)]
			if f.LrType[i] != 0 {
				f.UsesLr = 1
				if i > 0 {
					chroma = true
				}
			}
		}
		if f.UsesLr == 1 {
			shift := s.F(1, "lr_unit_shift", 0)
			if q.SB128 == 1 {
				shift++
			} else if shift == 1 {
				shift += s.F(1, "lr_unit_extra_shift", 0)
			}
			st.LoopRestorationSize[0] = 64 << uint(shift)
			uv := 0
			if q.Color.SubX == 1 && q.Color.SubY == 1 && chroma {
				uv = s.F(1, "lr_uv_shift", 0)
			}
			st.LoopRestorationSize[1] = st.LoopRestorationSize[0] >> uint(uv)
			st.LoopRestorationSize[2] = st.LoopRestorationSize[1]
		}
	}
	end("lr")
	if f.CodedLossless == 0 {
		f.TxMode = 1 + s.F(1, "tx_mode_select", 0)
	}
	end("tx")
	if f.Intra == 0 {
		f.RefSelect = s.F(1, "reference_select", 0)
	}
	end("ctl3")
	f.skip(s, q, st)
	end("skip")
	if f.Intra == 0 && f.ErrRes == 0 && q.Warped == 1 {
		f.WarpAllowed = s.F(1, "allow_warped_motion", 0)
	}
	f.ReducedTx = s.F(1, "reduced_tx_set", 0)
	end("ctl4")
	f.motion(s, st)
	end("gm")
	f.grain(s, q)
	end("grain")
	return f
}

// size is frame_size( ) and render_size( ).
func (f *Frame) size(s Source, q *Seq, st *State) {
	if f.SizeOverride == 1 {
		f.W = s.F(q.WBits1+1, "frame_width_minus_1", 0) + 1
		f.H = s.F(q.HBits1+1, "frame_height_minus_1", 0) + 1
	} else {
		f.W, f.H = q.MaxW1+1, q.MaxH1+1
	}
	f.Denom = 8
	if q.SuperRes == 1 {
		f.SuperRes = s.F(1, "use_superres", 0)
		if f.SuperRes == 1 {
			f.Denom = 9 + s.F(3, "coded_denom", 0)
		}
	}
	f.UpW = f.W
	f.W = (f.UpW*8 + f.Denom/2) / f.Denom
	st.MiCols = 2 * ((f.W + 7) >> 3)
	st.MiRows = 2 * ((f.H + 7) >> 3)
	f.RenderW, f.RenderH = f.UpW, f.H
	if s.F(1, "render_and_frame_size_different", 0) == 1 {
		f.RenderW = s.F(16, "render_width_minus_1", 0) + 1
		f.RenderH = s.F(16, "render_height_minus_1", 0) + 1
	}
}

// ReadTiles is tile_info( ).
func ReadTiles(s Source, sb128 bool, miCols, miRows int) Tiles {
	var t Tiles
	sbShift := 4
	if sb128 {
		sbShift = 5
	}
	round := 1<<uint(sbShift) - 1
	sbCols := (miCols + round) >> uint(sbShift)
	sbRows := (miRows + round) >> uint(sbShift)
	sbSize := sbShift + 2
	maxWidth := 4096 >> uint(sbSize)
	maxArea := (4096 * 2304) >> uint(2*sbSize)
	log2 := func(blk, target int) int {
		k := 0
		for blk<<uint(k) < target {
			k++
		}
		return k
	}
	minCols := log2(maxWidth, sbCols)
	maxCols := log2(1, minI(sbCols, 64))
	maxRows := log2(1, minI(sbRows, 64))
	minTiles := maxI(minCols, log2(maxArea, sbRows*sbCols))
	if s.F(1, "uniform_tile_spacing_flag", 0) == 1 {
		spread := func(n, lo, hi int, name string) (int, int) {
			k := lo
			for i := 0; k < hi; i++ {
				if s.F(1, name, i) == 0 {
					break
				}
				k++
			}
			return k, (n + (1 << uint(k)) - 1) >> uint(k)
		}
		var w, h int
		t.ColsLog2, w = spread(sbCols, minCols, maxCols, "increment_tile_cols_log2")
		for x := 0; x < sbCols; x += w {
			t.ColStarts = append(t.ColStarts, x<<uint(sbShift))
		}
		t.RowsLog2, h = spread(sbRows, maxI(minTiles-t.ColsLog2, 0), maxRows, "increment_tile_rows_log2")
		for y := 0; y < sbRows; y += h {
			t.RowStarts = append(t.RowStarts, y<<uint(sbShift))
		}
	} else {
		widest := 0
		for x, i := 0, 0; x < sbCols; i++ {
			t.ColStarts = append(t.ColStarts, x<<uint(sbShift))
			w := 1 + Ns(s, minI(sbCols-x, maxWidth), "width_in_sbs_minus_1", i)
			widest = maxI(widest, w)
			x += w
		}
		t.ColsLog2 = log2(1, len(t.ColStarts))
		area := sbRows * sbCols
		if minTiles > 0 {
			area >>= uint(minTiles + 1)
		}
		maxHeight := maxI(area/widest, 1)
		for y, i := 0, 0; y < sbRows; i++ {
			t.RowStarts = append(t.RowStarts, y<<uint(sbShift))
			y += 1 + Ns(s, minI(sbRows-y, maxHeight), "height_in_sbs_minus_1", i)
		}
		t.RowsLog2 = log2(1, len(t.RowStarts))
	}
	t.Cols, t.Rows = len(t.ColStarts), len(t.RowStarts)
	t.ColStarts = append(t.ColStarts, miCols)
	t.RowStarts = append(t.RowStarts, miRows)
	if t.ColsLog2 > 0 || t.RowsLog2 > 0 {
		t.ContextUpdateId = s.F(t.ColsLog2+t.RowsLog2, "context_update_tile_id", 0)
		t.SizeBytes = s.F(2, "tile_size_bytes_minus_1", 0) + 1
		t.SizeBytesCoded = true
	}
	return t
}

// skip is skip_mode_params( ), stated as the choice of references rather than as the search loops.
func (f *Frame) skip(s Source, q *Seq, st *State) {
	if f.Intra == 1 || f.RefSelect == 0 || q.OrderHint == 0 {
		return
	}
	// nearest in the past and in the future, the first reference winning ties
	fwd, bwd := -1, -1
	dist := func(i int) int { return RelDist(q, st.RefOrderHint[f.RefIdx[i]], f.OrderHint) }
	hint := func(i int) int { return st.RefOrderHint[f.RefIdx[i]] }
	for i := 0; i < 7; i++ {
		switch d := dist(i); {
		case d < 0 && (fwd < 0 || RelDist(q, hint(i), hint(fwd)) > 0):
			fwd = i
		case d > 0 && (bwd < 0 || RelDist(q, hint(i), hint(bwd)) < 0):
			bwd = i
		}
	}
	if fwd < 0 {
		return
	}
	other := bwd
	if other < 0 {
		for i := 0; i < 7; i++ {
			if RelDist(q, hint(i), hint(fwd)) < 0 && (other < 0 || RelDist(q, hint(i), hint(other)) > 0) {
				other = i
			}
		}
	}
	if other < 0 {
		return
	}
	f.SkipAllowed = 1
	f.SkipFrame = [2]int{1 + minI(fwd, other), 1 + maxI(fwd, other)}
	f.SkipPresent = s.F(1, "skip_mode_present", 0)
}

// Motion is global_motion_params( ) of an inter frame.
func Motion(f *Frame, s Source, st *State) { f.motion(s, st) }

// motion is global_motion_params( ).
func (f *Frame) motion(s Source, st *State) {
	for r := 1; r < 8; r++ {
		f.Gm[r] = [6]int{0, 0, 1 << 16, 0, 0, 1 << 16}
		st.GmType[r] = 0
	}
	if f.Intra == 1 {
		return
	}
	for r := 1; r < 8; r++ {
		typ := 0
		if s.F(1, "is_global", r) == 1 {
			if s.F(1, "is_rot_zoom", r) == 1 {
				typ = 2
			} else if s.F(1, "is_translation", r) == 1 {
				typ = 1
			} else {
				typ = 3
			}
		}
		st.GmType[r] = typ
		param := func(i int) {
			absBits, precBits := 12, 15
			if i < 2 {
				absBits, precBits = 12, 6
				if typ == 1 {
					absBits, precBits = 9-b2i(f.HighPrec == 0), 3-b2i(f.HighPrec == 0)
				}
			}
			prec := uint(16 - precBits)
			rnd, sub := 0, 0
			if i%3 == 2 {
				rnd, sub = 1<<16, 1<<uint(precBits)
			}
			mx := 1 << uint(absBits)
			ref := (st.PrevGmParams[r][i] >> prec) - sub
			f.Gm[r][i] = (signedSubexp(s, mx, ref, r*6+i) << prec) + rnd
		}
		if typ >= 2 {
			param(2)
			param(3)
			if typ == 3 {
				param(4)
				param(5)
			} else {
				f.Gm[r][4], f.Gm[r][5] = -f.Gm[r][3], f.Gm[r][2]
			}
		}
		if typ >= 1 {
			param(0)
			param(1)
		}
	}
}

// signedSubexp is decode_signed_subexp_with_ref( -mx, mx+1, r ).
func signedSubexp(s Source, mx, r, idx int) int {
	n := 2*mx + 1
	v := subexp(s, n, idx)
	c := r + mx
	if c<<1 <= n {
		return recenter(c, v) - mx
	}
	return n - 1 - recenter(n-1-c, v) - mx
}

// recenter is inverse_recenter( ): v counts outwards from r, r itself, r-1, r+1, r-2, ...
func recenter(r, v int) int {
	switch {
	case v > 2*r:
		return v
	case v%2 == 1:
		return r - (v+1)/2
	}
	return r + v/2
}

// subexp is decode_subexp( ).
func subexp(s Source, n, idx int) int {
	for i, mk := 0, 0; ; i++ {
		b2 := 3
		if i > 0 {
			b2 = 3 + i - 1
		}
		a := 1 << uint(b2)
		if n <= mk+3*a {
			return Ns(s, n-mk, "subexp_final_bits", idx) + mk
		}
		if s.F(1, "subexp_more_bits", idx*16+i) == 0 {
			return s.F(b2, "subexp_bits", idx) + mk
		}
		mk += a
	}
}

// grain is film_grain_params( ).
func (f *Frame) grain(s Source, q *Seq) {
	g := &f.Grain
	if q.FilmGrain == 0 || f.Show == 0 && f.Showable == 0 {
		return
	}
	g.Apply = s.F(1, "apply_grain", 0)
	if g.Apply == 0 {
		return
	}
	g.Seed = s.F(16, "grain_seed", 0)
	if f.Type == 1 {
		s.Forced(1, "update_grain", 0, 1)
	}
	points := func(name string) (v, sc []int) {
		n := s.F(4, "num_"+name+"_points", 0)
		for i := 0; i < n; i++ {
			v = append(v, s.F(8, "point_"+name+"_value", i))
			sc = append(sc, s.F(8, "point_"+name+"_scaling", i))
		}
		return
	}
	g.YV, g.YS = points("y")
	if q.Color.Mono == 0 {
		g.FromLuma = s.F(1, "chroma_scaling_from_luma", 0)
	}
	if !(q.Color.Mono == 1 || g.FromLuma == 1 || q.Color.SubX == 1 && q.Color.SubY == 1 && len(g.YV) == 0) {
		g.CbV, g.CbS = points("cb")
		g.CrV, g.CrS = points("cr")
	}
	g.Scaling8 = s.F(2, "grain_scaling_minus_8", 0)
	g.Lag = s.F(2, "ar_coeff_lag", 0)
	luma := 2 * g.Lag * (g.Lag + 1)
	chroma := luma
	coeffs := func(n int, name string) (o []int) {
		for i := 0; i < n; i++ {
			o = append(o, s.F(8, name, i))
		}
		return
	}
	if len(g.YV) > 0 {
		chroma++
		g.ArY = coeffs(luma, "ar_coeffs_y_plus_128")
	}
	if g.FromLuma == 1 || len(g.CbV) > 0 {
		g.ArCb = coeffs(chroma, "ar_coeffs_cb_plus_128")
	}
	if g.FromLuma == 1 || len(g.CrV) > 0 {
		g.ArCr = coeffs(chroma, "ar_coeffs_cr_plus_128")
	}
	g.Shift6 = s.F(2, "ar_coeff_shift_minus_6", 0)
	g.ScaleShift = s.F(2, "grain_scale_shift", 0)
	if len(g.CbV) > 0 {
		g.CbMult = s.F(8, "cb_mult", 0)
		g.CbLuma = s.F(8, "cb_luma_mult", 0)
		g.CbOff = s.F(9, "cb_offset", 0)
	}
	if len(g.CrV) > 0 {
		g.CrMult = s.F(8, "cr_mult", 0)
		g.CrLuma = s.F(8, "cr_luma_mult", 0)
		g.CrOff = s.F(9, "cr_offset", 0)
	}
	g.Overlap = s.F(1, "overlap_flag", 0)
	g.Clip = s.F(1, "clip_to_restricted_range", 0)
}

// Update is the reference frame update process (7.20) as far as headers can see it.
func (st *State) Update(f *Frame) {
	for i := 0; i < 8; i++ {
		if (f.Refresh>>uint(i))&1 == 1 {
			st.RefValid[i] = 1
			st.RefFrameId[i] = f.CurrentId
			st.RefOrderHint[i] = f.OrderHint
			st.RefFrameType[i] = f.Type
		}
	}
}
