// Package e2e decodes whole small sequences: headers written by the model, tile data given, and the decoded
// frames reduced to a hash that is compared with that of an independent decoder.
package e2e

import (
	"fmt"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/spec"
)

// Fields gives header fields by name; "name" or "name:index".
type Fields map[string]int

// Config is a kind of sequence: its headers, and how its frames' tile data are made.
type Config struct {
	Name   string
	Seq    Fields
	Frames []Fields
	// Tiles gives the kinds of frame whose data all tiles of the last frame but the last have.
	Tiles []Config
	// Want, if there is one, says whether a sequence just decoded is of use as a base.
	Want func(w *Worker) bool
	// Tail limits the positions whose byte is replaced to the last ones.
	Tail int
}

func wanted(c Config, want func(w *Worker) bool) Config {
	c.Want = want
	return c
}

func tail(c Config, n int) Config {
	c.Tail = n
	return c
}

// count says how many units of 4x4 samples are as given.
func count(is func(row, col int) bool) (n int) {
	for row := 0; row < 64; row++ {
		for col := 0; col < 64; col++ {
			if is(row, col) {
				n++
			}
		}
	}
	return n
}

type source struct {
	w spec.Writer
	f Fields
}

func (s *source) Pos() int { return s.w.Pos }
func (s *source) F(n int, name string, idx int) int {
	v, ok := s.f[fmt.Sprintf("%s:%d", name, idx)]
	if !ok {
		v = s.f[name]
	}
	v &= 1<<uint(n) - 1
	if n > 0 {
		s.w.Put(n, v)
	}
	return v
}
func (s *source) Forced(n int, name string, idx int, v int) int { s.w.Put(n, v); return v }
func (s *source) Uvlc(name string) int                          { s.w.Bit(1); return 0 }

// Headers are the headers of a sequence.
type Headers struct {
	Seq    []byte   // payload of the sequence header OBU
	Frames [][]byte // frame headers, aligned to bytes, with the start of the tile group
	Tiles  []int
	Mono   bool
}

// Build writes the headers.
func (c *Config) Build() *Headers {
	h := &Headers{}
	s := &source{f: c.Seq}
	q := spec.ReadSeq(s)
	h.Mono = q.Color.Planes == 1
	s.w.Bit(1)
	h.Seq = s.w.B
	st := &spec.State{}
	for _, f := range c.Frames {
		s := &source{f: f}
		fr := spec.ReadFrame(s, q, 0, 0, st)
		st.Update(fr)
		for s.w.Pos&7 != 0 {
			s.w.Bit(0)
		}
		n := st.Tile.Cols * st.Tile.Rows
		if n > 1 {
			s.w.Put(8, 0) // all tiles
		}
		h.Frames = append(h.Frames, s.w.B)
		h.Tiles = append(h.Tiles, n)
	}
	return h
}

// OBU adds an OBU header and a size.
func OBU(kind int, data []byte) []byte {
	return append(append([]byte{byte(kind<<3 | 2)}, spec.Leb128(len(data), 1)...), data...)
}

// Stream is the whole sequence, each frame a temporal unit, the tile data of frame i being data[i].
func (h *Headers) Stream(data [][]byte) (units [][]byte) {
	for i, d := range data {
		u := []byte{0x12, 0}
		if i == 0 {
			u = append(u, OBU(1, h.Seq)...)
		}
		units = append(units, append(u, OBU(6, append(append([]byte{}, h.Frames[i]...), d...))...))
	}
	return units
}

// Worker holds the large structures.
type Worker struct {
	T   *tilegroup.TileGroup
	S   *state.State
	Max int // symbol bits left at the end of the last tile
}

func New() *Worker { return &Worker{T: &tilegroup.TileGroup{}, S: &state.State{}} }

// Hash is that of the frames shown.
type Hash uint64

func (h *Hash) add(v int) { *h = (*h ^ Hash(v)) * 1099511628211 }

// Decode decodes the sequence with the code under test.
func (w *Worker) Decode(h *Headers, data [][]byte) Hash {
	out := Hash(14695981039346656037)
	*w.S = state.State{}
	b := bitstream.BitStream{Data: append(append([]byte{}, h.Seq...), 0, 0)}
	sh := sequenceheader.NewSequenceHeader(&b, w.S)
	for i, d := range data {
		b := bitstream.BitStream{Data: append(append(append([]byte{}, h.Frames[i]...), d...), 0, 0, 0)}
		sz := len(h.Frames[i]) + len(d)
		uh := uncompressedheader.NewUncompressedHeader(header.Header{Type: header.OBU_FRAME, HasSizeField: true}, sh, &b, w.S)
		b.ByteAlignment()
		w.tiles(sz-b.Position/8, &b, uh, sh)
		if uh.ShowFrame {
			planes := [][][]int{w.T.OutY, w.T.OutU, w.T.OutV}
			if h.Mono {
				planes = planes[:1]
			}
			for _, p := range planes {
				out.add(len(p))
				for _, row := range p {
					out.add(len(row))
					for _, v := range row {
						out.add(v)
					}
				}
			}
		}
	}
	w.Max = w.S.SymbolMaxBits
	return out
}

func merge(fs ...Fields) Fields {
	o := Fields{}
	for _, f := range fs {
		for k, v := range f {
			o[k] = v
		}
	}
	return o
}

// parse reads "a=1 b:3=2".
func parse(s string) Fields {
	o := Fields{}
	for _, w := range strings.Fields(s) {
		i := strings.IndexByte(w, '=')
		v := 0
		fmt.Sscan(w[i+1:], &v)
		o[w[:i]] = v
	}
	return o
}

const (
	tools  = "frame_width_bits_minus_1=8 frame_height_bits_minus_1=8 seq_level_idx=8 enable_filter_intra=1 enable_intra_edge_filter=1 enable_interintra_compound=1 enable_masked_compound=1 enable_warped_motion=1 enable_dual_filter=1 enable_order_hint=1 enable_jnt_comp=1 order_hint_bits_minus_1=6 seq_choose_screen_content_tools=1 seq_choose_integer_mv=1 enable_superres=1 enable_cdef=1 enable_restoration=1 color_range=1"
	key    = "frame_type=0 show_frame=1 base_q_idx=120 tx_mode_select=1 uniform_tile_spacing_flag=1"
	filter = "loop_filter_level:0=20 loop_filter_level:1=25 loop_filter_level:2=18 loop_filter_level:3=30 loop_filter_sharpness=1 cdef_damping_minus_3=1 cdef_bits=1 cdef_y_pri_strength:0=5 cdef_y_sec_strength:0=2 cdef_uv_pri_strength:0=3 cdef_uv_sec_strength:0=1 cdef_y_pri_strength:1=9 cdef_y_sec_strength:1=3 cdef_uv_pri_strength:1=6 cdef_uv_sec_strength:1=3"
	f444   = "seq_profile=1"
	f422   = "seq_profile=2"
	mono   = "mono_chrome=1"
	deep   = "high_bitdepth=1"
	deeper = "seq_profile=2 high_bitdepth=1 twelve_bit=1 subsampling_x=1 subsampling_y=1"
	inter  = "frame_type=1 show_frame=1 base_q_idx=120 tx_mode_select=1 uniform_tile_spacing_flag=1 order_hint=1 refresh_frame_flags=2 is_filter_switchable=1 is_motion_mode_switchable=1 allow_high_precision_mv=1"
)

func size(w, h int) string {
	return fmt.Sprintf("max_frame_width_minus_1=%d max_frame_height_minus_1=%d", w-1, h-1)
}

func one(name, seq string, frames ...string) Config {
	c := Config{Name: name, Seq: merge(parse(tools), parse(seq))}
	for i, f := range frames {
		base := key
		if i > 0 {
			base = inter
		}
		c.Frames = append(c.Frames, merge(parse(base), parse(f)))
	}
	return c
}

func tiled(c Config, tiles ...Config) Config {
	c.Tiles = tiles
	return c
}

func palettes(w *Worker) bool {
	return count(func(row, col int) bool { return w.T.PaletteSizes[0][row][col] != 0 || w.T.PaletteSizes[1][row][col] != 0 }) > 7
}

// Intra are the kinds of single key frames.
func Intra() []Config {
	lr := " lr_type:0=1 lr_type:1=1 lr_type:2=1"
	seg := " segmentation_enabled=1 feature_enabled:8=1 feature_value:8=40 feature_enabled:16=1 feature_value:16=-60 feature_enabled:17=1 feature_value:17=20 feature_enabled:26=1 feature_value:26=-15 feature_enabled:32=1 feature_value:32=-119 feature_enabled:46=1"
	return []Config{
		one("8x8", size(8, 8), ""),
		one("16x16 filtered", size(16, 16), filter),
		one("16x16 4:4:4 screen", size(16, 16)+" "+f444, "allow_screen_content_tools=1"),
		one("8x8 lossless", size(8, 8), "base_q_idx=0"),
		one("16x8 4:4:4 lossless", size(16, 8)+" "+f444, "base_q_idx=0"),
		one("24x16 10 bits", size(24, 16)+" "+deep, "base_q_idx=255 "+filter),
		one("16x16 4:2:2", size(16, 16)+" "+f422, filter),
		one("16x24 monochrome", size(16, 24)+" "+mono, filter+lr),
		one("13x11 4:4:4 10 bits", size(13, 11)+" "+f444+" "+deep, filter+" base_q_idx=60"),
		one("40x40", size(40, 40), filter+" base_q_idx=30"),
		one("16x16 reduced transforms", size(16, 16), "reduced_tx_set=1"),
		one("16x16 deltas", size(16, 16), filter+" delta_q_present=1 delta_q_res=2 delta_lf_present=1 delta_lf_res=1 delta_lf_multi=1"),
		one("24x24 segments", size(24, 24), filter+seg),
		one("16x16 block copy", size(16, 16), "allow_screen_content_tools=1 allow_intrabc=1"),
		one("40x16 superres", size(40, 16), filter+lr+" use_superres=1 coded_denom=7"),
		one("16x16 matrices", size(16, 16)+" separate_uv_delta_q=1", "using_qmatrix=1 qm_y=2 qm_u=5 qm_v=9 diff_uv_delta=1 delta_q_u_dc.delta_coded=1 delta_q_u_dc=9"),
		one("16x16 12 bits", size(16, 16)+" "+deeper, filter+" base_q_idx=200"),
		one("72x24 large superblocks", size(72, 24)+" use_128x128_superblock=1", filter),
		tiled(one("72x16 tiles", size(72, 16), filter+" increment_tile_cols_log2=1 tile_size_bytes_minus_1=0"), one("", size(64, 16), filter)),
		tiled(one("16x136 tiles", size(16, 136), filter+" increment_tile_rows_log2:0=1 increment_tile_rows_log2:1=1 tile_size_bytes_minus_1=1 context_update_tile_id=1"), one("", size(16, 64), filter), one("", size(16, 64), filter)),
		one("16x16 fixed probabilities", size(16, 16), "disable_cdf_update=1"),
		one("16x16 largest transforms", size(16, 16), "tx_mode_select=0 "+filter),
		one("40x24 restored", size(40, 24), filter+" lr_type:0=1 lr_type:1=3 lr_type:2=2"),
		one("9x7 4:4:4 restored", size(9, 7)+" "+f444, "lr_type:0=3 lr_type:1=2 lr_type:2=1"),
		one("68x68 monochrome", size(68, 68)+" "+mono, filter),
		one("8x8 screen 4:2:0", size(8, 8), "allow_screen_content_tools=1"),
		one("16x16 4:4:4 block copy", size(16, 16)+" "+f444, "allow_screen_content_tools=1 allow_intrabc=1 base_q_idx=40"),
		one("32x16 4:2:0 12 bits restored", size(32, 16)+" "+deeper, filter+lr+" base_q_idx=120"),
		one("16x16 10 bits screen", size(16, 16)+" "+deep, "allow_screen_content_tools=1"),
		one("16x16 4:2:2 screen", size(16, 16)+" "+f422, "allow_screen_content_tools=1"),
		one("16x32 deltas of the filter", size(16, 32), filter+" loop_filter_delta_enabled=1 loop_filter_delta_update=1 update_ref_delta:0=1 loop_filter_ref_deltas:0=20 delta_q_present=1 delta_lf_present=1"),
		one("24x24 lossless segments", size(24, 24), filter+" base_q_idx=30 segmentation_enabled=1 feature_enabled:8=1 feature_value:8=-30 feature_enabled:24=1 feature_value:24=100 feature_enabled:38=1"),
		one("16x16 4:4:4 matrices", size(16, 16)+" "+f444+" separate_uv_delta_q=1", "using_qmatrix=1 qm_y=0 qm_u=14 qm_v=7 delta_q_y_dc.delta_coded=1 delta_q_y_dc=-20 allow_screen_content_tools=1"),
		one("40x40 4:4:4 coarse", size(40, 40)+" "+f444, filter+" base_q_idx=100 reduced_tx_set=1"),
		one("72x40 4:2:2 restored", size(72, 40)+" "+f422, filter+lr+" base_q_idx=160"),
		one("40x40 large superblocks", size(40, 40)+" use_128x128_superblock=1", filter+" delta_q_present=1 lr_type:0=1"),
		tiled(one("136x8 tiles", size(136, 8)+" use_128x128_superblock=1", filter+" increment_tile_cols_log2=1 tile_size_bytes_minus_1=3 disable_frame_end_update_cdf=1"), one("", size(128, 8)+" use_128x128_superblock=1", filter)),
		one("8x72 restored", size(8, 72), filter+lr+" base_q_idx=80"),
		one("16x72 4:4:4 10 bits restored", size(16, 72)+" "+f444+" "+deep, filter+" lr_type:0=3 lr_type:1=2 lr_type:2=1 base_q_idx=140"),
		one("24x24 quantizer segments", size(24, 24), filter+" segmentation_enabled=1 feature_enabled:8=1 feature_value:8=40 feature_enabled:16=1 feature_value:16=-60 feature_enabled:25=1 feature_value:25=20 feature_enabled:43=1 feature_value:43=-15"),
		one("40x40 deltas", size(40, 40), filter+" base_q_idx=30 delta_q_present=1 delta_q_res=1 delta_lf_present=1 delta_lf_res=2 delta_lf_multi=1"),
		one("24x24 4:4:4 palettes", size(24, 24)+" "+f444, "allow_screen_content_tools=1 base_q_idx=20 disable_cdf_update=1"),
		wanted(one("24x24 screen", size(24, 24), "allow_screen_content_tools=1 base_q_idx=30"), palettes),
		wanted(one("40x40 4:4:4 screen", size(40, 40)+" "+f444, "allow_screen_content_tools=1 base_q_idx=30"), palettes),
		tiled(one("72x8 tiles with deltas", size(72, 8), filter+" increment_tile_cols_log2=1 tile_size_bytes_minus_1=0 base_q_idx=70 delta_q_present=1 delta_lf_present=1"), wanted(one("", size(64, 8), filter+" base_q_idx=70 delta_q_present=1 delta_lf_present=1"), func(w *Worker) bool { return w.S.CurrentQIndex != 70 && w.S.DeltaLF[0] != 0 })),
		tail(wanted(one("136x136 block copy", size(136, 136), "allow_screen_content_tools=1 allow_intrabc=1 base_q_idx=60"), func(w *Worker) bool {
			return count(func(row, col int) bool { return w.T.IsInters[row][col] != 0 }) > 0
		}), 24),
		one("16x16 no edge filter", size(16, 16)+" enable_intra_edge_filter=0 enable_filter_intra=0", ""),
	}
}

// Inter are the kinds of sequences of a key frame and a frame predicted from it.
func Inter() []Config {
	seg := " segmentation_enabled=1 feature_enabled:13=1 feature_value:13=1 feature_enabled:22=1 feature_enabled:31=1 feature_enabled:32=1 feature_value:32=30"
	return []Config{
		one("16x16 single", size(16, 16)+" enable_warped_motion=0", "", filter),
		one("16x16 compound", size(16, 16), "", "reference_select=1"),
		one("24x24 warped", size(24, 24), "", "allow_warped_motion=1"),
		one("16x16 4:4:4 10 bits", size(16, 16)+" "+f444+" "+deep, "", "reference_select=1"),
		one("16x16 global motion", size(16, 16), "", "is_global=1 is_rot_zoom=1 subexp_more_bits:0=0"),
		one("16x16 whole vectors", size(16, 16), "allow_screen_content_tools=1", "allow_screen_content_tools=1 force_integer_mv=1"),
		one("24x24 scaled", size(24, 24), "", "error_resilient_mode=1 frame_size_override_flag=1 frame_width_minus_1=15 frame_height_minus_1=19 reference_select=1"),
		one("16x16 monochrome", size(16, 16)+" "+mono, "", filter+" reference_select=1"),
		one("16x16 4:2:2", size(16, 16)+" "+f422, "", "reference_select=1 allow_warped_motion=1"),
		one("16x16 lossless", size(16, 16), "", "base_q_idx=0"),
		one("24x24 segments", size(24, 24), "", filter+seg),
		one("40x40", size(40, 40), "", filter+" reference_select=1 allow_warped_motion=1"),
		one("16x16 12 bits", size(16, 16)+" "+deeper, "", "reference_select=1"),
		one("16x16 smooth filter", size(16, 16)+" enable_dual_filter=0", "", "is_filter_switchable=0 interpolation_filter=1"),
		one("16x16 no order hints", size(16, 16)+" enable_order_hint=0 enable_jnt_comp=0", "", "reference_select=1"),
		one("32x16 intra-only", size(32, 16), "", "frame_type=2 refresh_frame_flags=4"),
		one("40x16 superres", size(40, 16), "", filter+" use_superres=1 coded_denom=4"),
		one("16x16 three frames", size(16, 16), "", "reference_select=1 refresh_frame_flags=2", "reference_select=1 order_hint=2 ref_frame_idx:1=1 ref_frame_idx:4=1 skip_mode_present=1 ref_order_hint:1=1"),
		one("16x16 skip mode", size(16, 16), "", "refresh_frame_flags=2 order_hint=4", "reference_select=1 order_hint=2 ref_frame_idx:4=1 ref_frame_idx:5=1 ref_frame_idx:6=1 skip_mode_present=1"),
		one("16x16 probabilities kept", size(16, 16), "disable_cdf_update=1", "reference_select=1 disable_cdf_update=1"),
		one("16x16 block copy between", size(16, 16), "allow_screen_content_tools=1", "frame_type=2 refresh_frame_flags=4 allow_screen_content_tools=1 allow_intrabc=1"),
		one("16x24 screen", size(16, 24)+" "+f444, "allow_screen_content_tools=1", "allow_screen_content_tools=1 reference_select=1"),
		one("24x24 deltas", size(24, 24), "", filter+" delta_q_present=1 delta_lf_present=1 delta_lf_multi=1 loop_filter_delta_enabled=1 loop_filter_delta_update=1 update_ref_delta:1=1 loop_filter_ref_deltas:1=-30 update_mode_delta:1=1 loop_filter_mode_deltas:1=25"),
		one("24x16 affine", size(24, 16), "", "allow_warped_motion=1 is_global=1 is_rot_zoom=0 is_translation=0 num_=0 subexp_bits=5"),
		one("16x16 largest transforms", size(16, 16), "", "tx_mode_select=0 reduced_tx_set=1 reference_select=1"),
		one("16x16 bilinear", size(16, 16), "", "is_filter_switchable=0 interpolation_filter=3 allow_high_precision_mv=0 reference_select=1"),
		one("16x16 sharp", size(16, 16), "", "is_filter_switchable=0 interpolation_filter=2 is_motion_mode_switchable=0 reference_select=1"),
		one("40x40 4:4:4 matrices", size(40, 40)+" "+f444, "", filter+" using_qmatrix=1 qm_y=3 qm_u=6 qm_v=6 reference_select=1 allow_warped_motion=1"),
		one("24x24 4:2:2 scaled 10 bits", size(24, 24)+" "+f422+" "+deep, "", "error_resilient_mode=1 frame_size_override_flag=1 frame_width_minus_1=17 frame_height_minus_1=12 reference_select=1"),
		one("72x16 large superblocks", size(72, 16)+" use_128x128_superblock=1", filter, "reference_select=1 allow_warped_motion=1 "+filter),
		one("32x16 restored", size(32, 16), filter+" lr_type:0=1", filter+" lr_type:0=1 lr_type:1=2 lr_type:2=3 reference_select=1"),
		one("24x24 references by segment", size(24, 24), "", filter+" segmentation_enabled=1 feature_enabled:5=1 feature_value:5=4 feature_enabled:14=1 feature_enabled:23=1 feature_enabled:28=1 feature_value:28=30 reference_select=1"),
		one("24x24 quantizer segments", size(24, 24), filter, filter+" segmentation_enabled=1 feature_enabled:8=1 feature_value:8=40 feature_enabled:16=1 feature_value:16=-60 feature_enabled:25=1 feature_value:25=20 feature_enabled:43=1 feature_value:43=-15"),
		one("16x16 compound global motion", size(16, 16), "", "is_global=1 is_rot_zoom=1 subexp_more_bits:0=0 reference_select=1 allow_warped_motion=1"),
		one("40x40 global motion", size(40, 40), "", "is_global=1 is_rot_zoom=1 subexp_more_bits:0=0 reference_select=1 is_motion_mode_switchable=0"),
		one("8x72 restored", size(8, 72), filter, filter+" lr_type:0=1 lr_type:1=1 lr_type:2=1 reference_select=1"),
		one("32x32 4:2:2 10 bits", size(32, 32)+" "+f422+" "+deep, "", filter+" reference_select=1 allow_warped_motion=1"),
		tiled(one("72x16 tiles", size(72, 16), filter, filter+" increment_tile_cols_log2=1 tile_size_bytes_minus_1=1 reference_select=1 allow_warped_motion=1"), one("", size(64, 16), "", filter+" reference_select=1 allow_warped_motion=1")),
		wanted(one("24x24 skip mode", size(24, 24), "", "refresh_frame_flags=2 order_hint=4", "reference_select=1 order_hint=2 ref_frame_idx:4=1 ref_frame_idx:5=1 ref_frame_idx:6=1 skip_mode_present=1 allow_warped_motion=1"), func(w *Worker) bool {
			return count(func(row, col int) bool { return w.T.SkipModes[row][col] != 0 }) > 0
		}),
		one("16x16 hidden reference", size(16, 16), "", "show_frame=0 showable_frame=1 order_hint=5 refresh_frame_flags=128", "order_hint=1 reference_select=1 ref_frame_idx:6=7 ref_frame_idx:5=7 "+filter),
	}
}
