#!/usr/bin/env python3
"""Writes properties.jsonl. Edit here, run, commit both."""
import json, os
I = "internal/"
UH = I + "uncompressedheader/uncompressed_header.go"
SH = I + "sequenceheader/sequence_header.go"
BS = I + "bitstream/bitstream.go"
ST = I + "state/state.go"
OB = I + "obu/obu.go"
PA = I + "parser/parser.go"
TG = I + "tilegroup/tile_group.go"
P = []
CO = "internal/tilegroup/coeffs.go"
RC = "internal/tilegroup/reconstruct.go"
TF = "internal/tilegroup/transform.go"
def p(id, title, stmt, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Fixed-width bit reads return exactly the addressed bits",
  "Reading an n-bit unsigned field at any bit offset of any buffer returns the big-endian value of exactly the n bits that start there, and moves the cursor by exactly n. It never changes the buffer and never depends on bits outside the field.",
  ["inputs"], "every buffer content, every bit offset (aligned or not, including large offsets), every width 0..62",
  "The tests read four fields of one four-byte buffer; offset/width/content combinations are unbounded.",
  [BS], [("F / readBit", BS)], ["value returned and cursor position"])
p("C02", "Variable-length and signed bit-level codes decode per the AV1 definition",
  "Unsigned exp-Golomb (uvlc), leb128, signed (su), non-symmetric (ns) and little-endian (le) codes decode at any bit offset to the value the AV1 specification defines and consume exactly the bits of the code, so a field that follows is read correctly. leb128 also reports the number of bytes it used, and a uvlc with 32 or more leading zeros yields 2^32-1.",
  ["inputs"], "every code word (all lengths), every alignment, every following bit pattern",
  "No test touches these decoders; a wrong boundary (value m of ns, sign bit of su, byte count of leb128) shows only for particular code words.",
  [BS, I + "util/util.go"], [("Uvlc, Leb128, Su, Ns, Le", BS), ("FloorLog2", I + "util/util.go")])
p("C03", "Any sequence of reads keeps one consistent cursor",
  "However reads of different kinds, byte alignments and trailing-bits skips are sequenced, the cursor always stands right after the last bit consumed: byte alignment moves to the next byte boundary and not at all when already there, trailing bits skip exactly the stated number of bits, and 'more data' is true exactly while unread whole or partial bytes remain. Results depend only on the data and the cursor, not on which operations came before.",
  ["histories", "inputs"], "every sequence of bit-reader operations up to a depth, from every alignment",
  "The tests make single reads; cursor bugs need a sequence of operations at odd alignments.",
  [BS], [("Position", BS), ("ByteAlignment, TrailingBits, MoreDataInBistream", BS)])
p("C04", "OBU headers decode exactly, with and without extension",
  "Every OBU header decodes to the forbidden bit, 4-bit type, extension flag, size flag and reserved bit found in the stream; the extension byte (3-bit temporal id, 2-bit spatial id, 3 reserved bits) is consumed and reported if and only if the extension flag is set. Exactly 8 or 16 bits are consumed.",
  ["inputs"], "all 65536 two-byte headers, at every alignment",
  "Two tests with one header each; 65536 combinations exist.",
  [I + "header/header.go"], [("NewHeader, NewExtensionHeader", I + "header/header.go")])
p("C05", "Sequence header: general syntax decodes exactly and stays in step",
  "For every sequence header, profile, still/reduced flags, frame size limits, frame id lengths, superblock size, all tool enables, screen content and integer-mv choices, order hint bits, superres/cdef/restoration and film grain flags decode to the values coded in the stream, with the inferred values the AV1 specification gives for what is not coded. The decoder ends exactly at the end of the header.",
  ["inputs"], "all combinations of the conditional branches, all values of narrow fields and edge values of wide ones",
  "There is no test of the sequence header; its syntax is a decision tree with hundreds of paths and a single bit out of step corrupts everything after it.",
  [SH], [("NewSequenceHeader", SH)], ["decoded header and cursor"])
p("C06", "Sequence header: timing, decoder model and operating points decode exactly",
  "Timing info, decoder model info and, for each of up to 32 operating points, idc, level, tier, decoder model delays and initial display delay decode to the coded values or to the specified defaults when absent, without one operating point affecting another. The operating point selected for decoding is point 0, and its idc governs later layer selection.",
  ["inputs"], "all presence-flag combinations, 1..32 operating points, edge values of every field",
  "No test; errors show only with several operating points, high levels or decoder model info.",
  [SH], [("operatingParametersInfo", SH), ("NewTimingInfo", SH), ("chooseOperatingPoint", SH)])
p("C07", "Color configuration is derived exactly for every profile",
  "For profiles 0, 1 and 2, bit depth, monochrome and plane count, color description, range, chroma subsampling, chroma sample position and separate-uv-delta-q decode or are inferred as the AV1 specification says, including monochrome and the sRGB/identity special case. Exactly the coded bits are consumed.",
  ["inputs"], "3 profiles x every combination of color flags and the special color description triples",
  "No test; most branches depend on rare profile and color description combinations.",
  [SH], [("NewColorConfig", SH)])
p("C08", "Tile layout partitions the frame exactly as coded",
  "For every frame size, superblock size and tile-info coding (uniform or explicit), tile counts, their log2 values, the start positions of all tile columns and rows, the context update tile id and the tile size field width are the ones the AV1 specification derives, and exactly the coded bits are consumed. Tile starts are strictly increasing, superblock aligned, begin at 0 and end at the frame edge.",
  ["inputs", "configurations"], "frame sizes from one superblock to several thousand pixels on both superblock sizes, every uniform split, every explicit split up to a size",
  "No test; the layout depends on the product of frame size, superblock size and coded increments.",
  [I + "tileinfo/tile_info.go", BS], [("NewTileInfo", I + "tileinfo/tile_info.go")])
p("C09", "Frame header: control flow, flags and inferred values are exact",
  "For every supported frame header, show/showable/frame type/error-resilience derived values, cdf-update flags, screen content tools, integer mv, frame ids, order hint, primary reference, refresh flags, interpolation filter, motion mode, reference mode, warped motion and reduced tx set are the coded or inferred values of the AV1 specification. Parsing neither fails nor loses step: it ends exactly at the last bit of the header.",
  ["inputs", "configurations"], "every path through the header syntax (key, intra-only, inter and switch frames, all sequence header configurations) outside the features the decoder does not implement, with bounded deviations from several base headers",
  "The tests cover three one-bit helpers; the whole header has thousands of paths whose reads depend on earlier fields.",
  [UH], [("build", UH), ("TemporalPointInfo", UH)], ["decoded header, cursor, absence of failure"])
p("C10", "Frame size, superres and render size derive exactly",
  "Frame width and height come from the sequence maximum or from the frame when overridden; superres divides the upscaled width by the coded denominator with the specified rounding; mode-info columns and rows and render size follow from them. Intra block copy is only coded when the width is not scaled and screen content tools are allowed.",
  ["inputs"], "every superres denominator, override combination and width/height residue, edge widths up to 65536",
  "No test; rounding shows only for particular widths and denominators.",
  [UH], [("frameSize, superResParams, computeImageSize, renderSize", UH)])
p("C11", "Quantizer, lossless and delta-q/lf state is derived exactly",
  "Base quantizer index, the per-plane delta offsets, quantizer matrix levels per segment, delta-q and delta-lf parameters, per-segment lossless flags and whole-frame lossless flags are those coded or derived by the AV1 specification. The effective quantizer index of a segment is the base index (or the current delta-q index when block-level deltas apply) plus the offset of its segment if active, clipped to 0..255.",
  ["inputs", "configurations"], "every combination of delta flags, planes, separate-uv flags, matrix use, segment quantizer offsets around 0 and 255",
  "No test; lossless detection combines base index, six deltas and eight segments.",
  [UH], [("quantizationParams, deltaQParams, deltaLfParams, GetQIndex", UH)])
p("C12", "Segmentation parameters decode and reset exactly",
  "Segment feature enables and values decode with each feature's own width, signedness and clipping for all 8 segments and 8 features; segmentation off, or a header that starts afresh, clears every feature left over from earlier frames. The last active segment and the pre-skip flag follow from the enabled features.",
  ["inputs", "histories"], "every feature/segment pair, edge and sign values of each feature, with arbitrary state left from earlier headers",
  "No test; 64 feature slots with per-feature coding and leftovers from previous frames.",
  [UH, I + "shared/constants.go"], [("segmentationParams, setupPastIndependence", UH)])
p("C13", "Loop filter, CDEF, loop restoration and transform mode decode exactly",
  "Loop filter levels, sharpness and reference/mode deltas, CDEF damping, bit count and strengths, loop restoration types and unit sizes, and the transform mode are the coded or inferred values, including the values implied by lossless, intra block copy, monochrome and disabled tools.",
  ["inputs", "configurations"], "all conditional branches and all values of the narrow fields",
  "No test; each block is gated by lossless, intrabc, plane count and sequence tools.",
  [UH], [("loopFilterParams, cdefParams, lrParams, readTxMode", UH)])
p("C14", "Order hints, sign bias and skip-mode references are derived exactly",
  "For every inter frame, the order hint and sign bias of each reference follow from the stored hints by modular distance, and skip mode is offered exactly when references and hints allow it, naming the nearest forward and nearest backward (or two nearest forward) references in order. Relative distance is the signed difference modulo the hint range, and 0 when order hints are off.",
  ["inputs", "histories"], "every assignment of stored hints and reference indices over small hint ranges, all hint bit counts, wrap-around values",
  "No test; the result depends on the ordering of eight stored hints relative to the current one modulo 2^n.",
  [UH], [("GetRelativeDist", UH), ("skipModeParams", UH)])
p("C15", "Global motion parameters decode exactly",
  "For every inter frame and each of the seven references, the global motion type and six parameters decode from the stream relative to the previous parameters (defaults after a fresh start) with the specified precision, offset and subexponential code, and untransmitted parameters take identity or the values implied by the type.",
  ["inputs"], "every type, parameter position, precision setting and sub-exponential code length including the final non-symmetric bucket",
  "No test; the code has unbounded-looking sub-exponential paths that depend on the reference value.",
  [UH, I + "util/util.go"], [("globalMotionParams, readGlobalParam, decodeSubexp", UH), ("InverseRecenter", I + "util/util.go")])
p("C16", "Film grain parameters decode exactly",
  "When film grain is present and applied, all scaling points, autoregressive coefficients, multipliers, offsets and flags decode exactly as coded, with chroma parts present only under the specified conditions; otherwise every grain parameter is reset. The header still ends exactly at its last bit.",
  ["inputs", "configurations"], "every combination of point counts, lag, chroma-from-luma, monochrome and subsampling",
  "No test; array lengths depend on counts, lag and chroma conditions.",
  [UH], [("filmGrainParams, resetGrainParams", UH)])
p("C17", "Reference bookkeeping stays right over any history of frame headers",
  "Over any sequence of frame headers and reference updates, a shown key frame invalidates all references and clears their hints, frame ids outside the id window or mismatching order hints invalidate exactly the affected references, and refreshed slots (and only those) take over the new frame's id and hint. A header that shows an existing frame reports the index, display id and the stored frame type and leaves the rest unchanged.",
  ["histories"], "all sequences of frame headers of several kinds with reference refreshes up to a depth, with small id and hint ranges so that windows wrap",
  "No test keeps state from one header to the next.",
  [UH, ST, I + "tilegroup/decode_frame_wrapup.go"], [("markRefFrames", UH), ("referenceFrameUpdate", I + "tilegroup/decode_frame_wrapup.go")],
  None, [("RefValid, RefFrameId, RefOrderHint, CurrentFrameId", "what each reference slot holds", ST)])
p("C18", "Arithmetic decoding recovers exactly the coded symbols",
  "Decoding with the symbol decoder any data produced for any symbol sequence and any valid distributions yields that sequence, and on arbitrary data (including data that ends early) every decoded symbol and the decoder's internal value/range/remaining-bits agree with the AV1 specification. Symbols are always within the alphabet and the stream is never read past the declared size.",
  ["inputs", "histories"], "all bit strings of the leading bytes, all short symbol sequences, several distributions per alphabet size 2..16, all remaining-size values around the end of data",
  "No test; arithmetic decoding depends on the whole history of symbols and on the bits at the end of the tile.",
  [I + "symbol/symbol.go"], [("ReadSymbol", I + "symbol/symbol.go")], ["symbol and decoder registers"],
  [("SymbolValue, SymbolRange, SymbolMaxBits", "decoder registers", ST)])
p("C19", "Adaptive probabilities follow the specified update exactly",
  "After each symbol the distribution in use moves toward it by the specified rate (which depends on the count and alphabet size), the count saturates at 32, and the distribution stays valid; with updates disabled nothing changes. No other distribution is affected.",
  ["inputs", "histories"], "all symbol sequences up to a length over alphabets 2..16, counts 0..32, long runs past saturation",
  "No test; the rate changes with the count, so errors appear only after 16 or 32 symbols.",
  [I + "symbol/symbol.go"], [("ReadSymbol (adaptation)", I + "symbol/symbol.go")])
p("C20", "Literal and non-symmetric values inside tiles decode exactly",
  "Arithmetic-coded n-bit literals and non-symmetric values below n decode to the values that were coded, most significant bit first, and leave the decoder ready for the next symbol. Repeated literals do not influence each other.",
  ["inputs", "histories"], "all values for all n up to a bound, in all short sequences",
  "No test; ns boundaries differ for each n.",
  [I + "literal/literal.go"], [("L, NS", I + "literal/literal.go")])
p("C21", "Default probability tables are the specified ones and selected by quantizer",
  "A frame header that starts afresh gives every syntax element exactly the default distribution of the AV1 specification, with the coefficient distributions chosen by the base quantizer index range (up to 20, 60, 120, above). Every default distribution is a valid, increasing distribution ending at 32768 with count 0.",
  ["configurations", "inputs"], "all 256 base quantizer indices; every entry of every table",
  "No test; 13000 lines of tables and a four-way selection.",
  [I + "uncompressedheader/cdf.go"], [("initNonCoeffCdfs, initCoeffCdfs", I + "uncompressedheader/cdf.go")])
p("C22", "Saved, loaded and tile-local probability contexts never leak into each other",
  "Saving contexts to a slot, loading a slot, starting afresh and entering a tile copy all distributions by value over any history: adapting symbols in a tile changes only that tile's copies, never the frame's, another slot's or the defaults. Loading a slot brings back exactly what was last saved there, for every syntax element.",
  ["histories"], "all sequences of fresh-start, save, load, tile entry and adaptation up to a depth over several slots",
  "No test; aliasing shows only after a particular order of save, load and adaptation.",
  [I + "uncompressedheader/cdf.go", ST, TG], [("SaveCdfs, LoadCdfs", I + "uncompressedheader/cdf.go"), ("CopyTileCdfs", ST), ("initSymbol", TG)])
p("C23", "Each OBU consumes exactly its declared size and out-of-scope OBUs are dropped",
  "An OBU's payload size is its own size field when present and otherwise what is left of the enclosing length; header-type, padding and delimiter OBUs end exactly at that size, trailing bits included. OBUs whose layer is not in the selected operating point are skipped whole and change no decoder state, except sequence headers and temporal delimiters, which are never dropped.",
  ["inputs", "histories"], "every OBU type handled, with and without extension and size field, every layer against several operating points, various padding and trailing lengths",
  "No test parses an OBU.",
  [OB], [("build", OB), ("paddingObu", OB)], ["cursor after the OBU, decoder state"])
p("C24", "Temporal and frame units are framed exactly and carry state forward",
  "A stream of temporal units splits into frame units and OBUs exactly by the coded lengths, whatever their grouping, and yields every OBU once and in order. The latest sequence and frame headers and the decoder state persist from one OBU, frame unit and temporal unit to the next, so regrouping the same OBUs into other units does not change what is decoded.",
  ["histories", "inputs"], "all OBU sequences up to a length over sequence header, delimiter, frame headers and padding, in every grouping into frame and temporal units, with one- and multi-byte lengths",
  "The only parser test needs streams that are not in the repository and is skipped.",
  [PA, OB], [("bitstream, temporalUnit, frameUnit", PA)])
p("C25", "Integer helpers agree with their mathematical definitions",
  "Minimum, maximum, absolute value, three-way and bit-depth clipping, floor and ceiling log2, tile log2, rounding shifts (signed and unsigned), inverse recentering, bool conversions and the restoration unit count equal their AV1 definitions for every argument in their domain.",
  ["inputs"], "every argument over dense ranges plus all powers of two and their neighbours",
  "One sorting test exists; the helpers are used with arguments across their whole domain.",
  [I + "util/util.go"], [("Round2, Round2Signed, Clip3, Clip1, FloorLog2, CeilLog2, TileLog2, ...", I + "util/util.go")])
p("C26", "Lookup helpers: cosine, bit reversal, segment-id mapping, sorting and masks",
  "Fixed-point cosine and sine match the 12-bit table definition for every angle (even, periodic, quarter-wave symmetric), bit reversal is an exact involution, segment-id de-interleaving is a bijection on the valid range as specified, range sorting sorts exactly the given range, and overlap masks equal the specified tables for every length.",
  ["inputs"], "every angle over several periods, every width up to 16, every reference/maximum/difference triple up to a bound, every short array and range",
  "One test sorts one array.",
  [I + "util/util.go"], [("Cos128, Sin128, Brev, NegDeinterleave, Sort, GetObmcMask", I + "util/util.go")])
p("C27", "Wedge masks equal the specified masks for every block size",
  "For each of the block sizes that support wedges, every wedge index and sign, the mask has the block's dimensions and exactly the values the AV1 specification derives, the two signs are complementary to 64, and rebuilding the table gives the same result. No other block size has masks.",
  ["inputs"], "all 9 block sizes x 2 signs x 16 wedges x every sample",
  "No test; 300k mask samples.",
  [I + "wedgemask/wedge_mask.go"], [("InitialiseWedgeMaskTable", I + "wedgemask/wedge_mask.go")])
p("C28", "Clearing CDEF indices touches exactly the superblock's 64x64 units",
  "Clearing at any superblock position, in any order and on any grid built so far, sets to -1 exactly the one (or, for 128x128 superblocks, four) 64x64 units of that superblock and preserves every other stored index.",
  ["histories"], "all sequences of clears and stores at superblock positions up to a depth, both superblock sizes",
  "No test; growth of the grid depends on the order of positions.",
  [I + "cdef/cdef.go"], [("ClearCdef", I + "cdef/cdef.go")])
p("C29", "Block geometry tables are mutually consistent",
  "For every block size, width, height, their log2 and 4x4 unit counts agree; every valid partition of a square block yields the sub-block size that exactly tiles it; and every valid subsampling of a block yields the block with halved dimensions (at least 4).",
  ["configurations"], "all 22 block sizes x 10 partitions x 4 subsamplings that the format allows",
  "No test looks at the tables.",
  [I + "shared/constants.go"], [("Partition_Subsize, Subsampled_Size, NUM_4X4_BLOCKS_*", I + "shared/constants.go")])
p("C30", "Decoder instances are independent under every interleaving",
  "Two decoders processing their own streams produce the same headers and keep the same state however their steps are interleaved, including symbol decoding with adaptation, as when each runs alone.",
  ["schedules", "histories"], "all interleavings of the steps of two decoders with different streams",
  "No test creates two decoders; shared mutable tables only show with two live instances.",
  [PA, ST, I + "uncompressedheader/cdf.go", I + "symbol/symbol.go"], [("Parser.state", PA), ("CopyTileCdfs", ST)])
p("C31", "Parsing is a pure function of the bits, active headers and retained state",
  "Parsing the same header bits again from the same prior state gives the same result and end position, at any bit offset and whatever data precedes or follows it; the input bytes and all shared tables stay unmodified, and state not governed by the header is left alone.",
  ["inputs", "histories"], "every generated header, relocated to every bit alignment and surrounded by different data, repeated after other parses",
  "Tests parse one fixed input once.",
  [UH, SH, I + "header/header.go", BS], [("NewUncompressedHeader, NewSequenceHeader, NewHeader", UH)])
p("C32", "A truncated header never passes for a complete one",
  "If the data ends before the last bit of an OBU header, sequence header or frame header, parsing stops with a failure instead of returning a header; with all its bits present it succeeds without needing any byte beyond the last.",
  ["fault_sequences", "inputs"], "every generated header cut at every byte",
  "No test feeds incomplete data.",
  [BS, SH, UH], [("readBit bounds", BS)])
p("C33", "Tile groups hand each tile exactly its own bytes and area",
  "For every tile layout, a tile group with or without explicit start/end decodes exactly the tiles it names, in order, each starting at the byte where its data begins, initialised with its own size and the frame's base quantizer, and bounded by its own columns and rows; after a tile the reader stands at the next tile's data. The frame is finished (and a new frame header accepted) exactly when the last tile of the frame has been decoded.",
  ["inputs", "histories", "configurations"], "all layouts up to 4x2 tiles, all start/end ranges, tile sizes of 1..300 bytes, 1..4 size bytes",
  "No test builds a tile group.",
  [TG], [("build, initSymbol, exitSymbol", TG)], ["what each tile decode sees on entry"])
p("C34", "End-of-frame probabilities come only from the context update tile",
  "When end-of-frame updating is enabled, the frame's distributions after its last tile are exactly those adapted in the designated tile, for every syntax element; when it is disabled they are exactly those the frame started with. Tiles always start from the frame's distributions, never from another tile's.",
  ["histories", "configurations"], "all tile counts up to 4, each designated tile, adaptation in any subset of the tiles, update on and off",
  "No test decodes two tiles.",
  [TG], [("exitSymbol, frameEndUpdateCdf, initSymbol", TG)])
p("C35", "Coefficients are scaled exactly as the quantizer settings say",
  "For every quantizer index, per-plane offset, bit depth, segment and block offset, the scale of every DC and AC coefficient is the specification's: dc_q/ac_q with clamping, the block's qindex where segments or delta_q change it, the quantizer matrix of the plane's level at every position of every transform size (and none where the block is lossless, identity or the matrices are off), the shift of large transforms, and the clamp of the result to the range of the bit depth.",
  ["configurations", "inputs"], "all quantizer indices x offsets x planes x depths, all matrices at every position, levels up to 2^21",
  "No test dequantizes a coefficient.",
  [RC, "internal/tilegroup/quantizer.go"], [("reconstruct, getDcQuant, getAcQuant", RC)])
p("C36", "Inverse transforms reproduce the specification bit for bit",
  "For every transform size and type, bit depth and block of dequantized coefficients, the residual is exactly that of the specification's integer transforms (including intermediate clamping, the rectangular scaling, zeroing beyond 32x32, row and column shifts, flips and the lossless Walsh-Hadamard transform), and reconstruction adds it to the prediction at the right place and clips to the sample range.",
  ["inputs"], "every coefficient alone, every pair in a row or column, all sign patterns, for 19 sizes x all types x 3 depths",
  "No test runs a transform; one sample could not show a rounding or clamping error either.",
  [RC, TF], [("InverseTranform, 1D transforms", TF), ("reconstruct", RC)])
p("C37", "Transform coefficients decode exactly as the encoder coded them",
  "For every transform size, plane, transform type and block of coefficients, decoding what an encoder following the specification wrote yields exactly these coefficients and this transform type, leaves the bitstream position, symbol state and adapted probabilities in step with the encoder's, and records the level and DC contexts that later blocks (above, left, across the frame's edge) depend on.",
  ["inputs", "histories"], "every end-of-block position x size x type x plane, all small blocks over a level alphabet, contexts all around, sequences of blocks",
  "No test reads coefficients.",
  [CO], [("coeffs, transformType, read*Symbol, get*Ctx, getScan", CO)])
AM, FM = "internal/tilegroup/assign_mv.go", "internal/tilegroup/find_mv_stack.go"
p("C38", "Motion vectors decode exactly as the encoder coded them",
  "For every motion vector difference, precision, mode, candidate list and index, the vectors a block gets are the specified prediction (nearest, near, global or new, per reference) plus the coded difference, rounded to the frame's precision; block copies get the rounded candidate or default vector plus the difference; the bitstream position and the adapted probabilities stay in step with the encoder's.",
  ["inputs", "histories"], "every difference up to 16384 per component at each precision, all modes, candidates and indices, sequences of blocks",
  "No test reads a motion vector.",
  [AM], [("assignMv, readMv, readMvComponent", AM)])
p("C39", "Motion vector candidates are exactly those the specification derives",
  "For every neighbourhood of decoded blocks, block size and position, reference pair, frame and tile limits, motion field and global motion, the list of candidate vectors (order, values, number), the contexts for later syntax (new, reference, zero, drl) and the global vectors are those of the specification; blocks outside the tile or not yet decoded never count.",
  ["histories", "configurations", "inputs"], "all block sizes and positions x neighbourhoods of bounded variety x reference pairs x precisions x motion types",
  "No test predicts a vector; what is next to a block depends on the whole decoding history.",
  [FM, "internal/tilegroup/decode_block.go"], [("findMvStack, scanRow, scanCol, temporalScan, addExtraMvCandidate", FM)])
DB = "internal/tilegroup/decode_block.go"
p("C40", "Every block of a tile is decoded once, in order, with its coded shape",
  "For every tile and frame size, superblock size, subsampling and coded partition tree, the blocks handed to block decoding are those of the tree: each position of the tile inside the frame is covered exactly once, in the specified order, with the partition's block sizes and places; the partition symbols use the specified distributions, contexts and inferred values at the frame's edges; and at every superblock the flags that tell which neighbouring blocks are decoded, the per-superblock CDEF, delta and loop filter restoration state and the above and left contexts are those the specification prescribes.",
  ["inputs", "configurations", "histories"], "all partition trees of bounded departure x tile limits x frame edges x superblock sizes x subsamplings",
  "No test decodes a partition.",
  [TG, "internal/tilegroup/decode_partition.go"], [("decodeTile, clearBlockDecodedFlags", TG), ("decodePartition", "internal/tilegroup/decode_partition.go")])
IF, EF, IB = "internal/tilegroup/intra_frame_mode_info.go", "internal/tilegroup/inter_frame_mode_info.go", "internal/tilegroup/inter_block_mode_info.go"
SE = "internal/tilegroup/syntax_element.go"
p("C41", "Segments, skips, CDEF and deltas of a block decode as coded",
  "For every block of every frame, its segment (predicted from neighbours or the frame before, coded before or after skip, never beyond the last active one), skip, skip mode, inter or intra, CDEF index, quantizer and loop filter deltas are those an encoder following the specification coded, read with the specified distributions and contexts, in the specified order and only where coded; segment features override what they should; what later blocks of the tile depend on (contexts of predicted segments, CDEF index of each 64x64, running quantizer index and deltas) is kept as specified.",
  ["inputs", "configurations", "histories"], "neighbouring segments x segmentation settings x skip; features x sizes; superblock tilings; every form of delta; sequences of blocks",
  "No test decodes a block.",
  [IF, EF, DB], [("readSegmentId, readSkip, readCdef, readDeltaQIndex, readDeltaLf", IF), ("interSegmentId, readSkipMode, readIsInter", EF)])
p("C42", "Intra modes of a block decode as coded",
  "For every intra block of every frame, the luma and chroma modes, angles, chroma from luma signs and alphas, use of block copy and filter intra and its mode are those an encoder following the specification coded, with the specified distributions and contexts (size, neighbouring modes, availability), each read only where the block's size, chroma format, lossless mode and the headers allow it; palettes, vectors and transform sizes are read at the specified point in between.",
  ["inputs", "configurations", "histories"], "all sizes, parities and chroma formats x all modes; every pair of neighbouring modes; all angles and alphas; sequences of blocks",
  "No test decodes a block.",
  [IF, EF], [("intraFrameModeInfo, readCflAlphas, filterIntraModeInfo", IF), ("intraBlockModeInfo", EF)])
p("C43", "References and inter modes of a block decode as coded",
  "For every inter block, its reference frames, mode, candidate index, interintra mode and wedge, motion mode, compound type with its mask, and interpolation filters are those an encoder following the specification coded, with contexts from the neighbours as specified, each read only where skip mode, segment features, block size, global motion, scaling, overlapping neighbours and the headers allow it, and inferred as specified elsewhere.",
  ["inputs", "configurations", "histories"], "every pair of 27 kinds of neighbours x every reference; all modes, indices and contexts; all sizes x tools; sequences of blocks",
  "No test decodes an inter block.",
  [IB, SE], [("interBlockModeInfo, readRefFrames, readMotionMode, readCompoundType, readInterIntraMode", IB), ("contexts of references", SE)])
p("C44", "What is kept of a block is exactly what later blocks and filters see",
  "After every block, the decoder has recorded its modes, references, vectors, filters, segment, skip, sizes, palettes, compound choices and loop filter deltas for exactly the positions the block covers (inside the frame and beyond, as specified) and for no other; steps of decoding a block happen in the specified order; coefficient contexts are cleared exactly where a skipped block lies; and chroma presence and availability of neighbours, also across small blocks that share chroma, are as specified.",
  ["inputs", "configurations", "histories"], "22 sizes at every parity x chroma formats x frame and tile limits; pairs of sizes over the same and other places; quartets of small blocks",
  "No test decodes a block.",
  [DB], [("decodeBlock, resetBlockContext", DB)])
p("C45", "Palettes and colour maps decode as coded",
  "For every block that may have palettes, their presence, sizes, colours (taken from the cache of neighbouring palettes, coded directly or as differences, sorted) and the colour index of every sample (luma and chroma, onscreen part coded, the rest repeated) are those an encoder following the specification coded, with the specified distributions and contexts, each read only where size, mode, chroma and headers allow it; the palette cache merges the palettes above (not across a superblock row) and to the left in order without repeats.",
  ["inputs", "configurations", "histories"], "all sizes, subsamplings and depths; all pairs of cached palettes of bounded size; all colour differences at the limits; all colour contexts; blocks across the frame's edge",
  "No test decodes a block.",
  ["internal/tilegroup/palette.go", "internal/tilegroup/palette_tokens.go"], [("paletteModeInfo, getPaletteCache", "internal/tilegroup/palette.go"), ("paletteTokens, getPaletteColorContext", "internal/tilegroup/palette_tokens.go")])
p("C46", "Transform sizes of a block decode as coded",
  "For every block, the transform size of every 4x4 position is the one an encoder following the specification coded: the split tree of inter blocks, the depth below the largest size of other blocks, the fixed or largest size where nothing is coded; contexts depend on the neighbours' transform and block sizes, skip and inter as specified, and what later blocks look at is recorded for exactly the positions of the block.",
  ["inputs", "configurations", "histories"], "all sizes x tx modes x skip, inter and lossless; all split trees of a bounded number of departures; all neighbouring sizes",
  "No test decodes a block.",
  ["internal/tilegroup/tx_size.go"], [("readBlockTxSize, readVarTxSize, readTxSize", "internal/tilegroup/tx_size.go")])
p("C47", "Loop restoration units decode as coded",
  "For every superblock, exactly the loop restoration units that start in it (in units of the upscaled frame, per plane) are read, each once, and its type, Wiener coefficients and self-guided set and weights are those an encoder following the specification coded relative to the unit read before in the tile; the running references are those later units are coded against, and every value within its range is reachable.",
  ["inputs", "configurations", "histories"], "all unit sizes x frame sizes x superblock sizes x subsamplings x superres denominators; every coefficient value against references at limits; sequences of units",
  "No test decodes a restoration unit.",
  ["internal/tilegroup/read_loop_restoration.go"], [("readLr, readLrUnit, decodeSignedSubexpWithRefBool", "internal/tilegroup/read_loop_restoration.go")])
p("C48", "Intra prediction gives the samples specified",
  "For every size, mode, angle and recursive filter mode, intra prediction replaces exactly the samples of the block by what the specification derives from the decoded samples above and left: which of them exist and where the frame ends decide what edge is used, edges are filtered and upsampled as the sizes, angle and neighbouring modes demand, sums round and clip at every bit depth, and nothing beside the block changes.",
  ["inputs", "configurations"], "19 sizes x all modes and angles x availability x limits of the frame x depths; every edge sample alone; edges at extremes",
  "Tests predict nothing.",
  ["internal/tilegroup/predict_intra.go"], [("predictIntra, directionalIntraPrediction, intraEdgeFilter", "internal/tilegroup/predict_intra.go")])
p("C49", "Blocks are predicted and reconstructed piece by piece in the specified order",
  "For every block, prediction, coefficients and inverse transform happen once for each transform block inside the frame, in the specified order (chunks of 64x64, planes, rows, or the split tree of inter blocks), at the specified place, size and mode and with the specified knowledge of what around is decoded; skipped blocks and blocks without coefficients are only predicted; chroma of small blocks is predicted from every vector that shares it; palettes and chroma from luma give the specified samples; and what later blocks and the loop filter look at is recorded for exactly what was covered.",
  ["inputs", "configurations"], "22 sizes x chroma formats x transform sizes and split trees x places x limits of the frame x availability",
  "No test decodes a block.",
  ["internal/tilegroup/residual.go", "internal/tilegroup/compute_prediction.go"], [("residual, transformBlock, transformTree, palettePrediction, predictChromaFromLuma", "internal/tilegroup/residual.go"), ("computePrediction", "internal/tilegroup/compute_prediction.go")])
p("C50", "The loop filter smooths the block edges specified, as strongly as specified",
  "For every frame, exactly the edges of transform blocks inside the frame are filtered, columns before rows and planes in order, except those inside a skipped inter block and planes switched off; filter length follows from the transform sizes on both sides and the plane, strength from levels, segment, reference and mode deltas and sharpness of the block or else the one before, and every sample around the edge gets the specified value for what the decision on flatness and high variance says, at every depth.",
  ["inputs", "configurations"], "block and transform sizes x chroma formats x limits of the frame x levels and deltas; samples around an edge",
  "No test filters a frame.",
  ["internal/tilegroup/loop_filter_process.go"], [("loopFilter, loopFilterEdge, adaptiveFilterStrength, sampleFiltering, wideFilter", "internal/tilegroup/loop_filter_process.go")])
p("C51", "The directional enhancement filter gives the samples specified",
  "For every frame, each 8x8 block that is not skipped and lies where a filter index was read is filtered with the strengths of that index: direction and variance come from the luma samples, damping and taps from plane, depth and strength, samples outside the frame are left out, every other sample is copied, and the input frame stays as it was.",
  ["inputs", "configurations"], "strengths, dampings, chroma formats, depths, images with every direction, skip and index patterns, frame limits",
  "No test filters a frame.",
  ["internal/tilegroup/cdef.go"], [("cdefProcess, cdefBlock, cdefDirection, cdefFilter", "internal/tilegroup/cdef.go")])
p("C52", "Frames coded narrower are upscaled to the samples specified",
  "For every width and superres denominator, each plane is upscaled to its full width with the specified step, phase and filter, samples beyond the coded width being those at its edge; a frame coded at full width stays as it is.",
  ["inputs", "configurations"], "widths 1..65536 x denominators x chroma formats x depths; each sample alone",
  "No test upscales a frame.",
  ["internal/tilegroup/decode_frame_wrapup.go"], [("upscalingProcess", "internal/tilegroup/decode_frame_wrapup.go")])
p("C53", "Loop restoration gives the samples specified",
  "For every frame and plane, each sample is restored with the filter of the restoration unit it belongs to: Wiener filters or self-guided filters with the coefficients read, over samples of the enhanced frame within the stripe of 64 rows, two rows of the deblocked frame beyond it and the edge of the frame beyond that, rounded and clipped at every depth; units and planes without restoration are copied, and a frame without is unchanged.",
  ["inputs", "configurations"], "frame sizes x formats x unit sizes x unit types x coefficients x images; each sample alone, before and after CDEF",
  "No test restores a frame.",
  ["internal/tilegroup/loop_restoration.go"], [("loopRestoration, wienerFilter, selfGuidedFilter, boxFilter, getSourceSample", "internal/tilegroup/loop_restoration.go")])
p("C54", "Local warps are estimated from the neighbours specified",
  "For every block and neighbourhood, the samples of a local warp are those of the neighbours with the same single reference, in the specified order and number: along the edges above and left, then at the corners as far as the neighbours' sizes, the tile and what is decoded allow, those with vectors too different being dropped unless there is no other; the warp is the least-squares solution of the samples with the specified integer arithmetic and limits, and a warp is valid, and split into shears, exactly as specified.",
  ["inputs", "configurations"], "17 sizes x places x sizes and kinds of neighbours x limits of tile and frame; samples x motions; all divisors by leading part; shear parameters around all limits",
  "No test estimates a warp.",
  ["internal/tilegroup/inter_block_mode_info.go", "internal/tilegroup/predict_inter.go"], [("findWarpSamples, addSample", "internal/tilegroup/inter_block_mode_info.go"), ("warpEstimationProcess, setupShearProcess, resolveDivisorProcess", "internal/tilegroup/predict_inter.go")])
p("C55", "Inter prediction by motion vectors gives the samples specified",
  "For every block, each plane is predicted from the reference frame its references name, at the position its motion vector gives at a sixteenth of a sample (scaled when the reference has another size), with the filters chosen, the short ones for small blocks, rounded at every depth, samples beyond the reference being those at its edge; the chroma of small blocks uses the vector of each block that shares it; block copies come from the frame being decoded; nothing beside the block and nothing known of the references changes.",
  ["inputs", "configurations"], "fractions x filters; sizes x formats x limits of the frame x places x directions; sizes of references; references and slots; small blocks with all neighbours; block copies",
  "No test predicts a block.",
  ["internal/tilegroup/predict_inter.go", "internal/tilegroup/compute_prediction.go"], [("predictInter, motionVectorScalingProcess, blockInterPredictionProcess", "internal/tilegroup/predict_inter.go"), ("computePrediction", "internal/tilegroup/compute_prediction.go")])
p("C56", "Predictions of a block are blended as specified",
  "For every block with two references, with intra and inter prediction or with overlapped prediction, the samples are the specified blend: averages, weights by the distance in time, wedges of every shape and sign, differences of the luma predictions, smooth masks of the intra mode, and the neighbours' vectors fading in from above and left, each at the right precision, clipped, rounded, and with masks subsampled for chroma.",
  ["inputs", "configurations"], "order hints; 17 sizes x formats x blends; all wedges; intra modes; neighbours above and left",
  "No test blends predictions.",
  ["internal/tilegroup/predict_inter.go"], [("maskBlendProcess, distanceWeightsProcess, wedgeMaskProcess, differenceWeightMaskProcess, intraModeVariantMaskProcess, overlappedMotionCompensationProcess", "internal/tilegroup/predict_inter.go")])
p("C57", "Warped prediction gives the samples specified",
  "For every block, global motion is followed by a warp exactly when mode, type and validity of the reference's parameters, size of the block and of the reference and the precision of vectors allow it, local motion when its estimate is valid, and by the motion vector otherwise, each reference for itself; each 8x8 part is sampled at its warped middle with the sheared filters specified, at every depth and chroma format, samples beyond the reference being those at its edge.",
  ["inputs", "configurations"], "22 sizes x formats x types x parameters; pairs of references; parameters around all limits; samples of local warps",
  "No test warps a block.",
  ["internal/tilegroup/predict_inter.go"], [("predictInter, blockWarpProcess", "internal/tilegroup/predict_inter.go")])
p("C58", "Finished frames are filtered, stored and output exactly",
  "Once the last tile of a frame is decoded, the deblocking filter, CDEF, upscaling and loop restoration are each applied to what the one before gave, exactly when levels, flags and types say so; every slot of the refresh mask, and no other, then holds the frame (samples, sizes, render sizes, depth, format, order hints, global motion, segment ids or zeros or those of the previous frame, reference frames), and what is output is the frame, or the stored frame that is shown, cut to its upscaled size, all planes of it.",
  ["histories", "configurations"], "steps with bounded departures; histories of 3 frames (4 when thorough); every refresh mask",
  "No test finishes a frame.",
  ["internal/tilegroup/decode_frame_wrapup.go", "internal/tilegroup/output.go"], [("decodeFrameWrapup, referenceFrameUpdate", "internal/tilegroup/decode_frame_wrapup.go"), ("intermediateOutputPreparation", "internal/tilegroup/output.go")])
p("C59", "Key frames decode to exactly the samples of an independent decoder",
  "For a valid sequence of a sequence header and a key frame (of any chroma format and depth; lossless, segmented, with quantizer and filter deltas, quantizer matrices, palettes, block copy, several tiles, superblocks of 128, superres, CDEF and loop restoration of all types), whatever its tile data, decoding headers, symbols, modes, coefficients, prediction, reconstruction and filters together gives exactly the samples another AV1 decoder gives, and does not panic.",
  ["inputs"], "47 kinds of sequence; every valid tile data of two bytes; every byte of 3 sequences of each kind replaced by every value",
  "No test decodes a frame to samples.",
  ["internal/tilegroup", "internal/symbol", "internal/uncompressedheader"], [("NewTileGroup, build", "internal/tilegroup/tile_group.go"), ("decodeBlock", "internal/tilegroup/decode_block.go"), ("reconstruct", "internal/tilegroup/reconstruct.go")])
p("C60", "Predicted frames decode to exactly the samples of an independent decoder",
  "For a valid sequence of a key frame and one or two frames predicted from it or intra-only (of any chroma format and depth; with single, compound, masked, overlapped, locally and globally warped and scaled prediction, skip mode, references by segment, filters, hidden frames), whatever the last frame's tile data, decoding everything together, references included, gives exactly the samples another AV1 decoder gives, and does not panic.",
  ["inputs", "histories"], "40 kinds of sequence; every valid tile data of two bytes; every byte of 3 sequences of each kind replaced by every value",
  "No test decodes a predicted frame to samples.",
  ["internal/tilegroup", "internal/symbol", "internal/uncompressedheader", "internal/state"], [("NewTileGroup, build", "internal/tilegroup/tile_group.go"), ("findMvStack", "internal/tilegroup/find_mv_stack.go"), ("predictInter", "internal/tilegroup/predict_inter.go")])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
