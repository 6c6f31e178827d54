COMMON = "Within the bounds written to the evidence every history is run on the real code and compared; outside them nothing is claimed. Trusted: the Go toolchain, the reference model in harness/ (written from the AV1 specification) and the explorer."
NA = {}
NOTE = {
 "C01": "Every width, offset and content pattern of a fixed-width read within the bound, compared with an independent bit-level model; also that bytes outside the addressed range never matter.",
 "C02": "Every code word of each variable-length code up to the stated widths, at every bit offset, including the non-canonical and longest forms.",
 "C03": "Every sequence of reads up to the stated depth, with the cursor compared after each.",
 "C04": "Every header byte and extension byte, at every offset.",
 "C05": "Every departure of bounded size from several base sequence headers, all flag combinations of each group; what follows the governed fields must stay in step.",
 "C06": "Every departure of bounded size in timing, decoder model and operating point fields, up to 32 operating points.",
 "C07": "Every colour configuration over profile, depth, mono, description and sRGB special case.",
 "C08": "Every tile layout coded over a family of frame sizes, uniform and explicit, both superblock sizes, against an independent partition model.",
 "C09": "All frame kinds crossed with bounded departures in control-flow fields, from several prior states and layers.",
 "C10": "Frame sizes, superres denominators and render sizes around all rounding borders.",
 "C11": "Every base_q_idx, delta and segment quantizer combination within the bound, incl. lossless derivation.",
 "C12": "Every value of every segmentation feature and bounded combinations, from several prior states.",
 "C13": "Every value of the loop filter, CDEF, restoration and transform mode fields, bounded combinations, across colour formats and lossless states.",
 "C14": "Every assignment of small order hints to references and frame, extreme hints at 8 bits, every pair for the relative distance.",
 "C15": "Every code word of every parameter, all type assignments, previous parameters over their range (through a shim).",
 "C16": "Every value of every film grain field and bounded combinations, for each colour format.",
 "C17": "Every pair of frames in a small domain and bounded departures over longer histories, with the decoder's own reference update in between (through a shim). Frames are 8x8: the decoder's frame store holds no more.",
 "C18": "All two-byte data and all symbol words up to the stated depths, decoded by the real decoder and by exact interval arithmetic on unbounded integers; initialisation and exit through a shim.",
 "C19": "Every count, symbol and many distributions of every alphabet size, all binary distributions, all symbol sequences up to a depth over two distributions.",
 "C20": "Every literal and non-symmetric value within the bound, all sequences of reads up to a depth, encoded by the reference arithmetic coder.",
 "C21": "All 256 quantizer indices against tables validated number by number against libaom when they were made.",
 "C22": "Every history of save, load, fresh start, tile entry, adaptation, tile exit and frame end up to the depth, all sets compared by value after each step (tile entry and exit through a shim).",
 "C23": "Every OBU type, extension, size field form, enclosing size and slack within the bound; layers in and out of the operating point; through obu.NewObu.",
 "C24": "Streams of up to the stated number of OBUs, divided into frame and temporal units in every way, through the parser (a shim opens its loop), against a model of framing and carried state.",
 "C25": "Whole small domains and all corners and their neighbours of large ones, for each helper, against arbitrary-precision arithmetic.",
 "C26": "The whole domain of each helper, or every small input, against independent definitions.",
 "C27": "All pixels of all wedge masks, against the mathematical definition of the master masks.",
 "C28": "Every superblock position of several frame sizes and every history of clearing and setting up to a depth.",
 "C29": "The whole domain of block sizes, partitions and subsamplings.",
 "C30": "Every interleaving of the steps of two decoders, and every switch at a read of bits (a hook in a rewritten copy of the bit reader), with everything each decoder is left with compared to a process in which it ran alone.",
 "C31": "Every header of bounded departure from base headers, parsed nine times: at every alignment, between different data, before and after other headers; with fingerprints of state, headers, input and all package variables.",
 "C32": "Every header of bounded departure from base headers, cut after every byte, at several alignments.",
 "C33": "Every division of a frame's tiles into tile groups, layouts up to 8 tiles (9 in the thorough tier) and bounded departures in tile sizes and use; the block decoding inside a tile and the filters after a frame are stand-ins in a rewritten copy, everything around them is the real code.",
 "C34": "Every context update tile, update switch, subset of adapting tiles and division into tile groups for up to 4 tiles, over histories of two frames (three in the thorough tier), comparing every distribution.",
 "C35": "The quantizer index functions and the scaling loop of the real code against a model with its own tables, for every quantizer index, offset, segment, matrix level, position and a range of levels.",
 "C36": "The real inverse transforms against an independent integer model (itself compared with the real-valued transforms at start) on every single coefficient, every pair in a row or column, and all sign patterns of bounded blocks.",
 "C37": "A reference encoder with its own probability model writes bounded blocks of coefficients; the real code decodes them and values, position, symbol state, contexts and every adapted distribution are compared.",
 "C38": "A reference encoder writes bounded blocks of motion vector differences; the real reading code decodes them and vectors, position, symbol state and every adapted distribution are compared.",
 "C39": "Bounded neighbourhoods (periodic fields of blocks, single neighbours, motion fields, frame and tile limits) at every block size and position are laid into the decoder's arrays; the real candidate search and an independent model of it are compared in every list entry, weight order and context.",
 "C40": "A reference encoder writes partition trees of bounded departure for every tile and frame limit; the real traversal decodes them with block decoding replaced by a recorder, and every block, position, flag, context, symbol state and adapted distribution is compared.",
 "C41": "A reference encoder writes the side information of bounded blocks and sequences of blocks; the real block decoding reads it with palette, vectors, transform sizes, prediction and coefficients replaced by stand-ins that must be reached in order and in step; every value, kept array, context, symbol state and adapted distribution is compared.",
 "C42": "As C41, over all intra modes of all sizes, places, chroma formats and neighbouring modes.",
 "C43": "As C41, over all references, inter modes, interintra, motion, compound and filter choices with bounded neighbours; the candidate search and warp samples are stand-ins too.",
 "C44": "As C41, over sizes, places, limits of frame and tile, and pairs and quartets of blocks, comparing everything kept in and around each block.",
 "C45": "As C41, over sizes, formats and depths, what the neighbours' palettes are, differences at the limits, and all colour contexts.",
 "C46": "As C41, over sizes, modes and split trees, and the transform and block sizes of neighbours.",
 "C47": "As C41, over frames, unit sizes and superres for the places, and over every coefficient value and reference for the values.",
 "C48": "Blocks of every size and mode are predicted by the real code from bounded surroundings and compared, sample by sample and beside the block, with an independent model of edges, filters and interpolation; each edge sample is also varied alone to both extremes.",
 "C49": "Bounded blocks run through the real traversal with intra and inter prediction of a block, coefficients and inverse transform replaced by recorders that leave patterns; the sequence of calls with all arguments, all samples, and what is recorded are compared with an independent traversal.",
 "C50": "Bounded frames of blocks and transforms, and every sample pattern around an edge within bounded departures, are filtered by the real code and every sample is compared with an independent model that filters edge by edge from the block map.",
 "C51": "Bounded frames with every strength, damping, direction and skip pattern are filtered by the real code and every sample, and the untouched input, compared with an independent model.",
 "C52": "Every width up to the bound and every denominator is upscaled by the real code and each sample compared with a model of its own (filter table validated against libaom); each sample is also varied alone.",
 "C53": "Bounded frames, units and coefficients are restored by the real code; an independent model computes each sample by itself from unit, stripe and window.",
 "C54": "Every neighbourhood of bounded departure is laid into the decoder's arrays and the real search for samples compared with an independent one over the map of blocks; estimates, shears and divisions of the real code are compared with an independent model over their ranges.",
 "C55": "The real prediction of whole blocks (all planes) is compared sample by sample, in and around the block, with an independent model over a block map, for every fraction, filter, size, place, scale and neighbour within bounds.",
 "C56": "As C55, over all blends of bounded departure; the model derives wedge masks from their mathematical definition.",
 "C57": "As C55, over warps: all types, sizes and parameter sets around the limits of validity, with bounded departures.",
 "C58": "Explicit exploration of histories of finished frames through the real wrap-up: a reference model of slots and output, with the filters of the models of C48-C53, run next to it; departures in format, depth, size, upscaling, kinds, levels, types, segmentation and masks are bounded.",
 "C59": "Exhaustive enumeration, on the real decoder: all valid tile data of two bytes, and all single-byte replacements in longer sequences, of every kind of sequence; the oracle is a second AV1 decoder (libaom 3.8.2), whose output for each of these sequences was recorded beforehand as a hash (harness/e2egold; golden/e2e-*.gz). Quick replaces one position in 6 of the longer sequences.",
 "C60": "As C59, for sequences whose last frame is predicted from the ones before.",
}
