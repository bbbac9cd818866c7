# Property table: the single source for properties.jsonl and MANIFEST.json.
# P(id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], level note)
PROPS = []
NA = []

TECH = "bounded symbolic execution of the Go SSA with SMT (z3/cvc5)"
NOTE = ("Every panic, assertion and loop bound on every path of the harness is an SMT obligation over all "
        "values within the stated bounds; nothing is claimed outside them. Trusts go/ssa, the engine's "
        "bit-vector encoding and the solvers' unsat answers; counterexamples are replayed natively. ")

def P(id, title, statement, qtext, why, files, mech, note, over=("inputs",)):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note))

BS = "internal/bitstream/bitstream.go"
P("B01", "Fixed-width reads return exactly the next bits, most significant first",
  "Reading n bits from any bit position of any buffer yields the unsigned number formed by exactly those n bits, most significant first, and leaves the position exactly n bits further on.",
  "every buffer content, every start offset within a byte, every width up to 63 bits",
  "Tests read a handful of widths from two fixed byte strings; the value must be right for every content, alignment and width.",
  [BS], [("F", BS), ("readBit", BS)], "Bounds: 9-byte buffers, offsets 0..7, widths 0..63.")
P("B02", "Variable-length unsigned codes decode to the value and length written",
  "Reading a variable-length unsigned code, a little-endian-base-128 number or a little-endian number returns the value the format assigns to those bits and consumes exactly the bits of the code, for every alignment. A prefix of 32 or more zeros gives the maximum 32-bit value and consumes only the prefix, and the byte count reported for a base-128 number is the number of bytes consumed by that read.",
  "every buffer content, alignment, prefix length up to 38 and byte count up to the format's maximum",
  "Tests decode one example per code; continuation patterns, saturation and alignment multiply beyond enumeration.",
  [BS], [("Uvlc", BS), ("Leb128", BS), ("Le", BS)], "Bounds: prefixes of 0..38 zeros, 1..8 base-128 bytes, 0..7 little-endian bytes, offsets 0..7.")
P("B03", "Signed and non-symmetric codes decode to the value and length written",
  "Reading an n-bit signed number returns its two's complement value; reading a non-symmetric number with n possible values returns a value in 0..n-1 using the truncated binary code of the format, and each consumes exactly the bits of its code.",
  "every buffer content and alignment, widths 1..33, alphabet sizes 1..80 (quick) or 1..1100 (thorough)",
  "Tests decode a few constants; the boundary between short and long codes moves with every alphabet size.",
  [BS, "internal/util/util.go"], [("Su", BS), ("Ns", BS), ("FloorLog2", "internal/util/util.go")], "Bounds: signed widths 1..33, alphabet sizes 1..80 quick / 1..1100 thorough, offsets 0..7.")
P("B04", "Alignment, padding and end-of-data tests are exact",
  "Byte alignment moves to the next byte boundary and never past it, trailing-bit reading consumes exactly the requested number of bits, and more data is reported exactly while at least one unread bit remains.",
  "every position and count within the bounds, every buffer length 0..8",
  "Tests use single positions; off-by-one errors show only at particular alignments or at the exact end of data.",
  [BS], [("ByteAlignment", BS), ("TrailingBits", BS), ("MoreDataInBistream", BS)], "Bounds: positions 0..56, counts 1..48, buffers up to 8 bytes.")

UT = "internal/util/util.go"
P("U01", "Rounding, clipping and logarithm helpers are exact",
  "Rounded division by a power of two, its signed form, clipping to a range or to the sample range of a bit depth, and integer logarithms return the values of the format's definitions for every argument, including negative values and ties.",
  "every argument within 32-bit (rounding) or the stated ranges",
  "Tests cover one or two positive arguments; ties, signs and range edges are where these go wrong.",
  [UT], [("Round2", UT), ("Round2Signed", UT), ("Clip3", UT), ("FloorLog2", UT)],
  "Bounds: values of up to 31 bits plus sign, shifts 0..20, bit depths 8..12.")
P("U02", "Trigonometric, bit-reversal and segment-id maps match the format",
  "The cosine and sine lookups equal the format's fixed-point tables extended to every angle by symmetry, bit reversal reverses exactly the requested bits, and the map from a coded difference to a segment identifier is a bijection around the reference for every alphabet size.",
  "every angle of the fixed-point circle (including negative), every width and value, every reference and alphabet size",
  "A quadrant or reflection error affects only some angles or some references, which sampled tests miss.",
  [UT], [("Cos128", UT), ("Sin128", UT), ("Brev", UT), ("NegDeinterleave", UT)],
  "Bounds: angles -512..511, bit widths 1..8, alphabets 1..8.")
P("O01", "Unit headers decode to exactly the fields that were coded",
  "Parsing a unit header yields the coded type, extension flag, size flag and, when present, temporal and spatial identifiers, consumes one byte or two, and leaves the identifiers zero when there is no extension.",
  "every header content and alignment",
  "Tests decode one header; a field mask or extension error appears only for other contents.",
  ["internal/header/header.go"], [("NewHeader", "internal/header/header.go")], "Bounds: every two-byte header.")
P("O02", "A unit is confined to its declared size and dropped units change nothing",
  "Parsing a unit whose contents fit its declared size leaves the read position exactly at the end of that size, whatever the unit type, and units that are padding, metadata, reserved or outside the selected operating point leave the decoder state unchanged.",
  "every unit header, size and payload within the bounds",
  "Tests hold one well-formed stream; skipping has to work for every type, size and operating point.",
  ["internal/obu/obu.go"], [("NewOBU", "internal/obu/obu.go"), ("trailing bits and dropping", "internal/obu/obu.go")],
  "Bounds: small payloads; frame and tile data payloads are outside.")
P("O03", "Units are delimited by nested sizes and state persists between them",
  "Parsing a stream consumes its temporal, frame and unit sizes exactly, visits every unit once and in order, and state set by one unit (such as the sequence header) is what later units of the same stream see.",
  "every arrangement of temporal units, frame units and units within the bounds, every size",
  "Tests parse one stream with one unit of each kind; nested sizes and cross-unit state need histories.",
  ["internal/parser/parser.go", "internal/obu/obu.go"], [("temporalUnit", "internal/parser/parser.go"), ("frameUnit", "internal/parser/parser.go")],
  "Bounds: streams of a few units; frame payloads are outside.", over=("inputs", "histories"))
P("S01", "Sequence headers decode to exactly the coded parameters",
  "Parsing a sequence header yields, for every combination of its optional parts, exactly the coded or inferred value of each parameter (operating points, timing and decoder model, frame size, tools, colour description) and consumes exactly the bits of the header.",
  "every header content within the bounds, every combination of the optional parts, 1..3 operating points",
  "Optional parts multiply: one misread width desynchronises everything after it, only in streams that use it.",
  ["internal/sequenceheader/sequence_header.go"], [("NewSequenceHeader", "internal/sequenceheader/sequence_header.go"), ("color config", "internal/sequenceheader/sequence_header.go")],
  "Bounds: layouts are split into six groups, each varying one group of optional parts with every value of its fields.")
SY = "internal/symbol/symbol.go"
P("E01", "Entropy decoding of a symbol follows the range coder exactly",
  "Decoding one symbol from any valid decoder state and any valid probability table returns the symbol whose interval contains the value, leaves the interval and remaining-bit accounting of the range coder, and reads zero bits once the data is exhausted.",
  "every decoder state, probability table and following data within the alphabet bound",
  "An interval or renormalisation slip desynchronises only for some probabilities and states.",
  [SY], [("DecodeSymbol", SY)], "Bounds: alphabets of 2,3,4,5,8,16 symbols (2..16 thorough); one symbol per decode; exhausted data with alphabets of 2,3.")
P("E02", "Symbol probabilities adapt exactly and only when enabled",
  "After a symbol is decoded with adaptation enabled, each probability moves by the format's rate towards the decoded symbol and the counter saturates at its limit; with adaptation disabled the table is unchanged, and the table stays well formed.",
  "every well-formed table, counter and symbol within the alphabet bound",
  "Rates depend on counter and alphabet size, so an error appears after many symbols or for some alphabets only.",
  [SY], [("adaptation", SY)], "Bounds: alphabets of 2,3,4,5,8,16 symbols (2..16 thorough), one adaptation step from any state.")
P("E03", "Literals and non-symmetric literals decode from the range coder exactly",
  "Reading an n-bit literal from the range coder returns the equiprobable bits most significant first, a non-symmetric literal uses the truncated binary code, and neither touches any adaptive table.",
  "every decoder state and data within the bounds",
  "Needs arithmetic over coder states that fixed examples do not reach.",
  ["internal/literal/literal.go", SY], [("L", "internal/literal/literal.go"), ("NS", "internal/literal/literal.go")], "Bounds: literals of up to 3 bits, alphabets 1..6.")

TI = "internal/tileinfo/tile_info.go"
UH = "internal/uncompressedheader/uncompressed_header.go"
P("T01", "Tile layouts partition the frame into tiles the header describes",
  "Parsing the tile layout of a frame yields, for uniform and explicit spacing, exactly the tile boundaries the coded bits describe: they start at zero, increase strictly, end at the frame size, and respect the limits on tile width, area and count. The context tile and the size of tile size fields are the coded ones, and exactly the bits of the layout are consumed.",
  "every coded layout of every frame size within the bounds, both superblock sizes",
  "Tile limits depend on the frame size in several nested ways; a test holds one or two frame sizes.",
  [TI], [("NewTileInfo", TI)],
  "Bounds: uniform spacing up to 130 x 65 superblocks (sampled superblock counts, every frame size inside them), explicit spacing up to 5 x 4 superblocks plus width- and area-limited cases.")
HB = ("Every harness compares the whole parsed header, the decoder state and the consumed bits with a second reader written from the format; "
      "headers that refer to previous frames' parameters (a primary reference, sizes or film grain from references, short reference signalling, motion fields) are outside: the code stops on them. Bounds: ")
P("H01", "Frame types, flags, identifiers and timing are the coded ones",
  "Parsing a frame header yields the coded or inferred frame type, visibility, error resilience, screen content and motion vector flags, frame identifiers, order hint, refresh mask and presentation and removal times, for shown, hidden, intra-only, reduced still and shown existing frames. A shown key frame invalidates every reference, and references whose identifier is too old become invalid.",
  "every header content within the bounds, arbitrary reference state",
  "Flags gate each other; a wrong default or width desynchronises the rest of the header only in streams that use that combination.",
  [UH], [("build", UH), ("uncompressedHeader", UH)], HB + "intra frames of one 40x24 size without further tools, order hints of 0, 3 or 8 bits, frame ids of every length, 1..3 operating points.", over=("inputs", "histories"))
P("H02", "Inter frames name their references and distances exactly",
  "Parsing an inter or switch frame header without a primary reference yields the coded reference indices, interpolation filter, motion flags and refresh mask; every reference gets the order hint stored for its index and is a backward reference exactly if it comes later in order. Distances between order hints wrap modulo the coded number of bits.",
  "every reference index, order hint and refresh mask, arbitrary reference state",
  "Sign bias and distances depend on wrapped order hints of all eight slots, which a single stream does not vary.",
  [UH], [("uncompressedHeader", UH), ("getRelativeDist", UH)], HB + "order hints of 0 and 4 bits (1 and 8 thorough), hint pairs of 1..8 bits for the distance.", over=("inputs", "histories"))
P("H03", "Frame, super-resolution and render sizes are exact",
  "The coded or inherited frame size, super-resolution denominator, downscaled width, render size and size in 4x4 units are exactly what the header codes, for every size up to 65536 in each direction and every denominator.",
  "every size, denominator and render size",
  "Rounding of scaled widths and of unit counts differs only for particular sizes.",
  [UH], [("frameSize", UH), ("superResParams", UH), ("renderSize", UH)], HB + "size fields of 1, 8 and 16 bits; whole headers with four small sizes.")
P("H04", "Quantizer, segmentation and delta parameters are exact",
  "The base quantizer index, per-plane deltas, quantizer matrix levels, segmentation features with their clipping and sign, block-level delta parameters and lossless decisions are exactly the coded ones. The effective index of a segment is the block's current or base index plus the segment's offset, clipped to the index range.",
  "every base index, delta, matrix level, segment feature and current index",
  "Lossless and per-segment indices combine several coded values with clipping; tests fix one combination.",
  [UH], [("quantizationParams", UH), ("segmentationParams", UH), ("GetQIndex", UH)], HB + "key frames; one segment with arbitrary features at a time; base index 0 and 3 (and 200) with segmentation.")
P("H05", "Loop filter, enhancement and restoration parameters are exact",
  "Deblocking levels, sharpness and deltas, directional enhancement damping and strengths, and restoration types and unit sizes are exactly the coded ones for every plane format, and take their disabled values for lossless frames, intra block copy or disabled tools.",
  "every level, delta, strength, count, type and unit size; every plane format and superblock size",
  "Strength lists, chroma inference and disabled defaults depend on flags from several headers.",
  [UH], [("loopFilterParams", UH), ("cdefParams", UH), ("lrParams", UH)], HB + "key frames of one size; enhancement and restoration varied separately (together only without restoration in use).")
P("H06", "Skip mode uses the two nearest references",
  "Skip mode is allowed only for compound frames with order hints where a forward reference and either a backward or a second, farther forward reference exist; it then uses the nearest forward and the nearest backward (or second nearest forward) reference in increasing order, and its presence flag is read exactly in that case.",
  "every assignment of order hints to the eight reference slots",
  "The choice is a search over wrapped distances with ties; only a few hint patterns occur in a test stream.",
  [UH], [("skipModeParams", UH)], HB + "order hints of 3 bits (and 7 thorough), two orders of reference indices.", over=("inputs", "histories"))
P("H07", "Global motion parameters are exact and stay in range",
  "For every reference the coded global motion model type and parameters are decoded against the defaults with the precision, range and recentring of the format, unused parameters keep the identity, and every parameter stays in the coded range.",
  "every model type, parameter code, precision and previous value",
  "The variable-length difference codes and recentring have many branches that depend on the previous value.",
  [UH], [("globalMotionParams", UH), ("readGlobalParam", UH), ("decodeSignedSubexpWithRef", UH)], HB + "one reference with an arbitrary model at a time with one parameter of any code length; single parameters against every previous value.")
P("H08", "Film grain parameters are exact",
  "Film grain parameters are read exactly when the sequence enables them and the frame is shown or showable; point lists, scaling, filter coefficients, multipliers and flags are the coded ones for every plane format, with coefficients present only for planes that use them.",
  "every parameter value, 0..3 luma and 0..2 chroma points (14 and 10 thorough), every filter lag and plane format",
  "The number of coefficients depends on lag, luma points and chroma scaling; a wrong count shifts everything after it.",
  [UH], [("filmGrainParams", UH)], HB + "full parameter sets (no update from a reference).")
P("E04", "Tiles start from the frame's probabilities and hand back exactly one set",
  "Every tile starts symbol decoding from the frame's probability tables with adaptation counters at zero, its value, range and remaining bits are those the coded data defines, and adaptation inside a tile never reaches the frame's tables. When a tile ends, padding is skipped exactly to the end of the tile, and the frame ends with the tables of the context tile if the header asks for the update and with its own otherwise.",
  "every table content, tile size 1..40 bytes, remaining bit count, tile number and context tile",
  "A table that is shared, forgotten or copied from the wrong tile matters only in streams with several tiles or frames and changes no single decoded symbol a test looks at.",
  ["internal/tilegroup/tile_group.go", "internal/state/state.go", UH], [("initSymbol", "internal/tilegroup/tile_group.go"), ("exitSymbol", "internal/tilegroup/tile_group.go"), ("SavedCdfs", "internal/state/state.go")],
  "Bounds: tiles of 1..40 bytes, every table kind with two rows of arbitrary probabilities, tile numbers 0..5.", over=("inputs", "histories"))
P("E05", "Default probabilities are well formed and chosen by the base quantizer",
  "Setting up a frame without a reference gives every syntax element a probability table of its alphabet size that starts from zero counts, increases strictly to the full range and has the default values of the format; the coefficient tables are the set selected by the base quantizer index (up to 20, 60, 120, above).",
  "every table, every base quantizer index 0..255, every previous content of the tables",
  "There are thousands of table rows; tests and single streams touch a few of them, and a wrong row only degrades decoding of particular symbols.",
  ["internal/uncompressedheader/cdf.go", UH], [("initCoeffCdfs", "internal/uncompressedheader/cdf.go"), ("initNonCoeffCdfs", "internal/uncompressedheader/cdf.go")],
  "Bounds: none beyond the base index range. The default values are pinned by digests taken from this code after its structural checks (alphabet, ordering, totals, symmetry between sets); they were not compared with the text of the standard, which is not available offline.")
TG = "internal/tilegroup/"
KB = ("The symbol, literal and candidate search routines are replaced by recorders that return every value of the alphabet they are given; a second reader written from the format checks table, order and result of every read. "
      "Elements the repository does not implement yet (it stops on them) are arbitrary values. Bounds: one block at unit position (1,1); ")
P("K01", "Segment, skip, enhancement index and delta reads of a block are exact",
  "In every block the segment, skip flag, enhancement index, quantizer delta and loop filter deltas are read exactly when the frame and the superblock position require it, with the table selected by the neighbours. Segments are predicted from neighbouring blocks and stay in the active range; deltas are scaled, accumulate and stay clipped; the index is kept once per 64x64 area.",
  "every neighbour state, frame flag, block size and coded value",
  "A block's syntax depends on a dozen flags and neighbours at once; reading one element too many or with another table desynchronises everything behind it.",
  [TG + "intra_frame_mode_info.go"], [("intraSegmentId", TG + "intra_frame_mode_info.go"), ("readCdef", TG + "intra_frame_mode_info.go"), ("readDeltaLf", TG + "intra_frame_mode_info.go")],
  KB + "delta and index values of every coded length.", over=("inputs", "histories"))
P("K02", "Prediction modes of intra blocks are read with the right tables",
  "A block of an intra frame reads the block copy flag, luma mode, angles, chroma mode, chroma-from-luma scaling and recursive filter exactly when allowed for its size, planes, subsampling and losslessness, with the tables selected by its neighbours' modes. A block copy takes the fixed modes, no palette and bilinear prediction instead.",
  "every block size, subsampling, neighbour mode, flag and coded value",
  "Which table and which elements are used depends on combinations of size, subsampling, losslessness and neighbours that no single stream has.",
  [TG + "intra_frame_mode_info.go"], [("intraFrameModeInfo", TG + "intra_frame_mode_info.go"), ("readCflAlphas", TG + "intra_frame_mode_info.go")],
  KB + "no palettes.")
P("K03", "Partitioning follows the coded tree and covers the block inside the frame",
  "Every partition of every square block yields exactly the blocks of its shape, in coding order and with the right sizes; blocks outside the frame are not coded, and at the frame edge the split that remains possible is inferred or read with the probability derived from the full partition table.",
  "every partition, block size, neighbour context and distance to the frame edge",
  "Edge blocks use derived probabilities that depend on sums over the table; only frames with particular sizes and contexts use them.",
  [TG + "decode_partition.go"], [("decodePartition", TG + "decode_partition.go"), ("splitOrHorzCdf", TG + "decode_partition.go")],
  "The block decoder and the recursive call are replaced by recorders. Bounds: blocks 8x8 to 128x128, every neighbour context, every distance to the right and lower edge, every symbol, arbitrary probability tables.")
P("K04", "Inter blocks read references, modes, masks and filters exactly",
  "A block of an inter frame reads segment, skip mode, skip, inter flag, references, mode, candidate index, blending, motion mode, compound type and filters exactly when allowed, with contexts from its neighbours, and infers the others. The references, modes, vectors and contexts that result are those of the coded values.",
  "every block size, frame flag, segment feature, neighbour reference and coded value",
  "There are more than twenty elements whose presence depends on each other; a test stream sees a few combinations.",
  [TG + "inter_block_mode_info.go", TG + "inter_frame_mode_info.go"], [("interFrameModeInfo", TG + "inter_frame_mode_info.go"), ("interBlockModeInfo", TG + "inter_block_mode_info.go"), ("readMotionMode", TG + "inter_block_mode_info.go")],
  KB + "up to 2 candidates, zero vector differences, groups of elements varied together per harness.", over=("inputs", "histories"))
P("K05", "Transform sizes of blocks are read and recorded exactly",
  "For every block size the transform size or the tree of transform sizes is read exactly when the frame's mode and the block allow it, with depth and table following the block; each transform of the tree is recorded over exactly the area it covers, and other blocks take the largest or the lossless size.",
  "every block size, transform mode, losslessness, neighbour and coded value",
  "The recorded sizes drive contexts and deblocking later; a wrong cell shows only in neighbours of particular shapes.",
  [TG + "tx_size.go"], [("readBlockTxSize", TG + "tx_size.go"), ("readVarTxSize", TG + "tx_size.go"), ("readTxSize", TG + "tx_size.go")],
  KB + "every block size up to 128x128, with the whole tree of split flags.")
P("K06", "Motion vectors are the prediction plus the coded difference",
  "For every mode each motion vector is the global, nearest, near or new vector of its reference, a new one being the prediction plus exactly the coded difference in the frame's precision. Block copy vectors use the nearest usable candidate or the default position, in whole samples.",
  "every mode, candidate, precision and coded difference",
  "Difference codes have eleven size classes with separate tables per bit; tests and streams use the small ones.",
  [TG + "assign_mv.go"], [("assignMv", TG + "assign_mv.go"), ("readMv", TG + "assign_mv.go"), ("readMvComponent", TG + "assign_mv.go")],
  KB + "up to 2 candidates of up to 16384 eighth samples; one component of any class at a time.")
XB = "Equality of every output with a second transform written from the definition, for all inputs at once. "
P("X01", "Lossless blocks reconstruct the residual without loss",
  "For a lossless block the inverse transform returns exactly the residual from which the forward lossless transform made the coefficients, whatever the transform type, bit depth and earlier blocks. On any coefficients it is the two-dimensional Walsh-Hadamard inverse of the format.",
  "every 4x4 residual of 8, 10 and 12 bit video; every 14-bit coefficient",
  "Losslessness is a statement about all residuals; an error in one lifting step shows only for odd sums or large differences.",
  [TG + "transform.go"], [("InverseTranform", TG + "transform.go"), ("inverseWalshHadamardTransform", TG + "transform.go")], XB + "Bounds: residuals of the bit depth; coefficients of 14 bits, where the intermediate limit does not apply.")
P("X02", "Inverse cosine transforms are exact",
  "The inverse cosine transforms of 4, 8, 16, 32 and 64 points compute, for every input vector, exactly the integer butterfly network of the format, with its rounding and its limits on intermediate sums.",
  "every input vector of 20 bits without limiting and of 16 bits with sums limited to 16 bits, for each size",
  "An encoder computes the same integers; one wrong angle, sign or rounding in a network of hundreds of steps makes all later frames drift, and tests can only sample vectors.",
  [TG + "transform.go", "internal/util/util.go"], [("inverseDCT", TG + "transform.go"), ("Cos128", "internal/util/util.go"), ("Clip3", "internal/util/util.go")], XB + "Clip3 is replaced by an equivalent term, which a harness of its own proves.")
P("X03", "Inverse sine and identity transforms are exact",
  "The inverse sine transforms of 4, 8 and 16 points and the identity transforms of 4, 8, 16 and 32 points compute, for every input vector, exactly the integers the format defines.",
  "every input vector of 20 bits without limiting and of 16 bits with sums limited to 16 bits, for each size",
  "As for the cosine transforms: exactness for all inputs cannot be sampled.",
  [TG + "transform.go"], [("inverseADST", TG + "transform.go"), ("inverseIdentityTransform", TG + "transform.go")], XB)
P("X04", "Two-dimensional transforms combine rows and columns exactly",
  "For every transform size and type the rows and then the columns go through the transform that the type names for that direction, with the size of that direction, the scaling of 2:1 blocks, the shifts of the size, the limit between the passes and zero coefficients outside the first 32 by 32.",
  "every size; every type for sizes up to 16, cosine and identity for 32, cosine for 64; every coefficient of 16, 18 and 20 bits",
  "Nineteen sizes times sixteen types select kernels, shifts and limits separately; streams use a few, and leftovers of earlier blocks matter only in some sequences.",
  [TG + "transform.go"], [("InverseTranform", TG + "transform.go")], XB + "The one-dimensional transforms are replaced by distinguishable linear maps here; X01 to X03 decide them. 32 and 64 point blocks at 10 bits.")
P("X05", "Coefficients are dequantized and added to the prediction exactly",
  "Every coefficient is scaled with the step of its plane, position, segment and block index, weighted by the level's matrix where one applies, reduced for large transforms and limited to the range of the bit depth. The residual is then added to the samples of exactly its block, mirrored as the type says and limited to the sample range.",
  "every base index, delta and segment feature; every size; coefficients of 20 bits; residuals of 17 bits and every sample",
  "The step depends on six parameters and the weight on five; wrap-around and limiting need large coefficients that tests do not have.",
  [TG + "reconstruct.go", TG + "quantizer.go", UH], [("reconstruct", TG + "reconstruct.go"), ("GetQIndex", UH), ("Quantizer_Matrix", TG + "quantizer.go")],
  "Bounds: scaling at four coefficient positions per size with base indexes 0, 97, 255; steps for every index on one coefficient; weights at every position for levels 0, 6, 14, 15 and four types; addition for 4x4, 8x4 and 4x16. Table contents are pinned by digests taken from this code after checks of order and symmetry.")
P("K07", "Coefficients are read with the right contexts, in scan order and exactly",
  "For every transform block the count, levels, signs and long codes of its coefficients are read in the order and with the contexts the format derives from size, type, neighbours and coefficients already read, and stored at their scan positions. The contexts left for later blocks summarise exactly what was read.",
  "every size and class: all counts, all-zero and sign contexts, scans; contexts of levels at every position near an edge with arbitrary levels; blocks of up to 4 coefficients with every level; long codes of up to 20 bits",
  "A context depends on up to five earlier levels and a wrong one misreads everything that follows; tests see one stream, not every neighbourhood.",
  [TG + "coeffs.go"], [("coeffs", TG + "coeffs.go"), ("getCoeffBaseCtx", TG + "coeffs.go"), ("readCoeffBrSymbol", TG + "coeffs.go"), ("getScan", TG + "coeffs.go")], KB + "The transform type is given (K08). Bounds: long codes limited to the 20 bits conforming streams use.")
P("K08", "Transform types are read from and limited to the allowed set",
  "The type of each luma transform is read from the set its size, mode and frame allow, with the table of its size and direction, or is the plain cosine where there is no choice. Chroma takes the luma type or the type of its own mode, limited to its set.",
  "every size, set, mode, symbol, segment feature and plane; one block position",
  "Five sets times nineteen sizes times modes decide the table and the meaning of each symbol; chroma combines luma position, set and format.",
  [TG + "coeffs.go"], [("transformType", TG + "coeffs.go"), ("computeTxType", TG + "coeffs.go"), ("getTxSet", TG + "coeffs.go")], KB)
P("K09", "Palettes and their index maps are decoded exactly",
  "Palette colours are taken from the merged colours of both neighbours, coded in ascending differences and sorted; the second chroma plane wraps around. Index maps are coded along diagonals in the order of the neighbours' weights and extended past the frame edge.",
  "up to 3 colours above, left and in the block (4 thorough for merging), depths 8 to 12; weights for 2 to 8 colours; maps of 8x8, 4x16, 16x8",
  "Merging, clipping and shrinking differences interact: the bits of each colour depend on all colours before it.",
  [TG + "palette.go", TG + "palette_tokens.go"], [("paletteModeInfo", TG + "palette.go"), ("getPaletteCache", TG + "palette.go"), ("paletteTokens", TG + "palette_tokens.go"), ("getPaletteColorContext", TG + "palette_tokens.go")], KB + "Elements the repository cannot read yet (palette sizes, colour indexes) are arbitrary values. Sorting and limiting are replaced by branch-free terms that separate harnesses decide.")
P("K10", "A block decodes its parts in order and records them for later blocks",
  "Each block determines its neighbours and whether it carries chroma, then reads modes, palette indexes and transform sizes, predicts and adds the residual, in this order. Everything later blocks consult is recorded for every unit of the block and nowhere else; skipped blocks clear their coefficient contexts.",
  "every block size, format and alignment; every mode",
  "What one block records decides contexts of blocks decoded much later; a missing or stale entry shows only for particular successors.",
  [TG + "decode_block.go", TG + "tile_group.go"], [("decodeBlock", TG + "decode_block.go"), ("resetBlockContext", TG + "decode_block.go"), ("clearAboveContext", TG + "tile_group.go")], KB + "The steps are replaced by recorders; other properties decide them. Records are compared at the corners and next to the block.", over=("inputs", "histories"))
P("K11", "Restoration units are read by the superblock that holds their corner",
  "Each superblock reads the restoration units whose upper left corner it holds, per plane, in frames scaled or not. The kind, taps and weights of a unit are decoded relative to those of the last unit of its plane, with the subexponential code of the format.",
  "every kind, plane, reference and coded value; frames up to 256x256 (512 wide upscaled), every unit size and format",
  "Which superblock holds a unit depends on unit size, subsampling and scaling; each coefficient is relative to all before it.",
  [TG + "read_loop_restoration.go"], [("readLr", TG + "read_loop_restoration.go"), ("readLrUnit", TG + "read_loop_restoration.go"), ("decodeSubexpBool", TG + "read_loop_restoration.go")], KB, over=("inputs", "histories"))
P("G01", "A tile group hands each tile exactly its data and ends the frame once",
  "Tiles are decoded in order under their numbers, each with its rows and columns, the base quantizer and exactly the bytes its size field gives; the last takes what remains. Frames are set up with the first tile, and finished, with the tables saved, after the last one only.",
  "up to 2x2 and 1x3 tiles (3x2 thorough), groups of up to 15 bytes, every start and end, size fields of 1 to 4 bytes",
  "A size off by one byte garbles all tiles behind it, in streams with several tiles or groups only.",
  [TG + "tile_group.go"], [("build", TG + "tile_group.go")], "Decoding a tile and finishing a frame are replaced by recorders. Not covered: what one tile group keeps for the next (each starts from fresh block records, see DESIGN.md).", over=("inputs", "histories"))
P("G02", "A tile starts fresh and visits its superblocks in raster order",
  "At the start of a tile the contexts above, filter deltas and restoration references are reset; at the start of each row of superblocks the contexts to the left. Each superblock allows deltas and filter directions to be read once, reads its restoration units and then its blocks, in raster order.",
  "up to 3x3 superblocks of both sizes at all positions of a 256x256 frame, cut at the frame edge",
  "State left over from a previous tile or row changes only streams with several, and only for particular contexts.",
  [TG + "tile_group.go", "internal/cdef/cdef.go"], [("decodeTile", TG + "tile_group.go"), ("clearAboveContext", TG + "tile_group.go"), ("clearLeftContext", TG + "tile_group.go"), ("ClearCdef", "internal/cdef/cdef.go")], "Blocks and restoration units are replaced by recorders that change all state they could.", over=("inputs", "histories"))
IB = "Frames hold arbitrary samples along the edges of the block; every sample of the plane is compared after the prediction. "
P("I01", "DC, smooth and Paeth predictions are exact and stay inside their block",
  "For every block size and availability of neighbours these predictions compute from the samples to the left and above exactly the values of the format, with the substitutes it gives for missing neighbours. They write every sample of their block and none outside.",
  "all 19 sizes for DC, the sizes in the harness names for smooth and Paeth, every availability, all edge samples up to 128 to 256 samples and the ends and middle beyond",
  "Predictions are integer formulas over up to 128 samples; rounding, missing neighbours and oblong blocks each have their own case.",
  [TG + "predict_intra.go"], [("predictIntra", TG + "predict_intra.go"), ("dcIntraPredictionProcess", TG + "predict_intra.go"), ("smoothIntraPredictionProcess", TG + "predict_intra.go")], IB + "Bounds: one block position away from the frame corner.")
P("I02", "Directional predictions follow their angle, edge filters and frame edges",
  "For each of the 56 angles every sample is interpolated from the upper or left edge at the angle's position, after filtering and upsampling the edge as block size, angle and smooth neighbours require. Edges are extended where neighbours are missing or lie beyond the frame.",
  "every angle, sizes 4x4 to 16x16 with 4x8, 8x4, 4x16, 16x8, 16x4, 8x32 (32x32 and 16x64 thorough), every availability and filter type, all edge samples of 10 bits, three frame edges",
  "Whether an edge is filtered, upsampled or cut depends on size, angle, neighbours and frame edge together; streams meet few of the combinations.",
  [TG + "predict_intra.go"], [("directionalIntraPredictionProcess", TG + "predict_intra.go"), ("intraEdgeFilterProcess", TG + "predict_intra.go"), ("getFilterType", TG + "predict_intra.go")], IB)
P("I03", "Recursive, palette and chroma-from-luma predictions are exact",
  "The recursive filters predict each 4x2 patch from the seven samples around it; palette blocks take the colour of their index; chroma from luma adds the scaled luma variation of its own plane to the DC prediction, repeating luma beyond the part that is known. All limit results to the sample range.",
  "sizes up to 8x8 and 4x16, every filter and edge sample; every palette and index; five scalings, every luma sample of 10 bits, all formats",
  "Recursive prediction feeds rounding back into later patches, and the luma average depends on how much of the block lies inside the frame.",
  [TG + "predict_intra.go", TG + "residual.go"], [("recursiveIntraPredictionProcess", TG + "predict_intra.go"), ("palettePrediction", TG + "residual.go"), ("predictChromaFromLuma", TG + "residual.go")], IB)
P("I04", "Blocks are reconstructed transform by transform in the coded order",
  "Each block visits its transforms plane by plane in chunks of 64x64 and only inside the frame: predict when it is intra, then read coefficients unless it is skipped, then add them when there are any. Each prediction knows exactly which neighbours have been decoded, and transform sizes are recorded over the area they cover.",
  "every block size, format, availability and mode; intra, palette, chroma from luma, lossless, skipped and inter; up to four blocks in sequence; three frame and tile ends",
  "Which upper-right and lower-left samples exist depends on everything decoded before in the superblock; a wrong flag shows only for particular neighbours.",
  [TG + "residual.go", TG + "tile_group.go"], [("residual", TG + "residual.go"), ("transformBlock", TG + "residual.go"), ("clearBlockDecodedFlags", TG + "tile_group.go")],
  "Prediction, coefficient reading and reconstruction are replaced by recorders; a second walk gives the steps. Bounds: superblocks of 64 and 128 at one position.", over=("inputs", "histories"))
P("I05", "Predictions cover each block from its own or its neighbours' motion",
  "Every plane of an inter block is predicted exactly once over its whole area. A chroma block shared by several small blocks is predicted in parts from the motion of each, unless one of them is intra; blocks that mix intra and inter prediction get the intra part first with the right neighbours.",
  "every size, format and alignment, both superblock sizes, every mix of intra and inter neighbours",
  "Parts exist only for narrow blocks at odd positions in subsampled formats with particular neighbours.",
  [TG + "compute_prediction.go"], [("computePrediction", TG + "compute_prediction.go")], "The predictions themselves are replaced by recorders.", over=("inputs", "histories"))
LB = "Frames hold arbitrary samples; the formulas of the format are written independently and compared for every sample. "
P("L01", "The loop filter visits every edge once, with its strength and size",
  "Every 4-sample edge of every filtered plane inside the frame is decided once, all vertical edges before horizontal ones. It is filtered exactly when it is a transform edge away from the frame edge whose blocks are coded, intra or block edges; its length follows the smaller transform and its strength the level of segment, reference and mode, with the limits of sharpness.",
  "small frames of every format; every transform size on both sides, every level, delta, segment, reference, mode and sharpness",
  "Which edges are filtered depends on the sizes, skip flags and prediction of both sides and on six header fields; a wrong combination looks like a slight blur.",
  [TG + "loop_filter_process.go"], [("loopFilter", TG + "loop_filter_process.go"), ("loopFilterEdge", TG + "loop_filter_process.go"), ("filterSize", TG + "loop_filter_process.go"), ("adaptiveFilterStrength", TG + "loop_filter_process.go"), ("adaptiveFilterStrengthSelection", TG + "loop_filter_process.go")], LB, over=("inputs", "histories"))
P("L02", "The loop filter changes samples exactly as the format prescribes",
  "For every filter length, plane and direction the decisions on variation and flatness and the narrow and wide filters give exactly the format's samples. Only samples of the edge that its length allows change.",
  "every length, luma and chroma, both directions, all samples of 8, 10 and 12 bits, every limit",
  "Thresholds on up to fourteen samples select between filters; rounding and clamping errors change few samples slightly.",
  [TG + "loop_filter_process.go"], [("sampleFiltering", TG + "loop_filter_process.go"), ("filterMask", TG + "loop_filter_process.go"), ("narrowFilter", TG + "loop_filter_process.go"), ("wideFilter", TG + "loop_filter_process.go")], LB)
P("L03", "The directional enhancement filter finds its direction and filters inside it",
  "Every coded 8x8 block that is not skipped and whose region has strengths is filtered, all others keep their samples. The direction is the first with the largest cost, and each sample is corrected by the constrained taps along and across it, ignoring samples that are unavailable, and kept between its neighbours' extremes.",
  "all blocks of small frames; every direction, strength, damping and depth; every sample around the block",
  "The direction is a search over eight sums of squares and each tap has its own damping; mistakes shift a few samples by one.",
  [TG + "cdef.go"], [("cdefProcess", TG + "cdef.go"), ("cdefBlock", TG + "cdef.go"), ("cdefDirection", TG + "cdef.go"), ("cdefFilter", TG + "cdef.go"), ("constrain", TG + "cdef.go")], LB)
P("L04", "Superres scales each row by the exact filter phases",
  "With superres each output sample is the eight tap interpolation of the row at the exact position and phase of its column, repeating the samples at the ends of the row. Without superres frames are unchanged.",
  "the widths and denominators named in the harnesses, every format and all samples",
  "Positions accumulate in fixed point, so that errors show only far into a row or for particular denominators.",
  [TG + "decode_frame_wrapup.go"], [("upscalingProcess", TG + "decode_frame_wrapup.go")], LB)
P("L05", "Loop restoration filters every block with its unit's exact filter",
  "Every block of a restored plane is filtered by the kind and coefficients of its unit, with the window limited to its stripe and plane; others are copied. The Wiener and self-guided filters give exactly the format's samples for every coefficient, set and weight.",
  "blocks along both axes of frames up to 150x150; every tap, set, weight and sample of 8, 10 and 12 bits for blocks up to 4x4",
  "Units, stripes and frame ends cut each other at unusual places, and the filters have intermediate clamps that only extreme samples reach.",
  [TG + "loop_restoration.go"], [("loopRestoration", TG + "loop_restoration.go"), ("loopRestoreBlock", TG + "loop_restoration.go"), ("wienerFilter", TG + "loop_restoration.go"), ("selfGuidedFilter", TG + "loop_restoration.go"), ("boxFilter", TG + "loop_restoration.go"), ("getSourceSample", TG + "loop_restoration.go")], LB + "Each filter step is decided with the step below replaced by arbitrary values.")
P("R01", "The end of a frame filters, stores and shows it in the right order",
  "A new frame is loop filtered when its levels ask for it, then enhanced, scaled and restored, restoration knowing the samples from before the enhancement, and segments of frames that keep their map are taken over. Only then is the frame stored in its slots and, if it is shown, output once; a shown key frame is first loaded again from its slot.",
  "every combination of levels, frame kinds, segmentation and show flags",
  "Each step works alone; a wrong order or condition shows only in streams with the particular combination of flags.",
  [TG + "tile_group.go"], [("decodeFrameWrapup", TG + "tile_group.go")], "The steps are replaced by recorders.", over=("inputs", "histories"))
P("R02", "Reference slots keep and give back exactly the frame stored in them",
  "Every chosen slot takes the size, type, order, colour format, samples, motion, global motion and segments of the finished frame, and all other slots stay unchanged. Loading a slot gives all of it back, and no later frame changes what is stored.",
  "every choice of slots, arbitrary parameters of the current and all stored frames",
  "A field that is lost or mixed up between slots matters only frames later and only for the tools that use it.",
  [TG + "decode_frame_wrapup.go"], [("referenceFrameUpdate", TG + "decode_frame_wrapup.go"), ("referenceFrameLoadingProcess", TG + "decode_frame_wrapup.go")],
  "Bounds: frames of up to 4x5 units with 2x2 samples. Saving and loading of probability tables is E04; loop filter, segmentation and film grain parameters are not stored by the code (not implemented) and not claimed.", over=("inputs", "histories"))
P("R03", "Output pictures are the cropped planes of the right frame",
  "A shown frame is output with its upscaled width and its height, the chroma planes with the rounded subsampled size, and none for monochrome; a frame shown again comes from its slot with that slot's size and format. The output is a copy of exactly those samples.",
  "pictures up to 9x9, every format, every slot",
  "Odd sizes and slots of another size than the current frame are rare in samples.",
  [TG + "output.go"], [("outputProcess", TG + "output.go"), ("intermediateOutputPreparation", TG + "output.go"), ("cropPlane", TG + "output.go")], "Bounds: no operating point selection, no film grain (not implemented).")
PI = TG + "predict_inter.go"
P("M01", "Motion-compensated blocks are filtered exactly from the reference",
  "The place and step of a prediction follow the motion vector, the subsampling and the scale between the reference and the frame. Every sample is the reference filtered in both directions with the block's kinds of filter, its size's variant, the fraction's taps and the roundings of its depth, where places outside count as the nearest sample inside; copying within a frame uses that frame and its size.",
  "references up to 8x8, blocks of 4x4, 8x4 and 4x8 and the extent of the largest blocks; every fraction, filter, position near the frame, arbitrary samples; scaling for every position and vector of 15 bits at 25 ratios",
  "Scaled references, fractions, frame borders and block sizes combine; errors move single samples and then spread through later frames.",
  [PI], [("motionVectorScalingProcess", PI), ("blockInterPredictionProcess", PI), ("roundVariablesDerivationProcess", PI)], "Bounds: frame sizes of the scaling harness are 16, 17, 64, 255 and 250.")
P("M02", "Predictions are blended with exact masks and weights",
  "Overlapped blocks fade into each inter neighbour above by rows and left by columns, at most as many as the block's size allows, with the mask of the part's length. Masks of differences and of interintra modes, the distance weights and the masked blend of two predictions in every subsampling give exactly the format's values, clipped to the sample range.",
  "blocks up to 8x8 samples with arbitrary predictions; interintra masks up to 32x32; overlapped blocks up to 64x64; every order hint of 5 and 8 bits",
  "Weights matter only where the predictions differ, and parts depend on the neighbours' sizes and kinds.",
  [PI, "internal/util/util.go"], [("overlappedMotionCompensationProcess", PI), ("overlapBlendingProcess", PI), ("differenceWeightMaskProcess", PI), ("intraModeVariantMaskProcess", PI), ("maskBlendProcess", PI), ("distanceWeightsProcess", PI), ("GetObmcMask", "internal/util/util.go")], "Wedge masks are not claimed: their table is not built by the code (nil slices).")
P("M03", "Inter prediction chooses warps, references and blending as coded",
  "Each reference of a block is predicted once, warped locally or globally exactly when the size, the motion mode, the kinds and validity of the warps and the scale allow, else translated. The predictions are written, averaged, weighted by distance or blended with the mask of the compound kind, whose difference and wedge masks come from luma, and overlapped afterwards.",
  "blocks of 4x8, 8x8 and 16x16 with two references, every kind of motion, compound and global motion, arbitrary predictions",
  "The choice depends on about ten conditions; tests of single kinds do not reach their combinations.",
  [PI], [("predictInter", PI), ("isScaled", TG + "util.go")], "The steps are replaced by recorders that return arbitrary samples.")
P("M04", "Warped blocks are filtered exactly along their shear",
  "The reciprocal of a divisor, the four shears of a warp and its validity are exactly the format's. Every sample of each 8x8 part is the reference filtered along the shear around the projected centre, with places outside counted as the nearest sample inside, and nothing outside the part is written.",
  "divisors of up to 40 bits; five scales and five cross terms with all values of the other parameters; six warps with arbitrary samples of references up to 8x8",
  "Fixed-point products and reductions differ only for particular parameters.",
  [PI], [("setupShearProcess", PI), ("resolveDivisorProcess", PI), ("blockWarpProcess", PI)], "The taps of the warp filters are checked for their number and sum only.")
P("M05", "Local warps are the least squares of the neighbours' motion",
  "The warp of a block is the fixed-point least-squares fit of the displacements of its sample positions around the block's centre, ignoring those that move too differently, and clamped to the format's ranges. Without enough information the warp is marked invalid.",
  "up to three samples (and eight) at fixed places, moved by any distance up to 300; every motion vector of 13 bits, four block sizes and places",
  "Sums, signs and clamps matter only for particular geometries.",
  [PI, "internal/util/util.go"], [("warpEstimationProcess", PI), ("diag", PI), ("nondiag", PI), ("LsProduct", "internal/util/util.go")], "The list of samples is not decided here (the candidate search is not claimed).")
