#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":mechanism}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Any byte stream ends in a decoded image, a need for more input, or an error",
 "For every byte sequence, every decoder option set and every way of feeding it, each call of the decoder returns: with success, with a request for more input, or with an error. It never panics, aborts, overflows an integer, indexes out of range, or loops without making progress.",
 ["inputs","configurations","histories"],"all byte strings x decoder options x pixel formats x feeding/flush/skip histories",
 "The tests decode 98 well-formed files and four regression inputs; the space of malformed streams is only sampled by the out-of-tree fuzz targets, which the test suite does not run.",
 ["jxl/src/api/inner","jxl/src/frame","jxl/src/headers","jxl/src/entropy_coding","jxl/src/icc","jxl/src/features"],
 "every parser validates counts, sizes and indices read from the stream before using them; fallible allocation; OutOfBounds error mapped to NeedsMoreInput")
p("P02","No memory-safety violation or undefined behaviour",
 "No input, option set, output-buffer layout or CPU feature level makes the library read or write outside an allocation, use freed or uninitialised memory, create an aliasing or misaligned reference, or otherwise execute undefined behaviour.",
 ["inputs","configurations","histories"],"all inputs x output-buffer layouts x SIMD levels, for the unsafe code in the image, SIMD, small-vector, entropy and modular code",
 "Undefined behaviour is invisible to ordinary assertions: the unit tests run uninstrumented, with one CPU feature level chosen at run time and tightly packed buffers.",
 ["jxl/src/image","jxl/src/util/smallvec.rs","jxl/src/util/cacheline.rs","jxl/src/render/buffer_splitter.rs","jxl/src/frame/modular/predict.rs","jxl/src/entropy_coding/ans.rs","jxl_simd/src"],
 "safety invariants of RawImageBuffer, OwnedRawImage, JxlOutputBuffer, SmallVec and the SIMD load/store wrappers")
p("P03","Parallel decoding returns exactly the sequential result",
 "For every input, output request and parallel runner - any thread count, any order of the tasks, tasks on one thread or many - the pixels, metadata, frame count and success or failure are bit-identical to those of the sequential decode, in one-shot and in progressive use.",
 ["schedules","inputs","configurations"],"all task orders and thread counts x inputs x feeding histories",
 "The parallel tests run three threads with one work distribution (and a shuttle scheduler with 5 iterations) over a fixed list of files in a single pixel format, without adversarial orders.",
 ["jxl/src/render/low_memory_pipeline","jxl/src/render/buffer_splitter.rs","jxl/src/frame/render.rs","jxl/src/api/inner/codestream_parser/frame_info.rs","jxl/src/util/per_thread_storage.rs","jxl/src/util/sync.rs"],
 "group scheduler hands each rendered region to exactly one task; borders are exchanged through per-group buffers guarded by status words",
 [("group status","which groups and borders are ready and who renders them")])
p("P04","Parallel decoding is free of data races",
 "While decoding with any parallel runner, no two threads access the same memory location without synchronisation where at least one access is a write, whatever the interleaving and whatever the input.",
 ["schedules","inputs"],"all interleavings of the parallel sections x inputs",
 "A race does not fail an assertion by itself; no test runs under a race detector.",
 ["jxl/src/util/sync.rs","jxl/src/util/per_thread_storage.rs","jxl/src/render/low_memory_pipeline","jxl/src/render/buffer_splitter.rs","jxl/src/image","jxl/src/frame"],
 "splitters hand out disjoint image rectangles; atomics and mutexes in the group scheduler and per-thread storage")
p("P05","How the input is delivered is not observable",
 "However a file is cut into pieces, and whatever kind of input object delivers it (slice, buffered reader, short reads, vague availability estimates), decoding produces the same metadata, frames, names, durations, pixels, frame index, reported file length and final error as feeding it in one piece. (For a container that is itself damaged, the outcomes agree up to the point where the damage is noticed, which may be earlier or later depending on read-ahead.)",
 ["histories","inputs"],"all partitions of the input into deliveries x input implementations x files",
 "The tests use a couple of fixed chunk sizes and in-memory slices only; which byte boundary falls where in the headers, boxes, TOC, ICC and sections is never varied.",
 ["jxl/src/api/inner/process.rs","jxl/src/api/inner/box_parser.rs","jxl/src/api/inner/codestream_parser","jxl/src/api/input.rs","jxl/src/icc/mod.rs","jxl/src/headers/toc.rs"],
 "small ring buffer in front of header parsing, incremental ICC/TOC readers, section buffers filled directly from the input",
 [("local buffer","unparsed header bytes and bit offset"),("ready section data","bytes of queued sections received so far")])
p("P06","Asking for partial renderings never changes the final image",
 "Calling flush at any points, any number of times, leaves the metadata, the error behaviour and the pixels of every completed frame identical to a decode without flushes. A flush that returns false has left the output buffers unchanged, and once all of a frame's data except its end has arrived a flush shows an approximation of the frame, not garbage outside its value range.",
 ["histories","inputs"],"all placements of flush calls in all feeding histories x inputs x runners",
 "Incremental tests flush on a fixed 123-byte grid and compare an error bound at four checkpoints of some files; flush histories, the dirty flag and non-default formats are not covered.",
 ["jxl/src/api/inner/process.rs","jxl/src/api/inner/codestream_parser/frame_info.rs","jxl/src/frame/lf_preview.rs","jxl/src/frame/render.rs","jxl/src/render/low_memory_pipeline"],
 "partial renders go through the same pipeline with per-group completeness tracking; a dirty flag records whether pixels were written")
p("P07","Incomplete or failing input is never reported as a complete decode",
 "A decode of a proper prefix of a file's codestream never reports the image or frame that extends beyond the prefix as complete: it asks for more input with a positive size hint or fails, and once the rest arrives it finishes exactly as if uninterrupted. An I/O error of the input object is passed to the caller and is never turned into success.",
 ["inputs","fault_sequences"],"all prefix lengths x files x decode modes (pixels, skipping, scanning) and all positions of a read or skip failure x input implementations",
 "No test truncates files systematically or uses a reader that fails or returns short.",
 ["jxl/src/api/inner","jxl/src/api/input.rs","jxl/src/bit_reader.rs","jxl/src/error.rs"],
 "OutOfBounds is reserved for missing input and is converted to NeedsMoreInput at the API; in complete sections it becomes SectionTooShort")
p("P08","The container is transparent to the codestream",
 "A codestream decodes to the same result bare, in one codestream box, or split over any sequence of partial codestream boxes - in order, or out of order where the format version allows it - with arbitrary other boxes interspersed, 32-bit, 64-bit or open-ended box sizes, and trailing data after the end. Containers whose boxes contradict each other are rejected.",
 ["inputs","histories"],"all splittings and box layouts x codestreams x deliveries",
 "A handful of box layouts exist in the test data; the layouts are unbounded and interact with the delivery of the input.",
 ["jxl/src/api/inner/box_parser.rs","jxl/src/api/signature.rs"],
 "box state machine with buffering of out-of-order partial boxes and index checks",
 [("out-of-order buffer","partial boxes received before their turn"),("parser state","signature / box header / codestream / skip / complete")])
p("P09","The frame index describes the file, and seeking reproduces the frame",
 "Scanning a file lists exactly its visible frames, in order, with the durations, names, last-flag and file offsets of the file, the same in every decode mode. Starting a decoder at a listed seek target and skipping the listed number of frames yields pixels identical to decoding from the start.",
 ["inputs","histories"],"all files with any frame dependency graph and container layout x all targets x all seek orders",
 "Seek tests cover three files and one box layout; dependency tracking through reference slots, blending, patches and low-frequency frames is per-file data.",
 ["jxl/src/api/inner/codestream_parser/frame_scan_info.rs","jxl/src/api/inner/box_parser.rs","jxl/src/api/decoder.rs","jxl/src/api/inner/codestream_parser/mod.rs"],
 "per-frame checkpoints of the box parser plus earliest-needed-frame tracking for every reference and LF slot",
 [("slot decode start","earliest frame needed to rebuild each stored slot")])
p("P10","Frames that are skipped leave no trace on those that are decoded",
 "Skipping any subset of the frames, decoding with or without pixels, and skipping or decoding the preview all leave the pixels and metadata of every frame that is decoded identical to a full decode.",
 ["histories","inputs"],"all subsets of skipped frames x files with inter-frame dependencies",
 "One test skips one frame of one animation.",
 ["jxl/src/api/inner/codestream_parser/mod.rs","jxl/src/api/inner/codestream_parser/frame_info.rs","jxl/src/frame/decode.rs","jxl/src/frame/mod.rs"],
 "a skipped visible frame is still decoded internally as far as later frames need it")
p("P11","All output formats are views of one and the same image",
 "For every pixel format - sample type, byte order, integer bit depth, gray/RGB/BGR with or without alpha, separate, interleaved or ignored extra channels - each output sample is the correctly rounded and clamped conversion of the corresponding full-precision sample, in the requested position. An alpha component requested for an image without alpha is fully opaque.",
 ["configurations","inputs"],"all pixel formats x images x render paths (fast paths and generic paths, orientations, sizes)",
 "Tests compare u8/u16/f16 against f32 on a few images with one channel order and native endianness.",
 ["jxl/src/render/stages/convert.rs","jxl/src/render/low_memory_pipeline/save","jxl/src/render/simple_pipeline/save.rs","jxl/src/frame/render.rs","jxl/src/api/data_types.rs","jxl/src/render/save.rs"],
 "conversion stages chosen per data format, followed by interleaving save stages with SIMD fast paths")
p("P12","Orientation is applied exactly once and losslessly",
 "For every orientation in the header, every channel of every output frame is, sample for sample, the geometric transform named by that orientation of what the same file decodes to with the identity orientation, whatever the output format, buffers, size and runner; the reported image, preview and frame sizes match it; and nothing else of the file's meaning depends on the orientation field.",
 ["inputs","configurations"],"8 orientations x images x formats x options x runners",
 "The test files exercise each orientation on one 100x256 image in one format.",
 ["jxl/src/headers/image_metadata.rs","jxl/src/render/low_memory_pipeline/save","jxl/src/render/simple_pipeline/save.rs","jxl/src/api/inner/codestream_parser/image_info.rs","jxl/src/render/low_memory_pipeline/render_group.rs"],
 "save stages map each rendered rectangle to display coordinates")
p("P13","Output buffers are written completely and nowhere else",
 "A completed frame has written every sample of every requested output buffer, and no decode or flush ever writes a byte outside the rows and columns the caller described, whatever the strides, alignment, extra slack or number of buffers; wrong buffer counts are an error.",
 ["configurations","inputs","histories"],"all buffer geometries x formats x images x flush histories",
 "Tests use exactly sized, tightly packed buffers, so writes into padding or skipped pixels that were already zero go unnoticed.",
 ["jxl/src/image/output_buffer.rs","jxl/src/image/internal.rs","jxl/src/render/buffer_splitter.rs","jxl/src/render/low_memory_pipeline","jxl/src/api/inner/codestream_parser/mod.rs"],
 "output buffers carry row count, row bytes and stride; the splitter hands out sub-rectangles")
p("P14","The CPU feature level does not change the image",
 "The same file decodes to the same result whichever SIMD level is used: identical integers for losslessly coded images, and floating-point results equal within rounding for the rest.",
 ["configurations","inputs"],"scalar, SSE4.2, AVX2, AVX-512 x inputs",
 "On one machine the tests run the best level for whole-image decodes; per-primitive tests do not cover the render stages and entropy paths at every level.",
 ["jxl_simd/src","jxl/src/render/stages","jxl_transforms/src","jxl/src/frame/modular/transforms","jxl/src/frame/group.rs"],
 "generic code over a SIMD descriptor with runtime dispatch")
p("P15","Sample limits and declared sizes bound resource use",
 "With a sample limit set, no image or frame with more samples than the limit is decoded: it is rejected with an error before memory for it is allocated, while images safely below the limit decode unchanged. Without pixels having been allocated, memory use is bounded by a fixed overhead plus a multiple of the bytes actually supplied, however large the sizes declared in the stream.",
 ["inputs","configurations"],"all declared sizes and limits x truncation points",
 "No test measures allocation, and sample_limit is only used by fuzz targets.",
 ["jxl/src/api/inner/codestream_parser/mod.rs","jxl/src/api/inner/codestream_parser/frame_info.rs","jxl/src/api/inner/codestream_parser/image_info.rs","jxl/src/api/inner/box_parser.rs","jxl/src/icc/mod.rs","jxl/src/headers/toc.rs"],
 "size checks on image, preview and frame headers; section, box and ICC buffers grow with received data")
p("P16","Losslessly coded images are reconstructed exactly",
 "For every integer image losslessly coded with the format's modular tools - any predictor and decision tree, reversible colour transforms, palettes, squeeze, channel shifts, group sizes and bit depths, any entropy-coding configuration - the decoder returns exactly the encoded sample values.",
 ["inputs"],"all integer images x all lossless coding configurations",
 "The test files contain a small sample of coding tools and the tests compare the decoder only with itself: there are no reference pixels.",
 ["jxl/src/frame/modular","jxl/src/entropy_coding","jxl/src/headers/modular.rs","jxl/src/frame/decode.rs"],
 "modular sub-bitstreams, meta-adaptive trees with specialised fast paths, inverse transforms applied stepwise")
p("P17","Image and frame metadata are reported exactly as coded",
 "Size, bit depth, orientation, extra channels and their types, animation parameters, tone mapping, preview size, colour encoding, embedded profile, frame names and durations that the decoder reports equal the values written in the stream, for every legal combination and every coding of the header fields.",
 ["inputs"],"all legal header field combinations and codings",
 "Headers in the test files cover a small part of the field combinations.",
 ["jxl/src/headers","jxl/src/api/inner/codestream_parser/image_info.rs","jxl/src/api/inner/mod.rs","jxl/src/api/color.rs","jxl_macros/src/lib.rs"],
 "derive-macro generated header readers with conditions, defaults and select coders")
p("P18","Lossy images decode to the specified values within tolerance",
 "For every legal lossy (VarDCT) frame - any mix of block transforms, quantisation tables and fields, colour correlation, chroma subsampling, passes, coefficient orders, LF coding and smoothing, with loop filters on or off - each output sample is within a small tolerance of the value the standard's equations give for the coded coefficients.",
 ["inputs"],"all coefficient, quantisation and block-strategy assignments",
 "The tests compare the decoder with itself on existing files; there are no independent expected pixels.",
 ["jxl/src/frame/group.rs","jxl/src/frame/quant_weights.rs","jxl/src/frame/quantizer.rs","jxl/src/frame/coeff_order.rs","jxl/src/frame/block_context_map.rs","jxl/src/frame/color_correlation_map.rs","jxl/src/frame/adaptive_lf_smoothing.rs","jxl_transforms/src","jxl/src/render/stages"],
 "dequantisation, inverse transforms, colour correlation, XYB or YCbCr conversion, loop filters")
p("P19","Layers and frames compose as the format prescribes",
 "For every sequence of frames - cropped or covering, with any blend modes per channel, clamping, alpha association, reference slots, saved-before-transform references, patches, hidden and zero-duration frames, upsampled frames - each visible frame shows exactly the result of applying the frames in order to the canvas.",
 ["inputs","histories"],"all frame sequences and blending parameters",
 "A few animated files, compared only with the decoder itself.",
 ["jxl/src/features/blending.rs","jxl/src/features/patches.rs","jxl/src/render/stages/blending.rs","jxl/src/render/stages/patches.rs","jxl/src/render/stages/extend.rs","jxl/src/frame/mod.rs","jxl/src/frame/render.rs"],
 "blend stage reads reference slots; extend stage fills the canvas outside the crop; finished frames are stored in slots",
 [("reference slots","four stored frames, before or after colour transform")])
p("P20","Embedded profiles survive, and synthesised profiles are truthful",
 "An ICC profile embedded in a file is returned byte for byte. For every enumerated colour encoding the profile the library synthesises is a well-formed ICC profile whose header, tags, checksum, colorants and tone curve describe that encoding.",
 ["inputs","configurations"],"all ICC byte strings in every encoding of the ICC coder; all enumerated colour encodings incl. custom white points, primaries and gammas",
 "Three files with ICC profiles and spot checks of a few encodings.",
 ["jxl/src/icc","jxl/src/api/color.rs","jxl/src/util/linalg.rs"],
 "predictive ICC command stream decoder; ICC v4 writer with computed colorant matrices and curves")
p("P21","Colour conversion to the output encoding is accurate",
 "For XYB-coded images and every output encoding the API accepts - primaries, white point, transfer function, with the intensity target of the file - output samples equal the mathematically defined colour conversion within a small tolerance over the whole range, at every SIMD level.",
 ["inputs","configurations"],"all colour values x output encodings x intensity targets",
 "Unit tests check transfer-function round trips on sample points; the selection and parametrisation of the conversion chain per encoding is not covered.",
 ["jxl/src/color/tf.rs","jxl/src/render/stages/xyb.rs","jxl/src/render/stages/from_linear.rs","jxl/src/render/stages/to_linear.rs","jxl/src/frame/render.rs","jxl/src/api/xyb_constants.rs","jxl/src/util/fast_math.rs","jxl/src/util/rational_poly.rs"],
 "opsin inverse with output matrix folded in, polynomial approximations of transfer functions")
p("P22","Decoding is deterministic and decoders do not influence each other",
 "Decoding the same file with the same requests always gives the same bytes: repeated in one process, after failed or abandoned decodes, concurrently with other decoders, with uninitialised-looking output buffers, and in a decoder that was rewound.",
 ["histories","schedules","inputs"],"all histories of earlier and concurrent decoder uses",
 "Every test decodes once in a fresh process.",
 ["jxl/src/util/per_thread_storage.rs","jxl/src/render/low_memory_pipeline/row_buffers.rs","jxl/src/frame","jxl/src/api/inner"],
 "all state is owned by the decoder; buffers are recycled between groups and frames")
p("P23","Upsampling, filters, noise and splines render as specified",
 "For every image size and parameter choice, the non-separable upsampling (default and custom weights), edge-preserving filter, Gabor-like filter, chroma upsampling, noise synthesis and spline rendering give the values of the format's equations within tolerance, including at image borders, group borders and odd sizes.",
 ["inputs","configurations"],"all sizes and parameters of the rendering features",
 "Stage unit tests run single stages on small random images against another code path of the same library.",
 ["jxl/src/render/stages","jxl/src/features/spline.rs","jxl/src/features/noise.rs","jxl/src/features/epf.rs","jxl/src/render/low_memory_pipeline"],
 "row-based stages with borders mirrored at image edges and exchanged between groups")
p("P24","Alpha and spot-colour options transform exactly what they name",
 "Premultiplied output equals straight output times alpha for images with straight alpha and equals plain output for already associated alpha; spot-colour rendering mixes each spot channel into the colour channels by its coded colour and solidity, and with it off colour channels are untouched; no option changes any other channel.",
 ["configurations","inputs"],"all option combinations x channel layouts x images",
 "Two tests on two images.",
 ["jxl/src/render/stages/premultiply_alpha.rs","jxl/src/render/stages/spot.rs","jxl/src/frame/render.rs","jxl/src/api/options.rs"],
 "optional stages inserted in the render pipeline")
p("P25","The command-line decoder writes what the library decoded",
 "For every input and every output format the command-line tool supports, the file it writes parses with an independent reader to the samples, dimensions, frame count and timing that the library decodes, or the tool exits with an error; damaged inputs never yield exit status zero unless partial output was requested.",
 ["inputs","configurations"],"all inputs x output formats x flags",
 "The CLI has no end-to-end tests of written files.",
 ["jxl_cli/src/main.rs","jxl_cli/src/dec/mod.rs","jxl_cli/src/enc"],
 "decode to raw planes, then hand-written PPM/PGM/NPY writers and png/exr crates")
p("P26","Inverse transforms and SIMD primitives compute their definitions",
 "Every inverse block transform equals the orthonormal definition within float rounding for all coefficient inputs, and every SIMD vector operation gives lane for lane the result of its scalar definition, including special values, at every feature level.",
 ["inputs","configurations"],"all coefficient blocks and vector operands x feature levels",
 "Unit tests sample transforms on few inputs and each primitive on ordinary values.",
 ["jxl_transforms/src","jxl_simd/src"],
 "generated radix kernels; per-ISA intrinsics wrappers")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
