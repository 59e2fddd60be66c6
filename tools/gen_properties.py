#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run from anywhere; rewrites the file)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or ["public API of the image crate"],
                     "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

# ------------------------------------------------------------------ containers
prop("A01", "Pixel access reaches exactly the addressed pixel and refuses the rest",
 "For every image size, pixel type and backing container (including one longer than the image needs), reading or writing a coordinate inside the image touches exactly the samples of that pixel in row-major order, and direct, checked, by-row, enumerated, mutable, forward and backward access all agree in order, count and reported coordinates. A coordinate outside the image is refused by an absent result or a panic and never reaches other samples. An image can be built from a container exactly when the container holds at least width*height*channels samples.",
 ["inputs", "programs"], "all sizes (including zero and overflowing ones), pixel types, container lengths, coordinates and interleavings of forward/backward iteration",
 "Tests touch a few sizes with exactly fitting containers and one iteration direction; off-by-ones show only on odd sizes, spare capacity or mixed-end iteration.",
 ["src/buffer.rs", "src/image.rs"],
 [("pixel index computation and bounds checks", "src/buffer.rs: pixel_indices, get_pixel_checked, from_raw"), ("row/pixel iterators", "src/buffer.rs: Pixels, Rows, EnumeratePixels")])

prop("A02", "Parallel pixel iteration and construction equal the sequential ones",
 "For every image, thread count and way of splitting the work, the parallel pixel iterators and the parallel constructor visit every pixel exactly once with the same coordinates, order and values as the sequential ones. A mutation made through a parallel iterator lands on exactly the pixel that was handed out, and their reported lengths are exact.",
 ["schedules", "inputs"], "all image sizes, pool sizes, split points and combinations of indexed adapters (rev, skip, zip, chunks, ...)",
 "The repository's tests run one size on the default pool; splitting bugs depend on where rayon cuts and on width/height parity.",
 ["src/buffer_par.rs"],
 [("rayon producers built on chunked slices", "src/buffer_par.rs"), ("parallel fill", "src/buffer_par.rs: from_par_fn")])

prop("A03", "Strided sample layouts address, validate and convert samples exactly",
 "For every strided sample description (any strides, extents and buffer length), the reported index of a sample is the stride combination of its coordinates exactly when all coordinates are in range, its minimum length is the largest such index plus one, and an answer that samples do not alias, or that a layout has a packed or normal form, is true of the enumerated sample indices (an unusual interleaved layout may be answered conservatively, nested and canonical layouts are recognised). Views are granted only when every sample lies in the buffer (and mutable ones only when samples do not alias) and then read and write exactly the addressed samples. Shrinking, cropping to a view, and converting to and from an image buffer preserve the sample values, and impossible or overflowing descriptions are refused instead of giving out-of-range access.",
 ["inputs"], "all stride/extent triples including zero, huge and overflowing ones, and all buffer lengths around the minimum",
 "Tests cover a handful of hand-picked layouts; aliasing and overflow conditions depend on arithmetic relations between six numbers.",
 ["src/flat.rs"],
 [("layout arithmetic with checked operations", "src/flat.rs: SampleLayout"), ("checked views", "src/flat.rs: View, ViewMut, FlatSamples::as_view*")])

prop("A04", "Sub-views, crops and region copies touch exactly the stated rectangle",
 "Every sub-image (also nested) and crop has exactly the requested (or clipped) rectangle of its parent, reading and writing through it reaches parent pixel (offset + local coordinate) and nothing else. Copying an image into another, or a rectangle within one image even when source and destination overlap, transfers exactly the addressed pixels as if through a temporary copy and leaves every other pixel unchanged. A request that does not fit is refused (error, false or panic) without changing any pixel.",
 ["inputs", "programs"], "all image sizes, rectangles (empty, touching edges, overlapping, out of range, overflowing coordinates) and nestings",
 "Unit tests copy one or two rectangles; overlap direction and clipping bugs need particular relative positions.",
 ["src/image.rs", "src/buffer.rs", "src/imageops/mod.rs", "src/dynimage.rs"],
 [("bounds-checked SubImage", "src/image.rs: SubImage, GenericImage::copy_from, copy_within"), ("crop clipping", "src/imageops/mod.rs: crop_dimms"), ("overlap aware row copy", "src/buffer.rs: copy_within")])

prop("A05", "Colour type conversions are value-exact",
 "Converting between any two supported pixel layouts (1 to 4 channels; 8-bit, 16-bit and 32-bit float samples) yields for every value exactly: channel copies when gray expands to colour, the documented weighted luma when colour reduces to gray, unchanged alpha or full opacity when alpha is added, correct channel order, and rounding-to-nearest full-range rescaling between sample depths with clamping of out-of-range floats. Widening a sample and narrowing it back restores the original value, and converting whole images equals converting each pixel.",
 ["inputs"], "all pairs of colour types and all sample values",
 "Tests check a few literal pixels; wrong rounding, weights or channel swaps can hide in any of ~100 conversion pairs.",
 ["src/color.rs", "src/buffer.rs", "src/dynimage.rs", "src/traits.rs"],
 [("per-primitive conversions", "src/color.rs: FromPrimitive, FromColor"), ("buffer conversion", "src/buffer.rs: ConvertBuffer"), ("dynamic conversion", "src/dynimage.rs: to_*/into_*")])

prop("A06", "A dynamic image behaves exactly like the typed buffer it wraps",
 "For each of the ten runtime-typed variants, every size, colour, byte, pixel, view and whole-image operation of a dynamic image gives the same result as that operation on the typed buffer it holds and keeps or changes the colour type as documented. Raw construction accepts exactly well-sized input, and raw bytes are the samples in native order.",
 ["inputs", "programs"], "all variants, sizes, contents, and operations with their arguments",
 "Dispatch is by macro over ten variants and tests exercise mostly two of them; one wrong arm stays invisible.",
 ["src/dynimage.rs"],
 [("variant dispatch macros", "src/dynimage.rs: dynamic_map!"), ("byte views", "src/dynimage.rs: as_bytes, into_bytes, decoder_to_image")])

prop("A07", "Per-pixel operations apply to the right channels with exact arithmetic",
 "For every pixel type and value, channel mapping visits each colour and alpha channel exactly once in order with the right closure, inversion complements every colour channel, leaves alpha alone and is an involution on unsigned integer samples, and luma/alpha accessors agree with the conversions. Blending non-negative samples follows source-over compositing (opaque source replaces, transparent source leaves the destination unchanged, results stay in range, no panic) within one unit of the exact real-valued result or the precision of single floats for wider samples.",
 ["inputs"], "all pixel types and sample values",
 "Tests blend a few literal colours; alpha edge cases and single pixel types are unobserved.",
 ["src/color.rs", "src/traits.rs", "src/image.rs"],
 [("Pixel trait implementations", "src/color.rs: Pixel, Blend, Invert")])

# ------------------------------------------------------------------ operations
prop("B01", "Rotations, flips and orientation are exact pixel permutations",
 "Rotating by 90, 180 or 270 degrees and flipping horizontally or vertically moves every pixel to its exact geometric position with swapped dimensions where due, loses nothing, and obeys the symmetry-group laws (inverses, composition), for every image size and pixel type. The copying, into-destination and in-place forms agree, and applying an orientation value 1 to 8 equals its defined combination of these, with out-of-range values refused.",
 ["inputs", "programs"], "all image sizes (0, 1, odd, even, thin), pixel types, and compositions of operations",
 "Tests use one 2x3 or similar matrix per operation; in-place swaps differ for odd sizes and orientation has eight cases.",
 ["src/imageops/affine.rs", "src/metadata.rs", "src/dynimage.rs"],
 [("index permutation loops", "src/imageops/affine.rs"), ("orientation mapping", "src/metadata.rs: Orientation; src/dynimage.rs: apply_orientation")])

prop("B02", "Overlay, replace, tile and gradients write exactly the visible pixels",
 "For every pair of image sizes and every signed offset including extreme ones, overlaying or replacing changes exactly the pixels in the geometric intersection to the blend with, or copy of, the aligned source pixel, and no other pixel. Tiling fills the whole bottom image with the periodic repetition of the top image. Gradients start and end on exactly the two given colours and move monotonically between them along their axis, constant across it.",
 ["inputs"], "all sizes, offsets over the full signed 64-bit range, pixel types and colours",
 "Tests use small in-range offsets; the clipping arithmetic for negative and huge offsets is what goes wrong.",
 ["src/imageops/mod.rs"],
 [("overlap bounds", "src/imageops/mod.rs: overlay_bounds, overlay_bounds_ext"), ("gradients", "src/imageops/mod.rs: vertical_gradient, horizontal_gradient")])

prop("B03", "Resizing and thumbnailing keep dimensions, range, and sampled content",
 "For every source size, target size, filter and pixel type, resampling yields exactly the requested dimensions (or, when the aspect ratio is preserved, the largest fitting or smallest covering size, never zero), maps constant images to the same constant, and commutes with transposition and mirroring up to rounding. Each output sample equals the normalised kernel-weighted average of the source within a small rounding error, never leaves the sample range, and lies within the range of contributing samples for non-negative kernels (nearest picks an actual source pixel, thumbnail averages its source block).",
 ["inputs"], "all source and target sizes, five filters, all sample types and contents",
 "Tests compare a couple of sizes against reference files or only check dimensions; window/weight bugs depend on the scale ratio.",
 ["src/imageops/sample.rs", "src/math/utils.rs", "src/dynimage.rs"],
 [("separable resampling", "src/imageops/sample.rs: horizontal_sample, vertical_sample"), ("block averaging", "src/imageops/sample.rs: thumbnail*"), ("aspect ratio arithmetic", "src/math/utils.rs: resize_dimensions")])

prop("B04", "Blurs, unsharpen and 3x3 filters compute the stated convolution",
 "For every image, pixel type and parameter, the Gaussian blur, fast blur, unsharpen mask and 3x3 filter keep the dimensions, agree with the direct evaluation of the defined kernel within rounding (fast blur: within its stated box approximation), handle edges without reading outside the image, and map constant images to constants (the 3x3 filter: away from its one-pixel border). Results are clamped to the sample range and blurs never exceed the range of the source samples.",
 ["inputs"], "all sizes, sample types, sigmas/thresholds/kernels and contents",
 "Tests check one picture or only that nothing panics; edge handling and normalisation errors are small and local.",
 ["src/imageops/sample.rs", "src/imageops/fast_blur.rs"],
 [("gaussian kernel resampling", "src/imageops/sample.rs: blur, unsharpen, filter3x3"), ("box passes", "src/imageops/fast_blur.rs")])

prop("B05", "Colour adjustments are exact per pixel and equal in copy and in-place form",
 "For every image and parameter, grayscale, invert, brighten, contrast and hue-rotation compute the defined per-pixel function with clamping, keep alpha, and give identical results in the copying and in-place forms. Palette mapping picks for each pixel a nearest palette entry, index and mapped image agree, and error-diffusion dithering yields only palette colours, follows the Floyd-Steinberg weights, and leaves images already in the palette unchanged.",
 ["inputs"], "all images, sizes, parameters (including extreme ones) and palettes",
 "Tests exercise one small image per function; saturation and edge columns/rows of diffusion are unobserved.",
 ["src/imageops/colorops.rs", "src/dynimage.rs"],
 [("per-pixel maps", "src/imageops/colorops.rs"), ("diffusion", "src/imageops/colorops.rs: dither, do_dithering!")])

prop("B06", "Point sampling and interpolation return the right neighbourhood value",
 "For every image and every floating-point coordinate (including edges, outside, infinite and NaN), point sampling returns a value exactly when the coordinate is inside the documented domain. Nearest sampling returns the pixel at the documented rounded position and bilinear sampling the distance-weighted mean of the four surrounding pixels within rounding, exact on grid points and never outside the range of those four.",
 ["inputs"], "all image sizes, coordinates and pixel values",
 "Tests sample a 2x2 image at a few points; domain edges and rounding are continuous quantities.",
 ["src/imageops/sample.rs"],
 [("coordinate clamping and weights", "src/imageops/sample.rs: sample_*, interpolate_*")])

# ------------------------------------------------------------------ codecs
prop("C01", "Format identification is consistent across names, MIME types and contents",
 "Every supported format is recovered from each of its file extensions in any letter case, from its MIME types, and from the first bytes of any file of that format, and different formats are never confused by these. Guessing from content leaves the input at its starting position, never panics for any prefix of any bytes, and explicitly set formats or unknown contents are honoured or refused as documented. A format reported as readable or writable really decodes or encodes.",
 ["inputs"], "all extensions, MIME strings, contents and prefixes",
 "Tests check fixed literals; each table row and prefix length is a separate case.",
 ["src/image.rs", "src/image_reader/free_functions.rs", "src/image_reader/image_reader_type.rs"],
 [("extension/MIME tables", "src/image.rs: ImageFormat"), ("magic table", "src/image_reader/free_functions.rs: MAGIC_BYTES, guess_format_impl")])

prop("C02", "Lossless encoders and decoders round-trip every image exactly",
 "For every lossless format, every colour type it accepts, every encoder option and every image content and size, decoding what was encoded gives the same dimensions, colour type (or the documented equivalent) and exactly the same samples. This holds through every public way of encoding and decoding the bytes, and for animated and multi-image containers as well.",
 ["inputs", "configurations"], "formats x colour types x options x sizes x contents (run lengths, extremes, noise, constant)",
 "Tests encode one or two images per format; run-length, padding and bit-packing errors depend on widths and pixel runs.",
 ["src/codecs"],
 [("encoder/decoder pairs", "src/codecs/*"), ("dispatch", "src/image_reader/free_functions.rs: write_buffer_impl, load")])

prop("C03", "Lossy encoders stay within their distortion bounds",
 "For every image and quality setting, encoding with a lossy format and decoding again gives the same dimensions and the expected colour type, with pixel error bounded by the format and quality: near-exact for smooth content at top quality, exact within quantisation for high-dynamic-range shared-exponent images, and not growing as quality rises. Encoding does not depend on anything but pixels and options.",
 ["inputs", "configurations"], "formats x qualities x sizes (not multiples of the block size) x contents",
 "Tests check a flat image or only that encoding succeeds; wrong edge blocks or tables show only as distortion.",
 ["src/codecs/jpeg", "src/codecs/hdr", "src/codecs/avif", "src/codecs/gif.rs"],
 [("forward DCT, quantisation, Huffman coding", "src/codecs/jpeg/encoder.rs"), ("shared exponent coding", "src/codecs/hdr/encoder.rs"), ("AV1 coding", "src/codecs/avif/encoder.rs")])

prop("C04", "Encoded files are valid and mean the same to independent decoders",
 "For every image accepted by an encoder, the produced file conforms to the published format: an independent reader of that format accepts it completely and recovers the same dimensions and pixel values (lossy formats: within their error bound). Header sizes, checksums, padding, offsets and terminators in the file agree with its actual content.",
 ["inputs", "configurations"], "formats x colour types x options x sizes x contents",
 "Round-trip tests through the same crate cannot see an error made symmetrically in writer and reader, nor fields the crate's own reader ignores.",
 ["src/codecs"],
 [("header and payload writers", "src/codecs/*/encoder.rs")])

prop("C05", "Decoders recover the pixels the file format defines, for every variant",
 "For every well-formed file of a supported format, including every bit depth, palette, mask, compression, orientation, interlacing, subformat and header variant the decoder accepts, the decoded dimensions, colour type and pixels are those defined by the format specification. Optional or unknown parts of the file that carry no pixel data do not change the result.",
 ["inputs", "configurations"], "formats x subformat features x sizes x contents, generated by independent writers",
 "Reference files sample a few variants and sizes; each feature combination takes its own path in the decoder.",
 ["src/codecs"],
 [("per-format parsers", "src/codecs/*/decoder.rs")])

prop("C06", "Decoding never panics, hangs or blows up on any bytes",
 "For any byte sequence whatsoever, each decoder and the automatic loader return an image or an error: no panic, arithmetic overflow or endless loop, with work and memory bounded by the input size, the declared image size and the limits. This covers construction, metadata queries, pixel decoding, region decoding and frame iteration, and errors raised once do not make later calls on the same decoder panic or loop.",
 ["inputs", "programs"], "all byte strings; practically, structured mutations of valid files of every variant plus hostile headers",
 "A few regression files are tested; the space of malformed inputs is unbounded and each field check is independent.",
 ["src/codecs", "src/image_reader"],
 [("validated header fields and checked arithmetic", "src/codecs/*/decoder.rs"), ("dimension/limit checks", "src/utils/mod.rs, src/image_reader/mod.rs")])

prop("C07", "Truncated or failing input surfaces as an error, never as wrong pixels",
 "When a file is cut before the end of its pixel data, or the reader fails at any point while that data is needed, decoding reports an error rather than success with missing or invented pixels. An error of the underlying reader is reported as such when reading a source fails, and a file that has all its data still decodes identically whatever follows it.",
 ["fault_sequences", "inputs"], "all formats x every truncation point and every read or seek at which the source fails",
 "Existing truncation tests only require the absence of a panic on sample files; which cut is silently accepted is not observed.",
 ["src/codecs", "src/image_reader"],
 [("exact reads and error propagation", "src/codecs/*/decoder.rs")])

prop("C08", "Decoding does not depend on how the source delivers its bytes",
 "For every file and every legal behaviour of the reader (short reads of any size, interrupted reads, any buffer size), the decoded result or error kind (either one where a file has two defects) is the same as from memory. The same holds for which public entry point is used (direct decoder, dynamic decoder, reader with guessed or set format, load from memory, open from path).",
 ["schedules", "inputs"], "all files x all partitions of the byte stream into reads x entry points",
 "All tests read from memory or a file in one piece, which hides reliance on a single read filling its buffer.",
 ["src/codecs", "src/image_reader"],
 [("read_exact based parsing", "src/codecs/*/decoder.rs"), ("entry points", "src/image_reader/*.rs, src/dynimage.rs")])

prop("C09", "Decoders fill exactly the announced buffer and region",
 "For every decodable file, the dimensions, colour type and total byte count announced before decoding are those of the result; decoding overwrites every byte of a buffer of exactly that size regardless of its previous content and refuses any other size; and a boxed decoder behaves like the decoder itself. Where region decoding is offered, every region, pitch and sequence of regions returns exactly the corresponding crop of the full image without touching bytes outside the rows, and bad regions are refused.",
 ["inputs", "histories"], "all files, regions, pitches and sequences of region reads",
 "Tests decode whole images into zeroed buffers, which hides unwritten bytes, and test two or three regions.",
 ["src/image.rs", "src/codecs"],
 [("ImageDecoder contract", "src/image.rs: ImageDecoder, ImageDecoderRect, load_rect"), ("boxed forwarding", "src/image.rs: impl ImageDecoder for Box")])

prop("C10", "Decoding limits are enforced before resources are spent, and not otherwise",
 "When a maximum width, height or allocation is set, decoding an image that exceeds it fails with a limits error through every entry point that takes limits, and limits that admit the image never change the result. While decoding under an allocation limit, the memory newly allocated stays within a small multiple of the limit and of the file's own length plus a modest format-independent allowance, whatever sizes the file's headers claim; reserving and freeing against a limit is exact bookkeeping.",
 ["inputs", "configurations"], "all files (honest and lying about their size) x all limit settings around the exact requirement",
 "Tests use one 256x256 image per format and one limit value, and do not measure allocations.",
 ["src/image_reader/mod.rs", "src/image_reader/image_reader_type.rs", "src/codecs"],
 [("limit bookkeeping", "src/image_reader/mod.rs: Limits"), ("limit hooks", "src/image.rs: ImageDecoder::set_limits; src/codecs/*")])

prop("C11", "Encoders refuse what they cannot represent and report every sink failure",
 "Encoding an image whose colour type, size or buffer length the format cannot represent returns an error or documented panic, never a corrupt file reported as success. If the output sink fails or stops accepting bytes at any point, encoding reports an error; if it succeeds, the bytes are the same as to an unhindered sink whatever the sink's write sizes. Encoding the same image twice gives identical bytes.",
 ["fault_sequences", "inputs", "configurations"], "all formats x colour types x sizes at representability limits x every failing write, flush or seek",
 "Tests write to memory, which never fails, and rarely try unsupported colours.",
 ["src/codecs", "src/image_reader/free_functions.rs", "src/dynimage.rs"],
 [("argument validation and error propagation", "src/codecs/*/encoder.rs, src/image_reader/free_functions.rs")])

prop("C12", "Animations decode to correctly composited, fully timed frame sequences",
 "For every animated file, iterating frames yields exactly the stored number of frames, each the full canvas obtained by applying the format's blending and disposal rules in order, with the stored delay preserved to the format's precision. Frame iteration ends after the last frame or an error and stays ended, a frame and its copies keep the picture, position and delay they were given, and delays convert to and from durations and ratios without overflow, exactly where a fraction holds the value, and otherwise to the nearest fraction the precision allows.",
 ["inputs", "histories"], "all sequences of frame rectangles, blend/disposal modes, transparency and delays",
 "Reference animations cover few disposal combinations; compositing state depends on the whole history of previous frames.",
 ["src/codecs/gif.rs", "src/codecs/png.rs", "src/codecs/webp/decoder.rs", "src/animation.rs"],
 [("frame compositing", "src/codecs/gif.rs: GifFrameIterator; src/codecs/png.rs: ApngDecoder"), ("delay arithmetic", "src/animation.rs: Delay, Ratio")])

prop("C13", "Embedded metadata is carried exactly and never alters pixels",
 "Colour profiles and Exif blocks set on an encoder that supports them, whatever their size and content, are recovered unchanged by the matching decoder, and refused otherwise. The reported orientation is the one stored in the file, whichever way the decoder is accessed. The presence of metadata never changes the decoded pixels, and malformed metadata never makes a query panic.",
 ["inputs", "configurations"], "all metadata sizes (around chunk limits) and contents x formats x access paths",
 "Tests embed one small profile; splitting and reassembly and boxed access are unobserved.",
 ["src/metadata.rs", "src/image.rs", "src/codecs"],
 [("metadata chunks", "src/codecs/{png,jpeg,webp,tiff}*"), ("Exif orientation parsing", "src/metadata.rs: Orientation::from_exif_chunk")])

prop("C14", "Saving to and opening from a path is faithful and reports failure",
 "Saving an image to a path picks the format from the extension (or the given one), and opening the file gives back what writing to and reading from memory would. Any failure to create, write or finish the file is reported as an error and success means the complete file is on disk; unsupported or missing extensions are refused without creating a file whose content is not the image, and dimensions or format queries on a path agree with a full decode.",
 ["inputs", "fault_sequences"], "all formats, extensions, colour types and device-full or unwritable targets at any byte",
 "Tests save to a healthy disk; errors that appear only when buffered data is flushed are invisible there.",
 ["src/image_reader/free_functions.rs", "src/dynimage.rs", "src/buffer.rs"],
 [("path based save and open", "src/image_reader/free_functions.rs: save_buffer*_impl, open_impl")])

# ------------------------------------------------------------------ memory/concurrency
prop("D01", "No use of the safe API causes undefined behaviour",
 "Whatever safe calls are made with whatever arguments and file contents, the library never reads or writes outside its allocations, uses uninitialised or freed memory, creates invalid or misaligned references, or leaks through double frees. This holds for its pixel reinterpretation code and all codecs on valid and hostile inputs.",
 ["inputs", "programs"], "all API call sequences and inputs",
 "Ordinary test runs do not notice out-of-bounds reads or uninitialised data that happen to be benign.",
 ["src/color.rs", "src/buffer.rs", "src/image.rs", "src/flat.rs", "src/codecs"],
 [("slice/pixel casts", "src/color.rs: from_slice, from_slice_mut"), ("unchecked pixel access", "src/buffer.rs: unsafe_get_pixel, unsafe_put_pixel")])

prop("D02", "Independent use from many threads is race-free and deterministic",
 "Decoding, encoding and processing images concurrently from any number of threads, including sharing one image read-only and using the parallel iterators and the multithreaded decoders, is free of data races. Every thread obtains exactly the result that the same call gives when run alone.",
 ["schedules"], "all interleavings of concurrent library calls, thread counts and pool sizes",
 "The test suite never calls the library concurrently on shared data nor compares results across runs.",
 ["src/buffer_par.rs", "src/codecs/openexr.rs", "src/codecs/avif", "src/codecs/tga/encoder.rs"],
 [("absence of shared mutable state; rayon", "src/buffer_par.rs"), ("codec thread pools", "src/codecs/openexr.rs, src/codecs/avif")])

with open(OUT, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
