#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Lossless formats preserve every pixel, however often a file is re-saved",
  "Saving an image with a lossless option (PNG rgb8/rgba8/rgb16/rgba16, BMP rgb8/rgba8, ICO rgb8/rgba8, WebP lossless) and reading it back yields an image of the same size in which every stored channel is the sRGB level of the chosen depth nearest to the original value, and the channel that is not stored (alpha of the rgb options) reads back as opaque. "
  "An image that was itself read from such a file comes back unchanged from any further save/read cycle (no generation loss).",
  ["inputs", "configurations"],
  "all images (any size the format admits, any channel values including transparent and out-of-range ones, any position of the differing pixel), all lossless options, all PNG compression and filter settings, any number of cycles; for WebP the colour under fully transparent pixels is exempt (libwebp's documented non-exact mode)",
  "Tests round-trip one fixed 4-colour image per format whose channels are 0 or 1, where truncation, rounding, channel order at other depths and row handling cannot show; only sweeping all levels and sizes does.",
  ["d10-codecs/src/utils.rs", "d10-codecs/src/png.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-core/src/color/srgb.rs"],
  [("as_u8 / as_u16 quantisation and the to_*_vec packers", "d10-codecs/src/utils.rs"), ("per-format encode/decode", "d10-codecs/src/{png,bmp,ico,webp}.rs"), ("linear_to_gamma / gamma_to_linear", "d10-core/src/color/srgb.rs")],
  ["bytes produced by save_to_buffer / save", "pixels of Image::open / read_from_buffer", "pixels seen by the png, image crates reading the same bytes"])

p("C02", "Every encoding option is honoured and yields a readable file",
  "For every encoding option the library either reports an error or writes a file of the requested format that carries the requested parameters (PNG colour type and bit depth, JPEG progressive mode, component count, sampling factors and quality ordering, WebP lossless/lossy kind) and that both this library and an independent decoder open with the image's own dimensions. "
  "Grey options (PNG l8/la8/l16/la16, BMP and ICO l8/la8, JPEG grayscale) contain the Rec.709 luminance of each pixel to the precision of the option (and alpha for the la options), and lossy options (JPEG, WebP, GIF, where the fully transparent pixels stay transparent and all others become opaque) stay close to the original: uniform images are reproduced within a few levels and the mean error on smooth images is bounded and does not grow with quality.",
  ["inputs", "configurations"],
  "the full cross product of option values (8 PNG colour types x 3 compressions x 5 filters, JPEG quality 0..255 x progressive x 17 sampling choices x grayscale x huffman, 4 BMP, 4 ICO types, 7 WebP presets x quality 0..255, GIF) over images of all aspect ratios and sizes up to and beyond the format limits, including empty and 1-pixel images",
  "The tests exercise a handful of option combinations on one image and compare against the library's own decoder only; an option that is ignored or produces an unreadable file for a particular combination passes them.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/utils.rs"],
  [("encode dispatch", "d10-codecs/src/lib.rs encode"), ("option to encoder mapping", "d10-codecs/src/{png,jpeg,webp,bmp,ico}.rs"), ("grey packers", "d10-codecs/src/utils.rs to_l8_vec..to_la16_be_vec")],
  ["header fields of the produced bytes", "dimensions and pixels from independent decoders"])

p("C03", "Decoding arbitrary bytes is safe and never yields a bad image",
  "Reading any byte sequence, however truncated, corrupted or hostile, returns either an error or an image; it never panics, aborts, runs forever or reads invalid memory. "
  "An image that is returned has consistent dimensions (width x height equals the number of pixels and obeys the size limit) and only finite channel values in [0, 1], and for a well-formed file of any supported flavour (PNG of every colour type and depth incl. palette and interlaced, BMP, ICO, GIF, baseline and progressive JPEG incl. grey and CMYK, WebP lossy/lossless) its dimensions and pixels agree with an independent decoder.",
  ["inputs"],
  "all byte strings: valid files of every supported flavour, every prefix of them, random and structured mutations of headers, dimensions and payload, and concatenations; files whose declared dimensions are extreme",
  "The tests decode six well-formed files of the same picture; nothing malformed, truncated, huge, 16-bit, palette, interlaced, grey or CMYK is ever decoded.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/utils.rs", "d10-core/src/pixelbuffer.rs"],
  [("size validation before a buffer is built", "is_valid_buffer_size callers"), ("error mapping", "decode_error functions"), ("sample unpacking", "decode_png/decode_jpeg/read_into_buffer")],
  ["result or crash of read_from_buffer / open", "returned dimensions and channel values"])

p("C04", "A save that reports success wrote the whole file",
  "Whenever writing fails at any point (disk full, closed pipe, failing writer, short writes that cannot continue) saving returns an error, for every format and through every entry point (path, explicit format, writer). "
  "Conversely a save that returns success has delivered every byte: the output equals what an unlimited in-memory save produces and can be read back completely; short or interrupted writes alone never corrupt it.",
  ["fault_sequences", "crash_points", "configurations"],
  "every byte offset at which the underlying writer can start failing, every error kind, any pattern of short writes and interruptions, flush failures, for all formats and options; and the real file system refusing data (file size limit, unwritable paths)",
  "No test injects a write failure; buffering in the file path and finalisation in the encoders' destructors hide exactly these errors.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs"],
  [("encode_to_file buffering and flush", "d10-codecs/src/lib.rs"), ("writer callback error capture", "d10-codecs/src/webp.rs writer_function"), ("encoder finalisation", "d10-codecs/src/{png,gif}.rs")],
  ["the sequence of write/flush calls and results at the underlying writer", "result of the save", "bytes on disk"])

p("C05", "Files are recognised by content first, by extension only as fallback",
  "Opening a file recognises its format from its leading bytes whatever the file is called, falls back to the (case-insensitive) extension only when the content is not recognised, and otherwise reports an unknown format; reading from memory uses the content alone. "
  "Saving without an explicit format picks the format from the extension case-insensitively (jpg/jpeg, png, gif, bmp, ico, webp) with that format's default options, and an unknown or missing extension is an error that creates no file and leaves an existing one untouched.",
  ["inputs", "configurations"],
  "all signatures and near-signatures of any length, all letter-case variants of extensions, multi-dot and non-UTF-8 names, all pairs of content format and extension",
  "Tests check a few lower-case names; mismatching content/extension pairs, near-miss signatures, truncated headers and side effects of a refused save are not covered.",
  ["d10-codecs/src/lib.rs"],
  [("Format::from_reader signatures", "d10-codecs/src/lib.rs"), ("Format::from_path / EncodingFormat::from_path", "d10-codecs/src/lib.rs"), ("decode_file order", "d10-codecs/src/lib.rs")],
  ["Format returned", "image or error of open", "directory contents after a refused save"])

p("C06", "Flip, 90-degree rotation and crop move pixels exactly",
  "Flipping, rotating by 90/180/270 degrees and cropping only move pixels: each output pixel is the bit-identical input pixel at the position the operation defines (clockwise rotation, mirrored axes, crop window clipped to the image, an empty window giving the empty image), with the output size the operation defines. "
  "Hence flips are involutions, four quarter turns or a 90 followed by a 270 are the identity, 180 equals both flips, and nested crops equal one crop.",
  ["inputs", "histories"],
  "all image sizes including empty, 1-pixel, single-row/column and non-square ones, all colour types, all crop windows including ones outside the image or near the integer limits, and all sequences of these operations",
  "Tests check one 3x2 image per operation and three crops of a blank image (whose content cannot reveal a wrong offset).",
  ["d10-ops/src/flip.rs", "d10-ops/src/rotate_90.rs", "d10-ops/src/crop.rs", "d10/src/image.rs"],
  [("index arithmetic", "d10-ops/src/{flip,rotate_90,crop}.rs"), ("window clipping", "d10-ops/src/crop.rs")],
  ["output dimensions and raw pixel bits"])

p("C07", "Pixel buffers address, iterate and map every pixel exactly once",
  "A pixel buffer behaves as a row-major width x height array: construction, single-pixel reads and writes, optional and clamped access, enumeration and raw data all agree on which value is at which coordinate, and a coordinate outside the image is refused (checked access), absent (optional access) or moved to the nearest edge pixel (clamped access), never another pixel. "
  "Mapping, in-place modification and construction from a function call the function exactly once per pixel in row-major order with that pixel's own coordinates and value; the fallible variants stop at the first error and return it; buffers of invalid size or with a wrong data length are refused.",
  ["inputs", "histories"],
  "all sizes up to the limit incl. empty and degenerate ones, all coordinates incl. negative, out of range and extreme ones, all colour types, all positions at which a fallible function fails, all sequences of reads and writes",
  "Tests visit a few in-range pixels of two sizes; out-of-range, clamped, optional and failing paths and call order are untested.",
  ["d10-core/src/pixelbuffer.rs", "d10/src/image.rs"],
  [("index arithmetic and bounds checks", "d10-core/src/pixelbuffer.rs"), ("size validation", "validate_size / is_valid_buffer_size")],
  ["values, call logs of the passed functions, refused calls"],
  [("width,height,data", "row-major storage; data.len() = width*height", "PixelBuffer")])

p("C08", "Kernel windows and convolutions match their definition at every pixel",
  "The N x N window around any pixel contains the pixels at their offsets with coordinates clamped to the image edge, identically for fixed-size and dynamic windows, at every position and for images smaller than the window. "
  "Applying a kernel gives at every pixel and channel the sum of weight times window value, the fixed-size and dynamic paths agree, and edge detection (Sobel, Laplace) is exactly the corresponding convolution (Sobel magnitude clamped to [0,1], result opaque; zero on uniform images).",
  ["inputs"],
  "all image sizes from 1x1 upwards, all pixel positions incl. first/last row and column, all window sizes, square and rectangular dynamic kernels with asymmetric weights",
  "No test calls the window or kernel functions; the fast path and the clamped path meet exactly at the image border where an off-by-one only shows for particular sizes.",
  ["d10-core/src/pixelbuffer.rs", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs", "d10-ops/src/edge_detection.rs"],
  [("fast path vs clamped path selection", "PixelBuffer::get_kernel, get_kernel_dyn"), ("convolution", "Kernel::apply_kernel, PixelBuffer::get_kernel_value")],
  ["window contents", "convolved pixels"])

p("C09", "Gaussian blur and unsharp mask are normalised filters for every radius and sigma",
  "Gaussian blur weights are non-negative, symmetric, decrease with distance and sum to one for every radius and sigma, so blurring keeps a uniform image unchanged, keeps every value between the minimum and maximum of its window, commutes with mirroring and quarter turns, and matches the direct weighted sum with edge pixels repeated (default sigma = half the radius; radius 0 or sigma 0 leaves the image as it is). "
  "Unsharp masking equals clamp(c + (c - blur(c)) * factor) for each channel with the same blur.",
  ["inputs", "configurations"],
  "all images, all radii from 0 through the specialised small ones (1..3) to radii larger than the image, explicit and default sigma incl. 0 and tiny ones, all factors",
  "One test blurs one image and checks only its size; weights, borders, the switch between specialised and dynamic kernels and degenerate sigma are unchecked.",
  ["d10-ops/src/gaussian_blur.rs", "d10-ops/src/unsharp.rs", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs"],
  [("new_gaussian normalisation", "d10-core/src/kernel.rs, kernel_dyn.rs"), ("size dispatch and default sigma", "d10-ops/src/gaussian_blur.rs")],
  ["kernel weights", "output pixels"])

p("C10", "Resizing gives the requested size and resamples faithfully with every filter",
  "Resizing returns exactly the requested dimensions (percentage resize: the rounded percentage, at least 1), returns the identical image when the size does not change, and each output pixel is the chosen filter evaluated at the corresponding source position with edges repeated (nearest picks a source pixel; bilinear, bicubic and Lanczos weight their neighbourhood; auto uses bicubic unless both dimensions shrink, then Lanczos with a window scaled to the reduction). "
  "Consequently uniform images stay uniform (Lanczos within its ripple), nearest introduces no new colours, bilinear and bicubic stay within [0,1], and bilinear, bicubic and Lanczos commute with mirroring.",
  ["inputs", "configurations"],
  "all source and target sizes (up, down, mixed, to and from 1 pixel, large reduction factors), all filters, all images",
  "Tests check only the output size of one 3x2 enlargement; sampling positions, weights, filter dispatch by reduction factor and borders are unchecked.",
  ["d10-ops/src/resize.rs", "d10-ops/src/filters.rs", "d10/src/image.rs"],
  [("sample position", "d10-ops/src/resize.rs"), ("interpolation kernels", "d10-ops/src/filters.rs"), ("auto dispatch", "resize_auto")],
  ["output dimensions and pixels"])

p("C11", "Free rotation keeps the canvas and turns the content clockwise about its centre",
  "Rotating by any angle keeps the image size, turns the content clockwise about the image centre with each output pixel being the filter evaluated at the back-rotated position, and fills positions that fall outside the source with the background (transparent unless set). "
  "A rotation by 0 or 360 degrees is the identity, 180 degrees equals the exact half turn and, on square images, 90 and 270 degrees equal the exact quarter turns; no filter produces non-finite values.",
  ["inputs", "configurations"],
  "all image sizes (odd/even, non-square, 1-pixel, empty), all finite angles incl. negative and beyond 360, all filters",
  "One test rotates a 4x2 image by 180 degrees with the nearest filter.",
  ["d10-ops/src/rotate.rs", "d10-ops/src/filters.rs", "d10/src/image.rs"],
  [("back-rotation about the centre", "rotate_with_fn"), ("outside test", "rotate_pixel_*")],
  ["output dimensions and pixels"])

p("C12", "Colour space conversions are lossless round trips",
  "Converting any RGB colour to sRGB, HSL, HSV, YUV, XYZ, Lab or Lch (every illuminant and observer) and back returns the original colour within the library's own equality tolerance for the directly invertible spaces and within a thousandth for all others, through any chain of such conversions, with alpha carried through unchanged. "
  "Converting single colours, iterating lazily (by value or by reference) and converting whole buffers or images give identical results, as do the From/Into conversions between any two spaces.",
  ["inputs", "programs"],
  "all colours of the RGB cube incl. greys, primaries, near-grey and near-black colours and all alpha values; all pairs and chains of colour types; all six illuminant/observer combinations; all conversion entry points",
  "Tests cover 100 random colours for D65/2 degrees only, no chains, no other illuminants, and compare with an equality that treats NaN as equal.",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/hsl.rs", "d10-core/src/color/hsv.rs", "d10-core/src/color/yuv.rs", "d10-core/src/color/xyz.rs", "d10-core/src/color/lab.rs", "d10-core/src/color/srgb.rs", "d10-core/src/color/iter.rs", "d10-core/src/pixelbuffer.rs"],
  [("inverse matrices and transfer functions", "d10-core/src/color/*"), ("iterator adaptors", "d10-core/src/color/iter.rs"), ("buffer conversions", "PixelBuffer::to_*")],
  ["converted channel values"])

p("C13", "Colour conversions compute the standard colour spaces",
  "Each conversion yields the values the standard definition gives: the sRGB transfer curve, hexcone HSL/HSV with hue as a fraction of a turn, BT.601 YUV of the sRGB values, D65 XYZ, CIE Lab (L/100, a/128, b/128) and Lch (polar Lab, hue in radians) relative to the chosen illuminant and observer white point, all finite, with greys having saturation 0 and, for D65 with the 2 degree observer, chroma 0. "
  "Conversions are continuous: a small change of the input never causes a jump in the colour obtained by converting back.",
  ["inputs"],
  "all colours of the RGB cube (dense sweeps incl. axis, diagonal and branch boundaries), all hues/saturations/lightnesses in range for the inverse direction, all illuminants and observers",
  "Tests compare a dozen fixed colours; a wrong branch for one hue sextant, a wrong white point of one observer or a non-finite hue for greys is not sampled.",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/hsl.rs", "d10-core/src/color/hsv.rs", "d10-core/src/color/yuv.rs", "d10-core/src/color/xyz.rs", "d10-core/src/color/lab.rs", "d10-core/src/color/srgb.rs"],
  [("conversion formulas", "d10-core/src/color/mod.rs Color trait"), ("white points", "d10-core/src/color/lab.rs illuminant!")],
  ["converted channel values against an f64 reference"])

p("C14", "Colour equality, predicates, formatting and accessors are consistent",
  "Two colours compare equal exactly when no channel differs by more than 1/32768; equality is reflexive and symmetric, and the transparency and greyscale predicates (single colour, buffer and image) use the same tolerance: an image is transparent if any pixel is, and grey only if all pixels are. "
  "The text form of a colour is its lower-case space name (with an a suffix and the alpha value exactly when it is not opaque; Lab and Lch also show illuminant and observer) followed by its channels rounded to four decimals and always shown with a decimal point; setters and with_* methods change exactly the named channel; constructors clamp RGB and sRGB channels to [0,1].",
  ["inputs"],
  "all channel values incl. ones just inside and outside the tolerance in any single channel, all colour types and observers, position of the deciding pixel in a buffer",
  "Tests compare a few clearly equal or clearly different colours, and one differing pixel at index 0.",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/rgb.rs", "d10-core/src/color/srgb.rs", "d10-core/src/color/lab.rs", "d10-core/src/pixelbuffer.rs"],
  [("PartialEq with EPSILON", "d10-core/src/color/*.rs"), ("format_color", "d10-core/src/color/mod.rs"), ("has_transparency / is_grayscale", "color and pixelbuffer")],
  ["comparison results, strings, channel values"])

p("C15", "Colour adjustments compute their definition, stay in range and keep alpha",
  "Every per-colour adjustment (brightness, contrast, brightness-contrast, gamma, optional gamma, level, saturation, stretch/gamma saturation, lightness, hue rotation in degrees, modulate, vibrance, sepia, invert, difference, grey by any intensity) yields, for any in-range colour and any finite parameter of its domain, exactly its defining formula clamped to [0,1]. "
  "The result is always finite and in range and, except for difference (always opaque), has the alpha of the input; saturation-type adjustments keep hue and lightness, and grey results have three equal channels.",
  ["inputs", "configurations"],
  "all colours incl. greys, black, white, primaries and transparent ones, and all parameters incl. 0, negative, huge and degenerate ones (level with equal points, rotations of many turns)",
  "Tests use a few colours and parameters per function; alpha, degenerate parameters, greys and several turns of hue are not sampled.",
  ["d10-core/src/color/rgb.rs", "d10-core/src/color/hsl.rs"],
  [("Rgb adjustment methods", "d10-core/src/color/rgb.rs")],
  ["result channels against an f64 reference"])

p("C16", "Neutral parameters change nothing and adjustments obey their algebra",
  "Adjustments with neutral parameters (gamma 1, level 0..1 with gamma 1, brightness 0, contrast 1, saturation/lightness/stretch factor 1, hue rotation by any multiple of 360, modulate 1/1/1, vibrance 0, noise 0, blend intensity 0, unsharp factor 0, resize to same size) return the colour or image unchanged up to rounding. "
  "Inverting twice restores the colour; gamma g then 1/g, hue rotation a then b versus a+b, and brightness-contrast versus brightness followed by contrast agree where no clamping occurs; grey conversion is idempotent; gamma, level, contrast and brightness are monotone in the input.",
  ["inputs", "programs"],
  "all colours and images, all parameters and compositions of two adjustments",
  "Tests check single applications at a few points; algebraic laws over pairs of operations and all parameters are not covered.",
  ["d10-core/src/color/rgb.rs", "d10/src/image.rs", "d10-ops/src"],
  [("Rgb adjustment methods", "d10-core/src/color/rgb.rs")],
  ["results of composed calls"])

p("C17", "Blending follows each mode's formula pixel by pixel",
  "Blending two images gives an image of the larger width and height in which every pixel covered by both is the mode's formula mixed with the given intensity (Normal: alpha composition of the upper image with alpha scaled by intensity; Addition/Subtract/Darken/Lighten: per-channel result mixed in with intensity times the upper alpha; HSL and Lch modes: the named component of the lower colour moved towards the upper one's, hue taking the shorter way round), a pixel covered by one image only is that pixel, and a pixel covered by neither is transparent. "
  "Intensity 0 leaves the lower colour, results stay within [0,1], and alpha is the clamped sum (Normal), the upper alpha (arithmetic modes) or the lower alpha (HSL and Lch modes).",
  ["inputs", "configurations"],
  "all twelve modes, all intensities in [0,1], all pairs of colours and alphas, all pairs of image sizes incl. empty and crosswise ones (one wider, the other taller)",
  "Tests blend single opaque colours for five modes; HSL/Lch modes, partial alpha, intensity and differing sizes are untested.",
  ["d10-ops/src/blend.rs", "d10-core/src/color/rgb.rs", "d10/src/image.rs"],
  [("mode functions", "d10-ops/src/blend.rs"), ("size and coverage handling", "blend_image_with_func")],
  ["output size and pixels against an f64 reference"])

p("C18", "Composition sees every pixel of every image exactly once",
  "Composing images produces an image of the maximum width and height, calling the function once per output pixel in row-major order with its coordinates and, for each image in order, that image's pixel there or the default colour where the image does not reach. "
  "The fallible forms stop at the first error and return it, array and slice forms agree, and the inputs are not changed.",
  ["inputs", "programs"],
  "all numbers of images from 1 upwards, all size combinations incl. empty images, all default colours, all failing positions",
  "One test composes two equal-sized images; differing sizes, call order, defaults and errors are not covered.",
  ["d10-ops/src/compose.rs", "d10/src/image.rs"],
  [("try_compose / try_compose_slice", "d10-ops/src/compose.rs")],
  ["call log of the function, output pixels, error"])

p("C19", "Applying a palette maps each pixel to the perceptually nearest palette colour",
  "Applying a palette keeps the image size and replaces every pixel by the palette entry nearest to it in Lab (D65, 2 degrees), so every output colour is a palette colour and a pixel whose colour is in the palette keeps it. "
  "The in-place form gives the same result, palette order matters only for exact ties, and applying the same palette twice changes nothing more.",
  ["inputs"],
  "all images and palettes of any size and colour type incl. single-entry, duplicate and transparent entries",
  "There is no test for palettes at all.",
  ["d10-ops/src/apply_palette.rs", "d10/src/image.rs"],
  [("nearest search", "get_color_from_palette, get_delta_e")],
  ["output pixels against an independent nearest search"])

p("C20", "Histogram operations equalise and stretch exactly as defined",
  "Equalisation maps each affected channel (RGB, sRGB, HSL saturation and/or lightness) through the normalised cumulative 256-bin histogram of that channel, leaving the other channels and alpha alone; it is monotone per channel and maps the largest occurring level to 1. "
  "Contrast stretching and channel balance find black and white points from the histogram after ignoring the given per-mille of pixels at each end and remap levels linearly and monotonically between them (balance damped for small ranges), leaving an image that already spans the full range unchanged.",
  ["inputs", "configurations"],
  "all images (uniform, two-level, full-range, transparent, single-channel), all modes, thresholds from 0 to 100 per mille",
  "Tests do not call these operations with content that determines the result.",
  ["d10-ops/src/equalize.rs", "d10-ops/src/stretch_contrast.rs", "d10-ops/src/balance_channels.rs"],
  [("channel_histogram / pick_value", "d10-ops/src/equalize.rs"), ("get_min_value / get_max_value / level_channel", "d10-ops/src/balance_channels.rs")],
  ["output pixels against a reference computed from the input histogram"])

p("C21", "Noise changes only what its definition allows, with the stated statistics",
  "Salt-and-pepper noise replaces pixels by opaque black or white, each with the given probability, and leaves all others untouched; RGB noise sets one uniformly chosen channel of a pixel to 1 with the given probability; random and Gaussian noise mix each colour channel with uniform [-1,1] or standard normal noise in the given proportion, clamped to [0,1]; alpha (except for salt-and-pepper pixels) and size never change. "
  "Strength 0 is the identity, strength 1 (or threshold 1) replaces everything, the in-place forms follow the same rules, and separate channels, pixels and calls receive different noise.",
  ["inputs", "histories"],
  "all images, all strengths in [0,1], copying and in-place forms, repeated calls",
  "Tests only check that the output size is unchanged.",
  ["d10-ops/src/random_noise.rs", "d10-ops/src/gaussian_noise.rs", "d10-ops/src/rgb_noise.rs", "d10-ops/src/salt_n_pepper_noise.rs", "d10/src/image.rs"],
  [("noise functions", "d10-ops/src/*_noise.rs")],
  ["per-pixel changes and their frequencies over large samples"])

p("C22", "The command line and command queue run exactly the given steps in order",
  "Running a command line or command queue is equivalent to calling the library with the same operations and parameters in the same order: a bare argument opens its file if no file was opened before it and otherwise saves the current state to it, a later open replaces the image, and the log lists each step as k/total unless silenced from that point on. "
  "Any unknown option, missing or malformed parameter makes the command line fail with exit status 1, a message on stderr and no file touched; an operation before any open, an unreadable input or a failing save ends the run with an error (exit status 1) after exactly the preceding steps took effect; success is exit status 0.",
  ["programs", "inputs", "histories"],
  "all argument sequences over all options with all parameter forms (negative, fractional, exponent, wrong arity, non-UTF-8 paths), multiple opens and saves, errors at every position",
  "Tests only count queue entries; the binary is never executed and no operation's effect or error path is checked.",
  ["d10-cli/src/main.rs", "d10-commands/src/commands.rs", "d10-commands/src/queue.rs", "d10-commands/src/log.rs", "d10-commands/src/errors.rs"],
  [("argument table and parser", "d10-cli/src/main.rs"), ("execute", "d10-commands/src/commands.rs"), ("Queue builders", "d10-commands/src/queue.rs")],
  ["exit status, stdout, stderr, files written", "pixels of written files against library calls"])

p("C23", "The Python module behaves like the library and converts arrays faithfully",
  "Every Python method and colour class gives the same result as the library operation of the same meaning with its documented defaults, raises a Python exception (never crashing the interpreter or changing the object) on bad arguments, and calls user callbacks with the right coordinates and colours, propagating their exceptions (an in-place callback that raises leaves the pixels it already produced). "
  "Converting an image to a numpy array and back (every colour space with and without alpha, every dtype, any memory layout) restores the image to the precision of the dtype (for dtypes that can represent the space's values), with shape (height, width, channels), and unsupported shapes, dtypes or colour spaces raise an exception.",
  ["inputs", "programs", "configurations"],
  "all methods, colour classes (incl. every Lab/Lch variant), colour spaces and dtypes; contiguous, strided, transposed and Fortran-ordered arrays; wrong dimensions and types; callbacks that raise at any pixel",
  "Python tests check shapes and dtypes of blank images; no array is ever converted back and most methods are checked for output size only.",
  ["d10-python/src/lib.rs", "d10-python/src/image.rs", "d10-python/src/color.rs"],
  [("PyO3 wrappers and default parameters", "d10-python/src/image.rs"), ("numpy_helper", "d10-python/src/image.rs"), ("colour wrappers", "d10-python/src/color.rs")],
  ["values returned to Python, exceptions, interpreter survival"])

p("C24", "Images can be used from many threads with the same results",
  "Any number of threads may read, process, encode and decode shared or separate images at the same time: every result is identical to the one obtained sequentially, and no data race or crash occurs. "
  "In particular concurrent WebP encoding and decoding, whose C library initialises itself lazily on first use, is safe from the very first calls on.",
  ["schedules"],
  "all interleavings of operations on shared images and of first uses of the codecs across threads, with injected delays",
  "No test starts a thread.",
  ["d10-codecs/src/webp.rs", "d10-codecs/src/lib.rs", "d10-core/src/pixelbuffer.rs", "d10-ops/src", "d10/src/image.rs"],
  [("Send + Sync data without interior mutability", "d10-core"), ("per-call encoder state", "d10-codecs/src/webp.rs encode_webp")],
  ["results per thread versus sequential results", "ThreadSanitizer reports"])

p("C25", "Operations leave their inputs alone and are deterministic",
  "An operation that returns a new image never changes the image (or palette, or second image) it was given and, noise aside, returns bit-identical results when called again with the same inputs; in-place forms change only the image they are called on. "
  "Every operation accepts every valid image, including the empty, single-pixel, single-row and single-column one, and returns an image of the defined size with finite values.",
  ["inputs", "histories"],
  "all operations with all modes, all images incl. degenerate sizes, repeated and interleaved calls",
  "Tests run each operation on one small non-degenerate image once.",
  ["d10/src/image.rs", "d10-ops/src", "d10-core/src/pixelbuffer.rs"],
  [("functional style over borrowed buffers", "d10-ops/src/*"), ("Image facade", "d10/src/image.rs")],
  ["input bits before and after", "outputs of repeated calls"])

p("C26", "Neighbourhood and stylising filters match their definition",
  "Despeckle replaces exactly those pixels darker than the threshold whose 3x3 neighbourhood has at most the given number of dark pixels by the mean of the bright neighbours and leaves all others (and alpha) alone; symmetric nearest neighbour averages, per pixel, the closer member of each opposite pair up to the radius (plus the centre if asked); interlace shifts even rows right and odd rows left by the offset with edges repeated. "
  "The JPEG-quality simulation (up to 65535 pixels per side) equals saving as JPEG with that quality and reopening, with alpha restored or opaque as requested, and the drawing filter returns finite in-range images of the same size in every mode: the grey drawing is grey and opaque with plain areas white, and the coloured one is the original (with its alpha) whose HSL lightness is lowered to that of the grey drawing where that is darker.",
  ["inputs", "configurations"],
  "all images incl. ones smaller than the neighbourhood, all thresholds, amounts, radii, offsets, qualities and modes",
  "No test checks the content any of these produces.",
  ["d10-ops/src/despeckle.rs", "d10-ops/src/symmetric_nearest_neighbor.rs", "d10-ops/src/interlace.rs", "d10-ops/src/jpeg_quality.rs", "d10-ops/src/drawing.rs"],
  [("neighbourhood loops", "d10-ops/src/{despeckle,symmetric_nearest_neighbor,interlace}.rs")],
  ["output pixels against an independent reference"])

p("C27", "The WebP bridge to C is memory safe and leak free",
  "Encoding and decoding WebP, including every failure path (writer errors at any call, invalid or truncated input, unsupported sizes), never reads or writes invalid memory, never frees memory it does not own or twice, and releases everything it allocated before returning. "
  "An error raised by the writer is returned as exactly that error.",
  ["inputs", "fault_sequences"],
  "all image sizes and presets, all inputs, all writer failure points, repeated use over a long run",
  "Tests decode and encode one image each without sanitizers; leaks, overruns and failing writers are invisible to them.",
  ["d10-codecs/src/webp.rs"],
  [("from_raw_parts over the decoder's buffer and WebPFree", "decode_webp"), ("WebPPicture with borrowed argb plane, writer callback", "encode_webp, writer_function")],
  ["AddressSanitizer reports", "allocator balance after each call"])

p("C28", "Every option name selects the option it names",
  "Parsing the text name of an option (intensity, filter, blend, balance, equalise, saturation, edge detection and drawing modes, PNG/BMP/ICO colour types, PNG compression and filter, JPEG sampling factor, WebP preset) yields exactly the documented option, observable in what the operation or file then does, with the documented aliases for defaults. "
  "Any other text (different case, surrounding blanks, empty, near misses) is refused with an error that names the offending value and the option type.",
  ["inputs"],
  "all documented names and arbitrary other strings",
  "Only the intensity names are covered by a unit test.",
  ["d10-core/src/color/rgb.rs", "d10-core/src/errors.rs", "d10-ops/src/filters.rs", "d10-ops/src/blend.rs", "d10-ops/src/balance_channels.rs", "d10-ops/src/equalize.rs", "d10-ops/src/saturation.rs", "d10-ops/src/edge_detection.rs", "d10-ops/src/drawing.rs", "d10-codecs/src/png.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/webp.rs"],
  [("FromStr implementations", "all option enums")],
  ["parsed values and the behaviour they select, error text"])

p("C29", "Automatic tone, saturation and temperature corrections follow their model",
  "Optimising lightness applies one gamma derived from the mean HSL lightness (1 - (mean - 0.5) * factor); optimising saturation raises each pixel's saturation (HSL, HSV or Lch chroma) to a power derived from the mean saturation and the offset, damped towards black and white, keeping hue, brightness and alpha. "
  "Changing colour temperature scales the channels by the ratio of the two black-body white points between 1000 K and 12000 K (equal temperatures change nothing, a higher new temperature never makes any pixel less red or more blue), tint correction applies a channel power only when positive, results are finite and in [0,1] with alpha kept, and optimising temperature picks the new temperature from the mean red-blue difference.",
  ["inputs", "configurations"],
  "all images, all factors and offsets in their documented range, all temperatures incl. out-of-range ones, all tint corrections, all modes",
  "No test covers these operations.",
  ["d10-ops/src/lightness.rs", "d10-ops/src/saturation.rs", "d10-ops/src/temperature.rs"],
  [("mean statistics and gamma", "d10-ops/src/lightness.rs, saturation.rs"), ("white point table and interpolation", "d10-ops/src/temperature.rs")],
  ["output pixels against an f64 reference"])

p("C30", "Opening a file depends on nothing but its bytes",
  "Opening a file gives exactly the image (or an error where there is none) that reading the same bytes from memory gives, as long as their content is recognised: however the operating system delivers them (short reads of any size), whatever path, links and name lead to the file, and however often it was opened before. "
  "A read or seek that fails at any point makes opening fail with an error or is without effect on the image; it never leads to a different image. Missing files, directories and broken links are errors, and opening never changes or creates a file and leaves no file open behind.",
  ["inputs", "fault_sequences", "histories"],
  "all file contents, all deliveries of them by the operating system, all read and seek failures, all paths",
  "Tests only open complete files from a local disk; neither short reads nor failing calls occur there.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10/src/image.rs"],
  [("format detection and dispatch", "d10-codecs/src/lib.rs: decode_file, Format::from_reader"), ("read loops", "d10-codecs/src/webp.rs and the decoders")],
  ["system calls of the opening thread", "returned image or error"])

p("C31", "Operations free what they use and need memory in proportion to the image",
  "Everything an operation, conversion, save, read, queue or call from Python allocates is released again, whether it succeeds, fails with an error or ends by a panic of a callback, so that repeating calls, with the same or with ever new images and parameters, does not grow the process (one-time tables and caches of small bounded size aside). "
  "While one runs, its own memory stays within a fixed small multiple of the images and files it reads and produces (plus its kernel), whatever the proportions of the image and the number of calls or commands, and a result occupies about the size of its pixels. "
  "Memory libwebp takes for itself while it runs and reading files whose headers announce more than they hold are not part of the second guarantee.",
  ["inputs", "histories"],
  "all operations, formats, images and sequences of calls including failing ones",
  "Tests never look at memory; a leak or an oversized temporary buffer changes no result.",
  ["d10-core/src/pixelbuffer.rs", "d10-ops/src/filters.rs", "d10-ops/src/rotate.rs", "d10-ops/src/resize.rs", "d10-ops/src/compose.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/png.rs", "d10/src/image.rs", "d10-commands/src/queue.rs"],
  [("buffers of results and windows", "d10-ops/src/*.rs, d10-core/src/pixelbuffer.rs"), ("encode and decode buffers", "d10-codecs/src/*.rs")],
  ["bytes in use after each repetition", "peak bytes in use during a call"])

p("C32", "Chains of operations never produce an unusable image",
  "From any image with channels in [0,1], every chain of operations, adjustments, conversions and blends with parameters of their domain ends without a panic in an image of the right size whose channels are all finite numbers, also where a step works on results outside of [0,1] as Lanczos resampling, unclamped kernels and Laplace edges produce them. "
  "Every conversion and adjustment of any color with finite channels moderately out of [0,1] gives finite channels, and every adjustment except inverting and conversion to gray gives red, green and blue in [0,1]. "
  "Each image such a chain ends in can be saved in every format that takes its size and read back with that size; channels outside of [0,1] are stored like the nearest bound (lossy WebP and grayscale formats, which mix or truncate them first, excepted).",
  ["programs", "inputs"],
  "all sequences of operations, all their parameters, all images and colors including out-of-range ones",
  "Tests run single operations on images within range; what a step does with the undershoot of an earlier one is never seen.",
  ["d10-core/src/color/mod.rs", "d10-core/src/color/rgb.rs", "d10-core/src/color/hsl.rs", "d10-core/src/color/hsv.rs", "d10-ops/src/saturation.rs", "d10-ops/src/temperature.rs", "d10-ops/src/lightness.rs", "d10/src/image.rs", "d10-codecs/src/lib.rs"],
  [("conversions of out-of-range colors", "d10-core/src/color/*.rs"), ("whole image statistics", "d10-ops/src/saturation.rs, lightness.rs, temperature.rs, balance.rs, equalize.rs")],
  ["every image of a chain", "saved bytes"])

p("C33", "Errors say what went wrong, unchanged through every layer",
  "When opening or saving fails because a read, a write or the file itself failed, the error is an I/O error that still is the original one (the writer's own error object, or the system's code and text), for every format and entry point. "
  "A save to a path without a known extension is refused by an error naming the path, an image too large for GIF, JPEG or BMP by one naming the format and the size, a file announcing a larger image than supported by one naming that size, a file of unknown content and extension as unknown format, and no error is without text. "
  "The command queue passes the library's error on as its own text and source, the command line prints that text to stderr, and Python raises an exception with it.",
  ["inputs", "fault_sequences"],
  "all formats, options and files, all failing calls and writers, all unusable paths, names and sizes",
  "Tests only check that a few calls succeed; no test looks at the content of an error.",
  ["d10-codecs/src/errors.rs", "d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-commands/src/errors.rs", "d10-cli/src/main.rs", "d10-python/src/lib.rs"],
  [("translation of the decoders' and encoders' errors", "d10-codecs/src/*.rs"), ("CommandError", "d10-commands/src/errors.rs"), ("IntoPyErr", "d10-python/src/lib.rs")],
  ["returned error, its source and text", "stderr of the command line", "exceptions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
