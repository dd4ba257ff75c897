#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note,
         level="exploration", bin=None, hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level, bin=bin, hook=hook, na=na))

COLOR = "d10-core/src/color/"
prop("C01", "Colour space round trips return the same colour",
  "Converting any colour of the RGB gamut into any other colour space (sRGB, HSL, HSV, YUV, XYZ, Lab and LCh with any illuminant and observer) and back returns the same colour within the documented precision of 1/32768 per channel, with the alpha value unchanged bit for bit and no intermediate value that is not a finite number. The same holds along any chain of conversions (one unit of precision per step) and for whole buffers and iterators, which keep size and order.",
  ["inputs"], "every in-gamut colour and alpha, every colour space, illuminant and observer, every path of conversions, every buffer shape",
  "The tests convert 15 fixed and 100 random colours through one space with D65/2 degrees only, and the library's own equality treats NaN as equal, so grays, near grays, ties, other illuminants, chains and invalid numbers are never settled.",
  [COLOR+"mod.rs", COLOR+"srgb.rs", COLOR+"hsl.rs", COLOR+"hsv.rs", COLOR+"yuv.rs", COLOR+"xyz.rs", COLOR+"lab.rs", COLOR+"iter.rs", "d10-core/src/pixelbuffer.rs"],
  [("paired forward and inverse formulas", COLOR+"mod.rs: Color::to_*, to_rgb of every space")],
  ["Color::to_*", "ColorIter/ColorIterRef", "PixelBuffer::to_*"],
  "property-based round trip over generated colours and conversion paths",
  "Random search with boundary-rich generators; absence of violations is not proved. Precision 1/32768 is the one documented in the code.", bin="color")
prop("C02", "Colour conversions follow the published definitions",
  "For every source and target colour space the converted value equals the published definition: sRGB transfer curve, HSL and HSV with hue scaled to 0..1, BT.601 YUV of gamma encoded RGB, Rec. 709/D65 XYZ, CIE Lab and LCh (L/100, a/128, b/128, hue in radians) relative to the white point of the selected illuminant and observer. Colours outside the RGB gamut are clamped to 0..1 when they become RGB, alpha is never changed, and every result is finite. Converting by method, by From, by iterator or by buffer gives identical values.",
  ["inputs"], "every colour of every space (inside and outside of the RGB gamut), every target space, illuminant, observer and way of converting",
  "Tests compare a handful of colours per space, only from RGB and with D65/2 degrees; the conversion matrix has 18x18 entries over continuous values.",
  [COLOR+"mod.rs", COLOR+"srgb.rs", COLOR+"hsl.rs", COLOR+"hsv.rs", COLOR+"yuv.rs", COLOR+"xyz.rs", COLOR+"lab.rs", COLOR+"iter.rs"],
  [("conversion formulas", COLOR+"mod.rs: Color trait default methods"), ("white points", COLOR+"lab.rs: illuminant!, Observer")],
  ["Color::to_*", "From impls", "gamma_to_linear/linear_to_gamma"],
  "property-based differential test against an independent f64 reference model",
  "The reference formulas in harness/src/refmath.rs are trusted; tolerances account for f32 rounding and the tie handling within 1/32768.", bin="color")
prop("C03", "Colour adjustments compute their definition and keep alpha",
  "Every per-colour adjustment (gray by each intensity, invert, difference, gamma, level, brightness, contrast, saturation, vibrance, lightness, hue rotation, sepia, modulate, blending one colour over another, channel maps) gives the value of its definition clamped to 0..1 for every parameter, so neutral parameters are the identity, inverting twice restores the colour, and hue rotation is periodic with 360 degrees. Alpha is kept, except that a difference is opaque and blending one colour over another combines both alphas. ",
  ["inputs"], "every colour with any alpha, every parameter value including negative, neutral and extreme ones",
  "Tests use one or two fixed colours per adjustment, always opaque, with one parameter value.",
  [COLOR+"rgb.rs", "d10/src/image.rs"],
  [("adjustment formulas", COLOR+"rgb.rs"), ("image wrappers", "d10/src/image.rs")],
  ["Rgb::with_*", "Image methods"],
  "property-based differential test against an f64 reference model plus algebraic laws",
  "Reference formulas are taken from the documented meaning of the adjustment; tolerances for f32.", bin="color")
prop("C04", "Text forms, equality and accessors of colours are faithful",
  "The text form of every colour names its space, gains an 'a' and a fourth value exactly when the colour is not opaque, and shows each component rounded to four decimals, so that it can be read back. Two colours of a space are equal exactly if no component differs by more than 1/32768. Reading, setting and replacing a component touches only that component, constructors clamp RGB values and keep those of other spaces, and each option name is parsed to its own option while unknown names are rejected with an error naming the input.",
  ["inputs"], "every colour of every space, every pair of colours, every component, every string offered as option name",
  "Tests print single colours and parse single names; the component and name tables are large and the equality tolerance is a boundary on continuous values.",
  [COLOR+"mod.rs", COLOR+"rgb.rs", COLOR+"lab.rs", "d10-ops/src/filters.rs", "d10-ops/src/blend.rs", "d10-ops/src/equalize.rs", "d10-ops/src/drawing.rs", "d10-ops/src/balance_channels.rs", "d10-ops/src/saturation.rs", "d10-ops/src/edge_detection.rs", "d10-codecs/src/lib.rs"],
  [("format_color", COLOR+"mod.rs"), ("PartialEq with EPSILON", COLOR+"*.rs"), ("FromStr impls", "d10-ops/src, d10-codecs/src")],
  ["Display", "PartialEq", "FromStr", "accessors"],
  "property-based test with an independent parser and accessor model",
  "Names are enumerated exhaustively, colours by random search.", bin="color")
prop("C05", "A pixel buffer behaves like a plain 2-D array under any history",
  "Under every sequence of reads, writes, maps, iterations, conversions to other containers and in-place modifications a pixel buffer behaves like a row-major two-dimensional array of its width and height: each write changes exactly one pixel, coordinates outside are refused by checked access, reported as absent by optional access and replaced by the nearest edge pixel by clamped access and neighbourhood reads. Fallible bulk operations stop at the first error and report it. Buffers of zero, oversized or mismatching dimensions can never be created.",
  ["histories", "inputs"], "every sequence of buffer operations, every shape, every coordinate (including negative and very large ones) and every requested size",
  "Tests perform single calls on tiny fixed buffers; aliasing between rows and columns, edges and error paths need arbitrary shapes and histories.",
  ["d10-core/src/pixelbuffer.rs", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs", "d10/src/image.rs"],
  [("index computation and bounds checks", "d10-core/src/pixelbuffer.rs"), ("size validation", "d10-core/src/pixelbuffer.rs: validate")],
  ["PixelBuffer API", "Image API"],
  "stateful model-based testing against a Vec<Vec<_>> model",
  "Random histories of up to a few dozen operations; shapes up to 12x12, huge sizes only where creation must fail.", bin="buffer")
prop("C06", "Geometric operations move pixels exactly",
  "Flipping, rotating by 90, 180 and 270 degrees, cropping and interlacing (even rows shifted right and odd rows shifted left by the offset, repeating the edge pixel) put at each output position exactly (bit for bit, including alpha) the input pixel that the operation's geometry assigns to it, with the corresponding output size. They obey their group laws: flips are involutions, four quarter turns are the identity, a quarter turn is a transposition and a flip. Crop areas reaching outside the image yield exactly the part inside, and the empty image if nothing is inside.",
  ["inputs"], "every image shape and content, every crop offset and size up to the 32 bit limits, every sequence of flips and turns",
  "Tests use a single 2x2 or 3x3 image and one crop rectangle.",
  ["d10-ops/src/flip.rs", "d10-ops/src/rotate_90.rs", "d10-ops/src/crop.rs", "d10-ops/src/interlace.rs", "d10/src/image.rs"],
  [("coordinate mappings", "d10-ops/src/{flip,rotate_90,crop,interlace}.rs")],
  ["Image::flip_*", "Image::rotate*", "Image::crop"],
  "property-based differential test against an index-mapping model, with group laws over generated sequences",
  "Exact comparison; shapes up to 40 pixels per side.", bin="ops")
prop("C07", "Resizing resamples correctly with every filter",
  "Resizing yields exactly the requested size (or percentage, at least one pixel) for every filter, is the identity for the same size, keeps the value of uniform images, and every output pixel is in the range 0..1 and between the extremes of the input for nearest and bilinear. Nearest picks the input pixel under the centre of the output pixel; bilinear, bicubic (Catmull-Rom) and Lanczos3 interpolate all four channels around that position with their published, normalised kernels and edges extended; the automatic filter is bicubic unless both sides shrink, then the Lanczos kernel with a radius of twice the reduction (at least 3). Mirroring or turning the input mirrors or turns the output.",
  ["inputs"], "every image, every input and output size including extreme ratios and one pixel sides, every filter",
  "Tests compare a few fixed images at one ratio per filter and skip Lanczos, which is also what automatic selection uses for moderate downscaling.",
  ["d10-ops/src/resize.rs", "d10-ops/src/filters.rs", "d10/src/image.rs"],
  [("filter kernels", "d10-ops/src/filters.rs"), ("filter selection", "d10-ops/src/resize.rs")],
  ["Image::resize", "Image::resize_pct"],
  "property-based test: reference resampler, invariants and metamorphic relations",
  "Reference model in f64; sizes up to 40x40.", bin="ops")
prop("C08", "Rotation by arbitrary angles keeps content in place",
  "Rotating clockwise by any angle in degrees about the image centre keeps the canvas size, and each output pixel is the input colour at the back-rotated position (nearest pixel or interpolated with the kernel of the filter), or the background colour (transparent for images) where that lies outside the image. Multiples of 90 degrees permute the pixels like the quarter turns, multiples of 360 are the identity, and angles differing by 360 degrees give the same image.",
  ["inputs"], "every image and every finite angle (negative, above 360, multiples of 90), every filter and background",
  "Tests compare one image at one or two angles.",
  ["d10-ops/src/rotate.rs", "d10-ops/src/filters.rs", "d10/src/image.rs"],
  [("inverse mapping", "d10-ops/src/rotate.rs")], ["Image::rotate"],
  "property-based differential test against an f64 inverse-mapping model",
  "Pixels closer to the border than the f32 error are exempted and counted.", bin="ops")
prop("C09", "Composing and blending follow their per-pixel definition",
  "Composing images calls the given function once per position of the smallest canvas that covers all of them, in row order, with the pixels of every image (the default colour where an image ends) and stores exactly its results; the first error of the function aborts and is returned unchanged. Blending covers the same canvas, keeps a pixel that only one image has, and otherwise mixes the base colour with the result of the operation's formula by the intensity (normal, addition, subtract, darken and lighten: times the alpha of the second colour, whose alpha the last four keep; HSL and LCh operations change only the named component of the base colour and keep its alpha, hues move along the shorter arc). Results are in the range 0..1.",
  ["inputs"], "every pair or list of images of equal and different sizes, every blend operation, intensity and alpha",
  "Tests blend equal-sized opaque images with a few colours.",
  ["d10-ops/src/compose.rs", "d10-ops/src/blend.rs", "d10/src/image.rs"],
  [("blend formulas", "d10-ops/src/blend.rs"), ("size handling", "d10-ops/src/compose.rs")],
  ["Image::compose", "Image::blend", "compose_slice"],
  "property-based differential test against an f64 reference model",
  "Reference formulas trusted.", bin="ops")
prop("C10", "Convolution filters equal direct convolution",
  "Applying a kernel (fixed or dynamic size, also non-square) gives at every position the weighted sum of the pixels around it in all four channels, with the image extended by its nearest edge pixel. Gaussian blur of radius r is the convolution with the normalised (2r+1)x(2r+1) gaussian of the given sigma (default r/2, a sigma of 0 meaning no blur), never leaves the range of the input and is never NaN; unsharp masking returns the clamped p + (p - blurred) * factor in all channels; Sobel returns the clamped gradient magnitude and Laplace the signed 8-neighbour response per colour channel, both opaque.",
  ["inputs"], "every image, every radius and sigma (explicit or derived), factor and kernel",
  "Tests compare one fixed image and radius per filter.",
  ["d10-ops/src/gaussian_blur.rs", "d10-ops/src/unsharp.rs", "d10-ops/src/edge_detection.rs", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs", "d10-core/src/pixelbuffer.rs"],
  [("kernel construction", "d10-core/src/kernel_dyn.rs"), ("edge clamping", "d10-core/src/pixelbuffer.rs: get_kernel*")],
  ["Image::gaussian_blur", "Image::unsharp", "Image::edge_detection", "PixelBuffer::apply_kernel*"],
  "property-based differential test against direct f64 convolution",
  "Radius up to 9, images up to 24x24.", bin="ops")
prop("C11", "Despeckle and neighbour smoothing pick from the neighbourhood",
  "Despeckling replaces a pixel darker than the threshold by the mean of the bright pixels of its 3x3 neighbourhood if at most the given amount of those nine pixels are dark, and keeps every other pixel and all alpha values. Symmetric nearest neighbour smoothing returns the mean, over the four pairs of opposite neighbours at each distance up to the radius, of the one closer in colour to the centre (plus the centre itself if asked for or if there is nothing else). Edges are extended by the nearest pixel, uniform images stay, and results are finite and in the range of the neighbourhood for every threshold, amount and radius.",
  ["inputs"], "every image, threshold, amount, radius and centre mode",
  "Tests compare one image with one parameter set.",
  ["d10-ops/src/despeckle.rs", "d10-ops/src/symmetric_nearest_neighbor.rs"],
  [("neighbourhood selection", "d10-ops/src/{despeckle,symmetric_nearest_neighbor}.rs")],
  ["Image::despeckle", "Image::symmetric_nearest_neighbor"],
  "property-based differential test against an f64 reference model", "Images up to 12x12.", bin="ops")
prop("C12", "Global tone operations act on the image statistics they name",
  "Balancing and contrast stretching map each named channel (or all channels by the average intensity) so that the levels below and above which the given per mille of pixels lie become the ends of the range; equalizing maps a level to the share of pixels up to it; saturation and lightness optimisation apply the gamma derived from the average saturation or lightness; colour temperature changes scale the channels by the black body colours of both temperatures and apply the tint powers derived from the average cast. The map depends on the multiset of pixels only, alpha and size are kept, results are finite and within 0..1 for every image and parameter, and equal temperatures without tint leave the image unchanged.",
  ["inputs"], "every image, mode, threshold, offset, factor and temperature",
  "Tests check one photo-like image per mode; degenerate images and extreme parameters are not reached.",
  ["d10-ops/src/balance_channels.rs", "d10-ops/src/stretch_contrast.rs", "d10-ops/src/equalize.rs", "d10-ops/src/saturation.rs", "d10-ops/src/lightness.rs", "d10-ops/src/temperature.rs"],
  [("histograms and lookup", "d10-ops/src/{balance_channels,equalize,stretch_contrast}.rs"), ("black body factors", "d10-ops/src/temperature.rs")],
  ["Image::balance", "Image::stretch_contrast", "Image::equalize", "Image::optimize_*", "Image::change_color_temperature"],
  "property-based differential test against f64 reference models of the statistics and maps",
  "Bin boundaries of histograms are exempted within f32 error; images up to 12x12.", bin="ops")
prop("C13", "Palette mapping picks the nearest palette colour",
  "Mapping an image to a palette (given in any colour space) replaces every pixel by the member of the palette that is nearest to it by the distance of the normalised CIE Lab components (D65, 2 degrees), ignoring alpha in the distance and taking over the alpha of the palette colour. The size is kept, equal pixels become equal colours, members of the palette stay, mapping twice is the same as mapping once, and the in-place variant gives the same result.",
  ["inputs"], "every image and every palette, including single colours, duplicates and ties",
  "Tests use one palette and image.",
  ["d10-ops/src/apply_palette.rs"], [("nearest search", "d10-ops/src/apply_palette.rs")],
  ["Image::apply_palette"], "property-based test with a nearest-neighbour oracle (validity predicate, ties allowed)", "Palettes up to 16 colours.", bin="ops")
prop("C14", "Noise stays within its stated amount and touches what it claims",
  "Adding noise keeps the size and the range 0..1 and changes pixels only as its kind defines: random and gaussian noise replace every colour channel v independently by n * amount + v * (1 - amount) for a random number n (uniform in -1..1, or of the standard normal distribution), limited to 0..1, and keep alpha; RGB noise sets exactly one colour channel to 1 in the given share of pixels and keeps alpha; salt and pepper noise replaces whole pixels by opaque white or black, in the given shares. Pixels not chosen keep all their values, a zero amount leaves the image unchanged, different pixels and repeated calls get different noise.",
  ["inputs"], "every image, amount, alpha and noise kind, over the random choices",
  "Tests only check that something changed.",
  ["d10-ops/src/random_noise.rs", "d10-ops/src/gaussian_noise.rs", "d10-ops/src/rgb_noise.rs", "d10-ops/src/salt_n_pepper_noise.rs"],
  [("noise formulas", "d10-ops/src/*_noise.rs")], ["Image::*_noise"],
  "property-based invariant test with statistical bounds far outside chance",
  "The library uses the thread RNG: only bounds that hold for every random choice, or fail by chance with probability below 1e-12, are asserted.", bin="ops")
prop("C15", "Drawing effects and JPEG degradation are bounded transformations",
  "Every drawing mode returns an image of the same size whose pixels follow from the lightened, blurred and sharpened original as the mode defines (gray, coloured or reduced colours; only the coloured mode keeps alpha, the others are opaque), finite and in the range 0..1 for every radius. Simulating a JPEG quality gives the colours of a JPEG file of that quality, keeps the size, keeps alpha if asked for (else the image is opaque), and is closer to the original with a higher quality.",
  ["inputs"], "every image, mode, radius and quality and the preserve option",
  "Tests compare one image and parameter set.",
  ["d10-ops/src/drawing.rs", "d10-ops/src/jpeg_quality.rs"], [("mode formulas", "d10-ops/src/drawing.rs"), ("encode and decode", "d10-ops/src/jpeg_quality.rs")],
  ["Image::drawing", "Image::jpeg_quality"], "property-based differential and metamorphic test", "Images up to 24x24.", bin="ops")
prop("C16", "Lossless formats store and return the image exactly",
  "Saving an image as PNG (every colour type, compression and filter), BMP, ICO, GIF or lossless WebP and loading it again returns, for images whose values are representable in the chosen colour type, exactly the same pixels, size and alpha; gray types store the luma of the image and types without alpha store opaque pixels. Values between two representable ones are stored as one of the two neighbours. Compression and filter settings never change the decoded pixels, and saving twice gives identical bytes.",
  ["inputs", "configurations"], "every image and size, every lossless format, colour type, compression and filter combination",
  "Tests write one or two fixed images per format and compare loosely; whole colour types were never written.",
  ["d10-codecs/src/png.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/utils.rs", "d10-codecs/src/lib.rs"],
  [("sample conversion", "d10-codecs/src/utils.rs"), ("encoders", "d10-codecs/src/*.rs")],
  ["Image::save*", "Image::open", "read_from_buffer", "encode"],
  "property-based round trip over formats, options and images, with an independent decoder as second oracle",
  "Sizes up to 64x64 plus long thin images.", bin="codec")
prop("C17", "Lossy encoders honour their options within the expected distortion",
  "Saving as JPEG or WebP with any quality, progressive, sampling, preset, grayscale and Huffman setting gives a file in that format which decodes to the same size and to an image close to the original, with error shrinking as quality grows; gray output is gray, and out of range quality is treated as the nearest valid one.",
  ["inputs", "configurations"], "every image and option combination",
  "Tests encode one image with a few options and only check that decoding works.",
  ["d10-codecs/src/jpeg.rs", "d10-codecs/src/webp.rs"], [("option mapping", "d10-codecs/src/{jpeg,webp}.rs")],
  ["encode", "Image::save*"], "property-based metamorphic test and file structure inspection",
  "Distortion limits are generous; structure (sampling factors, progressive marker, quantisation) is parsed from the file.", bin="codec")
prop("C18", "Decoding never crashes on arbitrary or damaged files",
  "Decoding any byte sequence, whether random, truncated, mutated or spliced from valid files of any supported format, returns either an image with valid dimensions and finite pixels in range or an error, and never panics, hangs or corrupts memory. A truncated file is never reported as a larger or different-sized image than its header states.",
  ["inputs"], "every byte sequence offered as file content",
  "Tests decode a handful of valid files.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/utils.rs"],
  [("error mapping of decoders", "d10-codecs/src/*.rs"), ("size validation", "d10-core/src/pixelbuffer.rs")],
  ["decode_buffer", "Image::read_from_buffer"], "structure-aware mutation fuzzing of generated valid files",
  "Third party decoders are part of the path; declared sizes beyond the memory of the sandbox are excluded.", bin="codec")
prop("C19", "Decoders read independently written files correctly",
  "Files written by an independent encoder in every supported variant (PNG bit depths, palettes, transparency and interlacing; BMP depths and orientation; GIF palettes, transparency and interlacing; ICO; gray, YCbCr, CMYK and progressive JPEG; lossless WebP) decode to exactly the pixel values the format defines, or within JPEG tolerance. Metadata of any kind and length (comments, text, private chunks, gaps) and data behind the end of the image change nothing of the loaded image.",
  ["inputs", "configurations"], "every image content, size and file variant",
  "The repository's test files cover only a few variants written by itself.",
  ["d10-codecs/src/png.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/utils.rs"],
  [("pixel format conversion", "d10-codecs/src/utils.rs, png.rs, jpeg.rs, gif.rs")],
  ["decode_buffer"], "property-based differential test against files written by an independent encoder",
  "The independent writers in the harness are trusted.", bin="codec")
prop("C20", "Storage errors are reported and never look like success",
  "If the destination fails at any byte while an image is written (full disk, failing writer, missing directory, no permission), saving returns an error; it reports success only when the complete, decodable file has been accepted by the destination. If the source fails or ends at any byte while reading, loading returns an error or an image, never a panic, and a missing file is reported as an error.",
  ["fault_sequences", "crash_points"], "every format and options, every byte position at which the destination or source fails, every kind of failure",
  "Tests never inject an I/O error.",
  ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs"],
  [("error propagation", "d10-codecs/src/lib.rs: encode_to_file, encode")],
  ["Image::save*", "encode", "decode_file"], "fault injection at every byte position over generated images, formats and options",
  "Failing writers, short writers, /dev/full and scratch directories; kernel level faults are represented by those.", level="fault_enumeration", bin="codec")
prop("C21", "File formats are recognised by content and by name",
  "Loading recognises the format by the content of the file and only if that is inconclusive by its extension, so a valid image loads under any name and equal to loading it from memory. Opening a file always gives its present content: after any history of saving, overwriting, renaming and removing files, each holds exactly what was saved to it last, and nothing else was left behind. File extensions are recognised in every letter case, saving without an explicit format picks the encoder and its documented default options from the extension, an explicit format wins over the extension, and unknown contents and extensions are reported as such without creating or changing a file.",
  ["inputs"], "every format, every file name and extension (any case, several dots, none), every mismatch of content and name",
  "Tests open files whose extension matches.",
  ["d10-codecs/src/lib.rs"], [("magic bytes and extension tables", "d10-codecs/src/lib.rs")],
  ["Image::open", "Image::save", "EncodingFormat::from_*"], "property-based test over generated names and contents",
  "All file effects stay in a scratch directory.", bin="codec")
prop("C22", "Command queues run exactly the given commands in order",
  "Running a queue, built with its methods or from pushed commands, has the same effect as applying its commands with their parameters one by one to the current image in the given order: every file written before is the same, opening replaces the current image, and running it again starts without an image. It stops at the first failing command with an error of its kind, which is a missing image for any command that needs one before an image was opened. The log names every executed command up to a silent command with its position and the total, not counting silent commands.",
  ["histories", "inputs"], "every sequence of commands, parameters and files",
  "Tests parse single commands.",
  ["d10-commands/src/commands.rs", "d10-commands/src/queue.rs", "d10-commands/src/log.rs", "d10-commands/src/errors.rs"],
  [("execution order", "d10-commands/src/queue.rs"), ("command dispatch", "d10-commands/src/commands.rs")],
  ["Queue", "Cmd"], "stateful model-based testing of command histories", "Image files in a scratch directory.", bin="program")
prop("C23", "The command line tool does what its arguments say",
  "The d10 program accepts an argument list if it consists of files and of known options, each followed by its parameter: a file, a name of an intensity, or one, two or three numbers separated by commas. The first file without an option is opened, later ones are written. Everything else, also an empty list, is rejected with a message on standard error and a failure exit code before any command runs. An accepted list writes exactly the files that the same library operations produce in this order, reports every step unless silenced, and exits with success only if every step succeeded, otherwise with a message and a failure exit code, never by a panic.",
  ["programs", "inputs"], "every argument list over existing, missing and unreadable input files, every option with valid and invalid values",
  "There are no tests of the program.",
  ["d10-cli/src/main.rs", "d10-commands/src/queue.rs"], [("argument parser", "d10-cli/src/main.rs")],
  ["process exit code, stdout, stderr and files"], "property-based black-box test of the program against a library-level model",
  "Runs the built program in a scratch directory.", bin="program")
prop("C24", "Python bindings agree with the library and numpy",
  "Images converted to and from numpy arrays in every colour space and element type keep shape, channel order and values within the precision of the type, and Python methods with every option give the same result as the library's definition. Invalid arguments raise Python exceptions and never abort or panic the interpreter.",
  ["inputs", "histories"], "every image, colour space, element type, method and argument including invalid ones",
  "The Python tests check single arrays and calls.",
  ["d10-python/src/image.rs", "d10-python/src/color.rs", "d10-python/src/lib.rs"], [("array conversion", "d10-python/src/image.rs")],
  ["d10 Python module"], "property-based testing: proptest-generated arrays and call sequences run in a Python worker and compared with an f64 model and the Rust library", "Runs in the sandbox's Python with the extension built from the working tree.", bin="python")
prop("C25", "Image operations are pure and deterministic",
  "Every non-random image operation leaves its input image untouched, and returns bit for bit the same result for the same input and parameters no matter what ran before. Image-level operations give exactly the result of the corresponding buffer-level operation with the documented defaults for omitted parameters, clones are independent of their original, and saving an image never alters it in memory.",
  ["histories", "inputs"], "every sequence of operations and parameters applied to shared images",
  "Tests check single results and never the input or repeated evaluation.",
  ["d10/src/image.rs", "d10-ops/src/lib.rs"], [("delegation to buffer operations", "d10/src/image.rs")],
  ["Image methods"], "stateful property-based testing of operation histories", "All deterministic operations of the facade are in the alphabet.", bin="ops")
prop("C26", "Images can be used by several threads at once",
  "Images, buffers, colours, options and errors can be sent to and shared between threads. Any number of operations that run at the same time on the same images, including saving to and loading from different files, end without panic or deadlock, give bit for bit the results that each gives alone, and leave the images unchanged, whatever the interleaving and whether or not the same operation ran before in the process.",
  ["schedules", "histories"], "every assignment of operations on shared images to threads and every schedule of these threads",
  "No test uses more than one thread on an image.",
  ["d10/src/image.rs", "d10-core/src/pixelbuffer.rs", "d10-ops/src/lib.rs", "d10-codecs/src/lib.rs"], [("absence of shared mutable state", "d10-core, d10-ops, d10-codecs")],
  ["Image methods called in threads"], "property-based testing of generated operations in generated numbers of threads against sequential evaluation", "Schedules are those of the operating system with threads released together; they are sampled, not enumerated.", bin="ops")

CLAIMED = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]},
        }, ensure_ascii=False) + "\n")

man = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in CLAIMED:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": f"bash tools/check.sh {p['bin']} {p['id']} quick",
            "thorough_cmd": f"bash tools/check.sh {p['bin']} {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        })
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not finished yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
