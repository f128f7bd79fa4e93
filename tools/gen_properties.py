#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Every library call is memory-safe and terminates for every argument",
  "For every public image function, every image size and channel layout and every parameter value (including zero, negative, huge, NaN and infinite ones, and NULL pointers where the function documents a failure value), a call with buffers of the documented size returns in bounded time and touches no memory outside the buffers it was given or allocated. It performs no undefined arithmetic (out-of-range float-to-integer conversion, signed overflow, division by zero), and a call with invalid arguments returns the failure value, or leaves the image untouched for in-place operations.",
  ["inputs"], "all functions x sizes (1x1 up, very thin, very tall, non-square) x channel counts x ordinary and extreme parameters",
  "The unit tests call each function on one or two tiny images with ordinary parameters and without sanitizers; a wrong bound only shows on particular size/parameter combinations.",
  ["src/conversion.c","src/crop.c","src/draw.c","src/trim.c","src/foerstner_corner.c","src/sobel_edge_detection.c","src/watershed_segmentation.c","src/perspectivetransform.c","src/corner_peaks.c","src/histogram.c","src/binary_closing_disk.c"],
  [("argument validation at the top of every public function","src/*.c"),("loop bounds and index arithmetic","src/*.c")],
  ["C API under AddressSanitizer/UndefinedBehaviorSanitizer with exact-size buffers"])

p("C02", "Results depend only on the arguments, never on what was called before",
  "Calling any library function gives byte-identical results (including output sizes) whatever sequence of other library calls, on whatever images, preceded it in the process. No call modifies an input buffer, marker array, corner set or matrix it only reads, every returned buffer is owned by the caller alone and stays unchanged by later calls, and a call leaves no allocation behind other than what it returns.",
  ["histories"], "all sequences of library calls on several images up to a bounded length, each step compared with the same call in a fresh process",
  "Each unit test calls one function once; hidden state (a cached kernel, a reused scratch buffer, a patched matrix) only shows in specific call sequences.",
  ["src/conversion.c","src/perspectivetransform.c","src/watershed_segmentation.c","src/foerstner_corner.c","src/trim.c","src/corner_detection.c"],
  [("all working memory is allocated per call","src/*.c"),("const inputs","include/*.h")],
  ["C API: result bytes, input bytes after the call, live allocations"])

p("C03", "Concurrent calls from several threads behave as if run alone",
  "When threads call library functions at the same time, each on its own images or on shared read-only images, every call returns exactly the bytes it returns when it runs alone, for every interleaving. No two calls touch the same memory location with one of them writing it, apart from the buffers their callers passed in.",
  ["schedules"], "all interleavings (within a preemption bound) of two concurrent calls drawn from all pairs of library operations",
  "No test in the repository starts a thread.",
  ["src/conversion.c","src/perspectivetransform.c","src/watershed_segmentation.c","src/corner_detection.c","src/draw.c","src/parse_hex_color.c","src/exif.c"],
  [("no mutable static or global state","src/*.c")],
  ["C API called from two threads under a controlled scheduler"])

p("C04", "A failed memory allocation is reported, never crashes, leaks or corrupts",
  "If any single allocation made during a library call fails, or every allocation from some point on fails, the call does not crash or terminate the process and returns its failure value or exactly the result it returns without the failure. It leaks nothing, modifies no input, and a following call with memory available gives the normal result.",
  ["fault_sequences"], "every allocation made by every library operation, failing alone and failing together with all later ones",
  "No test injects allocation failures; the error branches are never executed.",
  ["src/conversion.c","src/perspectivetransform.c","src/extract_document.c","src/corner_detection.c","src/sort_corners.c","src/watershed_segmentation.c","src/foerstner_corner.c","src/corner_peaks.c","src/trim.c","src/sobel_edge_detection.c"],
  [("NULL checks and clean-up branches after each malloc/calloc","src/*.c")],
  ["C API with an interposed allocator"])

p("C05", "Flips, rotations and transpositions are exact pixel permutations",
  "For every image, flip-x, flip-y, rotate 90/180/270 clockwise, transpose and transverse move every RGBA pixel, all four bytes unchanged, to exactly the position the named symmetry of the rectangle prescribes, with width and height exchanged where it says so. Consequently they compose like the symmetries of a rectangle: flips, transpose, transverse and 180 degrees are their own inverse, four quarter turns are the identity, 270 is the inverse of 90.",
  ["inputs"], "all image sizes and contents",
  "Unit tests check one 2x2 or 2x3 image per operation; size-dependent index errors and alpha handling are not reached.",
  ["src/flip.c","src/rotate.c"], [("index maps","src/flip.c"),("index maps","src/rotate.c")], ["C API result bytes"])

p("C06", "Crop returns exactly the requested window; border surrounds it exactly",
  "Cropping returns exactly the pixels of the requested rectangle, bytes unchanged, for every channel count, and fails without a result whenever the rectangle is empty or not completely inside the image. Adding a border of width b gives an image 2b larger in each direction whose interior is the unchanged input and whose every other pixel is the border colour (opaque for four channels, its luminance 0.299 R + 0.587 G + 0.114 B, truncated, for one), so cropping the border away restores the input.",
  ["inputs"], "all image sizes, channel counts, rectangles, border widths and colours",
  "The unit tests crop one 3x3 image and border one tiny image.",
  ["src/crop.c","src/draw.c"], [("range check x+w<=width, y+h<=height with overflow guard","src/crop.c"),("fcv_add_border","src/draw.c")], ["C API result bytes"])

p("C07", "Trim removes exactly the uniform edge columns and rows, nothing else",
  "Trim returns a contiguous, non-empty sub-rectangle of the image, bytes unchanged, and reports its size. It strips uniform columns from the left, then from the right, then uniform rows from the top, then from the bottom of what remains, stopping on each side at the first line that is not uniform and always keeping at least one row and column; all channels including alpha count. With a threshold of p percent a line counts as uniform when no channel of any of its pixels differs by more than floor(p*255/100) from the line's first (topmost or leftmost remaining) pixel; p is clamped to 0..100 and 0 means exact equality.",
  ["inputs"], "all image sizes, contents, channel counts and thresholds",
  "Tests trim a handful of images with a plain frame; lines that differ in one far pixel or channel, one-pixel-wide remains and tolerance edges are not sampled.",
  ["src/trim.c"], [("per-side scan loops","src/trim.c"),("tolerance comparison","src/trim.c")], ["C API result bytes and updated size"])

p("C08", "Grayscale conversions use the documented luma for every colour",
  "For every colour, grayscale conversion yields floor((76 R + 150 G + 30 B)/256), written to all of R, G and B with opaque alpha in the RGBA variant and once per pixel in the single-channel variant; alpha never influences it, and expanding a single channel copies the value to R, G and B with opaque alpha. The contrast-stretching variant maps the gray value at rank floor(n/64) from the dark end to 0 and the one at that rank from the bright end to 255, everything beyond them to 0 and 255, and values between linearly (truncated); if the two coincide it changes nothing.",
  ["inputs"], "all 2^24 colours, all image sizes, all gray-level distributions",
  "The tests use one 2x2 image; they cannot cover all colours, ranks and histogram shapes.",
  ["src/conversion.c","src/rgba_to_grayscale.c","src/single_to_multichannel.c"], [("integer luma weights","include/rgba_to_grayscale.h"),("counting-sort rank selection","src/conversion.c")], ["C API result bytes"])

p("C09", "Binarisation splits at an optimal Otsu threshold; outputs are consistent",
  "Otsu thresholding turns every pixel into opaque black or white by comparing its luma with one threshold (white iff greater) that maximises the between-class variance of the luma histogram; in double-threshold mode values more than 16 below it are black, more than 16 above it white (both limits clamped to 0..255), and values between rise linearly from one limit to the other. A fixed global threshold t maps v to 255 iff v > t. Smart black-and-white conversion equals Otsu applied to clamp(127 + gray - blurred gray), where the blur radius is a tenth of the square root of the pixel count; the smooth variant is the same in double-threshold mode.",
  ["inputs"], "all luma histograms (including one-level and extreme ones), sizes, alpha values and both modes",
  "The tests threshold one 4x4 image; thresholds near 0 or 255, ties and flat images are not reached.",
  ["src/conversion.c"], [("Otsu scan","src/conversion.c: fcv_otsu_threshold_rgba"),("threshold +/- 16","src/conversion.c"),("high-pass","src/conversion.c: fcv_bw_smart")], ["C API result bytes"])

p("C10", "Gaussian blur is a normalised, symmetric local weighted mean",
  "For every image and every radius 0 < r <= 1000 (non-negative finite radii only; others fail), each output colour value is, within one gray level per pass, the normalised Gaussian-weighted mean (sigma r/3) of the values at most floor(r) columns and then rows away, renormalised at the image edges; alpha becomes opaque. Hence output stays within the input's range in that window, a flat image stays flat, pixels farther than floor(r) away have no influence, and mirroring or transposing the input mirrors or transposes the output, up to rounding; radius 0 returns an exact copy.",
  ["inputs"], "all image sizes and contents, all integer and fractional radii, including radii larger than the image",
  "The tests blur one small image with one integer radius.",
  ["src/conversion.c"], [("separable kernel with weight renormalisation","src/conversion.c: fcv_apply_gaussian_blur")], ["C API result bytes"])

p("C11", "Resize yields the requested size and faithful averages or interpolation",
  "Resizing w x h by factors (fx, fy) gives an image of floor(w*fx) x floor(h*fy) pixels, where a product within rounding error of an integer counts as that integer, and fails for non-positive or non-finite factors or an empty result. When both factors are at least 1 each output value is the bilinear interpolation at the centre-aligned source position; otherwise it is the area-weighted mean of the source region the output pixel covers - both within one gray level, with opaque alpha. Hence flat images stay flat, factor 1 is the identity on colours, and no value leaves the range of the source pixels involved.",
  ["inputs"], "all sizes, all factor pairs (shrinking, enlarging, mixed), all contents",
  "The tests resize one 2x2 and one 4x4 image by 0.5 and 2.",
  ["src/conversion.c","src/cli.c"], [("output size computation","src/conversion.c: fcv_resize"),("area branch / bilinear branch","src/conversion.c: fcv_resize")], ["C API result bytes and sizes","CLI output image size"])

p("C12", "Binary morphology equals set dilation and erosion with a Euclidean disk",
  "On single-channel images where 255 is foreground and everything else background, dilation with radius r sets exactly the pixels within distance r + 0.5 of a foreground pixel, and erosion keeps exactly the pixels whose whole disk of that radius lies in the foreground, outside the image counting as background; outputs contain only 0 and 255. Opening is erosion then dilation; closing is dilation then erosion with the border replicated, so opening never adds, closing never removes foreground, and both follow set inclusion.",
  ["inputs"], "all binary (and non-binary) images of all sizes, all radii including 0 and larger than the image",
  "The tests use a few fixed patterns with radius 1 or 2.",
  ["src/binary_closing_disk.c"], [("disk membership test","src/binary_closing_disk.c"),("border handling in erosion","src/binary_closing_disk.c")], ["C API result bytes"])

p("C13", "Sobel returns the gradient magnitude normalised over the image",
  "For 1-, 3- and 4-channel input of every size, the result is one byte per pixel equal, within one level, to 255*(m-min)/(max-min), where m is the Euclidean magnitude of the two 3x3 Sobel responses of the (luma-converted) image with replicated borders and min, max are its extremes over the image. A constant image gives all zeros, and mirroring or transposing the input mirrors or transposes the result.",
  ["inputs"], "all sizes, channel counts and contents",
  "The tests check one 3x3 pattern.",
  ["src/sobel_edge_detection.c"], [("kernel and border clamping","src/sobel_edge_detection.c"),("min/max normalisation","src/sobel_edge_detection.c")], ["C API result bytes"])

p("C14", "Watershed floods each marker's region by level, layer by layer",
  "For every elevation image and marker list inside the image, the regions grow from their markers in rising elevation order: at each level, starting with 0, repeatedly and simultaneously every unlabelled pixel of at most that elevation with a labelled 4-neighbour takes that neighbour's label (left, right, up, down precedence; with boundaries enabled a pixel touching two different labels stays unlabelled and black). Every region is 4-connected and contains its marker, without boundaries every pixel is labelled, labels map to the fixed colour of the marker's position in the list with opaque alpha, and a marker outside the image makes the call fail.",
  ["inputs"], "all elevation images, marker lists and both boundary modes",
  "The tests use two or three hand-made images and mostly check that something is returned.",
  ["src/watershed_segmentation.c"], [("level loop with simultaneous layer expansion","src/watershed_segmentation.c"),("queue","src/watershed_segmentation.c")], ["C API result bytes"])

p("C15", "The histogram picture is proportional to the exact channel counts",
  "For 1-, 3- and 4-channel images of every size the result is a 256x200 opaque picture in which column v carries a bar of floor(200*count/maxcount) pixels from the bottom, where count is the exact number of pixels with value v and maxcount the largest count over all bars drawn. Single-channel images, and RGBA images whose pixels all have equal R, G and B, give one white histogram; otherwise red, green and blue bars are drawn independently and overlap additively; alpha is never counted.",
  ["inputs"], "all image contents, sizes and channel counts",
  "The tests check the picture size and one bar of one tiny image.",
  ["src/histogram.c"], [("counting loops","src/histogram.c"),("bar scaling","src/histogram.c")], ["C API result bytes"])

p("C16", "Drawing paints exactly the circle or disk, clipped, in the given colour",
  "Drawing a circle or a disk of integer-truncated radius and centre paints only pixels of the image and nothing else, in the exact colour given by six hex digits with optional leading '#' (any other text means white; opaque for four channels, truncated luminance for one). The painted circle is Bresenham's circle (radius 0 is a single pixel): its pixels all lie within 1.5 pixels of the ideal circle and form an unbroken ring symmetric in all eight directions, a disk paints every pixel from its centre row out to that ring with no holes; clipping at the image edge never changes which visible pixels are painted, and a negative or non-finite radius or centre paints nothing. Converting to binary gives 255 exactly for pixels equal to the foreground colour and 0 otherwise.",
  ["inputs"], "all image sizes, channel counts, radii, centres inside and outside the image, colour strings",
  "The tests draw two or three shapes fully inside small images.",
  ["src/draw.c","src/parse_hex_color.c","src/convert_to_binary.c"], [("Bresenham loop and octant symmetry","src/draw.c"),("per-pixel clipping","src/draw.c"),("hex parsing","src/parse_hex_color.c")], ["C API image bytes"])

p("C17", "Corner response and peak picking follow the Foerstner definition",
  "For every gray image and smoothing scale the corner response holds, per pixel, det/trace and 4*det/trace^2 of the box-smoothed structure tensor of the 3x3 Sobel gradients, each scaled so that its maximum over the image is 255 (all zero where nothing responds or the smoothing window leaves the image), within one level. Peak picking returns exactly interior local maxima of the first channel whose two values (as fractions of 255) exceed the two thresholds, in row order, such that any two are at least the minimum distance apart and every other such maximum is closer than that to another one at least as strong; no corner gives an empty list.",
  ["inputs"], "all gray images, sizes, scales, response images, distances and thresholds",
  "Tests run one image through each; index and bound errors on small or odd sizes are not reached.",
  ["src/foerstner_corner.c","src/corner_peaks.c"], [("structure tensor","src/foerstner_corner.c"),("non-maximum suppression","src/corner_peaks.c")], ["C API result bytes / point list"])

p("C18", "Homographies map the four corners exactly and warping samples them",
  "For every pair of quadrilaterals in general position the computed perspective matrix maps each source corner to its destination corner (relative error below 1e-6); for degenerate or non-finite corners it is the identity, and the caller may always free what it gets. Warping with a matrix sets each output pixel to the bilinear interpolation (within one level) of the source at the mapped position, and to transparent black when that position lies outside the source, without changing the matrix or the source; sorting the corners of a convex polygon returns a permutation of them in clockwise order (as seen on screen) starting at the smallest x+y.",
  ["inputs"], "all quadrilaterals, matrices, image sizes and point sets",
  "Tests use three fixed quadrilaterals and three matrices.",
  ["src/perspectivetransform.c","src/sort_corners.c"], [("8x8 solve with pivoting","src/perspectivetransform.c"),("inverse-mapped sampling","src/perspectivetransform.c"),("angular sort","src/sort_corners.c")], ["C API results"])

p("C19", "A clear document is found and rectified, whatever its size or pose",
  "For a bright convex quadrilateral page covering the image centre on a contrasting darker background (or dark on bright), corner detection returns its four corners in order top-left, top-right, bottom-right, bottom-left, each within 4 percent of the image size (for pages whose sides span at least half of the image, turned by up to 15 degrees), and document extraction returns an image of the requested size (or, automatically, of the longer opposite sides' lengths, at least 100 pixels) in which every page landmark appears at its rectified place. For every image whatsoever detection and extraction return (corners inside the image) without crashing or ending the process.",
  ["inputs"], "all page positions, sizes, orientations (moderate rotation and perspective), image sizes and contrasts within the stated family; all images for the no-crash part",
  "The data-set test only asserts that some JSON is printed; the unit tests do not run the pipeline on varied pages.",
  ["src/corner_detection.c","src/extract_document.c","src/sort_corners.c"], [("256x256 watershed pipeline","src/corner_detection.c"),("output size and warp","src/extract_document.c")], ["C API results"])

p("C20", "EXIF orientation is read correctly from any file and applied upright",
  "For every file, reading the orientation terminates and returns a value from 1 to 8: the value of the orientation tag in the first IFD of the file's Exif segment when it is there (either byte order, any number of preceding segments and entries), and 1 when the file is missing, not a JPEG, truncated, malformed or holds any other value. The command-line tool applies exactly that orientation to JPEG input before the first operation, so that all eight encodings of one scene come out as the same picture.",
  ["inputs"], "all JPEG segment layouts, byte orders, entry positions, truncation points and corrupted bytes; all eight orientations",
  "Tests read a handful of well-formed files.",
  ["src/exif.c","src/cli.c"], [("marker walk and IFD scan","src/exif.c"),("orientation switch","src/cli.c")], ["C API return value","CLI output image"])

p("C21", "A CLI pipeline is the exact composition of its operations, left to right",
  "For every pipeline of valid operations the command-line tool writes exactly the image obtained by applying the corresponding library functions, with the parameters as written, one after another to the decoded input, and exits 0. Shell splitting of the pipeline into arguments, surrounding parentheses, extra spaces or line breaks around commas and empty fragments between them make no difference, and the number of operations is not limited.",
  ["programs"], "all pipelines up to a bounded length over all operations, all ways of splitting and decorating them",
  "The CLI documentation tests run each operation once; combinations, long pipelines and equivalent spellings are not compared.",
  ["src/cli.c"], [("parse_pipeline","src/cli.c"),("execute_pipeline","src/cli.c"),("growing operation array","src/cli.c")], ["CLI exit status and output file"])

p("C22", "Every CLI parameter is taken as written or rejected; bad input writes nothing",
  "Every documented parameter form (percentages, pairs, absolute sizes, crop geometry with clamping, colours, positions, marker lists of any length, trim thresholds, quarter-turn angles of any sign) reaches its operation with exactly the values written. An unknown operation, a missing required parameter, a malformed or out-of-range one that the operation rejects, an unreadable input or a wrong number of arguments makes the tool exit non-zero with a message and leave the output path untouched.",
  ["inputs"], "all operations x parameter spellings from the documented grammar and its near misses",
  "The documentation tests use one spelling per operation and few error cases.",
  ["src/cli.c"], [("per-operation parameter parsing","src/cli.c: parse_pipeline"),("parameter checks","src/cli.c: apply_operation")], ["CLI exit status, stderr, output file"])

p("C23", "The CLI reports success only if the complete output file was written",
  "Whatever system call fails or is cut short while the tool reads its input or writes its output (open, read, write, close, full disk, failed allocation), it exits 0 only if the output path holds the complete, decodable image it would have written without the fault. Otherwise it exits non-zero without crashing, and the input file is never modified.",
  ["fault_sequences"], "every single fault at every I/O and allocation call of a run, and short writes, for PNG and JPEG output",
  "No test injects I/O faults.",
  ["src/cli.c","include/stb_image_write.h"], [("write_result check","src/cli.c: main")], ["CLI exit status and output file"])

p("C24", "The single-file amalgamation behaves exactly like the modular library",
  "The generated single-file library compiles on its own together with its generated header, declares every public function, and every function gives byte-identical results, failures and output sizes to the modular sources on all inputs.",
  ["configurations", "inputs"], "both build configurations, all operations and inputs of the bounded operation table",
  "The amalgamation test calls three functions once.",
  ["makefile","src/conversion.c","include/1_types.h"], [("concatenation of headers and sources with FLATCV_AMALGAMATION","makefile")], ["C API of both builds"])

p("C25", "The Haskell bindings return exactly what the C library computes",
  "For every image and parameter each Haskell wrapper passes its arguments in the right order, width and type and returns exactly the C function's result with the right dimensions; a failing C call (NULL) raises an error instead of yielding a vector. Inputs are never modified, results of earlier calls stay valid, and using a wrapper repeatedly in any order gives the same values.",
  ["inputs", "histories"], "all wrappers x bounded images x parameters",
  "The Haskell test-suite checks result lengths and a few values.",
  ["bindings/flatcv-hs/src/FlatCV.hs"], [("c2hs marshalling","bindings/flatcv-hs/src"),("ownership of returned pointers","bindings/flatcv-hs/src")], ["Haskell API"])

p("C26", "Images of any size: what holds for small images holds beyond 4 GB",
  "Every per-pixel, neighbourhood, geometric and counting operation of the library gives, at every pixel of an image of more than 2^30, 2^31 or 2^32 pixels (more than 4 GB), what it gives at a pixel of a small image with the same surroundings: nothing is left unset, computed from or written to a wrapped-around position, or counted modulo 2^32, no memory outside the images is touched, and the call ends. This includes circles, disks, corner peaks and histograms.",
  ["inputs"], "all operations x square, thin and one-pixel-wide images of 2^30 to 2^33 pixels (watershed and document detection excepted)",
  "A unit test with an image of several gigabytes does not exist; 32-bit index arithmetic is right for every image a test uses.",
  ["src/conversion.c","src/crop.c","src/draw.c","src/trim.c","src/flip.c","src/rotate.c","src/foerstner_corner.c","src/sobel_edge_detection.c","src/corner_peaks.c","src/histogram.c","src/binary_closing_disk.c","src/convert_to_binary.c","src/perspectivetransform.c","src/rgba_to_grayscale.c","src/single_to_multichannel.c"],
  [("index and length arithmetic in size_t","src/*.c"),("loop counters as wide as the number of pixels","src/conversion.c")],
  ["C API: pixels at the corners (for thick borders: in the middle) of huge results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
