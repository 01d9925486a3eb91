#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Outlines are exactly the colour boundaries of the bitmap",
  "For every bitmap and optional background colour, outline extraction yields closed loops of unit steps along pixel sides, where each step separates a pixel of the loop's colour (always on the same hand) from a different colour or the image edge, and no side is walked twice. Every outer boundary of every connected non-background region is walked by a counterclockwise loop of that region's colour, a clockwise loop is produced for each hole whose first pixel in reading order is background, and no other loops exist. The loops come in reading order of their first side.",
  ["inputs", "configurations"], "every bitmap (grey or RGB, any size and colouring) with and without a background colour",
  "The suite traces one fixed rectangle and two fixed photos; corner cases such as regions touching diagonally, holes, checkerboards and regions on the image border never occur and loops are never inspected.",
  ["src/pxl-outline.c", "src/pxl-outline.h", "src/bitmap.h"],
  [("edge walk with per-side marks", "src/pxl-outline.c find_one_outline/next_point"),
   ("scan for unmarked top/bottom sides", "src/pxl-outline.c find_outline_pixels")],
  ["list of pixel outlines returned by outline extraction"],
  state=[("marked", "sides already walked", "src/pxl-outline.c"), ("row/col/edge", "current side", "src/pxl-outline.c")])

p("C02", "Painting the traced shapes reproduces the bitmap",
  "Filling the extracted loops in the order given (clockwise loops with the background colour) reproduces the exact colour of every non-background pixel, and the whole bitmap when no background colour is given or every hole is purely background. After curve fitting the same painting still shows the original colour at every pixel farther than a small margin from any colour boundary: 2 pixels with smoothing off and an error threshold up to 1, 6 pixels with the default settings.",
  ["inputs", "configurations"], "every bitmap, background setting and fitting tolerance",
  "No test renders a result; the only output comparison is one byte-for-byte SVG of a rectangle's centre line.",
  ["src/pxl-outline.c", "src/fit.c", "src/autotrace.c", "src/spline.c"],
  [("outer loops before the loops they enclose, holes painted as background", "src/pxl-outline.c find_outline_pixels"),
   ("per-outline fitting keeps order and colour", "src/fit.c fitted_splines")],
  ["pixel outlines", "splines returned by the tracing call"])

p("C03", "Thinning reduces every region to a skeleton without changing its topology",
  "Thinning only ever turns foreground pixels into background, and each 8-connected foreground region of one colour keeps exactly one connected remainder of the same colour. Boundary pixels that are neither line ends nor needed for connectivity are removed in passes from the north, south, west and east, until none is left, so thinning a thinned bitmap changes nothing. The result depends only on the bitmap and the background colour.",
  ["inputs", "configurations"], "every bitmap, one or three colour planes, any background colour",
  "Tests only check that centre-line tracing of three fixed pictures exits with success.",
  ["src/thin-image.c", "src/thin-image.h"],
  [("four directional passes with a 512-entry neighbourhood table", "src/thin-image.c thin1/thin3"),
   ("one pass sequence per foreground colour", "src/thin-image.c thin_image")],
  ["bitmap contents after thinning"],
  state=[("todelete", "neighbourhoods whose centre may go", "src/thin-image.c")])

p("C04", "Centre lines are connected walks over the skeleton",
  "Centre-line extraction produces lines of at least two pixels in which consecutive pixels touch (8-neighbours), all have the line's colour, none is background, and no two lines use the same link between two pixels. Lines start at pixels in reading order; the walk prefers to go straight on, then to turn by the smallest angle, left before right, and no pixel with a neighbour of its colour is lost. A line is marked closed only if its last pixel touches its first one.",
  ["inputs", "configurations"], "every (thinned or unthinned) bitmap and background colour",
  "Only one rectangle's centre line is compared; junctions, loops, image borders and several colours are never inspected.",
  ["src/pxl-outline.c"],
  [("direction-preferring walk with per-direction marks", "src/pxl-outline.c find_one_centerline/next_unmarked_pixel"),
   ("second half joined at the starting pixel", "src/pxl-outline.c concat_pixel_outline")],
  ["list of pixel outlines returned by centre-line extraction"])

p("C05", "Every traced outline becomes one unbroken chain of splines",
  "The tracing result has exactly one spline list per extracted outline, in the same order, carrying that outline's colour, direction and open/closed flag, plus the bitmap's size, the mode and the background colour. Inside a list every spline starts exactly where the previous one ends, a closed outline's chain returns exactly to its start, every coordinate is finite, and every spline is a line or a cubic.",
  ["inputs", "configurations"], "every bitmap and every combination of fitting options",
  "Tests look at exit codes only; structure of the spline data is never examined.",
  ["src/fit.c", "src/autotrace.c", "src/spline.h", "src/curve.c"],
  [("curve lists linked cyclically", "src/fit.c split_at_corners"), ("subdivision shares the split point", "src/fit.c fit_with_least_squares")],
  ["splines returned by the tracing call"])

p("C06", "Fitted splines stay within the requested error of the outline",
  "With smoothing and line substitution off, every point of an outline lies within the error threshold (at least one pixel) plus one pixel of its fitted chain, and the chain never strays farther than that from the outline. Right-angled corners between straight sides of at least seven pixels are kept exactly and the sides stay straight, so rectilinear shapes are reproduced exactly.",
  ["inputs", "configurations"], "every outline and every setting of the error, line, corner and tangent options",
  "No test measures distances between input and output; only two option settings are ever run.",
  ["src/fit.c", "src/spline.c", "src/vector.c"],
  [("least-squares fit, reparameterisation and subdivision at the worst point", "src/fit.c fit_with_least_squares/find_error"),
   ("corner search", "src/fit.c find_corners")],
  ["splines returned by the tracing call"])

p("C07", "Despeckling only merges small specks into a touching colour",
  "Despeckling never changes the bitmap's size and never introduces a colour that was not there: in one pass per level, with the speck size doubling each time, every region smaller than that size is merged into the touching region of the most similar colour if it is within the limit set by tightness and noise removal. Regions at least as large as the biggest speck size are left alone, and with the limits fully open no smaller region remains. The result is a function of the bitmap and the settings only.",
  ["inputs", "configurations"], "every bitmap, level, tightness and noise-removal setting",
  "Despeckling is never switched on by any test.",
  ["src/despeckle.c", "src/despeckle.h", "src/autotrace.c"],
  [("flood fill, most similar neighbour, recolour", "src/despeckle.c"), ],
  ["bitmap contents after despeckling"])

p("C08", "Colour reduction never exceeds the requested number of colours",
  "Reducing an image to N colours (up to 256) leaves at most N distinct colours, not counting the background colour when one is given, keeps the size, maps equal input colours to equal output colours and leaves background pixels exactly background. Every pixel gets the palette colour nearest to it, and every palette colour is the mean of the pixels of one box of a repeated halving of the widest box of used colours. An image that already has no more than N well separated colours keeps its partition into colour regions.",
  ["inputs", "configurations"], "every bitmap, colour count 1..256 and background colour",
  "Colour reduction is never switched on by any test.",
  ["src/median.c", "src/quantize.h", "src/autotrace.c"],
  [("median cut histogram", "src/median.c"), ("inverse colour map", "src/median.c")],
  ["bitmap contents after quantisation"])

p("C09", "Progress is monotone and cancellation stops with nothing leaked",
  "During tracing the reported progress never decreases, stays between 0 and 1 and ends at exactly 1 for a completed trace and only then, and the cancel test is asked at least once per traced outline. If the cancel test answers yes at any call, the trace stops, returns no result, and everything allocated for it is released; if it never answers yes the result is the same as without callbacks.",
  ["inputs", "schedules", "fault_sequences"], "every bitmap and mode, and cancellation at every one of the points where the cancel test is asked",
  "No test installs a progress or a cancel callback.",
  ["src/autotrace.c", "src/pxl-outline.c", "src/fit.c"],
  [("cleanup labels", "src/autotrace.c at_splines_new_full"), ("progress fractions per stage", "src/pxl-outline.c, src/fit.c")],
  ["sequence of callback invocations, returned value, outstanding allocations"])

p("C10", "Results do not depend on what the process did before",
  "Reading, tracing and writing are pure functions of their arguments: the same file gives the same bitmap, the same bitmap and options give the same splines, and the same splines give byte-identical output (creation dates and the glyph measurements in UGS files aside), whatever was read, traced or written earlier in the process and whatever memory happens to contain. Inputs other than the traced bitmap are never modified.",
  ["histories", "inputs"], "every sequence of read/trace/write calls in one process, over all formats and modes",
  "Each test runs one conversion in a fresh process.",
  ["src/output-fig.c", "src/output-ild.c", "src/output-emf.c", "src/input-tga.c", "src/thin-image.c", "src/output-ugs.c", "src/fit.c"],
  [("static state re-initialised per call", "src/output-fig.c fig_col_init, src/thin-image.c background, src/output-ild.c drawframe")],
  ["return values and bytes written across call sequences"])

p("C11", "PNM files decode to the pixels they describe",
  "Every well-formed PBM, PGM and PPM file up to 65535 pixels wide and high, plain (maximum value up to 65535) or raw (up to 255), with any legal white space and comments, decodes to a bitmap of the stated size whose every sample is the file's sample times 255 over the maximum value, rounded down. Bitmaps decode to black on white; bit and grey maps give one plane, pixmaps three.",
  ["inputs"], "all six PNM variants, all sizes, contents, maximum values, comments and white-space layouts",
  "One plain PBM file is read by the suite.",
  ["src/input-pnm.c"], [("tokeniser and per-variant loaders", "src/input-pnm.c")], ["bitmap returned by reading"])

p("C12", "BMP files decode to the pixels they describe",
  "Every well-formed BMP file of 1, 2, 4, 8, 16, 24 or 32 bits per pixel with an OS/2 or Windows header of any version, a palette of any length, row padding, 4 or 8 bit run-length coding, channel masks, a gap before the pixels, stored bottom up or top down, decodes to a bitmap of the stated size with the file's colours in the right places. Channels narrower than 8 bits are scaled to 0..255 and rounded to the nearest value, alpha is ignored, and pixels a run-length code leaves out have the first palette colour.",
  ["inputs"], "all depths, header versions, palettes, compressions and row lengths",
  "Two fixed BMP files are read and only the exit code is looked at.",
  ["src/input-bmp.c"], [("header parsing, row decoding, palette lookup", "src/input-bmp.c ReadImage/ReadColorMap")], ["bitmap returned by reading"])

p("C13", "TGA files decode to the pixels they describe",
  "Every well-formed TGA file (24 or 32 bit colour, 8 bit grey or 16 bit grey with alpha, 8 bit indices into a 24 or 32 bit palette starting at any index; raw or run-length coded with packets crossing rows; any of the four origins; with or without an image id, extension or footer) decodes to a three-plane bitmap of the stated size with the file's colours in the right places, alpha ignored.",
  ["inputs"], "all image types, depths, origins, run-length packetisations",
  "No TGA file is read by any test.",
  ["src/input-tga.c"], [("run-length decoder, origin flips, palette lookup", "src/input-tga.c")], ["bitmap returned by reading"])

p("C14", "PNG files decode to the pixels they describe",
  "Every well-formed PNG file of any colour type, bit depth, interlacing and row filter decodes to a bitmap of the stated size whose samples are the file's samples brought to 8 bits (wider ones cut, narrower ones scaled), with palettes expanded and transparency ignored. Grey files give one plane, all others three.",
  ["inputs"], "all colour types, depths, interlacing, filters, transparency chunks",
  "No PNG file is read by any test.",
  ["src/input-png.c"], [("libpng transformations", "src/input-png.c load_image")], ["bitmap returned by reading"])

p("C15", "Font glyphs decode to the pixels the bitmap-font program paints",
  "For every well-formed GF bitmap font and every character code in it, reading yields exactly the pixels the character's paint, skip, new-row and special commands describe, cropped to the ink, with white ink on black; code 0 means the first character present. Asking for an absent code is reported as a failure, and the options of the caller are not changed.",
  ["inputs"], "all GF paint programs, locator tables and character codes",
  "No GF file is read by any test.",
  ["src/input-gf.c"], [("paint/skip/new-row interpreter", "src/input-gf.c gf_get_char"), ("character locator", "src/input-gf.c gf_open")], ["bitmap returned by reading"])

p("C16", "Bad image files are reported, never trusted",
  "Whatever bytes an input file holds - truncated, corrupted, mislabelled, empty or missing - reading it ends with either a bitmap of positive size every byte of which is determined by the file, or a reported failure; a file that ends before its image is complete is never accepted without a message. As long as memory suffices for the size the file states, the process never crashes, exits, hangs, or reads or writes outside its buffers.",
  ["inputs", "fault_sequences"], "every byte string offered to every reader, in particular every prefix and every single-field corruption of valid files",
  "Only three valid files are ever read.",
  ["src/input-pnm.c", "src/input-bmp.c", "src/input-tga.c", "src/input-png.c", "src/input-gf.c", "src/autotrace.c"],
  [("header validation and fatal reporting", "src/input-*.c")], ["message callback, returned bitmap, process status"])

p("C17", "Text vector formats draw exactly the traced shapes",
  "For every tracing result, each text output (SVG, EPS, AI, P2E, PDF, EPD, Sketch, FIG, MIF, ER, POV, UGS, DXF) contains, in order, one path per spline list with that list's colour and fill or stroke mode as far as the format can express them, whose points are the list's start, control and end points in the format's coordinate system to the printed precision, and nothing else.",
  ["inputs", "configurations"], "every spline array (lines and cubics, open and closed, any colours and sizes) and every text writer",
  "Only the SVG of one centre-line rectangle is compared.",
  ["src/output-svg.c", "src/output-eps.c", "src/output-p2e.c", "src/output-pdf.c", "src/output-epd.c", "src/output-sk.c", "src/output-fig.c", "src/output-mif.c", "src/output-er.c", "src/output-pov.c", "src/output-ugs.c", "src/output-dxf.c"],
  [("per-format spline emission", "src/output-*.c out_splines")], ["bytes written"])

p("C18", "Binary vector formats draw exactly the traced shapes",
  "For every tracing result, each binary or plotter output (EMF, CGM, DR2D, HPGL, ILDA) decodes to the same sequence of shapes - colour, fill or stroke mode, start, control and end points - as the spline lists, within the format's coordinate resolution.",
  ["inputs", "configurations"], "every spline array and every binary writer",
  "No binary output is ever decoded by a test.",
  ["src/output-emf.c", "src/output-cgm.c", "src/output-dr2d.c", "src/output-plt.c", "src/output-ild.c"],
  [("record emission", "src/output-emf.c OutputEmf, src/output-cgm.c, src/output-dr2d.c GeneratexPLY, src/output-plt.c, src/output-ild.c")], ["bytes written"])

p("C19", "Every length, count, offset and size written in a file is true",
  "In every output file, each recorded byte length, offset, record or point count, bounding box, page or image size and handle count agrees with the actual contents, and the file is structurally complete (all groups closed, trailer present) even when nothing was traced.",
  ["inputs", "configurations"], "every spline array including the empty one, every writer, every document name and resolution",
  "Nothing in the suite parses an output file.",
  ["src/output-pdf.c", "src/output-emf.c", "src/output-dr2d.c", "src/output-ild.c", "src/output-cgm.c", "src/output-fig.c", "src/output-pov.c", "src/output-eps.c", "src/output-svg.c"],
  [("two-pass length computation", "src/output-pdf.c out_splines, src/output-emf.c GetEmfStats")], ["bytes written"])

p("C20", "Formats are chosen by suffix alone, consistently everywhere",
  "A reader or writer is found exactly when the text after the last dot (or the given suffix) equals a registered suffix ignoring letter case; the match never depends on the directory part, on registration order or on earlier lookups, adding a suffix that exists changes nothing, and every listed format is found under its name.",
  ["inputs", "histories"], "every file name and every sequence of registrations and lookups",
  "Tests look up svg, pbm and bmp only.",
  ["src/input.cpp", "src/output.cpp", "src/module.c", "src/filename.c", "src/autotrace.c"],
  [("suffix map", "src/input.cpp, src/output.cpp")], ["handlers returned, format lists"])

p("C21", "Options keep their values through every way of passing them",
  "Option objects start with the documented defaults; copying gives an equal and independent object, freeing one never affects another; builders set exactly the named option; and writing options to JSON and reading them back gives the same options, with invalid values rejected instead of altered.",
  ["inputs", "histories"], "every sequence of create, set, copy, assign, serialise, parse and destroy operations on option objects",
  "Tests build one object per option and compare defaults; copies, independence and out-of-range values are not exercised.",
  ["src/autotrace.c", "src/fit.c", "src/wrapper"],
  [("deep copy of the background colour", "src/autotrace.c at_fitting_opts_copy, src/wrapper"), ("JSON range checks", "src/wrapper JsonHelper")], ["option values, outstanding allocations"])

p("C22", "The command line does exactly what its options say",
  "Running the program on an input file with any combination of options writes exactly the bytes the library produces for the same options, exits 0 exactly when an output was produced, and otherwise exits non-zero with a message; unknown options, missing files, unsupported formats, malformed colours, negative counts and an output named like the input are refused without damaging existing files.",
  ["inputs", "configurations"], "every command line: option subsets, values, orders, abbreviations and file names",
  "Six fixed command lines are run.",
  ["src/main.c", "src/atou.c", "src/filename.c"],
  [("option table", "src/main.c read_command_line")], ["exit status, standard error, output file"])

p("C23", "Failures are reported once and leave nothing behind",
  "A call that fails reports exactly one fatal message and returns no result (of a truncated image what was there may be returned), a call that succeeds reports none, and after freeing what was returned no allocation made by reading, tracing or writing is outstanding - for every order of create, copy and free calls.",
  ["histories", "fault_sequences", "inputs"], "every sequence of API calls, successful or failing",
  "No test frees and counts, and no failing call is ever made.",
  ["src/exception.c", "src/autotrace.c", "src/spline.c", "src/median.c", "src/fit.c"],
  [("exception state", "src/exception.c"), ("free functions", "src/autotrace.c, src/spline.c")], ["message callback, returned values, outstanding allocations"])

p("C24", "Preserved stroke width is the distance to the background",
  "With width preservation, the weight at every spline end is the width weight factor times the distance to the nearest white pixel of the bitmap before thinning, the largest among the end's pixel and its eight neighbours. Steps of the distance cost in proportion to the darkness of the pixel, diagonal ones the square root of two, the image edge counts as white, and white pixels have distance zero.",
  ["inputs", "configurations"], "every bitmap and width weight factor",
  "Width preservation is never switched on by any test.",
  ["src/image-proc.c", "src/fit.c", "src/autotrace.c", "src/output-er.c"],
  [("two-pass distance map", "src/image-proc.c new_distance_map")], ["distance map, z values of splines"])

p("C25", "The object wrapper and the C interface give the same result",
  "Converting a file through the C++ objects produces byte-identical output to the C interface with the same options, for every input format, output format and option setting, and fails with a message exactly when the C interface does or the output cannot be written. A failing lookup, read or trace leaves the output file as it was.",
  ["inputs", "configurations", "histories"], "every option set, format pair and sequence of conversions through one wrapper object",
  "The wrapper tests never run a conversion.",
  ["src/wrapper"], [("option translation", "src/wrapper"), ("produceOutput", "src/wrapper/Autotrace.cpp")], ["bytes written, exceptions thrown"])

p("C26", "Curves begin and end at the corners the options describe",
  "When no fit is refused for its error, an outline is split exactly at its corners: going along it, a point whose angle (between the sums of the given number of points before and after it) is at most the corner threshold opens a search that ends once that many points follow without a sharper one and yields the sharpest point with its equals, besides every point searched at or below the always threshold. An open line also splits at its beginning and is not searched near its ends, the last corner is dropped when it directly follows another one round the outline, on request so is the second of any two neighbours, and smoothing never moves a corner. Curves left with fewer than four points become straight lines, longer ones exactly when on average they deviate from their chord by less than the line threshold and half the square of the chord.",
  ["inputs", "configurations"], "every outline, open or closed, and every corner, smoothing and line option",
  "No test looks at where curves begin; the corner search depends on every alignment of the outline with its thresholds.",
  ["src/fit.c", "src/vector.c", "src/curve.c"],
  [("corner search", "src/fit.c find_corners, remove_adjacent_corners, split_at_corners"), ("straightening", "src/fit.c spline_linear_enough, fit_with_line")], ["start and end points and degrees of the splines"])

p("C27", "A trace prepares its bitmap in one fixed order and does nothing else to it",
  "For every bitmap and all options, a trace first removes specks if a despeckle level is given, then reduces the colours if a colour count is given, then thins the shapes if centre lines are wanted, each stage working on what the one before left and a stage not asked for leaving the bitmap alone; after the trace the caller's bitmap is exactly the prepared one. Tracing a bitmap that already went through some stages, with those switched off, gives the same result as doing it all in one call. Options that no requested stage uses (the character code, knee removal, and the despeckling tightness and noise removal when no level is given) do not change the result.",
  ["inputs", "configurations"], "every bitmap of one or three planes and every combination of preparing options, backgrounds and centre-line options",
  "Tests run single options on whole pictures; whether stages are skipped, repeated or swapped shows only for combinations of options and pictures on which the order matters.",
  ["src/autotrace.c", "src/despeckle.c", "src/median.c", "src/thin-image.c"],
  [("order of the stages", "src/autotrace.c at_splines_new_full"), ("stages", "src/despeckle.c despeckle, src/median.c quantize, src/thin-image.c thin_image")], ["the caller's bitmap after the trace", "splines of the trace"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
