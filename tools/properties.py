#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept readable here; run to regenerate)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in state]} if state else {}),
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


# ---------------------------------------------------------------- readers
prop("R01", "PNM files decode to exactly the picture they encode",
     "Every valid PBM, PGM or PPM file (ASCII or raw, any maximum value up to 255, or up to 65535 in ASCII files, any legal placement of white space and comments) is read as a bitmap with the file's width and height, one plane for PBM/PGM and three for PPM. Every sample equals the encoded sample scaled to 0..255 (within one unit of v*255/maxval), PBM 1-bits being black and 0-bits white. The format is chosen by the magic number, so the same bytes read through any of the four PNM suffixes give the same bitmap.",
     ["inputs"], "all valid P1..P6 files over size, maxval, sample values, header layout",
     "The suite reads a single 1-bit ASCII picture; no other variant, maxval, width not divisible by 8 or header layout is exercised.",
     ["src/input-pnm.c", "src/bitmap.c", "src/input.cpp"],
     [("token scanner", "input-pnm.c:pnmscanner_*"), ("raw and ASCII loaders", "input-pnm.c:pnm_load_*"), ("bitmap allocation", "bitmap.c:at_bitmap_init")],
     ["at_bitmap_read"])
prop("R02", "BMP files decode to exactly the picture they encode",
     "Every valid Windows or OS/2 BMP of 1, 4, 8, 16, 24 or 32 bits per pixel (bottom-up or top-down; uncompressed or run-length encoded; palette of any legal length; 5-5-5 or BITFIELDS masks; info headers of 12, 40, 56, 64, 108 or 124 bytes; pixel data at any legal offset) is read as a bitmap of the file's width and height whose every pixel has the encoded colour, in top-to-bottom row order. Samples narrower than 8 bits are expanded to the full 0..255 range within rounding. Pictures whose palette is entirely grey may come back as one plane, all others as three.",
     ["inputs"], "all valid BMP files over depth, header version, compression, row order, palette, masks, size, row padding",
     "The suite reads two 24-bit files and looks only at the exit status.",
     ["src/input-bmp.c"],
     [("header parsing", "input-bmp.c:ReadBMP"), ("palette", "input-bmp.c:ReadColorMap"), ("row unpacking", "input-bmp.c:ReadImage")],
     ["at_bitmap_read"])
prop("R03", "TGA files decode to exactly the picture they encode",
     "Every valid Truevision TGA file of a grey, colour-mapped or true-colour type with 8 bits per sample (raw or run-length encoded, with or without an alpha channel, any image-id length, any of the four origins, with or without a footer) is read as a bitmap of the file's width and height whose pixels have the encoded colours in top-left order, alpha values being ignored. Grey pictures have equal red, green and blue. Run-length and raw encodings of one picture give the same bitmap, whatever was read earlier in the process.",
     ["inputs", "histories"], "all valid TGA files over image type, origin, id field, packet structure",
     "No TGA file is read by any test.",
     ["src/input-tga.c"],
     [("packet decoder", "input-tga.c:rle_fread"), ("header and orientation handling", "input-tga.c:ReadImage")],
     ["at_bitmap_read"],
     [("run-length buffer", "decoder state that survives between calls", "input-tga.c:rle_fread statics")])
prop("R04", "PNG files decode to exactly the picture they encode",
     "Every valid PNG file (grey 1/2/4/8/16 bit, RGB 8/16 bit, palette 1/2/4/8 bit, with or without transparency, interlaced or not) is read as a bitmap of the file's width and height: one plane for grey, three otherwise. Every pixel equals the encoded colour, with samples below 8 bits expanded to 0..255 and 16-bit samples reduced to their high byte. Transparency is ignored, and metadata (text, physical size, gamma, background colour) does not alter the samples.",
     ["inputs"], "all valid PNG files over colour type, bit depth, interlacing, filters",
     "No PNG file is read by any test.",
     ["src/input-png.c"],
     [("libpng transforms", "input-png.c:read_png"), ("row copy", "input-png.c:input_png_reader")],
     ["at_bitmap_read"])
prop("R05", "GF font glyphs decode to exactly the glyph picture",
     "Reading a valid GF (METAFONT generic font) file with a selected character code yields that character's picture in one plane, painted pixels being 255 and all others 0, trimmed to the painted pixels; code 0 selects the lowest code present. Every legal way of encoding the same picture (paint lengths, skip and new-row commands, no-ops and specials between rows) gives the same bitmap. A character the font does not contain is reported as an error and yields an empty bitmap.",
     ["inputs"], "all valid GF files over glyph shapes, encodings, character sets",
     "No GF file is read by any test.",
     ["src/input-gf.c"],
     [("command interpreter", "input-gf.c:gf_get_char"), ("locator table", "input-gf.c:gf_open")],
     ["at_bitmap_read"])
prop("R06", "No input file can crash, hang or corrupt the reading process",
     "For every byte string given to any reader, reading returns to the caller within time proportional to the declared picture: either a bitmap whose dimensions and planes are consistent with its samples, or an empty bitmap, with failures delivered through the message callback. It never ends the process, never performs an invalid memory access, and leaves no file open and no memory allocated once the bitmap is freed.",
     ["inputs", "fault_sequences"], "all byte strings, in particular truncations and mutations of valid files, for each of the eight suffixes",
     "The suite reads three well formed files.",
     ["src/input-pnm.c", "src/input-bmp.c", "src/input-tga.c", "src/input-png.c", "src/input-gf.c", "src/bitmap.c"],
     [("length and range checks in each reader", "input-*.c"), ("error reporting", "exception.c")],
     ["at_bitmap_read"])
prop("R07", "Format lookup by name or suffix is consistent and case-insensitive",
     "A reader or writer is found for a file name exactly when the text after the last dot names a registered format, compared without regard to case, and lookup by suffix agrees with lookup by file name. Registering a handler makes it usable for that suffix, and registering a suffix that is already taken with the non-overriding call changes nothing. Names without a dot, empty names and unknown suffixes yield no handler.",
     ["inputs", "histories"], "all file names; all sequences of handler registrations",
     "Tests use five file names and never register a handler.",
     ["src/input.cpp", "src/output.cpp", "src/module.c"],
     [("registry maps", "input.cpp, output.cpp"), ("built-in registration", "module.c")],
     ["at_input_get_handler", "at_output_get_handler", "at_input_add_handler", "at_output_add_handler"])

# ---------------------------------------------------------------- tracing
prop("T01", "Painting the traced outlines in order reproduces the bitmap",
     "Outline tracing of any bitmap yields filled shapes which, painted in list order (shapes marked clockwise being holes that clear what they cover), give every pixel that lies clear of colour boundaries the colour it has in the bitmap. Clear means further away than the error threshold plus the line threshold plus one pixel (plus the smoothing, if any). Pixels of the background colour are left unpainted, and no region larger than the tolerance is lost or invented.",
     ["inputs", "configurations"], "all bitmaps of 1 or 3 planes, all fitting options within their documented ranges",
     "One golden SVG for one centre-line picture; the outline tests check only the exit status.",
     ["src/pxl-outline.c", "src/fit.c", "src/autotrace.c"],
     [("outline following and marking", "pxl-outline.c:find_outline_pixels"), ("curve fitting", "fit.c:fitted_splines")],
     ["at_splines_new"])
prop("T02", "Traced outlines are closed, connected, in bounds and correctly labelled",
     "Every shape list returned by outline tracing is non-empty, each curve starts where the previous one ends and the last ends where the first starts, all coordinates are finite and stay within the picture (plus the fitting tolerance), and curves are lines or cubics. Each list carries a colour that occurs in the bitmap and is not the ignored background colour, every colour and every connected region of it has an outer boundary, outer boundaries run counter-clockwise and are marked so, holes run clockwise and occur only when a background is given. The result reports the bitmap's width and height and the caller's background colour, line-mode and width settings.",
     ["inputs", "configurations"], "all bitmaps, all fitting options",
     "As for T01.",
     ["src/pxl-outline.c", "src/fit.c", "src/autotrace.c", "src/spline.c"],
     [("outline following", "pxl-outline.c:find_one_outline"), ("list concatenation", "fit.c, spline.c:append_spline"), ("result header", "autotrace.c:at_splines_new_full")],
     ["at_splines_new"])
prop("T03", "Fitted curves stay within the error threshold of the pixel boundary",
     "With smoothing off, every point of the fitted curves is within 0.6 pixels more than the error threshold plus twice the line threshold (but at least one pixel) of a pixel boundary between two colours, and every point of such a boundary is within half a pixel more than that of a fitted curve. With smoothing on, the allowed distances grow only in proportion to the number of smoothing passes. No part of a boundary is skipped and no curve strays, whatever the thresholds, corner settings and shapes.",
     ["inputs", "configurations"], "all bitmaps, all thresholds",
     "One golden file at one threshold.",
     ["src/fit.c", "src/vector.c", "src/curve.c", "src/spline.c"],
     [("least-squares fit and subdivision", "fit.c:fit_with_least_squares, find_error, find_subdivision"), ("line reversion", "fit.c:change_bad_lines, spline_linear_enough")],
     ["at_splines_new"])
prop("T04", "Centre-line strokes lie on the shape and cover it",
     "In centre-line mode every stroke point lies on (within tolerance of) a foreground pixel of its colour, every foreground component whose skeleton has two or more pixels is represented by at least one stroke, an unbranched line is covered over its whole length, and no stroke is produced for the background colour. With width preservation every stroke end point on a black-on-white picture carries the local thickness of the shape times the width factor, and without it none carries a width. Strokes are connected, and those marked closed end where they start.",
     ["inputs", "configurations"], "all bitmaps of stroke-like shapes, all backgrounds",
     "One golden SVG for one rectangle outline.",
     ["src/pxl-outline.c", "src/thin-image.c", "src/image-proc.c", "src/fit.c"],
     [("thinning", "thin-image.c"), ("centre-line following", "pxl-outline.c:find_centerline_pixels"), ("distance map", "image-proc.c:new_distance_map")],
     ["at_splines_new"])
prop("T05", "Thinning keeps the shape's topology",
     "The one-pixel-wide skeleton used in centre-line mode is a subset of the original shape, has the same number of connected components per colour, keeps every component non-empty, and encloses the same number of background holes as the shape. Background pixels are never turned into foreground, no solid three by three block is left inside the picture, thinning a skeleton again changes nothing, and the skeleton of a straight bar runs along its middle for nearly its whole length.",
     ["inputs"], "all bitmaps, grey and colour, any background",
     "One rectangle outline.",
     ["src/thin-image.c"],
     [("Zhang-Suen style deletion tables", "thin-image.c:thin1, thin3")],
     ["the caller's bitmap after at_splines_new in centre-line mode", "at_splines_new"],
     [("background", "colour treated as background while thinning", "thin-image.c: file statics")])
prop("T06", "Colour reduction honours the requested number of colours",
     "With a colour count N, at most N distinct colours (not counting the background) remain in the traced picture, all within the range of the picture's colours; pixels that share a colour before reduction still share one after it, and every colour is replaced by the nearest of those that remain. A picture that has no more than N colours, its background included, keeps every colour up to one unit per component, and two clearly separated groups of colours are never mixed when N is two or more. Pixels of the background colour keep exactly that colour.",
     ["inputs", "configurations"], "all bitmaps, all counts 1..256, with and without background",
     "No test sets a colour count.",
     ["src/median.c", "src/autotrace.c"],
     [("median-cut quantiser", "median.c:quantize"), ("call site", "autotrace.c:at_splines_new_full")],
     ["the caller's bitmap after at_splines_new", "at_splines_new"])
prop("T07", "Despeckling removes exactly small blobs and invents no colour",
     "Despeckling at any level and tightness never introduces a colour that was not in the picture, leaves every region at least as large as the level's size limit (two to the power of level minus one, levels being capped by the picture size) untouched, and recolours a blob only as a whole, only with a colour of an adjacent region and only if the colours are similar enough for the tightness and noise settings. Level 0 changes nothing, and at zero tightness with full noise removal no blob below the size limit survives. Grey pictures are treated alike in one and in three planes.",
     ["inputs", "configurations"], "all bitmaps, levels 0..20, tightness 0..8",
     "No test sets a despeckle level.",
     ["src/despeckle.c", "src/autotrace.c"],
     [("flood fill and recolouring", "despeckle.c"), ("call site", "autotrace.c:at_splines_new_full")],
     ["the caller's bitmap after at_splines_new", "at_splines_new"])
prop("T08", "Tracing commutes with picture symmetries that cannot matter",
     "A grey picture traces to the same geometry whether stored in one plane or as an equivalent three-plane picture; consistently renaming colours changes only the reported colours; and surrounding a picture with extra background margin only shifts the shapes by that margin. Setting options that are documented as irrelevant in a mode does not change the result.",
     ["inputs", "configurations"], "all bitmaps, all injective colour renamings, all margins, all options",
     "Relational; the suite compares single runs only.",
     ["src/autotrace.c", "src/pxl-outline.c", "src/fit.c", "src/bitmap.c"],
     [("colour-blind outline following", "pxl-outline.c"), ("plane handling", "bitmap.c:at_bitmap_get_color")],
     ["at_splines_new"])

prop("T09", "Shapes with long straight edges are traced exactly",
     "A shape bounded by horizontal and vertical edges that are long compared with the corner window is traced as exactly one straight line per edge, meeting in the shape's true corners, whatever the smoothing, tangent, error and line settings, as long as the corner thresholds make right angles (and nothing flatter) corners. Painting these lines in list order gives every single pixel its colour, with and without a background.",
     ["inputs", "configurations"], "all pictures of rectangular cells on a coarse grid, all colours and backgrounds, all fitting options with right angles as corners",
     "One rectangle in centre-line mode is compared.",
     ["src/fit.c", "src/pxl-outline.c", "src/curve.c", "src/spline.c"],
     [("corner finding", "fit.c:find_corners, remove_adjacent_corners"), ("line decision", "fit.c:spline_linear_enough"), ("outline start and marking", "pxl-outline.c:find_outline_pixels")],
     ["at_splines_new"])
prop("T10", "Curves join smoothly and smooth shapes stay smooth",
     "Where an outline or centre line is divided at a place that is not a corner, the two curves share one tangent line there, so no kink appears; with corners switched off this holds for every join of two curves, the closing one included. A filled oval or ring is traced, under ordinary settings, as a few curves per outline, with no straight piece, no kink and no stretch running in a direction much different from the oval's.",
     ["inputs", "configurations"], "all pictures and fitting options with corners switched off; all ovals and oval holes of some size, all positions and slants, ordinary options",
     "Two fixed pictures are compared with stored output; neither says what makes an output smooth.",
     ["src/fit.c", "src/vector.c", "src/curve.c", "src/spline.c"],
     [("tangents at division points", "fit.c:fit_with_least_squares, find_tangent, find_half_tangent"), ("least squares fit", "fit.c:fit_one_spline"), ("no corners on smooth outlines", "fit.c:find_corners")],
     ["at_splines_new"])
prop("T11", "The line thresholds decide what is a line and what a curve",
     "A piece is returned as a straight line only if the fitted curve was, on average, closer to its chord than the line threshold and than half the squared length of the chord, and a piece that close is returned as a curve only if it lies among curves and exceeds the line reversion threshold. Between two corners that enclose a curve, no line remains whose curve was further from its chord than the line reversion threshold.",
     ["inputs", "configurations"], "all pictures, outlines and centre lines with and without widths, all fitting options",
     "The stored outputs come from one setting of the thresholds.",
     ["src/fit.c", "src/spline.c"],
     [("line decision", "fit.c:spline_linear_enough"), ("reversion", "fit.c:change_bad_lines")],
     ["at_splines_new"])

prop("T12", "No option value makes tracing crash, hang or leak",
     "Whatever values the numeric tracing options have (zero, negative, tiny, huge, infinite or not a number, in any combination), tracing returns in time proportional to the picture and the number of smoothing passes, either with a result or with a failure delivered through the message callback. It leaves no memory behind and the options as they were. A result consists of joined curves with finite coordinates whose end points lie within the picture (unless the weight of the widths itself is beyond all reason).",
     ["inputs", "configurations"], "all pictures, all values of every numeric option, outline and centre-line mode",
     "Tests trace with ordinary settings.",
     ["src/autotrace.c", "src/fit.c", "src/median.c", "src/despeckle.c", "src/thin-image.c", "src/image-proc.c"],
     [("windows around corners and tangents", "fit.c:split_at_corners, find_corners, find_tangent"), ("number of colours", "median.c:quantize"), ("sizes of specks", "despeckle.c:despeckle")],
     ["at_splines_new"])

# ---------------------------------------------------------------- library contracts
prop("S01", "Same input and options always give the same result",
     "Reading, tracing and writing are functions of the input bytes and the options alone: repeating the operation, running any other operations before it in the same process, installing or omitting callbacks, and different contents of uninitialised memory never change the resulting curves or (apart from an embedded date) the bytes written.",
     ["inputs", "histories", "configurations"], "all inputs, all earlier operation sequences in the process, all writers",
     "Each test runs one operation in a fresh process.",
     ["src/autotrace.c", "src/thin-image.c", "src/output-fig.c", "src/output-ild.c", "src/output-ugs.c", "src/input-tga.c", "src/despeckle.c", "src/median.c"],
     [("absence of state carried between calls", "static variables in the listed files")],
     ["at_bitmap_read", "at_splines_new", "at_splines_write"],
     [("module statics", "writer and reader globals that must not leak between calls", "listed files")])
prop("S02", "Progress and cancellation callbacks keep their contract",
     "While tracing, the progress callback receives fractions that stay within 0..1, never decrease and end with 1.0 on completion. When the cancel callback starts to answer true, tracing stops and returns no result, holding on to no memory; as long as it answers false, or is absent, the result is unaffected.",
     ["inputs", "fault_sequences", "schedules"], "all bitmaps and modes, all points at which cancellation becomes true",
     "Tests never cancel and never look at progress values.",
     ["src/autotrace.c", "src/pxl-outline.c", "src/fit.c"],
     [("cancel points", "autotrace.c:CANCEL_THEN_*, pxl-outline.c, fit.c"), ("progress reporting", "pxl-outline.c, fit.c, autotrace.c")],
     ["at_splines_new_full"])
prop("S03", "Objects handed to and obtained from the library are owned as documented",
     "Fresh option objects hold the documented default values; a copy equals its original and shares no storage with it; tracing and writing do not modify the options or, for writing, the curves they are given. Releasing results, options and bitmaps after any sequence of operations leaves no allocation behind and never frees anything twice.",
     ["histories", "inputs"], "all sequences of create, copy, modify, trace, write and free operations",
     "Only the wrapper's defaults are unit-tested, for one object at a time.",
     ["src/autotrace.c", "src/fit.c", "src/bitmap.c", "src/color.c", "src/spline.c", "src/output.cpp", "src/input.cpp", "src/exception.c"],
     [("constructors, copies and destructors", "autotrace.c, fit.c, bitmap.c, color.c")],
     ["at_fitting_opts_*", "at_input_opts_*", "at_output_opts_*", "at_bitmap_*", "at_splines_free"])

# ---------------------------------------------------------------- writers
prop("W01", "Path formats describe exactly the traced curves and colours",
     "Reading back an SVG, Sketch, EPS/AI, EPD, P2E, PDF, POV or ER file yields the traced curves: the same lists in the same order with the same lines and cubics, coordinates equal to the traced ones (in the format's own orientation and units) up to its printed precision, and the traced colour of every list where the format has colours (all but ER). Filled shapes are filled and closed (a hole following a shape of its colour being cut out of it, except in Sketch and POV), strokes are stroked, and the picture size stated in the file (by all but Sketch and POV) is the traced one.",
     ["inputs", "configurations"], "all curve sets produced by tracing or built by hand, outline and centre-line, all eight formats",
     "One golden SVG of one picture.",
     ["src/output-svg.c", "src/output-sk.c", "src/output-eps.c", "src/output-epd.c", "src/output-p2e.c", "src/output-pdf.c", "src/output-pov.c", "src/output-er.c"],
     [("per-format writers", "listed files")],
     ["at_splines_write"])
prop("W02", "Quantising formats describe the traced curves within their resolution",
     "Reading back a FIG, MIF, DXF, HPGL, UGS, EMF, CGM, DR2D or ILDA file yields every traced list in order, with its colour as far as the format records colours, and with every vertex (and every flattened curve) within the format's coordinate resolution of the traced curve. No list is dropped, duplicated or attributed to another list's colour.",
     ["inputs", "configurations"], "all curve sets produced by tracing or built by hand, outline and centre-line, all nine formats",
     "No test writes any of these formats.",
     ["src/output-fig.c", "src/output-mif.c", "src/output-dxf.c", "src/output-plt.c", "src/output-ugs.c", "src/output-emf.c", "src/output-cgm.c", "src/output-dr2d.c", "src/output-ild.c"],
     [("per-format writers", "listed files")],
     ["at_splines_write"])
prop("W03", "Written files are internally consistent containers",
     "Whatever the curves, every length, count, offset, index and bounding box a written file states about itself agrees with its contents: PDF object offsets and stream length, EMF record sizes, record and handle counts and file size, CGM element lengths, DR2D chunk sizes, ILDA point counts, DXF section structure, FIG colour and point counts, EPS bounding box, POV spline counts. Every file is complete and parseable by a strict reader of its format.",
     ["inputs", "configurations"], "all curve sets, including empty and very large ones",
     "No test opens these files.",
     ["src/output-pdf.c", "src/output-emf.c", "src/output-cgm.c", "src/output-dr2d.c", "src/output-ild.c", "src/output-dxf.c", "src/output-fig.c", "src/output-eps.c", "src/output-pov.c", "src/output-plt.c"],
     [("size bookkeeping", "listed files")],
     ["at_splines_write"])
prop("W04", "Written numbers do not depend on the process locale",
     "For every writer, the bytes written are the same under any process locale of the calling program as under the C locale, and the calling program finds its locale unchanged afterwards. Reading, tracing and the numeric options of the command line tool likewise do not depend on the locale.",
     ["inputs", "configurations"], "all writers, all curve sets, locales with other decimal separators",
     "Tests run in the C locale only.",
     ["src/output.cpp", "src/autotrace.c"],
     [("locale switch around writing", "autotrace.c:at_splines_write")],
     ["at_splines_write"])

prop("W05", "A font character keeps its code, place and metrics on the way to UGS",
     "For every valid GF font and every character in it, reading the character, tracing it with any options and writing it as UGS states the code, the design size in pixels (from the vertical resolution) and the advance width of that character, rounded to whole pixels, whatever other characters were read before. The outlines lie at the character's place relative to the origin, which may be negative, and equal the traced curves up to rounding. The stated bearings, ascent and descent are the tight box of the character's pixels and the written points.",
     ["inputs", "histories"], "all GF fonts, characters, placements, resolutions and advances; all earlier reads",
     "No test reads a GF font or writes a UGS file with metrics.",
     ["src/input-gf.c", "src/output-ugs.c"],
     [("character box and advance", "input-gf.c:gf_get_char"), ("metrics and placement", "output-ugs.c:output_ugs_writer")],
     ["at_bitmap_read", "at_splines_write"])

# ---------------------------------------------------------------- front ends
prop("C01", "The command line tool computes what the library computes",
     "For every combination of documented options and supported input and output formats, the file (or standard output) produced by the command line tool equals what reading, tracing and writing through the library with the corresponding option values produces. Options may be abbreviated, given with one or two dashes and with '=' or a separate argument without changing the result, and options not given take their documented defaults.",
     ["inputs", "configurations"], "all option combinations, all spellings, all format pairs",
     "Five fixed command lines.",
     ["src/main.c", "src/cmdline.h", "src/atou.c", "src/fit.c"],
     [("option table", "main.c:read_command_line")],
     ["the autotrace executable", "at_bitmap_read", "at_splines_new_full", "at_splines_write"])
prop("C02", "Bad command lines and files fail cleanly",
     "For every unusable command line (unknown, ambiguous or incomplete options, negative counts, bad colours, missing or unreadable input, unknown formats, output that is the input or cannot be written completely) the tool ends by itself with a non-zero status and a message on standard error, not by a signal, and does not modify its input file nor, if the input cannot be used, an existing output file. Informational options print their text and succeed.",
     ["inputs", "fault_sequences"], "all malformed option lists, names and files",
     "No test expects a failure.",
     ["src/main.c", "src/filename.c", "src/atou.c", "src/input.cpp", "src/output.cpp"],
     [("argument checks", "main.c:main, read_command_line")],
     ["the autotrace executable"])
prop("C03", "Colour strings are parsed exactly and anything else is refused",
     "A six-digit hexadecimal colour string in upper, lower or mixed case yields exactly those red, green and blue values; every other string is refused and yields no colour. Colour equality compares all three components, and luminance is the documented weighting of them.",
     ["inputs"], "all strings",
     "No test parses a colour.",
     ["src/color.c"],
     [("hex parser", "color.c:at_color_parse")],
     ["at_color_parse", "at_color_equal", "command line -background-color"])
prop("P01", "Wrapper options survive a JSON round trip",
     "For every value of the C++ wrapper's fitting, input and output options, writing them to JSON and reading them back yields the same options; JSON text with any subset of keys sets exactly those options and leaves the rest at their defaults; a value of the wrong type or a colour with a component outside 0 to 255 leaves its option at the default, and anything but a JSON object is refused. Copying or assigning option objects yields independent, equal objects.",
     ["inputs", "histories"], "all option values, all JSON objects, all copy/assign/modify sequences",
     "Nine unit tests with one value per option.",
     ["src/wrapper/FittingOptions.cpp", "src/wrapper/InputOptions.cpp", "src/wrapper/OutputOptions.cpp", "src/wrapper/Json"],
     [("JSON helpers", "src/wrapper/Json"), ("builders", "src/wrapper/*Builder.cpp")],
     ["the wrapper classes"])
prop("P02", "The C++ wrapper produces what the C library produces",
     "For every input file, option set and output name, the wrapper writes exactly the bytes the C library writes for the same file and options, and reports failure when the input cannot be read, a format is unknown or the output cannot be written, leaving an existing output file alone if the input is unusable.",
     ["inputs", "configurations"], "all pictures, options and format pairs",
     "The wrapper's drawing path has no test.",
     ["src/wrapper/autotrace.cpp", "src/wrapper/Options.cpp"],
     [("pipeline", "src/wrapper")],
     ["the wrapper classes", "at_splines_write"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
