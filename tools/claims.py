claim("R01", "generated PNM files against an independent encoder's picture", "Generated valid P1..P6 files up to a few thousand pixels wide are decoded exactly.")
claim("R02", "generated BMP files against an independent encoder's picture", "Generated valid BMP files of every depth, header, compression and row order are decoded exactly.")
claim("R03", "generated TGA files, read in sequences, against an independent encoder's picture", "Generated valid TGA files of every supported type are decoded exactly, whatever was read before.")
claim("R04", "generated PNG files (written by libpng) against the encoded picture", "Generated valid PNG files of every colour type and depth are decoded exactly; libpng's writer is trusted.")
claim("R05", "generated GF fonts against an independent encoder's glyphs", "Generated GF fonts decode to the encoded glyphs.")
claim("R06", "mutation fuzzing of generated files under AddressSanitizer with leak and descriptor accounting", "Damaged and random files never crash, hang, leak or return inconsistent bitmaps; files declaring over 2M pixels are not read.")
claim("R07", "random registration and lookup sequences against a model", "Lookups by name and suffix follow the model of registered formats.")
claim("T01", "generated pictures, traced outlines rasterised in list order and compared with the bitmap", "Away from colour boundaries the painted outlines give the bitmap back, for pictures up to 90x90; one known finding is excluded and counted.")
claim("T02", "generated pictures and options, structural oracle over the returned lists", "Lists are closed, connected, finite, in bounds, correctly coloured and oriented, one outer boundary per region.")
claim("T03", "generated pictures and thresholds, two-way distance between pixel boundaries and curves", "Two-way distance between boundaries and fitted curves stays within the stated bounds, tight with smoothing off and loose with it, for error thresholds up to 2 and line thresholds up to 1.")
claim("T04", "generated stroke pictures, distance and width oracle over the returned centre lines", "Strokes stay on their shape, unbranched lines are covered, widths equal the local thickness for black on white.")
claim("T05", "generated pictures, topology of the skeleton compared with the shape by independent component counting", "The skeleton is a subset with the same components and holes, thin, stable under repetition, and central for straight bars.")
claim("T06", "generated pictures and colour counts, the reduced bitmap compared with the original", "At most the requested colours remain, every colour goes to the nearest of them, groups keep their means, the background is exact.")
claim("T07", "generated pictures and despeckle settings, blobs before and after compared by independent component labelling", "Only blobs below the limit change, as a whole, to similar adjacent colours; isolated specks follow the documented size and similarity limits exactly; one known finding on very long winding blobs.")
claim("T08", "metamorphic relations between traces of generated related pictures", "Plane count, colour renaming, margins and irrelevant options do not change the curves; margins are compared within the fitting tolerance because rounding differs; one known finding at picture borders.")
claim("T09", "generated pictures of large rectangular cells, every returned vertex and every painted pixel compared exactly", "Right-angled shapes come back as their exact corners for corner windows up to 8 pixels; with a background the corner threshold is bounded, because outlines of holes start beside a corner.")
claim("T10", "generated pictures traced without corners, handles at every join compared; generated ovals and rings with bounds on pieces, kinks and directions", "Joins are compared up to rounding; bounds for ovals (16 pieces, 24 above radius 60; 25 or 45 degrees) leave a factor of about two over what is observed, so only clear losses of smoothness show there.")
claim("T11", "generated pictures, options and line thresholds; every line and curve of the result judged by its recorded and recomputed distance from its chord", "The average over the outline points is bounded by the greatest distance, so a curve is only reported when it is clearly too straight.")
claim("T12", "generated pictures traced with arbitrary values of every numeric option under sanitizers, results and heap blocks examined", "No drawn combination of values crashes, hangs, leaks or yields coordinates that are not finite; smoothing passes are drawn up to 200 and pictures up to 60 pixels.")
claim("S01", "generated operations repeated in a fresh process, after random histories, without callbacks and with other uninitialised memory", "Curves and file bytes are the same whatever happened before; one known finding on UGS metrics left by GF reads is excluded and counted.")
claim("S02", "generated traces cancelled at drawn moments, progress values recorded", "Progress stays in 0..1, never decreases and ends at 1; cancelling at any tested moment gives no result and leaves no memory.")
claim("S03", "random operation sequences on a pool of objects against a model of their contents, heap blocks counted", "Defaults, copies and ownership follow the model; no operation sequence leaves heap blocks behind.")
claim("W01", "generated and traced curves written in each exact format and compared with an independent reader's result", "Curves, order, colours and sizes read back from svg, sk, eps, ai, epd, p2e, pdf, pov and er files equal the traced ones up to printed precision.")
claim("W02", "generated and traced curves written in each quantising format, an independent reader's polygons matched against the curves within the format's resolution", "Every list is found in order within the resolution of fig, mif, dxf, plt, ugs, emf, cgm, dr2d and ild files; 16-bit overflow of very wide pictures is a known finding.")
claim("W03", "generated curve sets, names and resolutions written in every format and read by strict readers checking all stated lengths, counts, offsets and boxes", "Files of all formats are complete and self-consistent, from no curves up to hundreds of lists and pieces; ILDA files beyond 65535 points are a known finding.")
claim("W04", "generated curves, pictures and command lines under the C locale and under locales with other decimal separators, outputs and the caller's locale compared", "Files, curves and tool output are the same under de_DE, fr_FR and ps_AF as under C, and the caller's locale stays; thread locales are not covered.")
claim("W05", "characters of generated GF fonts read, traced and written as UGS, an independent reader's result compared with the font's own numbers and with the curves", "Code, design size, advance, bearings and placement agree with the font for glyph boxes up to 8000 pixels within 3000 pixels of the origin.")
claim("C01", "generated pictures and command lines, the tool's output compared byte for byte with the library's", "Every drawn combination of documented options, spellings, names and formats gives the library's bytes, for pictures up to 3000 pixels.")
claim("C02", "generated faulty command lines, files and devices, exit status, messages and files examined", "Eighteen kinds of faulty command lines fail cleanly; permission failures are not generated.")
claim("C03", "generated strings against a model of the colour syntax", "Exactly the six-digit hexadecimal strings are accepted, with their value.")
claim("P01", "random histories of option objects and generated JSON texts against a model", "Round trips, partial JSON texts, builders, copies and assignments follow the model and leave no memory behind.")
claim("P02", "generated pictures, options and output names, the wrapper's file compared byte for byte with the C library's", "The wrapper writes the library's bytes and reports every generated kind of failure without leaking.")
