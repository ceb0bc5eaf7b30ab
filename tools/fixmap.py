WHAT = "with a background colour given, a hole whose first pixel in reading order has a third colour is not traced: on a white background, a red ring around a blue bar with white below the bar is painted red in that white part"
KNOWN = ["KNOWN-FINDING: property=%s [mixed-hole] %s" % (p, WHAT) for p in ("T01", "T03")]
KNOWN.append("KNOWN-FINDING: property=T08 [planes-border] in centre-line mode a three-plane picture is not thinned at its left, right and bottom border while the same picture in one plane is, so shapes touching those borders trace differently (a black block in the lower left corner of a 12x12 white picture)")
KNOWN.append("KNOWN-FINDING: property=T07 [deep-recursion] despeckling follows a blob by one nested call per row and pixel, so a winding line of several hundred thousand pixels (a 900x900 picture filled by one line running up and down) overflows the stack and ends the program")
TABLE = {s: "R06" for s in """refuse PNM files with an unknown magic number
leave room for the terminator of an over-long PNM token
refuse PNM files larger than a bitmap can hold
refuse BMP files larger than a bitmap can hold
define the pixels that a truncated BMP file does not store
define the BMP palette entries that the file does not store
stop when a TGA file cannot be opened
release the colour map of a truncated TGA file
report damaged PNG files instead of aborting
refuse PNG files larger than a bitmap can hold
keep the pixels of a GF character inside its bounding box
report damaged GF files instead of ending the program""".splitlines()}

TABLE.update({
    "look up input formats for file names without a suffix": "R07",
    "look up output formats for file names without a suffix": "R07",
    "stop the tangent search where an outline turns back on itself": "T02",
    "subdivide a curve only at one of its inner points": "T03",
    "do not read beyond the bitmap while following centre lines": "T04",
    "follow centre lines in the first row and column too": "T04",
})
TABLE.update({
    "despeckle pictures longer than 32767 pixels": "T07",
    "do not give up the colour nearest to the background when reducing colours": "T06",
    "thin against white again after a call with another background": "S01",
})
KNOWN.append("KNOWN-FINDING: property=S01 [ugs-metrics] reading a GF character leaves its metrics (code, design size, advance width, bearings) behind, and every later UGS file of any other picture in the same process is written with them")
TABLE.update({
    "start every ILDA file with an empty drawing": "S01",
    "reset the colour table and bounding boxes for every FIG file": "S01",
    "write no stray path end into an SVG file without curves": "S01",
    "delete no objects in an EMF file without curves": "S01",
    "give every MIF object its own colour": "W02",
    "allow more than 256 colours in MIF output": "S01",
    "write the end points of curves in MIF output": "W02",
    "do not overrun the FIG colour table": "W03",
    "free the array of curve lists with the curves": "S03",
    "free the outlines when tracing is cancelled before fitting": "S02",
    "do not let reported progress go back between phases": "S02",
    "use the documented defaults for corner surround and smoothing": "S03",
    "free the chunk list of DR2D output": "S03",
    "start the DR2D bounding box from the flipped first point": "W02",
})
KNOWN.append("KNOWN-FINDING: property=W03 [ild-count] an ILDA file of more than 65535 points (1600 lines of 800 pixels in an 800x800 picture) states its point count modulo 65536, without a message")
KNOWN.append("KNOWN-FINDING: property=W02 [wide-16bit] CGM coordinates and extent and EMF curve points are written in 16 bits, so a picture of 40000x10 pixels with a curve across it is drawn wrapped around, without a message")
TABLE.update({
    "keep all outlines of one colour in P2E output": "W01",
    "end open ER shapes straight when their last piece is a line": "W01",
    "fill holes in FIG output with the background colour": "W02",
    "do not swap width and height in the CGM extent": "W02",
    "put black DXF polylines on their own layer again": "W02",
    "do not start the first DXF polyline twice": "W02",
    "keep DXF polylines together at very short curves": "W02",
    "end no polyline in a DXF file without curves": "W03",
    "fill holes in EMF output with the background colour": "W02",
    "write file names longer than 254 bytes correctly in CGM output": "W03",
    "do not break DXF polylines after curves in large pictures": "W02",
})
TABLE.update({
    "reduce the colors of an empty bitmap to nothing": "C01",
    "give the caller its numeric locale back after writing": "W04",
    "refuse colour strings with characters that are no hex digits": "C03",
    "report a background colour that cannot be parsed": "C02",
    "honour the preserve-width option": "C01",
    "let getopt store flags in ints": "C01",
    "print the whole help text": "C02",
    "refuse color counts above the documented maximum": "C02",
    "write the log to the documented file": "C01",
    "keep an existing output file when the input cannot be read": "C02",
    "report output that cannot be written completely": "C02",
    "do not overwrite the input file under another name": "C02",
    "write logged splines to the log": "C01",
    "report unsupported centre lines in POV output to the caller": "C01",
    "copy the background colour when wrapper options are assigned": "P01",
    "do not replace the background colour object in the input options builder": "P01",
    "accept exactly the colours with components from 0 to 255 in JSON": "P01",
    "keep the removal of knees in the JSON form of the fitting options": "P01",
    "let the wrapper's options own their background colours": "P02",
    "keep an existing output file when the wrapper cannot read the input": "P02",
    "report failures of tracing and writing from the wrapper": "P02",
    "do not touch the border of a distance map without pixels": "T02",
    "find centre lines in bitmaps of more than 32767 rows or columns": "T08",
    "do not let a huge corner window wrap around": "T12",
    "refuse to reduce a bitmap to more than 256 colours": "T12",
    "read BMP core headers with sizes above 32767": "R02",
    "read the signed numbers of GF files as signed": "W05",
    "compute the right bearing in UGS output from the last column": "W05",
})
