#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Decoding any VobSub .sub content never panics",
  "For every byte sequence presented as a `.sub` file, opening it and iterating its subtitles to the end yields only subtitles and errors: no item ever panics, overflows an integer or indexes out of bounds. This includes decompressing the subtitle bitmap.",
  ["inputs"], "every content of a .sub file, every number of calls to the iterator",
  "The five tests decode three well-formed fixtures; malformed lengths, offsets, run lengths and truncations are never presented.",
  ["src/vobsub/sub.rs", "src/vobsub/img.rs", "src/vobsub/decoder.rs", "src/vobsub/mpeg2/ps.rs", "src/vobsub/mpeg2/pes.rs", "src/vobsub/mpeg2/clock.rs", "src/time/time_point.rs"],
  [("offset and length guards before slicing", "src/vobsub/sub.rs subtitle; src/vobsub/img.rs VobSubRleImageData::new, scan_line")])
p("C02", "Decoding any PGS .sup content never panics",
  "For every byte sequence and every I/O behaviour of the reader, iterating a PGS parser to the end with the time-only or the time-and-image decoder yields only items and errors. No item ever panics, overflows an integer or indexes out of bounds.",
  ["inputs", "fault_sequences"], "every content of a .sup stream, every reader failure, both decoders",
  "Two well-formed fixtures are decoded; segment sizes, sequence flags, data lengths and truncations that contradict each other are never presented.",
  ["src/pgs/decoder.rs", "src/pgs/ods.rs", "src/pgs/pds.rs", "src/pgs/segment.rs", "src/pgs/mod.rs"],
  [("size checks before slicing and subtraction", "src/pgs/ods.rs read; src/pgs/pds.rs read")])
p("C03", "Rendering a decoded PGS image never panics and fills it exactly",
  "Every image obtained from a PGS stream, whatever run-length data it carries, can be iterated pixel by pixel and converted to an image buffer, or to an OCR image with any border whose result dimensions are representable, without panicking. Pixel iteration yields exactly width x height pixels and the converted image has the declared dimensions.",
  ["inputs"], "every width, height, palette and run-length data an ODS/PDS pair can carry",
  "No test renders a PGS image at all.",
  ["src/pgs/pgs_image.rs", "src/pgs/pds.rs"],
  [("RlePixelIterator bounds the number of pixels", "src/pgs/pgs_image.rs")])
p("C04", "Rendering a decoded VobSub image never panics",
  "Every image obtained by decoding a `.sub` stream can be converted with any 16-entry palette to an image buffer, and to an OCR image with any border whose result dimensions are representable, without panicking. The result has the dimensions of the subtitle area (plus twice the border for OCR).",
  ["inputs"], "every decoded VobSub image, every palette, every border",
  "Only the doc-test converts two fixture images, with one palette and no border.",
  ["src/vobsub/img.rs", "src/vobsub/palette.rs"],
  [("raw image has w*h entries below 4, palette indices below 16", "src/vobsub/img.rs decompress, src/vobsub/sub.rs palette_entries")])
p("C05", "Reading any .idx content never panics",
  "For every byte content of an `.idx` file and every I/O behaviour of its reader, reading the index returns an index or an error and never panics.",
  ["inputs", "fault_sequences"], "every .idx content and reader failure",
  "One fixture is read.",
  ["src/vobsub/idx.rs", "src/vobsub/palette.rs"],
  [("regex groups, palette entry count check", "src/vobsub/idx.rs read_index; src/vobsub/palette.rs palette")])
p("C06", "Every decoding loop makes progress",
  "No input can make the library loop forever: each internal loop over input data either consumes input, advances a strictly monotone bounded position, or exits. Each call to a subtitle iterator on finite input therefore returns.",
  ["inputs"], "every .sub, .sup and .idx content",
  "A test can only show that the sampled inputs terminate.",
  ["src/vobsub/sub.rs", "src/vobsub/mpeg2/ps.rs", "src/vobsub/img.rs", "src/pgs/decoder.rs", "src/pgs/pgs_image.rs", "src/vobsub/idx.rs"],
  [("control offset strictly increases, scan position and remaining input strictly advance", "src/vobsub/sub.rs subtitle; src/vobsub/img.rs scan_line; src/vobsub/mpeg2/ps.rs PesPackets::next; src/pgs/decoder.rs")])
p("C07", "I/O failures are never swallowed",
  "Whenever an underlying read, seek, file open, directory creation, image save or write reports an error, the public operation that issued it reports an error to its caller instead of success, end of data or a partial result. The only exception is data that ends inside a PGS segment header, which ends the iteration.",
  ["fault_sequences", "inputs"], "every I/O operation of every public entry point, failing at any point",
  "No test injects an I/O failure.",
  ["src/pgs/mod.rs", "src/pgs/segment.rs", "src/pgs/ods.rs", "src/pgs/pds.rs", "src/vobsub/idx.rs", "src/vobsub/sub.rs", "src/vobsub/probe.rs", "src/srt.rs", "src/webvtt.rs", "src/image/utils.rs"],
  [("`?`/map_err on every fallible operation", "all readers and writers")])
p("C08", "Decoded VobSub images are well formed",
  "Every image decoded from a `.sub` stream has exactly width x height pixels as given by its area, every pixel is a 2-bit index (0..=3), and each of its four palette and alpha entries is a 4-bit value (0..=15). A bitmap that does not decode completely is reported as an error, not returned.",
  ["inputs"], "every .sub content",
  "Fixtures only check the area and two palettes of one subtitle.",
  ["src/vobsub/img.rs", "src/vobsub/sub.rs"],
  [("2-bit / 4-bit takes, w*h allocation, fill of each scan line", "src/vobsub/img.rs, src/vobsub/sub.rs")])
p("C09", "VobSub subtitle times follow the PTS and control dates",
  "A decoded subtitle starts at its packet's 33-bit 90 kHz presentation time stamp plus the date of its start command in hundredths of a second, and ends at the same time stamp plus the date of its stop command, both in milliseconds up to floating-point rounding. Without a stop command it ends 5 seconds after its start.",
  ["inputs"], "every PTS, every control date, stop command present or not",
  "Two fixtures compare times with a one-sided tolerance (a - b < 0.1), which any smaller value passes.",
  ["src/vobsub/sub.rs", "src/vobsub/decoder.rs", "src/vobsub/mpeg2/clock.rs", "src/vobsub/mpeg2/pes.rs", "src/time/time_point.rs"],
  [("clock bit assembly, base_time + date/100, default length", "src/vobsub/mpeg2/clock.rs, src/vobsub/sub.rs, src/vobsub/decoder.rs")])
p("C10", "PGS subtitle times come from the END segments, for both decoders",
  "With either PGS decoder a subtitle's start is the presentation time of the first END segment read for it and its end that of the second one, each being the segment's 32-bit big-endian 90 kHz time stamp divided by 90. The time-only and the time-and-image decoder compute times identically.",
  ["inputs"], "every .sup content and both decoders",
  "Two fixtures with a handful of times; the two decoders are never compared on one stream.",
  ["src/pgs/decoder.rs", "src/pgs/segment.rs"],
  [("presentation_time, End arm of both decoders", "src/pgs/segment.rs, src/pgs/decoder.rs")])
p("C11", "Unknown PGS segments and flags are rejected, known ones mapped exactly",
  "A PGS segment is accepted only if it starts with the bytes 0x50 0x47 and its type byte is one of 0x14, 0x15, 0x16, 0x17 and 0x80; anything else is reported as an error carrying the offending value. PDS (0x14) and ODS (0x15) content is decoded, PCS (0x16) and WDS (0x17) content is skipped over exactly its declared size, END (0x80) ends a display set.",
  ["inputs"], "every header byte combination",
  "Fixtures contain only valid headers.",
  ["src/pgs/segment.rs", "src/pgs/ods.rs", "src/pgs/decoder.rs"],
  [("TryFrom<u8> for SegmentTypeCode / LastInSequenceFlag, parse_segment_header", "src/pgs/segment.rs, src/pgs/ods.rs")])
p("C12", "PGS object and palette fields are read from their specified positions",
  "A decoded PGS image has the 16-bit big-endian width and height of its object definition, and a pixel whose colour number has a palette entry takes luminance and alpha from that entry's bytes. A colour number without an entry renders white and fully transparent.",
  ["inputs"], "every ODS/PDS content",
  "No test looks at a decoded PGS image.",
  ["src/pgs/ods.rs", "src/pgs/pds.rs", "src/pgs/pgs_image.rs"],
  [("read_img_size, pds::read, Palette::get", "src/pgs/ods.rs, src/pgs/pds.rs")])
p("C13", "Subtitle areas always have positive, exact dimensions",
  "An area can only be created from coordinates whose second corner is strictly beyond the first on both axes and whose width and height fit 16 bits, otherwise an error is returned. Its left, top, width and height are exactly x1, y1, x2-x1+1 and y2-y1+1, computed without overflow for every accepted input.",
  ["inputs"], "all 2^64 coordinate quadruples",
  "No unit test covers src/content.",
  ["src/content/area.rs"],
  [("TryFrom<AreaValues>, private field", "src/content/area.rs")])
p("C14", "Timestamps print as [-]HH:MM:SS<sep>mmm",
  "For every millisecond value, a time point prints as an optional minus sign, hours (at least two digits), minutes, seconds (two digits each) and milliseconds (three digits), with ':' between the first three and ',' (SRT), '.' (WebVTT) or ':' (IDX) before the milliseconds. Together the fields denote exactly the absolute value of the time, and printing never panics.",
  ["inputs"], "all 2^64 millisecond values, three formats",
  "No test prints a time; replacing 1000 by 1001 throughout time_point.rs fails no test.",
  ["src/time/time_point.rs", "src/srt.rs", "src/webvtt.rs", "src/vobsub/idx.rs"],
  [("fmt_separator and component accessors", "src/time/time_point.rs")])
p("C15", "SRT and WebVTT records are written exactly",
  "Writing one SRT line emits the index, a newline, `start --> end`, a newline, the text and an empty line; writing SRT subtitles numbers them 1, 2, 3, ... in the given order; writing a WebVTT line emits `start --> end`, a newline, the text and an empty line. Nothing else is written.",
  ["inputs"], "every time span, text and list of subtitles",
  "srt.rs and webvtt.rs have no tests.",
  ["src/srt.rs", "src/webvtt.rs"],
  [("write_line, write_srt", "src/srt.rs, src/webvtt.rs")])
p("C16", "Parsing has no side effects outside its inputs",
  "No public operation writes to standard output or error, reads or changes the environment, spawns processes or threads, opens sockets, or exits the process. Only image dumping creates directories or files; only the operations given a path open that path, read-only.",
  ["inputs", "configurations"], "every public entry point, every path through it",
  "Tests do not observe stdout, the file system or the environment.",
  ["src/lib.rs"], [("library-wide: no effectful std API in the call graph", "src/")])
p("C17", "Results depend only on the arguments, and no unsafe code is used",
  "Decoding and formatting are deterministic functions of their inputs: no public operation consults clocks, randomness, addresses, hash iteration order, thread identity or mutable global state. The crate contains no unsafe code of its own.",
  ["inputs", "schedules", "histories"], "every public entry point, any interleaving of calls",
  "Tests run each function once.",
  ["src/lib.rs"], [("library-wide", "src/")])
p("C18", "Every error keeps its cause",
  "For every public error value that wraps another error, `Error::source()` returns that wrapped error, and converting a module error into the enclosing error keeps it as the source. An error reported because an I/O operation failed has that I/O error in its chain of sources. Error messages can be formatted for every variant.",
  ["inputs"], "every variant of every public error type",
  "No test looks at source().",
  ["src/errors.rs", "src/pgs/mod.rs", "src/pgs/ods.rs", "src/pgs/pds.rs", "src/vobsub/mod.rs", "src/vobsub/img.rs", "src/image/utils.rs"],
  [("#[source]/#[from] attributes", "all error enums")])
p("C19", "Public types can cross threads and errors are boxable",
  "Subtitle, index, image and parser types are Send and Sync whenever their type parameters are, and every public error type is Send, Sync, 'static and implements std::error::Error. Iterators over subtitles stay Unpin and usable behind a Box across threads.",
  ["programs", "schedules"], "every downstream program moving these values between threads",
  "Tests never move a value to another thread.",
  ["src/lib.rs", "src/vobsub/mod.rs", "src/pgs/mod.rs"],
  [("auto traits of the field types", "all public types")])
p("C20", "OCR images frame the subtitle with the background colour",
  "An OCR image made from a VobSub or PGS image, with a border whose result dimensions are representable, has the width and height of the source plus twice the border; pixels in the border have the background colour and every pixel inside corresponds to the source pixel at the position shifted by the border. For VobSub, a pixel is text-coloured exactly when its palette luminance and alpha are both non-zero.",
  ["inputs"], "every image, border and colour option",
  "No test builds an OCR image.",
  ["src/vobsub/img.rs", "src/pgs/pgs_image.rs", "src/image/mod.rs"],
  [("ToOcrImage::image", "src/vobsub/img.rs, src/pgs/pgs_image.rs")])
p("C21", "Luma thresholds classify exactly, in both variants",
  "Converting a luma+alpha pixel gives black when alpha and luma both reach their thresholds and white otherwise, and the const-generic function and the run-time converter agree for every pixel and threshold.",
  ["inputs"], "every pixel and threshold value",
  "src/image has no tests.",
  ["src/image/pixels.rs"], [("luma_a_to_luma, luma_a_to_luma_convertor", "src/image/pixels.rs")])
p("C22", "Image dumps are numbered files inside the requested folder",
  "Dumping images creates the folder if it is missing and writes the n-th image (from 0) to a file named by its six-digit, zero-padded number and `.png` directly inside that folder. It stops at, and reports, the first failure with the path concerned.",
  ["inputs", "fault_sequences"], "every folder path, every number of images, failure at any file",
  "dump_images has no tests.",
  ["src/image/utils.rs"], [("dump_images", "src/image/utils.rs")])
p("C23", "File probes answer by the magic bytes alone",
  "Probing for `.idx` is true exactly when the file starts with `# VobSub index file`, probing for `.sub` exactly when it starts with 00 00 01 BA; a file that cannot be opened or read gives an error.",
  ["inputs", "fault_sequences"], "every file content",
  "Two fixtures are probed.",
  ["src/vobsub/probe.rs"], [("has_magic", "src/vobsub/probe.rs")])
p("C24", "A VobSub subtitle is returned only when complete",
  "A subtitle is returned only if its control sequences gave a start time, an area, a palette, an alpha palette and bitmap offsets; otherwise an error naming the first missing part is returned. When a part other than the bitmap offsets is given several times the first one wins.",
  ["inputs"], "every combination and order of control commands",
  "Fixtures give each part once.",
  ["src/vobsub/sub.rs"], [("ok_or(ErrorMissing::..), Option::or", "src/vobsub/sub.rs subtitle")])
p("C25", "VobSub subtitle packets are reassembled from their own stream only",
  "The data of a subtitle is its first packet followed by the following packets of the same substream, in order, until the declared 16-bit size is reached, cut to exactly that size; packets of other substreams are skipped. A first packet without presentation time stamp or shorter than its size field is an error.",
  ["inputs"], "every interleaving and split of packets",
  "One fixture is split in two packets.",
  ["src/vobsub/sub.rs"], [("next_sub_packet", "src/vobsub/sub.rs")])
p("C26", "An index palette has 16 entries or is an error",
  "Reading an index with a palette line (`palette: ` followed by a non-empty value) that is not exactly 16 six-digit hexadecimal colours separated by `, ` is an error. An index without palette line gets the default palette, and a language is reported only from an `id` line of the form `<lowercase letters>, index: ...`.",
  ["inputs"], "every .idx content",
  "One palette is parsed.",
  ["src/vobsub/idx.rs", "src/vobsub/palette.rs"], [("palette, read_index", "src/vobsub/palette.rs, src/vobsub/idx.rs")])
p("C27", "VobSub bitmaps decode by the DVD run-length code, interlaced",
  "Each scan line decodes the DVD 2-bit run-length code (1- to 4-nibble runs, zero count filling the line, lines byte aligned), even lines being taken from the first field and odd lines from the second, each continuing where its previous line ended.",
  ["inputs"], "every bitmap",
  "Tests compare two encodings of one bitmap with each other only.",
  ["src/vobsub/img.rs"], [("count, rle, scan_line, decompress", "src/vobsub/img.rs")])
p("C28", "Exhausted subtitle iterators stay exhausted",
  "Once iterating the subtitles of a `.sub` content has returned the end, every later call returns the end again.",
  ["inputs", "histories"], "every .sub content, every number of further calls",
  "Tests call next() at most once after the end.",
  ["src/vobsub/sub.rs", "src/vobsub/mpeg2/ps.rs"], [("remaining input emptied before None", "src/vobsub/mpeg2/ps.rs PesPackets::next")])
p("C29", "Iterator size hints are true",
  "The lower bound of every iterator's size hint never exceeds, and the upper bound never falls below, the number of items still to come; an exact-size pixel iterator reports exactly the pixels left.",
  ["inputs", "histories"], "every iterator at every point of its consumption",
  "No test looks at size_hint.",
  ["src/pgs/sup.rs", "src/pgs/pgs_image.rs"], [("size_hint", "src/pgs/sup.rs, src/pgs/pgs_image.rs")])
p("C30", "Decoder allocations are bounded by the format, not by trust in lengths",
  "Decoding one subtitle never requests a single allocation larger than 16 MiB, whatever lengths, dimensions or counts the input claims.",
  ["inputs"], "every .sub and .sup content",
  "Fixtures are tiny and allocation is not observed.",
  ["src/pgs/ods.rs", "src/pgs/pds.rs", "src/vobsub/sub.rs", "src/vobsub/img.rs"],
  [("u24 data length, 12-bit coordinates, u16 packet size", "src/pgs/ods.rs, src/vobsub/img.rs, src/vobsub/sub.rs")])
p("C31", "Time points convert exactly",
  "A time point built from milliseconds returns those milliseconds; built from seconds it holds the seconds times 1000 truncated toward zero; converted to seconds it gives the milliseconds divided by 1000; negating it negates the milliseconds (of every value but the smallest one).",
  ["inputs"], "every time value",
  "A few constants are sampled.",
  ["src/time/time_point.rs", "src/time/time_span.rs"], [("from_msecs, from_secs, to_secs, Neg", "src/time/time_point.rs")])
p("C32", "VobSub control data is read at its specified bit positions",
  "A decoded VobSub subtitle's area coordinates are the four consecutive 12-bit values (left, right, top, bottom) of a coordinates command, and its palette and alpha are the four 4-bit values of the palette and alpha commands in reverse order, so entry i belongs to pixel value i.",
  ["inputs"], "every control sequence",
  "One control sequence and one palette are sampled.",
  ["src/vobsub/sub.rs"], [("area, palette_entries, control_command", "src/vobsub/sub.rs")])
p("C33", "PGS run-length data decodes as specified",
  "The pixels of a decoded PGS image are those of its run-length data: a non-zero byte is one pixel of that colour; a zero byte is followed by a length of 1 to 63 (or, with the second flag, 14 bits) for a run of colour 0 or (with the first flag) of the colour byte after the length; two zero bytes end a line and encode no pixel. The pixel of a colour number is the palette entry of that number. Pixels for which the data is missing are white and transparent.",
  ["inputs"], "every run-length data",
  "No test decodes PGS run-length data.",
  ["src/pgs/pgs_image.rs"], [("RlePixelIterator", "src/pgs/pgs_image.rs")])
p("C34", "An object split over two segments is reassembled in order",
  "The run-length data of a PGS object given in a first and a last object segment is the first segment's data followed by the last segment's; an object given in one segment has exactly that segment's data.",
  ["inputs", "histories"], "every .sup content",
  "The fixtures are only decoded for their times.",
  ["src/pgs/decoder.rs", "src/pgs/ods.rs"], [("ODS handling", "src/pgs/decoder.rs, src/pgs/ods.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
