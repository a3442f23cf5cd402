"""What decides each property (read by check.py and gen_manifest.py)."""

# The abstract interpreter of sa/ (modes.rs), run on the entry points of
# roots/src/p1.rs.
INTERP_ASSUMPTIONS = [
    "the models of std/alloc/nom/image functions in sa/src/models.rs mean what those functions do (functions without a model are analysed from their MIR)",
    "usize is 64 bits; allocation succeeds; the reader contract of std::io::Read/BufRead/Seek as written in roots/src/sa.rs",
    "overflow checks are on (a release build would wrap instead of panicking)",
]


def interp(rule, explanation, level="other", assumptions=(), note=None):
    return dict(
        engine="driver", level=level,
        technique="abstract interpretation of the MIR of library and callees (linear terms over input bytes, intervals, loop fixpoints)",
        rule=rule, explanation=explanation,
        assumptions=INTERP_ASSUMPTIONS + list(assumptions),
        level_note=note or "Over-approximating: silence covers every input of the stated class; an incomplete analysis of changed code is reported as a note in the evidence, not as a violation.",
    )


CHECKS = {
    "C16": dict(
        engine="driver", level="other", technique="effect analysis over the resolved call graph (MIR)",
        rule="no function reached from a public operation refers to a function classified as touching standard streams, environment, processes, threads or sockets; file access only in the groups `open` (read) and `dump` (write)",
        explanation="Closure of the monomorphic call graph (calls, drops, function values, vtables) from one root per public operation, plus every function body of the library, generic or not; each referenced function is classified by its resolved path.",
        assumptions=["functions named in BOUNDARY (panic machinery, log, regex, std internals) are classified by name, not entered", "the logger installed by the application is not part of the library"],
        level_note="Sound for effects reached through resolved calls; trusts the classification table and the contracts of the boundary functions.",
    ),
    "C17": dict(
        engine="driver", level="other", technique="nondeterminism-source analysis over the resolved call graph, log-level region dataflow, forbid(unsafe_code)",
        rule="no function reached refers to clocks, randomness, hash iteration, thread identity or mutable global state; no static of the library is interior-mutable; no pointer-to-integer cast; code executed only because logging is enabled has no effect on the result; the library builds with unsafe_code forbidden",
        explanation="Same program as C16; plus, per library function, taint of values obtained from the log crate and the regions control-dependent on them, and the compiler's unsafe_code lint in the real build of the library.",
        assumptions=["std, regex, memchr, compact_str internals are deterministic", "Debug/Display implementations called while logging have no side effect beyond their shared arguments"],
        level_note="Decides the absence of nondeterminism sources and of unsafe blocks; trusts the table of sources.",
    ),
    "C19": dict(
        engine="types", level="other", technique="type-level witnesses checked by rustc",
        rule="every obligation `T: Send + Sync`, `T: Error + Send + Sync + 'static`, `T: Iterator + Send + Unpin` of witness/src/lib.rs type-checks against /repo",
        explanation="The witness crate names every public type (generic ones for all parameters) and builds exactly when the obligations hold.",
        assumptions=["rustc's trait solver"],
        level_note="A proof by the type checker for the listed public types.",
    ),
    "C01": interp(
        rule="no assertion, bounds check, overflow check or explicit panic inside the library is reachable in any abstract execution of opening a `.sub` file and of one iterator step from any position of any content",
        explanation="`Sub::open` on any file, and `next` of the subtitle iterator at any position of any byte content (the iterator's state is arbitrary, so one step covers every number of steps), including demultiplexing, reassembly, control sequences and bitmap decompression.",
    ),
    "C02": interp(
        rule="no assertion, bounds check, overflow check or explicit panic inside the library is reachable in any abstract execution of a PGS parser run to its end with either decoder",
        explanation="`SupParser::next` until the end over any content with a reader whose every call may fail or return short, for the time-only and the time-and-image decoder, and `from_file`.",
    ),
    "C10": interp(
        rule="for streams of the listed segment shapes, with every byte of every field and content symbolic, the returned times equal the symbolic time stamps / 90, and both END segments are those specified",
        explanation="Stream shapes: two ENDs; one skipped segment of any type and size before, or between, the ENDs; four ENDs (second subtitle); PDS, ODS, END, WDS, END with the image decoder. Sizes, contents and time stamps are symbolic.",
    ),
    "C11": interp(
        rule="for streams of the listed segment shapes, with every other byte symbolic, the result is the specified error (carrying the specified byte) or the segment after the skipped one",
        explanation="A header without the magic number; with an unknown type byte; PCS/WDS of any size followed by a segment; an object with an unknown sequence flag; a palette of incomplete entries; a missing palette; a missing image.",
    ),
    "C12": interp(
        rule="for a stream with one palette entry and one object, every byte symbolic, width, height and the first pixel equal the specified symbolic bytes",
        explanation="PDS with one entry, ODS of any size, two ENDs; the first pixel's colour number is compared with the entry's, and its two samples with the entry's bytes or the default.",
    ),
    "C13": interp(
        rule="`Area::try_from` and every accessor, on four symbolic 16-bit coordinates, give exactly the specified values, or the error exactly for the specified corners",
        explanation="All 2^64 coordinate combinations at once, as linear terms.",
    ),
    "C21": interp(
        rule="both conversions, on symbolic samples (and symbolic thresholds for the run-time one), give 0 exactly when both samples reach their thresholds and the maximum otherwise",
        explanation="The const-generic function at twelve pairs of thresholds including the extremes, for 8- and 16-bit samples; the run-time one for all thresholds.",
        level="other",
    ),
    "C31": interp(
        rule="the conversions, on a symbolic value, give the specified term (floating-point results are compared as expressions over the same symbols)",
        explanation="`from_msecs`, `msecs`, negation, `TimeSpan::new`, `to_secs` and `from_secs` (finite values within +-9e15).",
    ),
    "C09": interp(
        rule="for complete subtitles of the listed command layouts, with time stamp and dates symbolic, start and end lie within 1 ms of the specified term; no error is returned for them",
        explanation="Start and stop in one, two and four control sequences: no stop command, stop after start, late start with two stop commands. The 33-bit time stamp and all 16-bit dates are symbolic.",
        assumptions=["the packet layout of roots/src/p2.rs (one PES packet, 2 x 2 image): the times do not depend on the picture"],
    ),
    "C24": interp(
        rule="for subtitles with each listed set of commands, the result is the error naming the first missing part; for repeated commands every field equals the term of the first one",
        explanation="Nine layouts with parts missing, one with every part repeated in a second control sequence, one with parts repeated within a sequence; command arguments are symbolic.",
    ),
    "C32": interp(
        rule="the twelve accessor results (4 palette, 4 alpha, 4 area coordinates) equal the specified terms over the symbolic command bytes",
        explanation="One subtitle with a whole control sequence at any offset of a file of any content: every byte of size, offset, palette, alpha, coordinates and bitmap is symbolic.",
    ),
    "C25": interp(
        rule="for files of the listed packet layouts, every other byte symbolic, the fields read from the last packet equal its symbolic bytes, or the error carries the declared size",
        explanation="Two and three packets of one substream cut at several places, a packet of another substream between them, a first packet with only the size, surplus data in one and two packets, no time stamp, no size field, and the start of the next subtitle.",
        assumptions=["the packet layouts of roots/src/p3.rs (PES headers without extensions)"],
    ),
    "C27": interp(
        rule="for bitmaps of the listed code sequences, the value bits symbolic, every run's first, middle and last pixel equals its value bits at the specified line and column",
        explanation="Runs of 1, 2, 3, 4, 9, 15, 16, 63, 64 and 255 pixels at even and odd nibbles, a zero count at the start and inside of a line, padding at the end of a line, five interlaced lines.",
        assumptions=["the bitmaps of roots/src/p3.rs: other run lengths and line counts use the same code, which is the analysed one"],
    ),
    "C03": interp(
        rule="no assertion, bounds check, overflow check or panic is reachable while iterating, converting or framing an image of arbitrary fields; the number of pixels equals width x height and the buffer has the declared size in every abstract execution",
        explanation="`RleEncodedImage` with arbitrary width, height, palette and run-length bytes: the pixel iterator run to its end, `RleToImage::to_image` and `ToOcrImage::image` with any border whose dimensions are representable. Panics inside the library count.",
        assumptions=["`ImageBuffer::from_fn` calls its function for every pixel of the buffer and returns a buffer of the given size (contract in roots/src/model.rs)"],
    ),
    "C04": interp(
        rule="no assertion, bounds check, overflow check or panic is reachable while converting any well-formed image with any palette; the buffer has the specified size",
        explanation="A `VobSubIndexedImage` of any area, pixels below 4, entries below 16 (what C08 shows of every decoded image), any 16-entry palette, any border whose dimensions are representable; `VobSubToImage::to_image` and `VobSubOcrImage::image` at an arbitrary pixel.",
        assumptions=["`ImageBuffer::from_fn` as for C03", "decoded images are well formed (C08)"],
    ),
    "C05": interp(
        rule="no assertion, bounds check, overflow check or panic is reachable from reading an index",
        explanation="`Index::open` of any file, `Index::read_index` over any content with failing calls at any point, and `palette` on any bytes. Lines, regular expression groups and their texts are arbitrary within what the patterns of the library allow; the palette parser (nom) is analysed from its MIR.",
        assumptions=["`BufRead::read_line` and `str::trim_end` as written in roots/src/model.rs; `Regex` as in sa/src/regex.rs (the pattern is the library's own text, matched by this program's matcher)"],
    ),
    "C06": interp(
        rule="for every loop that the analysis does not follow to its end there is a lexicographic measure, over the numbers of the abstract state at its head, that falls on every way back to the head; a way back on which none of the state's numbers needs to have changed is a violation",
        explanation="One item from any position of any `.sub` and `.sup` content, images included; any index through both entry points, any palette text, both probes, and the conversions of any decoded image. Loops inside std and nom that the library runs are judged like its own. Calls that return bound the whole operation, as every loop on its path is judged.",
        assumptions=["contents and files are finite: `BufRead::read_line` returns no line once the content is used up (roots/src/model.rs)", "the library has no recursion over input (recursive calls end the analysis as unsupported)"],
    ),
    "C07": interp(
        rule="in every abstract execution in which a modelled read, seek, open, directory creation, image save or write has failed, the public operation returns an error (ghost flag set by the environment's contracts); content that ends inside a PGS segment is reported",
        explanation="Every public operation that does I/O, over readers, writers and files that may fail at any call: both iterators of .sup data, the files behind them, `.sub`, `.idx` and both probes, both text writers, `dump_images`. Three more roots cut the content inside a palette segment and inside an object segment.",
        assumptions=["`ErrorKind::Interrupted` is not reported by the reader (std retries it)", "`std::fs`, `BufRead::read_line`, `ImageBuffer::save`, `create_dir_all` as written in roots/src/model.rs"],
    ),
    "C26": interp(
        rule="for index contents of the listed forms, whose digits, letters and wrong bytes are symbolic, every abstract execution returns an error, the 16 colours of the line, the default palette, or the language, as specified",
        explanation="16 entries of any decimal, lower-case and upper-case digits (values compared), 0 to 32 entries, a byte of each class that is no digit at 10 positions, missing and additional digits, other separators, text before and after, the line before, after and between others, no palette line, and 18 forms of lines that do or do not give a language.",
        assumptions=["the forms of roots/src/p6.rs c26 stand for all contents: lines are independent of each other in the analysed loop", "`BufRead::read_line`, `str::trim_end` as written in roots/src/model.rs, `Regex` as in sa/src/regex.rs"],
    ),
    "C30": interp(
        rule="every request for memory in an abstract execution of one iterator step is for at most 16 MiB: `vec![_; n]`, a capacity, or twice the length a vector is made to grow to (`reserve`, `extend`), times the size of the element",
        explanation="One item from any position of any `.sub` content and of any `.sup` content, images included, with all lengths, counts and coordinates symbolic. The sites where memory is asked for are found in the analysed code, of std and nom, too.",
        assumptions=["vectors filled element by element (`push`) are bounded by what their loops consume: their growth is checked only where the length is tracked", "converting a decoded image to pixels is not decoding"],
    ),
    "C08": interp(
        rule="wherever an abstract execution of one iterator step constructs a `VobSubIndexedImage`, the pixel vector has width x height entries, each below 4, and every palette and alpha entry is below 16",
        explanation="One item from any position of any `.sub` content; the call of `VobSubIndexedImage::new` in the library is replaced by a function of roots/src/model.rs that checks its arguments (any pixel of the vector).",
        assumptions=["images are constructed through `VobSubIndexedImage::new`"],
    ),
    "C14": interp(
        rule="for a symbolic 64-bit time, the text produced through each of the three time formats equals, byte for byte, the specified one (digits as terms `value / k % 10 + 48`, longer numbers as the text of that value); no panic is reachable",
        explanation="All times: six classes by sign and by the number of digits of the hours, each with a symbolic value. The formatting machinery of std is analysed from its MIR down to the display of one integer.",
        assumptions=["integers are displayed as `number` of roots/src/model.rs says (sign, padding, decimal digits)"],
    ),
    "C15": interp(
        rule="in every abstract execution the bytes received by the writer equal the specified record(s): index digits, time stamps of C14, separators and the symbolic text, in order, nothing else",
        explanation="`srt::write_line` and `webvtt::write_line` for any text (of any length) and symbolic times, indices of one, two and four or more digits; `write_srt` for 0, 1, 2 and 3 symbolic subtitles and 11 constant ones. The writer's `write` takes a single byte, so that only `write_all` loses nothing.",
        assumptions=["integers are displayed as `number` of roots/src/model.rs says", "times between 0 and 100 hours (other times: C14)", "write_srt: lists longer than the analysed ones go through the same loop"],
    ),
    "C22": interp(
        rule="in every abstract execution the recorded environment calls are the specified ones: create the requested folder iff it is missing, then save image n to <folder>/<n as six digits>.png in order, stop at the first failing call and return the error of that call with its path",
        explanation="0 to 3 images in an existing and a missing folder of any name (symbolic path bytes), where creating and each saving may fail; 11 and 101 images without failures. Paths are compared byte for byte.",
        assumptions=["`Path::is_dir`, `create_dir_all`, `ImageBuffer::save` and `PathBuf::push` (Unix) as written in roots/src/model.rs"],
    ),
    "C20": interp(
        rule="for an arbitrary source image and border, the pixel computed at an arbitrary position equals the background inside the border and the specified colour of the shifted source pixel elsewhere; the size is the source's plus twice the border",
        explanation="VobSub: each of the four pixel values at any position of an image of any area, with zero and non-zero luminance and alpha. PGS: each combination of image shapes listed in roots/src/p5.rs.",
        assumptions=["`ImageBuffer::from_fn` as for C03", "one palette index (11) stands for the sixteen; the others are different from it"],
    ),
    "C23": interp(
        rule="on every abstract execution the answer is true exactly if the bytes read equal the specified magic bytes, and no answer is given after a failure",
        explanation="Both probes over any file: one with all magic bytes, one with another value at each of the 19 (4) positions, and files shorter than them; opening and each read may fail.",
        assumptions=["std::fs::File::open/read/read_exact as written in roots/src/model.rs"],
    ),
    "C28": interp(
        rule="in every abstract execution of two successive `next` calls from an arbitrary state of the iterator, an end is followed by an end",
        explanation="Both item types; the state (position and content) is arbitrary, so one step covers every history.",
    ),
    "C29": interp(
        rule="for an arbitrary state of each iterator, the bounds before and after one `next` call differ by at least/at most the returned item (inductive step), and the lower bound is 0 at an end; the pixel iterator's length falls by one per pixel and starts at width x height",
        explanation="The subtitle iterators of `.sub` and `.sup` content and the pixel iterator. The bounds are true of the whole iteration by induction over its steps.",
    ),
    "C33": interp(
        rule="for run-length data of the listed code sequences, every colour and run byte symbolic, each pixel in order equals the specified palette entry or the transparent default, and the iteration ends after the last one",
        explanation="Literals, short and long runs of colour 0 and of any colour, ends of line, missing data, through `RleEncodedImage::iter`.",
        assumptions=["the data shapes of roots/src/p5.rs: other run lengths use the same code, which is the analysed one"],
    ),
    "C34": interp(
        rule="for a stream of the listed segment shapes the decoded pixels equal the symbolic data bytes of the object segments in their order",
        explanation="An object in one segment and split over two, with symbolic contents, decoded with the image decoder and read pixel by pixel.",
        assumptions=["the stream shapes of roots/src/p5.rs"],
    ),
    "C18": dict(
        engine="driver", level="other",
        technique="enumeration of error types, variants and conversions by trait queries; abstract interpretation (MIR) of `source`, `from` and `fmt` on an arbitrary value of each",
        rule="for every variant of every error type of the library that holds a value of a type implementing `Error`, `source` returns a reference into that field in every abstract execution; every `From` conversion between error types stores its argument in the result; no panic is reachable in the `Display` and `Debug` implementations of the error types and of the types in their fields; in abstract executions of the public operations in which an environment call fails with an I/O error of an arbitrary kind, the returned error has that I/O error in its chain of `source()`",
        explanation="The types are those the compiler lists as implementing `std::error::Error` in the crate, so a new variant or type is covered without changing the check.",
        assumptions=["formatting done by std and by other crates returns"],
        level_note="Covers every value of every variant; decided on the compiled `source` functions, whatever derive or hand-written code they come from.",
    ),
}

# Properties without a check, and why.
NOT_APPLICABLE = {}
