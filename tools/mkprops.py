#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the long texts stay readable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "A hexdump read back as a stream or a patch reproduces the original bytes",
 "For every input, `nd` output in the hex format read back with `--in-format x` gives exactly the original bytes when the slices tile the input. The same dump read with `--in-format nnx` gives the concatenation of the dumped slices, and applied as a `--patch` to the original leaves it unchanged.",
 ["inputs", "configurations"], "all byte contents, lengths and slice widths, including bytes that look like format delimiters",
 "The unit tests check formatter and parser separately against fixed strings; no test feeds one's output to the other, and README's round trip is never executed.",
 ["src/text/formatter/mod.rs", "src/text/formatter/hex.rs", "src/text/parser/mod.rs", "src/byte/text.rs", "src/byte/patch.rs"],
 [("hex formatter", "TextFormatter::format_segments in src/text/formatter"), ("text parser", "TextParser in src/text/parser"), ("placement", "TextStream / GaplessTextStream in src/byte/text.rs")],
 ["stdout of the second nd"])

prop("C02", "Each slice is dumped as one exact `offset length | array | mosaic` record",
 "For every slice the hex output has exactly one line: the slice's offset in lower-case hex (at least 12 digits, offsets are below 2^48), its length in hex (at least 4 digits), its bytes as two-digit hex padded to the column width, and a mosaic in which printable ASCII stands for itself and every other byte is a dot. The `ddx` signature differs only in printing offset and length in decimal, and the `b` signature prints only the raw bytes; no other byte is emitted and the lines appear in slice order.",
 ["inputs", "configurations"], "all slice contents, offsets, lengths and column widths",
 "Tests compare a few fixed dumps with short offsets and one column width; large offsets, all byte values in every lane and the tail handling of each block are not sampled.",
 ["src/text/formatter/mod.rs", "src/text/formatter/hex.rs", "src/text/formatter/dec.rs"],
 [("record formatting", "format_segments_* in src/text/formatter/mod.rs"), ("hex digits", "src/text/formatter/hex.rs"), ("decimal", "src/text/formatter/dec.rs")],
 ["bytes appended to the output buffer"])

prop("C03", "Patch-text records are parsed to the values written, however they are chunked",
 "Every well-formed record `offset length | array | mosaic` (fields of up to 15 hex or 19 decimal digits; the array is columns of two digits and a blank, then any number of blanks) yields exactly its offset, length and array bytes, with the mosaic ignored and the array ending at the bar or the end of line. Blanks in front of and between offset and length and upper- or lower-case digits do not change the values, and neither do the sizes of the chunks in which the text arrives or the length of the line.",
 ["inputs", "schedules"], "all records (field values, digit counts, array lengths, mosaics containing any byte) and all ways of splitting the text into reads",
 "Tests parse a few dozen literal lines delivered in one piece; lines that straddle internal 16/48-byte blocks, buffer ends and read boundaries with arbitrary contents are unbounded.",
 ["src/text/parser/mod.rs", "src/text/parser/naive.rs", "src/text/parser/x86_64.rs"],
 [("line reader", "TextParser::read_line* in src/text/parser/mod.rs"), ("digit kernels", "parse_hex_single/parse_hex_body in naive.rs and x86_64.rs"), ("decimal", "parse_dec_single")],
 ["(offset, length, bytes) returned per line"])

prop("C04", "Malformed patch text is rejected with an error, never accepted or crashed on",
 "For every text input whose offset, length or array field has a character that is not a digit where one is expected, lacks the separator after a column, has a single digit for a byte, or states a number that does not fit in 64 bits, reading it ends in a reported error rather than in a value, a panic or an out-of-range memory access. Whatever bytes the text consists of, the reader never reads or writes outside its buffers.",
 ["inputs"], "all byte strings as records, including NULs, control bytes, non-ASCII bytes, truncated fields and missing newlines",
 "Tests reject a handful of literal bad strings; the set of malformed byte strings cannot be sampled and out-of-bounds reads are silent in tests.",
 ["src/text/parser/mod.rs", "src/text/parser/naive.rs", "src/text/parser/x86_64.rs", "src/byte/text.rs"],
 [("delimiter checks", "TextParser::read_line* in src/text/parser/mod.rs"), ("digit tables", "src/text/parser/naive.rs, x86_64.rs"), ("margins", "StreamBuf margin in src/streambuf.rs")],
 ["Result of reading a line"])

prop("C05", "--patch replaces each target interval by its array and keeps all other bytes",
 "For patch records sorted by offset with non-overlapping intervals, the patched stream equals the input with every interval [offset, offset + length) replaced by that record's array, all other bytes kept in order. This covers pure insertions, deletions, records reaching beyond the end of the stream (those that start at or beyond it are ignored), and empty patches, and does not depend on how input and patch arrive; overlapping or unsorted records inside the stream end in an error.",
 ["inputs", "schedules"], "all inputs, all patch lists (offsets, lengths, array lengths and contents) and all chunkings of both",
 "Tests apply a few fixed patches to fixed random data; combinations of record positions with block boundaries and end of stream are unbounded.",
 ["src/byte/patch.rs"], [("patch application", "PatchStream / PatchFeeder in src/byte/patch.rs")], ["bytes of the patched stream"])

prop("C06", "--in-format x puts every array at its offset and fills the gaps with the filler",
 "For records sorted by offset whose intervals [offset, offset + length) do not overlap, the stream built from text is what patching an endless run of filler bytes with them gives, cut after the last array: where every array has its stated length, each array is at its offset and every other byte is the filler. Records that overlap or go backwards end in an error, and an empty text gives an empty stream.",
 ["inputs", "schedules", "configurations"], "all record lists, fillers, alignments and chunkings",
 "Tests use fixed records; gap lengths against buffer sizes, empty and overlapping records and arbitrary fillers are not sampled.",
 ["src/byte/text.rs"], [("placement", "TextStream in src/byte/text.rs")], ["bytes of the constructed stream"])

prop("C07", "--in-format nnx concatenates all arrays regardless of offset and length",
 "For any list of well-formed records the stream read with the `nnx` signature is exactly the concatenation of their arrays in text order, whatever offset and length the records state and however the text is chunked.",
 ["inputs", "schedules"], "all record lists, array lengths and chunkings",
 "Tests use a few literal records.",
 ["src/byte/text.rs"], [("concatenation", "GaplessTextStream in src/byte/text.rs")], ["bytes of the constructed stream"])

prop("C08", "--cat N concatenates the inputs, each padded with the filler to a multiple of N",
 "The stream built from several inputs with `--cat N` is their in-order concatenation, where each input is followed by the minimum number of filler bytes that makes its length a multiple of N. The result does not depend on how the inputs are delivered or how the stream is consumed, and empty inputs contribute nothing.",
 ["inputs", "schedules", "configurations"], "any number of inputs, lengths (also 0), N, filler, read sizes and consumption steps",
 "Tests concatenate fixed inputs with a random consumer; input lengths around each other's and the buffer's boundaries are sampled, not covered.",
 ["src/byte/cat.rs", "src/byte/raw.rs", "src/streambuf.rs"],
 [("concatenation", "CatStream in src/byte/cat.rs"), ("alignment", "StreamBuf::mark_eof in src/streambuf.rs")], ["bytes of the constructed stream"])

prop("C09", "--zip N interleaves N-byte words round-robin and stops at the shortest input",
 "The stream built with `--zip N` takes N bytes from each input in turn until the shortest input ends, whose last word is completed with filler bytes when it is partial. This holds for every word size and number of inputs and does not depend on delivery or consumption.",
 ["inputs", "schedules", "configurations"], "any number of inputs, lengths, word sizes 1.. and chunkings, all specialised copy kernels included",
 "Tests use equal-length inputs and a few word sizes with random chunking.",
 ["src/byte/zip.rs"], [("gather kernels", "gather_impl_* in src/byte/zip.rs"), ("shortest-input logic", "ZipStream::fill_buf")], ["bytes of the constructed stream"])

prop("C10", "--pad N,M adds exactly N and M filler bytes around the unchanged stream",
 "With `--pad N,M` the stream is N filler bytes, the unmodified input, then M filler bytes; the result is independent of delivery and consumption.",
 ["inputs", "schedules", "configurations"], "all N, M, skip and length values, inputs (also empty) and chunkings",
 "Tests use a fixed table of parameters.",
 ["src/byte/clip.rs", "src/byte/zero.rs"], [("clipper", "ClipperParams::from_raw, ClipStream in src/byte/clip.rs")], ["bytes of the padded stream"])

prop("C11", "--cut keeps exactly the union of the requested ranges, in stream order",
 "A byte of the input is kept by `--cut` exactly when at least one of the S..E ranges, evaluated against the whole stream's start and end, contains its position; kept bytes appear once and in order. Ranges reaching past either end, empty or reversed ranges select only existing bytes, and the result is independent of delivery and consumption.",
 ["inputs", "schedules", "configurations"], "all stream lengths, all lists of start/end-anchored ranges with all constants, all chunkings",
 "Tests use a fixed list of ranges on streams much longer than the constants; interaction of end-anchored ranges with short tails and chunk edges is unbounded.",
 ["src/byte/cut.rs", "src/mapper.rs"], [("cutter", "CutStream / Cutter::accumulate in src/byte/cut.rs"), ("range arithmetic", "RangeMapper in src/mapper.rs")], ["bytes of the cut stream"])

prop("C12", "--width N,S..E yields one mapped slice per N-byte block, complete and in order",
 "`--width N,S..E` produces, for every k with kN < len, the block [kN, (k+1)N) mapped by S..E and clipped to the stream, dropping slices that become empty (a range that is empty for a block of N bytes is rejected). Without S..E the slices tile the stream exactly; every slice carries the stream bytes at its position, and the result does not depend on chunking.",
 ["inputs", "schedules", "configurations"], "all widths, constants for both anchors, stream lengths and chunkings",
 "Tests enumerate a table of pitch/margin pairs on long streams and infrequent short ones.",
 ["src/segment/stride.rs"], [("constant slicer", "ConstSlicer / ConstSlicerParams in src/segment/stride.rs")], ["(offset, length, bytes) of the slices"])

prop("C13", "--slice yields exactly the requested ranges, clipped and sorted",
 "`--slice` yields one slice for each distinct S..E range, evaluated against the whole stream and clipped to it, dropping empty results, sorted by (start, end) and carrying the stream bytes at that position. The result does not depend on chunking.",
 ["inputs", "schedules", "configurations"], "all stream lengths, lists of start/end-anchored ranges and chunkings",
 "Tests use fixed expressions on fixed-length streams.",
 ["src/segment/range.rs", "src/mapper.rs"], [("range slicer", "RangeSlicer in src/segment/range.rs")], ["(offset, length, bytes) of the slices"])

prop("C14", "--find reports every occurrence of the pattern and nothing else",
 "Every slice produced by `--find` is a location where the stream contains the pattern, and scanning from the left every non-overlapping occurrence is reported once, in order. This holds for every pattern and stream, including streams shorter than the pattern and occurrences that straddle chunk boundaries.",
 ["inputs", "schedules"], "all patterns, stream contents and lengths, and chunkings",
 "Tests search fixed patterns in fixed strings.",
 ["src/segment/exact.rs"], [("search", "ExactMatchSlicer in src/segment/exact.rs")], ["(offset, length, bytes) of the slices"])

prop("C15", "--walk slices the stream at the evaluated lengths until the stream ends",
 "With `--walk`, each slice starts where the previous one ended and has the length given by evaluating its expression over the little-endian signed views of the remaining stream, and the last slice is clipped at the end of the stream. An element past the end of the stream reads as zero. A length that is zero or negative, a negative index, or an expression without a value ends the walk with an error rather than a panic, an endless loop or a wrong slice.",
 ["inputs", "schedules", "configurations"], "all stream contents (hence all lengths), expressions, and chunkings",
 "Tests walk a few fixed byte strings.",
 ["src/segment/walk.rs", "src/eval.rs"], [("walker", "WalkSlicer in src/segment/walk.rs"), ("variable access", "VarAttr / evaluator in src/eval.rs")], ["(offset, length, bytes) of the slices or the error"])

prop("C16", "--guide slices the stream at exactly the ranges listed in the guide file",
 "For a guide file sorted by offset, `--guide` yields one slice per record of at least one byte that starts inside the stream, at [offset, offset + length) clipped to the stream, in file order and carrying the stream bytes at that position, whatever array or mosaic the record also has. The result does not depend on chunking of either input.",
 ["inputs", "schedules"], "all guide lists (also empty, overlapping, beyond the end), streams and chunkings",
 "Tests use fixed guides.",
 ["src/segment/guided.rs"], [("guided slicer", "GuidedSlicer in src/segment/guided.rs")], ["(offset, length, bytes) of the slices"])

prop("C17", "--regex keeps exactly the pattern's matches inside each slice",
 "`--regex` replaces every slice by the non-overlapping leftmost non-empty matches of the pattern in that slice's bytes, at their stream positions and sorted by position, and never reports a match spanning two slices. The result does not depend on chunking.",
 ["inputs", "schedules"], "all slice contents, slice layouts and chunkings, per pattern",
 "Tests use a few fixed strings delivered at once.",
 ["src/segment/regex.rs"], [("matcher", "RegexSlicer in src/segment/regex.rs")], ["(offset, length, bytes) of the slices"])

prop("C18", "--invert yields exactly the gaps not covered by slices, mapped by the ranges",
 "`--invert S..E` yields, for every maximal span of the stream not covered by any input slice, that span mapped by each S..E range and clipped to the stream, dropping empty results, sorted by (start, end) and carrying the stream bytes at that position. The result does not depend on chunking.",
 ["inputs", "schedules", "configurations"], "all slice layouts (also none, overlapping, nested, touching the ends), ranges, stream lengths and chunkings",
 "Tests use a table of expressions over two or three regular layouts.",
 ["src/segment/bridge.rs"], [("inverter", "BridgeStream in src/segment/bridge.rs")], ["(offset, length, bytes) of the slices"])

prop("C19", "--extend maps every slice by every range, clipped and sorted",
 "`--extend` replaces each input slice by its images under every S..E range, clipped to the stream, dropping empty images, sorted by (start, end) and carrying the stream bytes at that position. The result does not depend on chunking.",
 ["inputs", "schedules", "configurations"], "all slice layouts, lists of ranges with all constants and anchors, stream lengths and chunkings",
 "Tests use a table of expressions over regular layouts.",
 ["src/segment/extend.rs", "src/mapper.rs"], [("extender", "ExtendStream in src/segment/extend.rs")], ["(offset, length, bytes) of the slices"])

prop("C20", "--merge N joins exactly the slices whose distance is at most N",
 "`--merge N` on sorted slices yields the left fold in which a slice is joined to the accumulated one exactly when its start is at most N bytes after the accumulated end, the end becoming the maximum of both. Each result carries the stream bytes of its span and the result does not depend on chunking.",
 ["inputs", "schedules", "configurations"], "all sorted slice layouts, N and chunkings",
 "Tests use regular layouts and a few thresholds.",
 ["src/segment/merge.rs"], [("merger", "MergeStream in src/segment/merge.rs")], ["(offset, length, bytes) of the slices"])

prop("C21", "--lines keeps exactly the slices whose index lies in the union of the ranges",
 "`--lines` keeps a slice, unchanged and in order, exactly when its 0-origin index lies in at least one of the S..E ranges evaluated against the first and last slice of the whole sequence. The result does not depend on chunking.",
 ["inputs", "schedules", "configurations"], "all numbers of slices, lists of start/end-anchored ranges and chunkings",
 "Tests use fixed ranges on a few slice counts.",
 ["src/segment/filter.rs", "src/mapper.rs"], [("filter", "FilterStream in src/segment/filter.rs")], ["(offset, length, bytes) of the slices"])

prop("C22", "Expressions evaluate to the C value of 64-bit signed arithmetic or to an error",
 "Every expression accepted by an option evaluates to the value C gives it for 64-bit signed integers: the same operator precedence, associativity and unary operators, truncating division and arithmetic shifts (`!` and `~` are both the bitwise not, comparisons are 0 or 1). Expressions without a value (division by zero, unbalanced or incomplete text) end in an error, never in a panic or another value; where C leaves the value undefined (overflow, shifts out of range) nothing panics; and the value does not depend on whether an operand is a literal, a parenthesised expression or a variable.",
 ["inputs"], "all expression shapes over all operators and all operand values",
 "Tests evaluate a list of literal expressions; the cross product of operators, nesting and 64-bit values is unbounded.",
 ["src/eval.rs"], [("tokenizer and shunting-yard", "Rpn::new in src/eval.rs"), ("simplifier", "Rpn canonicalisation in src/eval.rs"), ("evaluator", "Rpn::evaluate")], ["value or error of the expression"])

prop("C23", "S..E range expressions denote the documented positions",
 "A range expression `S..E` denotes the half-open range whose ends are a constant number of bytes from the start (constants and `s`-anchored forms) or from the end (`e`-anchored forms) of the stream or slice; an omitted S means the start and an omitted E the end. Any expression that is not of this form is rejected, and no range makes a run panic.",
 ["inputs", "configurations"], "all anchors, constants over the whole 64-bit range and equivalent spellings, and all stream lengths",
 "Tests parse a fixed list of strings.",
 ["src/mapper.rs"], [("segment mapper", "SegmentMapper in src/mapper.rs"), ("range mapper", "RangeMapper in src/mapper.rs")], ["the range selected by an option"])

prop("C24", "Output filename templates render n and l exactly as specified",
 "A template renders to its literal text with every `{VAR}`, `{VAR:FMT}`, `{(EXPR)}` and `{(EXPR):FMT}` replaced by the value of the variable or expression formatted as Rust formats an i64 with FMT (fill, alignment, sign, `#`, `0`, width, and type x, X, o, b or none). A variable or format that is unknown is rejected up front instead of producing a wrong name.",
 ["inputs", "configurations"], "all slice offsets and indices, over template shapes",
 "Tests render a few templates for a few values.",
 ["src/template.rs"], [("template", "Template in src/template.rs")], ["name of the file a slice goes to"])

prop("C25", "--output leaves in each file exactly the slices routed to it, in order",
 "With `--output`, every slice goes to the file its rendered name says: after the run that file contains exactly the formatted slices routed to it, in order, with whatever it held before cleared. Slices whose name is empty or `-` go to standard output and nothing is lost, duplicated or sent elsewhere.",
 ["inputs", "histories", "configurations"], "all slice sequences, templates and previous contents of the files",
 "Tests write to fresh temporary files.",
 ["src/drain/scatter.rs", "src/template.rs"], [("scatter", "ScatterDrain in src/drain/scatter.rs")], ["contents of the files and of stdout after the run"])

prop("C26", "A teed stream gives its reader exactly the bytes consumed, in any interleaving",
 "When a stream is duplicated for write-back, the reader of the copy obtains exactly the bytes that went through the original, in order and once, whatever the interleaving of the producer and the reader and however much either takes at a time. When the producer has ended, the reader gets everything before it reports the end.",
 ["schedules", "inputs"], "all interleavings of producer and reader steps, amounts and stream contents",
 "Tests run one interleaving chosen by a random number generator.",
 ["src/byte/tee.rs"], [("tee", "TeeStream / TeeStreamReader in src/byte/tee.rs")], ["bytes obtained from the copy"])

prop("C27", "--patch-back returns the original stream patched with the command's output",
 "With `--patch-back`, the command receives exactly the formatted slices, and the output is the stream before slicing with the command's standard output applied to it as a patch. This holds whatever the command prints and however its reading and writing interleave with nd.",
 ["inputs", "schedules"], "all streams, slice layouts, command outputs and interleavings of nd's threads and the command",
 "Tests run `cat`-like commands on fixed inputs.",
 ["src/drain/patch.rs", "src/byte/tee.rs", "src/byte/patch.rs"], [("patch drain", "PatchDrain in src/drain/patch.rs")], ["output bytes; bytes fed to the command"])

prop("C28", "--inplace replaces a file only by its complete result and keeps it on any error",
 "With `--inplace`, each named file ends up holding exactly what the pipeline outputs for that file alone, processed once even when named twice. If reading, processing or writing fails at any point, the file named on the command line still holds its original bytes.",
 ["fault_sequences", "crash_points", "inputs"], "every system call of the run failing or the run stopping there, all contents",
 "No test runs the in-place mode at all.",
 ["src/main.rs", "src/pipeline.rs"], [("temporary file and rename", "main_impl in src/main.rs")], ["contents of the named files after the run"])

prop("C29", "Every stage presents the same stream whatever the sizes it is read and fed in",
 "For every stage, the bytes obtained do not depend on the sizes of the reads that feed it, on how much its consumer takes at a time, or on requests for more data; each step gives at least what was asked for unless the stream has ended, and the end is reported only when all bytes have been handed over.",
 ["schedules", "inputs"], "all sequences of (request, consume) steps and all read-size schedules",
 "Tests use random lengths on a few fixed patterns.",
 ["src/streambuf.rs", "src/byte/mod.rs", "src/byte/raw.rs", "src/filluninit.rs"], [("buffering", "StreamBuf in src/streambuf.rs")], ["ByteStream steps"])

prop("C30", "Every run ends in its output or an error, never in a hang or a crash",
 "For every finite input and every set of options, sensible or not, the run terminates with its complete output or with an error message: no stage panics or overflows, waits for data that cannot come, loops without consuming or producing, or asks for ever more buffer after the end of its source.",
 ["inputs", "schedules", "configurations"], "all finite inputs, option combinations and chunkings",
 "A test only shows that its own run ended.",
 ["src/main.rs", "src/streambuf.rs", "src/byte", "src/segment", "src/drain"], [("consume(0) protocol", "StreamBuf::consume and each stage's fill_buf"), ("main loop", "consume_stream in src/main.rs")], ["termination of the run"])

prop("C31", "Stages are applied in the documented order whatever the order of the options",
 "The output of a run is the documented composition of the requested stages (cut, pad, patch; one slicer; regex, invert, extend, merge, lines; one drain) with the documented defaults, whatever the order in which the options are given. Exclusive options given together, a filler of 256 or more, a zero word size and more than one use of stdin are rejected with an error before anything is output.",
 ["configurations", "inputs"], "all combinations and orders of options, and inputs",
 "Tests run single options; combinations are exponentially many.",
 ["src/pipeline.rs", "src/main.rs"], [("pipeline construction", "Pipeline::from_args, spawn_stream in src/pipeline.rs")], ["output of the run"])

prop("C32", "Numeric literals are read with the documented bases and unit prefixes",
 "A number with prefix 0b, 0o, 0d, 0x or a leading 0 is read in base 2, 8, 10, 16 or 8, one without prefix in base 10, and a unit suffix multiplies it by the documented power of 1000 or (with i) of 1024. Text with a digit outside the base, an unknown suffix or a value that does not fit is rejected, and options that take a size reject negative values.",
 ["inputs"], "all digit strings, bases and suffixes",
 "Tests use a list of literals.",
 ["src/eval.rs"], [("literal parser", "parse_val / parse_prefix in src/eval.rs"), ("option parsers", "parse_usize, parse_usize_pair in src/eval.rs")], ["value or rejection of an option argument"])

prop("C33", "The SIMD and the portable implementations agree on every input",
 "On every input the vectorised digit and dump routines give the same records, bytes and errors as the portable ones, so that the output of nd does not depend on the CPU it was built for.",
 ["inputs", "configurations"], "all byte strings in all alignments within a block, all offsets and lengths",
 "Each test run exercises one implementation on fixed strings; the two are never compared.",
 ["src/text/formatter/hex.rs", "src/text/parser/naive.rs", "src/text/parser/x86_64.rs"], [("AVX2 kernels", "src/text/parser/x86_64.rs, src/text/formatter/hex.rs"), ("portable kernels", "src/text/parser/naive.rs, src/text/formatter/hex.rs")], ["records dumped and parsed"])

prop("C34", "Slices of every stage lie inside the stream and carry the stream's own bytes",
 "Every slice handed from one stage to the next denotes a range inside the stream, carries exactly the stream's bytes at that range, is handed over exactly once, and slices come in (start, end) order. This holds for every composition of slicers and slice manipulators and every chunking.",
 ["inputs", "schedules", "configurations"], "all compositions up to the stated depth, stream contents, lengths and chunkings",
 "Tests exercise stages one at a time over a raw stream.",
 ["src/segment/mod.rs", "src/segment/stride.rs", "src/segment/merge.rs", "src/segment/bridge.rs", "src/segment/extend.rs", "src/segment/filter.rs"], [("slice hand-over", "SegmentStream contract in src/segment/mod.rs")], ["slices seen by the drain"])

prop("C35", "A run that could not read or write everything never ends as a success",
 "If an input, a patch, a guide or an output file cannot be opened, or reading or writing fails at any point, nd ends with a non-zero exit code; a run that ends with code 0 has written its complete output to stdout, to the pager or to the files of `--output`. What reaches stdout or the pager before an error is the beginning of the output. A reader of the output that closes it early is not an error.",
 ["fault_sequences", "inputs"], "every operation on files and streams failing at every point, partial reads and writes, all contents",
 "Tests never run main() and inject no errors.",
 ["src/main.rs", "src/byte/raw.rs", "src/drain/scatter.rs", "src/pipeline.rs"], [("main loop", "main_impl, consume_stream, build_drain in src/main.rs"), ("output files", "ScatterContext in src/drain/scatter.rs")], ["exit code; bytes on stdout, at the pager and in the files"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P))
