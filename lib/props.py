# What each property's check runs.
class R:
    def __init__(self, module, entry, quick, thorough=None, variant="s", time=(60, 600), jobs=4, samples=8, sample_every=37,
                 steps=20_000_000, opts=(), cover=0, bounds=""):
        self.module, self.entry, self.quick = module, entry, quick
        self.thorough = thorough if thorough is not None else quick
        self.variant, self.time, self.jobs = variant, time, jobs
        self.samples, self.sample_every, self.steps = samples, sample_every, steps
        self.opts, self.cover, self.bounds = list(opts), cover, bounds


VARIANTS = {
    # block: the size in which streams are read; margin: readable bytes kept behind every buffer
    "s": dict(block=4, margin=4),
    "w": dict(block=4, margin=16),
    "m": dict(block=64, margin=256),
    "p": dict(block=4, margin=256),
    # as p, with the stand-ins of fakefs for files, standard streams and arguments
    "q": dict(block=4, margin=256),
    # the same with the AVX2 code instead of the portable one
    "q": dict(block=4, margin=256),  # the stand-ins of fakefs
    "v": dict(block=4, margin=256, flags="-C target-cpu=x86-64-v3"),
}

ASSUME = [
    "the block size is scaled down (BLOCK_SIZE, and MARGIN_SIZE where stated) in the copied source so that short inputs cross block boundaries; all other code is the repository's current source",
    "memory allocation never fails",
]

SF = ["--stub-format"]
P_S = "blocks of 4 bytes, margins of 256; "
BYTES_S = "blocks of 4 bytes, margins of 4; "

PROPS = {
    "C01": dict(bounds=P_S + "streams of 0-5 symbolic bytes (0-34 with one or two arbitrary bytes anywhere) through widths 1, 3, 4, 5 and the default, whole-stream and range slices, hex and decimal, read back with x, ddx and nnx and as a patch; any 2 slices of up to 3 bytes without overlap in 5 bytes", runs=[
        R("h_format", "c01_round", (0, 4, 0, 0, 9), (0, 6, 0, 0, 9), variant="p", jobs=8),
        R("h_format", "c01_round", (0, 5, 1, 0, 9), (0, 6, 1, 0, 9), variant="p", jobs=8),
        R("h_format", "c01_round", (14, 34, 0, 0, 1), (0, 34, 0, 105, 2), variant="p", jobs=8),
        R("h_format", "c01_round", (5, 9, 3, 0, 2), (0, 12, 3, 0, 3), variant="p", jobs=8),
        R("h_format", "c01_round", (0, 12, 4, 101, 2), (0, 16, 4, 101, 3), variant="p", jobs=8),
        R("h_format", "c01_round", (0, 18, 6, 0, 1), (0, 40, 6, 0, 2), variant="p", jobs=8),
        R("h_format", "c01_round", (0, 12, 7, 105, 1), (0, 16, 7, 105, 2), variant="p", jobs=8),
        R("h_format", "c01_round", (0, 8, 2, 101, 1), (0, 8, 2, 101, 2), variant="p", jobs=8),
        R("h_format", "c01_slices", (5, 2, 3, 3, 0), (6, 3, 3, 3, 0), variant="p", jobs=8),
        R("h_format", "c01_slices", (4, 2, 2, 3, 1), (5, 3, 3, 3, 1), variant="p", jobs=8),
    ]),
    "C02": dict(bounds=P_S + "the formatter alone: one slice of 0-9 symbolic bytes with 0-17 columns, two slices of 9 bytes at six offsets with 6 arbitrary bits, one offset of 48 arbitrary bits, slices of up to 65537 bytes with the last ones arbitrary, signatures x, ddx and b; dumps of streams of 0-20 symbolic bytes with 8 option lists", runs=[
        R("h_format", "c02_line", (0, 17, 9, 1, 0, 1), (0, 20, 18, 1, 0, 1), variant="p", jobs=8),
        R("h_format", "c02_line", (0, 0, 9, 2, 6, 6), (0, 1, 9, 2, 8, 6), variant="p", jobs=8),
        R("h_format", "c02_line", (0, 0, 1, 1, 48, 1), variant="p", jobs=2),
        R("h_format", "c02_line", (1, 3, 3, 1, 4, 4), (1, 3, 3, 1, 6, 6), variant="p", jobs=8),
        R("h_format", "c02_line", (2, 3, 5, 2, 0, 1), (2, 3, 7, 2, 0, 1), variant="p", jobs=8),
        R("h_format", "c02_long", (0, 14, 35, 16, 3), (0, 0, 99, 16, 3), variant="p"),
        R("h_format", "c02_long", (1, 14, 35, 16, 3), (1, 0, 99, 16, 3), variant="p"),
        R("h_format", "c02_long", (0, 65535, 65537, 16, 1), variant="p"),
        R("h_format", "c02_dump", (0, 20, 0, 0), (0, 40, 0, 0), variant="p"),
        R("h_format", "c02_dump", (0, 12, 1, 1), (0, 20, 1, 1), variant="p"),
        R("h_format", "c02_dump", (0, 12, 2, 101), (0, 20, 2, 101), variant="p"),
        R("h_format", "c02_dump", (0, 20, 3, 102), (0, 40, 3, 102), variant="p"),
        R("h_format", "c02_dump", (0, 20, 4, 0), (0, 40, 4, 0), variant="p"),
        R("h_format", "c02_dump", (0, 20, 5, 105), (0, 40, 5, 105), variant="p"),
        R("h_format", "c02_dump", (0, 20, 6, 0), (0, 40, 6, 0), variant="p"),
        R("h_format", "c02_dump", (254, 258, 6, 0), variant="p"),
        R("h_format", "c02_dump", (0, 20, 7, 0), (0, 40, 7, 0), variant="p"),
    ]),
    "C03": dict(bounds=P_S + "offset and length fields of 1-4 arbitrary digits in both cases with 1-3 blanks, of up to 15 hex and 19 decimal digits; arrays of up to 66 columns with 3-4 arbitrary columns, 0-3 blanks before the bar, mosaics of up to 2 arbitrary bytes; text arriving at once or 1-5 bytes at a time", runs=[
        R("h_parse", "c03_header", (4, 1, 0, 0), (5, 1, 0, 0), variant="p", jobs=8, opts=SF),
        R("h_parse", "c03_header", (3, 1, 1, 0), (4, 1, 1, 0), variant="p", jobs=8, opts=SF),
        R("h_parse", "c03_header", (15, 0, 0, 105), variant="p", jobs=8, opts=SF),
        R("h_parse", "c03_header", (7, 0, 1, 0), (20, 0, 1, 0), variant="p", jobs=8, opts=SF),
        R("h_parse", "c03_array", (0, 4, 0, 4, 3, 2, 0), (0, 5, 0, 5, 3, 2, 0), variant="p", jobs=8, opts=SF),
        R("h_parse", "c03_array", (62, 65, 62, 4, 3, 1, 0), (62, 70, 62, 4, 4, 1, 0), variant="p", jobs=8, opts=SF),
        R("h_parse", "c03_array", (0, 20, 10, 3, 1, 0, 105), (0, 40, 10, 3, 1, 1, 105), variant="p", jobs=8, opts=SF),
    ]),
    "C04": dict(bounds=P_S + "texts of up to 220 bytes of eight shapes with a window of 1-7 arbitrary bytes at every position, cut off anywhere, hex and decimal fields, text arriving at once or 1-5 bytes at a time; --patch, --guide, --in-format x and nnx over such texts", runs=[
        R("h_parse", "c04_any", (0, 0, 20, 4, 0, 0, 1), (0, 0, 20, 5, 0, 0, 1), variant="p", jobs=8, opts=SF),
        R("h_parse", "c04_any", (0, 10, 20, 5, 0, 0, 1), (0, 10, 20, 6, 0, 0, 1), variant="p", jobs=8, opts=SF),
        R("h_parse", "c04_any", (1, 0, 32, 3, 0, 105, 1), (1, 0, 32, 4, 0, 105, 1), variant="p", jobs=8, opts=SF),
        R("h_parse", "c04_any", (2, 0, 12, 3, 0, 0, 1), (2, 0, 12, 4, 0, 0, 1), variant="p", jobs=8, opts=SF),
        R("h_parse", "c04_any", (3, 0, 40, 2, 0, 1, 0), (3, 0, 40, 3, 0, 1, 0), variant="p", jobs=8, opts=SF),
        R("h_parse", "c04_any", (3, 0, 40, 1, 1, 4, 0), (3, 0, 40, 2, 1, 4, 0), variant="p", jobs=8, opts=SF),
        R("h_parse", "c04_any", (4, 4, 220, 1, 0, 0, 0), (4, 4, 220, 2, 0, 0, 0), variant="p", jobs=8, opts=SF),
        R("h_parse", "c04_any", (5, 190, 210, 2, 0, 0, 1), (5, 190, 210, 3, 0, 0, 1), variant="p", jobs=8, opts=SF),
        R("h_parse", "c04_any", (6, 0, 22, 3, 1, 4, 1), (6, 0, 22, 4, 1, 4, 1), variant="p", jobs=8, opts=SF),
        R("h_parse", "c04_any", (7, 0, 0, 7, 0, 0, 0), (7, 0, 0, 9, 0, 0, 0), variant="p", jobs=8, opts=SF),
        R("h_parse", "c04_stages", (0, 2), (0, 3), variant="p", opts=SF),
        R("h_parse", "c04_stages", (1, 2), (1, 3), variant="p", opts=SF),
        R("h_parse", "c04_stages", (2, 2), (2, 3), variant="p", opts=SF),
        R("h_parse", "c04_stages", (3, 2), (3, 3), variant="p", opts=SF),
    ]),
    "C05": dict(bounds=P_S + "streams of 0-13 symbolic bytes, up to 3 records with gaps of 0-3 bytes, lengths and arrays of up to 3 and 2 bytes, array contents symbolic or fixed, the text forms of a record, every delivery of the stream, requests and consumption", runs=[
        R("h_text", "c05_patch", (0, 4, 2, 2, 3, 2, 1, 1, 0, 1, 0, 0), (0, 6, 2, 3, 4, 2, 1, 1, 0, 1, 0, 0), variant="p", jobs=8),
        R("h_text", "c05_patch", (5, 6, 2, 3, 3, 1, 0, 9, 0, 1, 0, 0), (5, 8, 3, 3, 3, 1, 0, 9, 0, 1, 0, 0), variant="p", jobs=8),
        R("h_text", "c05_patch", (5, 6, 2, 2, 3, 1, 0, 9, 2, 1, 0, 0), (5, 8, 2, 2, 3, 2, 0, 9, 2, 1, 0, 0), variant="p", jobs=8),
        R("h_text", "c05_patch", (3, 5, 3, 1, 2, 1, 0, 9, 1, 1, 0, 0), (3, 6, 3, 1, 2, 1, 0, 9, 1, 1, 1, 0), variant="p", jobs=8),
        R("h_text", "c05_patch", (4, 4, 1, 2, 2, 2, 2, 3, 0, 1, 1, 0), (4, 4, 1, 2, 2, 3, 2, 3, 0, 1, 1, 0), variant="p", jobs=8),
        R("h_text", "c05_patch", (9, 13, 2, 3, 2, 1, 0, 9, 0, 1, 99, 3), (9, 17, 2, 5, 3, 1, 0, 9, 0, 1, 99, 5), variant="p", jobs=8),
        R("h_text", "c05_overlap", (9, 10, 6, 0), (12, 14, 9, 0), variant="p"),
    ]),
    "C06": dict(bounds=P_S + "up to 2 records with gaps of 0-3 bytes, lengths of up to 4 and arrays of up to 2 bytes (1 record: up to 6, 6 and 3), arrays symbolic or fixed, the text forms of a record, hex and decimal, any filler, alignments 1-3, every request and consumption", runs=[
        R("h_text", "c06_place", (2, 3, 3, 2, 1, 9, 0, 0, 1, 0, 0, 0), (2, 4, 4, 2, 1, 9, 0, 0, 1, 1, 0, 0), variant="p", jobs=8),
        R("h_text", "c06_place", (1, 4, 4, 3, 2, 3, 1, 0, 1, 0, 0, 1), (1, 6, 6, 3, 2, 3, 1, 0, 1, 0, 0, 2), variant="p", jobs=8),
        R("h_text", "c06_place", (2, 2, 2, 1, 0, 2, 1, 101, 1, 0, 0, 2), (2, 3, 3, 1, 0, 2, 1, 101, 1, 0, 0, 2), variant="p", jobs=8),
        R("h_text", "c06_overlap", (9, 5), (14, 9), variant="p"),
    ]),
    "C07": dict(bounds=P_S + "up to 2 records of arbitrary offsets and lengths with arrays of up to 3 (2) bytes, the text forms of a record, text arriving at once or 1-5 bytes at a time, every request and consumption", runs=[
        R("h_text", "c07_gapless", (2, 2, 3, 1, 2, 0, 1, 0, 1), (2, 3, 3, 1, 2, 0, 1, 0, 1), variant="p", jobs=8),
        R("h_text", "c07_gapless", (2, 2, 2, 1, 1, 105, 1, 0, 0), (2, 3, 3, 1, 2, 105, 1, 0, 1), variant="p", jobs=8),
    ]),
    "C08": dict(bounds=BYTES_S + "1-2 inputs of 0-5 symbolic bytes (also 57-63 with reads of 1-4 bytes), --cat N for N=1..3, every filler, reads of 1 byte or a block; stage alone: every request (1, 5 and more)/consume sequence", runs=[
        R("h_bytes", "c08_cat", (2, 5, 3, 1), (3, 6, 5, 1), cover=3),
        R("h_bytes", "c08_cat_any", (2, 4, 2, 1), (2, 6, 2, 1)),
        R("h_bytes", "c08_cat_chunky", (2, 4, 1, 0), (2, 5, 2, 1)),
        R("h_bytes", "c08_cat_long", (57, 63, 5), (57, 99, 9)),
    ]),
    "C09": dict(bounds=BYTES_S + "1-2 inputs of 0-5 symbolic bytes (also 57-62 with reads of 1-4 bytes), --zip N for N=1..3 (stage alone: N=1..17), every filler, reads of 1 byte or a block; stage alone: every request/consume sequence", runs=[
        R("h_bytes", "c09_zip", (2, 5, 3, 1), (3, 5, 4, 1), cover=3),
        R("h_bytes", "c09_words", (2, 2), (3, 6)),
        R("h_bytes", "c09_zip_long", (57, 60, 3), (57, 70, 9)),
        R("h_bytes", "c09_zip_any", (2, 3, 2, 1), (2, 5, 2, 1)),
    ]),
    "C10": dict(bounds=BYTES_S + "inputs of 0-4 symbolic bytes, --pad N,M for N,M=0..5, every filler; stage alone: skip, strip, pad and length limits 0-3, every request/consume sequence", runs=[
        R("h_bytes", "c10_pad", (4, 5, 1), (9, 9, 1)),
        R("h_bytes", "c10_pad_any", (3, 3, 1, 0), (5, 5, 2, 1)),
        R("h_bytes", "c10_clip_any", (4, 3, 2, 1), (6, 5, 2, 1)),
    ]),
    "C11": dict(bounds=BYTES_S + "streams of 0-5 symbolic bytes, one or two --cut ranges with all anchors and offsets 0-8 or around 2^31, 2^32 and 2^63, every request/consume sequence", runs=[
        R("h_bytes", "c11_cut", (4, 2, 5, 0), (6, 2, 9, 0), jobs=8, cover=3),
        R("h_bytes", "c11_cut", (6, 1, 9, 1), (9, 1, 9, 1), cover=3),
        R("h_bytes", "c11_cut_any", (4, 6, 2, 1), (5, 7, 2, 1), jobs=8),
        R("h_bytes", "c11_cut", (8, 2, 4, 0, 1), (12, 2, 9, 0, 1), jobs=8),
        R("h_bytes", "c11_cut", (8, 2, 4, 0, 3), (12, 2, 9, 0, 3), jobs=8),
        R("h_bytes", "c11_cut", (3, 1, 9, 0, 2), jobs=8),
    ]),
    "C28": dict(bounds=P_S + "main() as a whole over a file system in memory: 8 edits, 9 lists of 1-4 names (some twice, some missing, stdin, one that ends in .tmp), files of 0-9 symbolic bytes; every one (pair) of the operations on files fails, or the program is stopped before it; reads and writes in parts. Links, directories and file modes are not modelled", runs=[
        R("h_run", "c28_inplace", (0, 7, 0, 8, 0, 5, 1, 0, 0, 0), (0, 7, 0, 8, 0, 12, 1, 0, 0, 0), variant="q", jobs=8, cover=5, steps=60_000_000),
        R("h_run", "c28_inplace", (0, 7, 0, 8, 5, 5, 2, 1, 2, 0), (0, 7, 0, 8, 0, 9, 3, 1, 2, 1), variant="q", jobs=8, cover=7, steps=60_000_000),
        R("h_run", "c28_inplace", (0, 7, 0, 6, 3, 9, 0, 1, 3, 1), (0, 7, 0, 6, 0, 12, 1, 1, 1, 1), variant="q", jobs=8, cover=3, steps=60_000_000),
    ]),
    "C29": dict(bounds=BYTES_S + "streams of 0-7 symbolic bytes fed by reads of 1 byte or all, and of 57-58 bytes with reads, requests and steps of any fixed size, every request/consume sequence with one request for more data; every byte stage over sources that hand out more than asked for", runs=[
        R("h_bytes", "c29_raw_any", (7, 2, 1), (9, 3, 2)),
        R("h_bytes", "c29_raw_long", (57, 58, 9, 9), (57, 80, 16, 16)),
        R("h_bytes", "c08_cat_any", (2, 3, 2, 1), (2, 6, 2, 1)),
        R("h_bytes", "c09_zip_any", (2, 3, 2, 1), (2, 5, 2, 1)),
        R("h_bytes", "c10_clip_any", (4, 3, 2, 1), (6, 5, 2, 1)),
        R("h_bytes", "c11_cut_any", (3, 4, 2, 1), (5, 7, 2, 1)),
    ]),
    "C12": dict(bounds=BYTES_S + "streams of 0-20 symbolic bytes, widths 0-5, without a range and with all ranges of both anchors and offsets up to 6 or around 2^31, 2^32 and 2^63, one range per run; every delivery with chunks as asked, all or either, every consumption", runs=[
        R("h_segs", "c12_width", (10, 5, 3, 2, 1), (14, 7, 3, 2, 1), jobs=8),
        R("h_segs", "c12_width", (20, 1, 1, 1, 0), (40, 2, 2, 1, 0), jobs=8),
        R("h_segs", "c12_width_map", (6, 4, 4, 1, 1, 0), (6, 4, 6, 2, 2, 0), jobs=8),
        R("h_segs", "c12_width_map", (3, 3, 9, 0, 0, 0, 2), (5, 3, 9, 1, 1, 0, 2), jobs=8),
    ]),
    "C13": dict(bounds=BYTES_S + "streams of 0-6 symbolic bytes, one range of both anchors and offsets 0-8, two with offsets 0-5, one with offsets around 2^31, 2^32 and 2^63, every delivery and consumption", runs=[
        R("h_segs", "c13_slice", (6, 1, 8, 2, 1, 0), (9, 1, 12, 2, 2, 1), jobs=8),
        R("h_segs", "c13_slice", (4, 2, 5, 2, 0, 0), (6, 2, 8, 2, 1, 0), jobs=8),
        R("h_segs", "c13_slice", (6, 2, 3, 0, 0, 0, 1), (9, 2, 4, 0, 0, 0, 1), jobs=8),
        R("h_segs", "c13_slice", (6, 2, 3, 0, 0, 0, 3), (9, 2, 4, 0, 0, 0, 3), jobs=8),
        R("h_segs", "c13_slice", (3, 1, 9, 0, 0, 0, 2), jobs=8),
    ]),
    "C14": dict(bounds="blocks of 4 bytes, margins of 16; streams of 0-7 symbolic bytes, patterns of 1-3 symbolic bytes, every delivery and consumption", runs=[
        R("h_segs", "c14_find", (5, 2, 2, 2, 1), (8, 3, 3, 2, 1), variant="w", jobs=8),
        R("h_segs", "c14_find", (7, 3, 2, 1, 0), (10, 4, 2, 1, 0), variant="w", jobs=8),
    ]),
    "C15": dict(bounds="blocks of 4 bytes, margins of 16; streams of 0-4 symbolic bytes, 8 expression lists over 1, 2 and 4-byte elements, every delivery and consumption", runs=[
        R("h_segs", "c15_walk", (4, 5, 2, 1, 0, 0), (6, 5, 2, 2, 0, 0), variant="w", jobs=8, opts=["--stub-format"]),
        R("h_segs", "c15_walk", (2, 3, 2, 1, 0, 5), (3, 3, 2, 1, 0, 5), variant="w", jobs=8, opts=["--stub-format"]),
    ]),
    "C16": dict(bounds="blocks of 64 bytes, margins of 256; streams of 70 (134) symbolic bytes, up to 2 records at offsets around the block boundary with every length up to 31, digits symbolic, with and without array and mosaic; every delivery of the stream and consumption", runs=[
        R("h_text", "c16_guide", (70, 1, 1, 1, 0, 3, 5, 1, 2), (134, 1, 2, 1, 0, 3, 8, 7, 2), variant="m", jobs=8),
        R("h_text", "c16_guide", (70, 2, 2, 1, 0, 4, 4, 0, 0), (70, 2, 1, 1, 0, 3, 4, 0, 1), variant="m", jobs=8),
        R("h_text", "c16_guide", (70, 2, 1, 0, 0, 3, 4, 0, 0), variant="m", jobs=8),
    ]),
    "C17": dict(bounds="blocks of 4 bytes, margins of 16; streams of 0-5 symbolic bytes, up to 2 slices of up to 4 bytes, 7 patterns (literal, repeat, optional, empty match, alternation, byte class, anchor); the regex crate itself is executed", runs=[
        R("h_regex", "c17_regex", (5, 2, 3, 1, 2, 1, 0, 0), (6, 2, 4, 1, 2, 2, 0, 0), variant="w", jobs=8),
        R("h_regex", "c17_regex", (5, 2, 3, 0, 2, 1, 1, 0), (6, 2, 4, 0, 2, 2, 1, 0), variant="w", jobs=8),
        R("h_regex", "c17_regex", (3, 1, 3, 2, 1, 1, 0, 1), (4, 1, 4, 2, 1, 1, 0, 1), variant="w", jobs=8),
        R("h_regex", "c17_regex", (3, 1, 3, 3, 1, 1, 0, 1), (4, 2, 4, 3, 1, 1, 0, 1), variant="w", jobs=8),
        R("h_regex", "c17_regex", (3, 2, 3, 4, 1, 0, 0, 0), (4, 2, 4, 4, 1, 1, 0, 0), variant="w", jobs=8),
        R("h_regex", "c17_regex", (4, 2, 4, 6, 0, 0, 0, 2), (5, 2, 5, 6, 1, 1, 0, 2), variant="w", jobs=8),
        R("h_regex", "c17_regex", (3, 1, 3, 5, 1, 1, 0, 1), (4, 2, 4, 5, 1, 1, 0, 1), variant="w", jobs=8),
    ]),
    "C18": dict(bounds=BYTES_S + "streams of 0-4 symbolic bytes, up to 2 slices of up to 3 bytes in every layout, one range of both anchors and offsets 0-3 or around 2^31, 2^32 and 2^63 (two ranges with offsets 0-1 on 2 bytes), every delivery and consumption", runs=[
        R("h_segs", "c18_invert", (4, 2, 3, 1, 3, 2, 0, 0, 0), (6, 3, 4, 1, 4, 2, 1, 0, 0), jobs=8),
        R("h_segs", "c18_invert", (2, 2, 2, 2, 1, 1, 0, 0, 0), (5, 2, 3, 2, 3, 2, 1, 1, 0), jobs=8),
        R("h_segs", "c18_invert", (3, 1, 3, 1, 2, 1, 1, 0, 1), (4, 2, 3, 1, 3, 1, 1, 0, 1), jobs=8),
        R("h_segs", "c18_invert", (2, 1, 2, 1, 9, 0, 0, 0, 0, 2), (4, 2, 2, 1, 9, 0, 0, 0, 0, 2), jobs=8),
    ]),
    "C19": dict(bounds=BYTES_S + "streams of 0-4 symbolic bytes, up to 2 slices of up to 3 bytes in every layout, one range of both anchors and offsets 0-3 or around 2^31, 2^32 and 2^63 (two ranges with offsets 0-1 on 2 bytes), every delivery and consumption", runs=[
        R("h_segs", "c19_extend", (4, 2, 3, 1, 3, 2, 0, 0, 0), (6, 3, 4, 1, 4, 2, 1, 0, 0), jobs=8),
        R("h_segs", "c19_extend", (2, 2, 2, 2, 1, 1, 0, 0, 0), (5, 2, 3, 2, 3, 2, 1, 1, 0), jobs=8),
        R("h_segs", "c19_extend", (3, 1, 3, 1, 2, 1, 1, 0, 1), (4, 2, 3, 1, 3, 1, 1, 0, 1), jobs=8),
        R("h_segs", "c19_extend", (2, 1, 2, 1, 9, 0, 0, 0, 0, 2), (4, 2, 2, 1, 9, 0, 0, 0, 0, 2), jobs=8),
    ]),
    "C20": dict(bounds=BYTES_S + "streams of 0-6 symbolic bytes, up to 3 slices of up to 4 bytes in every layout, --merge N for N=0-3, every delivery and consumption", runs=[
        R("h_segs", "c20_merge", (6, 3, 4, 1, 3, 3, 2, 0, 0), (8, 4, 4, 1, 4, 3, 2, 1, 0), jobs=8),
        R("h_segs", "c20_merge", (4, 2, 3, 1, 3, 2, 1, 1, 1), (5, 3, 4, 1, 3, 2, 1, 1, 1), jobs=8),
    ]),
    "C21": dict(bounds=BYTES_S + "streams of 0-4 symbolic bytes, up to 2 slices of up to 3 bytes in every layout, one range of both anchors and offsets 0-3 or around 2^31, 2^32 and 2^63 (two ranges with offsets 0-1 on 2 bytes), every delivery and consumption", runs=[
        R("h_segs", "c21_lines", (4, 2, 3, 1, 3, 2, 0, 0, 0), (6, 3, 3, 1, 4, 2, 1, 0, 0), jobs=8),
        R("h_segs", "c21_lines", (2, 2, 2, 2, 1, 1, 1, 0, 0), (5, 4, 2, 2, 3, 1, 1, 1, 0), jobs=8),
        R("h_segs", "c21_lines", (3, 1, 3, 1, 2, 1, 1, 0, 1), (4, 2, 3, 1, 3, 1, 1, 0, 1), jobs=8),
        R("h_segs", "c21_lines", (2, 1, 2, 1, 9, 0, 0, 0, 0, 2), (4, 2, 2, 1, 9, 0, 0, 0, 0, 2), jobs=8),
    ]),
    "C22": dict(bounds="expressions of up to 3 operators in every shape with at most one pair of parentheses, over literals, variables and array elements; additions, bitwise operations, shifts and comparisons for all 64-bit values with one operator and for 21-bit values with two, products and quotients of values in -32..31", runs=[
        R("h_eval", "c22_eval", (1, 15, 4, 0, 15363, 64), variant="w", jobs=8, opts=["--stub-format"]),
        R("h_eval", "c22_eval", (1, 9, 0, 0, 16355, 64), (1, 15, 2, 0, 16355, 64), variant="w", jobs=8, opts=["--stub-format"]),
        R("h_eval", "c22_eval", (2, 9, 0, 1, 16355, 20), variant="w", jobs=8, opts=["--stub-format"]),
        R("h_eval", "c22_eval", (1, 3, 0, 0, 16383, 5), (2, 3, 0, 1, 31, 4), variant="w", jobs=8, opts=["--stub-format"]),
        R("h_eval", "c22_eval", (2, 3, 0, 1, 7, 3), (2, 3, 0, 1, 31, 3), variant="w", jobs=8, opts=["--stub-format"]),
        R("h_eval", "c22_eval", (2, 6, 2, 0, 67, 64), (3, 6, 1, 1, 3, 64), variant="w", jobs=8, opts=["--stub-format"]),
        R("h_eval", "c22_eval", (3, 2, 0, 1, 5155, 16), (3, 6, 0, 1, 35, 64), variant="w", jobs=8, opts=["--stub-format"]),
    ]),
    "C30": dict(bounds=P_S + "runs with 0-2 of 20 options (3 in the thorough run) with 1-12 values each, many of them odd (empty, huge, reversed, out of range, unparsable), on inputs of 0-3 symbolic bytes and of 6 and 3 bytes, and guides, patches and text inputs of 9 kinds; a run that takes more than 4 million steps of the compiled code counts as endless, one that panics as crashed; runs with --patch-back: see C27", runs=[
        R("h_main", "c30_ends", (0, 1, 1, 0, 6, 3, 0, 1), (0, 1, 2, 0, 9, 3, 1, 2), variant="p", jobs=8, opts=SF, cover=6),
        R("h_main", "c30_ends", (2, 2, 1, 4, 4, 3, 0, 0), (2, 2, 1, 0, 6, 3, 0, 1), variant="p", jobs=8, opts=SF, cover=6),
        R("h_main", "c30_ends", (2, 2, 2, 9, 9, 3, 17, 0), (3, 3, 2, 6, 6, 3, 17, 0), variant="p", jobs=8, opts=SF, cover=6),
    ]),
    "C31": dict(bounds=P_S + "every set of up to 3 (4) of 23 options, each with one value, in documented order, reversed and rotated, in short, attached and long form, on 1-2 inputs of 0-13 symbolic bytes (fixed ones where --find, --walk and --regex look at them, one of them arbitrary); every list of 2-3 options of which two exclude each other; every value of 1-4 digits for --filler, --cat, --zip and --width; main() with every use of stdin by --patch, --guide and up to 2 (3) files", runs=[
        R("h_main", "c31_options", (0, 1, 0, 23, 1, 0, 2, 0, 9, 3, 0, 1), variant="p", jobs=8, opts=SF, cover=2),
        R("h_main", "c31_options", (2, 2, 0, 23, 2, 1, 2, 5, 6, 3, 17, 1), (2, 2, 0, 23, 2, 1, 2, 0, 13, 3, 0, 1), variant="p", jobs=8, opts=SF, cover=2),
        R("h_main", "c31_options", (3, 3, 0, 23, 1, 2, 2, 7, 7, 3, 0, 0), (3, 3, 0, 23, 9, 2, 2, 7, 8, 3, 0, 0), variant="p", jobs=8, opts=SF, cover=2),
        R("h_main", "c31_options", (3, 3, 0, 23, 2, 0, 1, 13, 13, 3, 17, 0), (4, 4, 0, 23, 3, 0, 1, 13, 13, 3, 17, 0), variant="p", jobs=8, opts=SF, cover=2),
        R("h_main", "c31_exclusive", (3, 2, 1), (4, 2, 2), variant="p", jobs=8, opts=SF),
        R("h_main", "c31_values", (3, 7), (5, 7), variant="p", jobs=8, opts=SF, cover=6),
        R("h_run", "c31_stdin", (2, 0), (3, 0), variant="q", jobs=8, steps=60_000_000),
    ]),
    "C32": dict(bounds="every prefix and suffix around up to 3 (4) arbitrary letters, digits and fillers; numbers up to two digits longer than the largest, with the last 2-6 digits arbitrary; option arguments N and N,M of up to 3 digits and either sign", runs=[
        R("h_eval", "c32_literal", (3, 9, 8), (4, 9, 8), variant="w", jobs=8, opts=["--stub-format"]),
        R("h_eval", "c32_literal", (4, 1, 1), (6, 1, 1), variant="w", jobs=8, opts=["--stub-format"]),
        R("h_eval", "c32_large", (0, 14, 1), variant="w", opts=["--stub-format"]),
        R("h_eval", "c32_large", (7, 12, 1), (7, 10, 2), variant="w", opts=["--stub-format"]),
        R("h_eval", "c32_large", (1, 40, 2), variant="w", opts=["--stub-format"]),
        R("h_eval", "c32_large", (3, 8, 1), variant="w", opts=["--stub-format"]),
        R("h_eval", "c32_large", (5, 15, 2), variant="w", opts=["--stub-format"]),
        R("h_eval", "c32_option", (3, 1), (4, 1), variant="w", opts=["--stub-format"]),
        R("h_eval", "c32_option", (2, 2), (3, 2), variant="w", opts=["--stub-format"]),
    ]),
    "C23": dict(bounds="every expression of up to 4 arbitrary printable characters and of 1-2 around digits, signs, anchors and dots; constants around the smallest and largest 64-bit numbers with the last digits arbitrary, in 12 forms; each mapped over every stream or slice of the sizes that matter", runs=[
        R("h_eval", "c23_any", (1, 0, 4), (2, 0, 4), variant="w", opts=SF),
        R("h_eval", "c23_any", (2, 0, 4), (2, 0, 4), variant="w", opts=SF),
        R("h_eval", "c23_any", (4, 1, 1), (5, 1, 1), variant="w", opts=SF),
        R("h_eval", "c23_any", (4, 3, 1), (4, 0, 3), variant="w", opts=SF),
    ] + [R("h_eval", "c23_large", (f, *q), (f, *t), variant="w", opts=SF, samples=3) for f, q, t in (
        (0, (3, 0), (3, 0)), (1, (2, 1), (2, 1)), (2, (2, 0), (2, 0)), (3, (1, 1), (2, 1)), (4, (2, 1), (2, 1)), (5, (2, 0), (2, 0)),
        (6, (2, 1), (2, 1)), (7, (2, 1), (2, 1)), (8, (1, 1), (2, 1)), (9, (2, 1), (2, 1)), (10, (2, 1), (2, 1)), (11, (1, 1), (2, 1)))]),
    "C24": dict(bounds="templates of up to two pieces of literal text and two places with n, l or one of eight expressions of them, every combination of fill, alignment, sign, '#', zero, width up to 12 and type x, X, o, b, d; values of n and l with up to 5 arbitrary bits around 0, +-1, powers of two and the extremes; any 1-2 (3) characters between the braces", runs=[
        R("h_out", "c24_render", (1, 1, 0, 1, 3, 0, 1, 1)),
        R("h_out", "c24_render", (1, 1, 0, 1, 31, 0, 0, 1), jobs=8),
        R("h_out", "c24_render", (1, 1, 0, 1, 31, 0, 5, 1), (1, 1, 0, 1, 31, 6, 5, 1), jobs=8),
        R("h_out", "c24_render", (2, 2, 0, 3, 0, 0, 0, 1), jobs=8),
        R("h_out", "c24_render", (1, 1, 0, 9, 1, 4, 1, 1)),
        R("h_out", "c24_render", (1, 1, 3, 1, 7, 5, 0, 1)),
        R("h_out", "c24_render", (1, 1, 7, 1, 3, 4, 4, 1)),
        R("h_out", "c24_render", (1, 1, 0, 1, 3, 6, 5, 1)),
        R("h_out", "c24_any", (1,)),
        R("h_out", "c24_any", (2,), (3,)),
    ]),
    "C25": dict(bounds=P_S + "up to 3 slices of up to 3 bytes in every layout over 0-5 symbolic bytes, seven templates (fixed name, by index, by offset, by expression with a format, '-', empty), slices handed on at once or a few at a time, files absent or with up to 7 bytes before, output formats b and x", runs=[
        R("h_out", "c25_scatter", (4, 2, 2, 1, 2, 3, 0), (5, 3, 3, 1, 2, 3, 0), variant="p", jobs=8),
        R("h_out", "c25_scatter", (4, 3, 1, 3, 2, 3, 0), (5, 3, 2, 3, 2, 3, 0), variant="p", jobs=8),
        R("h_out", "c25_scatter", (4, 2, 2, 3, 2, 9, 1), (5, 3, 3, 1, 0, 3, 1), variant="p", jobs=8),
        R("h_out", "c25_scatter", (5, 2, 3, 0, 2, 7, 1), (5, 3, 3, 0, 2, 7, 1), variant="p", jobs=8),
        R("h_out", "c25_scatter", (4, 2, 3, 4, 2, 7, 0), (5, 3, 3, 4, 2, 7, 0), variant="p", jobs=8),
        R("h_out", "c25_scatter", (4, 2, 2, 2, 0, 7, 0), (5, 3, 3, 2, 0, 7, 0), variant="p", jobs=8),
        R("h_out", "c25_scatter", (5, 3, 3, 5, 2, 9, 0), variant="p", jobs=8),
        R("h_out", "c25_scatter", (5, 3, 3, 6, 1, 9, 0), variant="p", jobs=8),
    ]),
    "C26": dict(bounds=BYTES_S + "streams of 0-9 symbolic bytes, 5-6 steps of the producer and of the reader in every order with every amount requested and consumed, then both run to the end", runs=[
        R("h_out", "c26_tee", (6, 5, 2, 2, 1, 2), (8, 6, 2, 2, 1, 2), jobs=8),
        R("h_out", "c26_tee", (7, 6, 1, 1, 1, 0), (9, 8, 1, 1, 1, 0), jobs=8),
        R("h_out", "c26_tee", (9, 5, 1, 1, 0, 0), (12, 9, 1, 1, 0, 0), jobs=8),
        R("h_out", "c26_tee", (5, 4, 0, 3, 1, 5), (6, 6, 0, 3, 1, 6), jobs=8),
    ]),
    "C27": dict(bounds=P_S + "streams of 0-7 bytes (up to 2 of them arbitrary), eight option lists, commands that copy their input, read all first, print first and close their output, stop reading after any number of bytes, or do not exist; up to 2 records printed; room for 3-200 bytes in its output; up to 3 switches between nd, its thread and the command where they could have gone on, at every point where they meet, and a source that fails in the end; std::process and std::thread replaced by stand-ins", runs=[
        R("h_back", "c27_back", (5, 7, 0, 0, 0, 0, 0, 7, 1, 0, 0, 1), (5, 7, 0, 0, 0, 0, 0, 7, 3, 0, 0, 0), variant="p", jobs=8),
        R("h_back", "c27_back", (7, 7, 0, 0, 0, 0, 0, 200, 3, 1, 0, 1), (7, 9, 0, 0, 0, 0, 0, 200, 4, 1, 0, 0), variant="p", jobs=8),
        R("h_back", "c27_back", (4, 4, 0, 1, 2, 2, 1, 200, 1, 0, 0, 1), (4, 7, 0, 1, 2, 3, 2, 200, 1, 0, 0, 2), variant="p", jobs=8),
        R("h_back", "c27_back", (7, 7, 0, 2, 1, 2, 1, 200, 3, 1, 0, 1), (5, 7, 0, 2, 2, 2, 1, 3, 2, 1, 0, 0), variant="p", jobs=8),
        R("h_back", "c27_back", (5, 5, 1, 2, 2, 2, 1, 200, 1, 0, 0, 1), variant="p", jobs=8),
        R("h_back", "c27_back", (5, 5, 2, 3, 1, 2, 1, 200, 1, 0, 1, 0), variant="p", jobs=8),
        R("h_back", "c27_back", (2, 2, 4, 0, 1, 2, 1, 200, 1, 0, 1, 1), (3, 3, 4, 0, 1, 2, 1, 200, 1, 0, 1, 2), variant="p", jobs=8),
        R("h_back", "c27_back", (3, 3, 4, 4, 1, 2, 1, 200, 1, 0, 1, 1), variant="p", jobs=8),
        R("h_back", "c27_back", (0, 5, 5, 1, 1, 2, 1, 200, 1, 0, 1, 1), (0, 7, 5, 1, 2, 2, 1, 200, 2, 0, 1, 0), variant="p", jobs=8),
        R("h_back", "c27_back", (0, 5, 6, 1, 1, 2, 1, 200, 1, 0, 1, 1), (0, 7, 6, 1, 2, 2, 1, 200, 2, 0, 1, 0), variant="p", jobs=8),
        R("h_back", "c27_back", (0, 5, 7, 0, 1, 2, 1, 200, 1, 0, 1, 1), (0, 7, 7, 0, 1, 2, 1, 200, 2, 0, 1, 0), variant="p", jobs=8),
    ]),
    "C33": dict(bounds="the AVX2 code, against the oracles that C01-C04 put to the portable code: formatted slices of 0-17 columns and 14-35 bytes, offsets of 48 arbitrary bits, dumps of 0-20 bytes, headers of up to 15 digits, arrays of up to 66 columns, texts with arbitrary windows", runs=[
        R("h_format", "c02_line", (0, 17, 9, 1, 0, 1), (0, 20, 18, 1, 0, 1), variant="v", jobs=8),
        R("h_format", "c02_line", (0, 0, 1, 1, 48, 1), variant="v", jobs=2),
        R("h_format", "c02_line", (1, 3, 3, 1, 4, 4), (1, 3, 3, 1, 6, 6), variant="v", jobs=8),
        R("h_format", "c02_long", (0, 14, 35, 16, 3), (0, 0, 99, 16, 3), variant="v"),
        R("h_format", "c02_dump", (0, 20, 0, 0), (0, 40, 0, 0), variant="v"),
        R("h_format", "c01_round", (0, 4, 0, 0, 9), (0, 6, 0, 0, 9), variant="v", jobs=8),
        R("h_parse", "c03_header", (3, 1, 0, 0), (5, 1, 0, 0), variant="v", jobs=8, opts=SF),
        R("h_parse", "c03_header", (15, 0, 0, 105), variant="v", jobs=8, opts=SF),
        R("h_parse", "c03_array", (0, 4, 0, 4, 3, 2, 0), (0, 5, 0, 5, 3, 2, 0), variant="v", jobs=8, opts=SF),
        R("h_parse", "c03_array", (62, 65, 62, 4, 3, 1, 0), (62, 70, 62, 4, 4, 1, 0), variant="v", jobs=8, opts=SF),
        R("h_parse", "c04_any", (0, 0, 20, 3, 0, 0, 1), (0, 0, 20, 5, 0, 0, 1), variant="v", jobs=8, opts=SF),
        R("h_parse", "c04_any", (0, 10, 20, 4, 0, 0, 1), (0, 10, 20, 6, 0, 0, 1), variant="v", jobs=8, opts=SF),
        R("h_parse", "c04_any", (5, 190, 210, 2, 0, 0, 1), (5, 190, 210, 3, 0, 0, 1), variant="v", jobs=8, opts=SF),
    ]),
    "C34": dict(bounds=P_S + "8 slicers with up to 2 (3) of the five slice manipulators on top, in the documented order, on 0-7 symbolic bytes (fixed ones where the slicer or --regex looks at them, one arbitrary): 6 range lists each (one manipulator: any range of both anchors with constants up to 2); deliveries as asked for, all or either, consumption whole or one byte at a time", runs=[
        R("h_main", "c34_chain", (0, 1, 0, 7, 6, 0, 0, 0, 0, 7, 1), (0, 1, 0, 9, 6, 2, 1, 0, 0, 7, 1), variant="p", jobs=8, opts=SF),
        R("h_main", "c34_chain", (0, 1, 6, 7, 6, 1, 1, 0, 0, 7, 0), (0, 1, 6, 7, 6, 2, 2, 0, 0, 7, 0), variant="p", jobs=8, opts=SF),
        R("h_main", "c34_chain", (2, 2, 6, 7, 3, 0, 1, 0, 0, 7, 0), (2, 2, 6, 9, 6, 2, 1, 0, 0, 7, 0), variant="p", jobs=8, opts=SF),
        R("h_main", "c34_chain", (2, 2, 5, 5, 6, 2, 0, 0, 0, 7, 0), (3, 3, 7, 7, 4, 2, 0, 0, 0, 7, 0), variant="p", jobs=8, opts=SF),
        R("h_main", "c34_chain", (1, 1, 6, 6, 12, 1, 1, 0, 0, 7, 0), (1, 1, 6, 8, 13, 1, 1, 0, 0, 7, 0), variant="p", jobs=8, opts=SF),
        R("h_main", "c34_chain", (2, 2, 7, 7, 11, 0, 0, 0, 0, 1, 0), (2, 2, 7, 7, 12, 0, 0, 0, 0, 7, 0), variant="p", jobs=8, opts=SF),
    ]),
    "C35": dict(bounds=P_S + "main() as a whole over a file system in memory: 14 command lines with files, stdin, patches, guides, text inputs, --output to one or several files, --pager (that stops reading anywhere or doesn't start), on files of 0-9 (0-16) symbolic bytes; each one (pair) of the operations on files and streams fails; reads and writes in parts", runs=[
        R("h_run", "c35_faults", (0, 13, 0, 6, 1, 0, 0), (0, 13, 0, 16, 1, 0, 1), variant="q", jobs=8, cover=6, steps=60_000_000),
        R("h_run", "c35_faults", (0, 13, 5, 9, 2, 1, 1), (0, 13, 0, 9, 2, 1, 1), variant="q", jobs=8, cover=6, steps=60_000_000),
        R("h_run", "c35_faults", (0, 13, 0, 9, 0, 2, 1), (0, 13, 0, 40, 0, 3, 1), variant="q", jobs=8, cover=2, steps=60_000_000),
    ]),
}

NOT_APPLICABLE = {}
