"""Job tables: which harness entries decide which property, within which bounds."""


def J(entry, *params, **kw):
    return [dict(entry=entry, param=p, **kw) for p in (params or (0,))]


PROPS = {
    "C01": dict(feature="c01", jobs=J("c01_any", 0, 3, 8, 13, 16, 24, 33, 40) + J("c01_sample", 8, 108) + J("c01_sample", 16, 116, cost=9) + J("c01_parts", 24, cost=9) + J("c01_parts", *[100 * i + 24 for i in range(1, 8)]) + J("c01_stream", 16) + sum([J("c01_" + x) for x in "records attr format text regs".split()], []) + J("c01_sample", 24, 124, thorough=1, cost=9) + J("c01_parts", *[100 * i + 40 for i in range(8)], thorough=1) + J("c01_stream", 24, thorough=1) + J("c01_bare", *range(16)) + J("c01_history", 82, cost=9) + J("c01_history", *[10 * i + 2 for i in range(12) if i != 8]) + J("c01_history", *[10 * i + 3 for i in range(12)], thorough=1), covers=["record", "error", "stream", "formatted", "history", "attr", "no attr", "group"],
            bounds='symbolic type, misc, contents and trailer with bodies of 0..40 bytes (8 sizes) and 6 relations between the declared size and the data; samples of 0..16 arbitrary bytes for every 64-bit sample_type and read_format and 1024 combinations of register masks, samples with one set of registers for every subset of 25 of the 64 mask bits, and of 24 bytes for every pair of variable parts; arbitrary streams of 16 bytes, streams of 3 short records; attribute structures of 10 lengths; 16 bare types; all pairs of 12 kinds of calls on one parser; formatting of 24 record kinds and of texts with every last byte; 2 byte orders, 4 sources.',
            outside='longer bodies, more calls (thorough: 3); formatting of symbolic numbers (C20); the memory model is the engine\'s (accesses within live allocations, alignment, initialisation, no aliasing rules)'),
    "C02": dict(feature="c02", jobs=J("c02_fixed") + J("c02_direct"), covers=["decoded"], 
            bounds='12 record types x 2 byte orders x 5 sources x 3 trailer field sets x sample_id_all on/off; all field values and all 16 misc bits symbolic; framed and bare.',
            outside='other trailer field sets (C07), other chunkings (C09), sequences of records (C08)'),
    "C03": dict(feature="c03", jobs=J("c03_text", 6) + J("c03_sources") + J("c03_direct") + J("c03_long"), covers=["decoded", "build id", "oversized build id"], 
            bounds='text of 0..6 arbitrary bytes with symbolic misc, 3 sources; 0,1,3,8 bytes on all 5 sources; 127..65300 bytes (7 lengths) where the NUL padding is at most 3 bytes or 8, 20 or 120; all numeric fields, build-id bytes and the build-id length byte symbolic.',
            outside='other text lengths; other paddings above 8 bytes; symbolic build-id length together with a non-empty name (17 and 20 there)'),
    "C04": dict(feature="c04", jobs=J("c04_flags", 0, 1, 2) + J("c04_flags", 3, thorough=1) + J("c04_pairs") + J("c04_context"), covers=["decoded"], 
            bounds='all subsets of 3 (thorough: 4) groups of 8..13 field flags with the other flags all off and all on, all pairs of flags against all-off and all-on; all scalar values symbolic, variable parts of fixed small size; byte order and source vary over the subsets; misc symbolic (in framed records).',
            outside='flag subsets that are no combination of these; variable-length sizes (C05)'),
    "C05": dict(feature="c05", jobs=sum([J("c05_" + x) for x in "huge callchain raw lbr regs stack dyn aux mix".split()], []), covers=["decoded", "huge", "dynamic size accepted", "dynamic size rejected"], 
            bounds='call chain of 0..512 entries, raw of 0..4092 bytes, branch stack 0..32, stack 0..2048, AUX 0..4000 (selected sizes), each near the 65535-byte limit, registers for 7x7 masks x 4 ABI values, dynamic stack size fully symbolic (64 bit) for dumps of 1..16 bytes, 384 combinations of empty and non-empty parts; all contents symbolic; 2 byte orders, 3 to 6 sources; misc symbolic (in framed records).',
            outside='sizes between the selected ones'),
    "C06": dict(feature="c06", jobs=sum([J("c06_" + x) for x in "single group big_group count unknown".split()], []), covers=["read record", "read value", "read group", "read in sample", "unsupported", "count, complete", "count, incomplete", "unknown bits"], 
            bounds='all 32 combinations of known read_format flags, groups of 0..3, 17 and 60 members, every 64-bit member count over 0..8 words of data in 16 formats, every symbolic 64-bit read_format with an unknown bit; all numbers symbolic; READ record, bare value, bare group, within a sample; 2 byte orders, 3 to 5 sources; misc symbolic (in framed records).',
            outside='other group sizes'),
    "C07": dict(feature="c07", jobs=sum([J("c07_" + x) for x in "kinds long subsets extra small direct".split()], []), covers=["trailer", "long", "no trailer", "too small"], 
            bounds="24 record kinds x 5 field sets x sample_id_all on/off x 2 byte orders x 5 sources; all 64 subsets of identity fields for 4 kinds; 1,4,8,40 excess bytes; 24 kinds with long variable parts (texts of 300 bytes, 130 addresses, 40 branches or namespaces, 700 unknown bytes; up to 65 kB); all body sizes below the trailer's; misc and all values symbolic; all configuration bits the record does not depend on (other sample_type bits, read_format, register masks) symbolic.",
            outside='variable parts of other sizes'),
    "C08": dict(feature="c08", jobs=sum([J("c08_" + x) for x in "garbage leftover many sequence small short large".split()], []), covers=["accepted", "rejected", "sequence", "many", "size below 8", "stream too short", "large"], 
            bounds='24 record kinds with arbitrary bodies of 0..33 bytes (11 sizes), 1, 8 or 26 bytes left over behind complete bodies, short, long and near 64 KiB, all ordered pairs of kinds followed by a third record, streams of 48 records of all kinds in 24 orders; any declared size below 8; any size above the data for 0..19 body bytes; sizes 32768..65535 selected; five ways to parse a frame; misc symbolic (in framed records).',
            outside='bodies of other sizes; longer sequences (each record is shown to leave the stream exactly behind it)'),
    "C09": dict(feature="c09", jobs=sum([J("c09_" + x) for x in "huge cut long chunks reader align unaligned unaligned_rest garbage".split()], []) + J("c09_cut2", thorough=1), covers=["huge", "cut", "long", "chunks", "reader", "align", "unaligned array", "unaligned rest", "garbage"], 
            bounds='24 record kinds with symbolic contents: every single cut (thorough: two cuts at 6 distances), 13 chunk sizes, borrowed/temporary chunks with and without remaining length, 6 reader capacities, 8 addresses; long records in 8 divisions, records of up to 65 kB in 4; arbitrary bodies of 0..40 bytes in 3 chunkings; misc symbolic (in framed records).',
            outside='more than two irregular cuts; larger variable parts'),
    "C10": dict(feature="c10", jobs=sum([J("c10_" + x) for x in "records primitives attr".split()], []), covers=["records", "primitives", "attr"], 
            bounds='24 record kinds with symbolic contents, full, empty, long and very long (up to 65 kB) variable parts, 5 ways of selecting the byte order, 3 chunkings; 15 arbitrary bytes through all primitives and conversions; attribute structures of all 9 sizes; misc symbolic (in framed records).',
            outside='the bit-field word of attribute structures in big endian (its bit order is not specified portably)'),
    "C11": dict(feature="c11", jobs=sum([J("c11_" + x) for x in "versions newer sizes short config".split()], []), covers=["attr", "newer, zero", "newer, not zero", "odd size", "short", "config"], 
            bounds='all 9 published sizes with all fields symbolic, 9 larger sizes with symbolic excess, every other 32-bit size below 136, every size above the data for 12 data lengths; 2 byte orders, 3 to 6 sources.',
            outside='larger structures with other excess lengths'),
    "C12": dict(feature="c12", jobs=sum([J("c12_" + x) for x in "attr default effect leak custom".split()], []), covers=["attr", "default", "hw_index", "sample_id_all", "leak", "custom"], 
            bounds='all 136 bytes of the attribute structure symbolic; 5 endianness constructions; pairs of records of 6x4 kinds with symbolic misc; fully symbolic configuration seen by a custom parser.',
            outside='longer sequences of records'),
    "C13": dict(feature="c13", jobs=J("c13_any", *[100 * w + 24 for w in range(15)]) + sum([J("c13_" + x) for x in "kinds borrow borrow_primitive".split()], []), covers=["accepted", "rejected", "borrowed"], 
            bounds='arbitrary 24-byte inputs and fully symbolic 64-bit counts through 15 parsers, 5 sources, 7 variable sample parts; complete records of 24 kinds, short, long and of up to 65 kB; peak of live heap memory compared with 32 KiB + 64 n; element types u8, u64, NamespaceEntry, BranchEntry.',
            outside='longer arbitrary inputs; memory used by the source itself (e.g. BufReader) counts towards the bound only after the parser is made'),
    "C14": dict(feature="c14", jobs=sum([J("c14_" + x) for x in "record long huge stream last fields parts bare lengths".split()], []) + J("c14_primitives", *range(11)), covers=["complete", "incomplete", "long", "huge", "length", "fields", "parts"], 
            bounds='every truncation of 24 record kinds (3 sample layouts), within a record, at the end of the stream and for bare record types; 8 truncations of long records, 4 of records of up to 65 kB (4 kinds); every truncation of samples that end with one of 9 variable parts of 0..8 units, of samples with any two of the 25 fields, and of 9 parts parsed by themselves (all identity subsets and read formats); arbitrary excessive lengths (64 bit) of 9 variable parts with 0..48 bytes present; 11 primitives with 0..19 bytes and symbolic counts; misc symbolic (in framed records).',
            outside='variable parts of other sizes'),
    "C15": dict(feature="c15", jobs=sum([J("c15_" + x) for x in "types only contents".split()], []), covers=["method", "variant", "default", "maps", "only"], 
            bounds='symbolic 32-bit type and 16-bit misc with 4 kinds of visitors and 22 visitors that implement a single method; 24 record kinds with symbolic contents, short and long; 2 byte orders, 3 sources.',
            outside='variable parts of other sizes'),
    "C16": dict(feature="c16", jobs=sum([J("c16_" + x) for x in "clone owned owned_group mmap2 read sample_id".split()], []), covers=["cloned", "from", "owned", "mmap2", "single", "group of one", "other group", "sample_id"], 
            bounds='24 record kinds (4 sample layouts) with symbolic contents, full, empty, long and very long (up to 65 kB) variable parts; groups of 0..3 and 40 members with all 16 flag sets; all 64 identity subsets; misc symbolic (in framed records).',
            outside='variable parts of other sizes'),
    "C17": dict(feature="c17", jobs=J("c17_iter", 2) + J("c17_iter", 3, thorough=1) + sum([J("c17_" + x) for x in "consume get by_id large".split()], []), covers=["iter", "consume", "get", "no ids", "by id, found", "by id, missing", "large"], 
            bounds='groups of 0..4 members, all sequences of 2 (thorough: 3) of next, next_back, nth, nth_back (0,1,2,usize::MAX), then all members from both ends; what is left after a step from each end consumed in 14 ways (fold, rfold, collect, rev, step_by, rposition ...); get, get_by_id, nth and nth_back with symbolic 64-bit arguments on groups up to 70 members; 4 to 16 flag sets; contents symbolic.',
            outside='longer call sequences, larger groups'),
    "C18": dict(feature="c18", jobs=sum([J("c18_" + x) for x in "branch branch_slice data_src snoop txn aux enums parsed config".split()], []), covers="branch data_src snoop txn aux enums parsed config".split(), 
            bounds="all 64-bit words (and all values of each enumeration's type), 2 byte orders.",
            outside='nothing: the words are fully symbolic'),
    "C19": dict(feature="c19", jobs=sum([J("c19_" + x) for x in "text_poke long text_lengths namespaces bpf_ksymbol unknown unknown_record".split()], []), covers=["text poke", "lengths fit", "lengths do not fit", "long", "namespaces", "bpf, ksymbol", "unknown"], 
            bounds='old and new code of 0..9 bytes each, any declared 16-bit lengths over 4..28 bytes, 0..8 namespaces, names of 0..11 bytes, unknown records of 0..19 bytes of any unknown type; selected long ones (codes up to 65400 bytes, 4080 namespaces, 65500 unknown bytes); all values symbolic; 2 byte orders, 4 sources.',
            outside='longer ones'),
    "C20": dict(feature="c20", jobs=J("c20_text", 0, 1, 12, 21, 22) + J("c20_text", 2, thorough=1) + sum([J("c20_" + x) for x in "around long hex poke fixed read sample ids enums data_src config".split()], []), covers="text around long hex poke fixed sample ids enums data_src config read".split(),
            bounds='texts of 0 and 1 arbitrary bytes and of an arbitrary byte before an ASCII one (thorough: 2 arbitrary bytes) in 5 record types, 14 character prefixes followed by 1 or 2 arbitrary bytes, an arbitrary byte before, between or after 5 surroundings; all 64-bit addresses; any two adjacent bytes of build ids of 0..20 bytes; decimal fields of one symbolic digit and selected large values; every field of a sample alone, missing and all at once; all 64 identity subsets; 8 read formats; symbolic enumeration values and flag bits; 10 long values (text of 300 characters, lists of 300 elements); the pretty form of all values except texts has the same words.',
            outside='longer arbitrary texts; decimal numbers beyond the selected ones; the inner layout of branch entries; the white space of {:#?}'),
    "C21": dict(feature="c21", jobs=J("c21_sequences", 2) + J("c21_sequences", 3, thorough=1) + sum([J("c21_" + x) for x in "huge ends long counts clone".split()], []), covers=["ended", "sequence", "long", "huge", "counts", "clone"],
            bounds='all sequences of 2 (thorough: 3) of 27 primitive calls on 24 arbitrary bytes from 6 sources, then the rest; each call at every data length 0..19 on 10 chunkings; pairs of long pieces of 2048 and 5000 bytes; pieces of 16384 to 24001 bytes, also behind another call; symbolic counts; two calls on a parser and its clone in both orders; 2 byte orders.',
            outside='longer sequences; arrays at unaligned addresses of a contiguous source in native byte order (the known finding of C09)'),
    "C22": dict(feature="c22", jobs=sum([J("c22_" + x) for x in "source kinds primitives reader reader_kinds attr custom display".split()], []), covers=["source", "kinds", "primitives", "reader", "reader kinds", "attr", "custom", "repeated, good", "repeated, bad", "display"],
            bounds="24 record kinds, each source failing after every chunk with 11 kinds of error (own, boxed, end of file, 8 I/O kinds); 8 readers' error kinds; primitives, attribute structures, custom parsers within parse_with, parse_repeated and parse_record; Display of all kinds with and without cause; payloads symbolic.",
            outside='sources that recover after an error'),
    "C23": dict(feature="c23", jobs=sum([J("c23_" + x) for x in "records offset misc garbage frames short_header contents".split()], []), covers=["agree on an error", "agree on a record", "contents", "offset"],
            bounds='24 record kinds with symbolic contents, full, empty, long and of up to 65 kB, and all misc values of 7 kinds; arbitrary bodies of 0..48 bytes; symbolic type, misc and size with 0..30 body bytes; truncated headers; 8 ways to parse a record, 5 sources, 2 byte orders; contents of 0..40 bytes read in two steps; contents of all kinds behind 0..9 bytes the parser has already read.',
            outside='variable parts of other sizes'),
}

# jobs with records near the 64 KiB limit: their paths are long, which is not a hang
for _p in PROPS.values():
    for _j in _p["jobs"]:
        if _j["entry"] in ("c03_long", "c05_huge", "c07_long", "c08_leftover", "c09_huge", "c10_records", "c13_kinds", "c13_borrow", "c14_huge", "c16_clone", "c16_owned", "c16_owned_group", "c19_long", "c21_huge", "c23_records"):
            _j["max_steps"] = 25_000_000
