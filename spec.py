#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json
import os

from props import PROPS

V = os.path.dirname(os.path.abspath(__file__))


def P(id, title, statement, over, text, why, files, mech, state=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech],
                             **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                             observe_at=["public API of the crate"], hook_needed=None))


R = "src/records/"
ALLREC = "src/records/mod.rs src/records/sample.rs src/records/read.rs src/parse.rs src/parsebuf.rs"
PROPERTIES = [
    P("C01", "No input makes parsing panic, hang, misuse memory or leak",
      "For every byte sequence, every configuration and every way of delivering the bytes, parsing records (or any single record type or attribute structure) returns a value or an error: it never panics, overflows, reads or writes outside its buffers, reads uninitialised memory, or loops for ever. Using, cloning, formatting or dropping whatever was returned is equally safe, and dropping it gives back all memory that was allocated for it. Repeatedly parsing records from a finite stream reaches its end.",
      "inputs configurations histories", "all byte sequences, header types, misc and size values, sample_type/read_format/register masks, byte orders, sources; all accessors of the result",
      "The fuzz regression tests replay a handful of recorded crashers; memory safety and termination have to hold for every input a hostile or corrupted ring buffer or file can contain.",
      "src/parse.rs src/parsebuf.rs src/util/cow.rs src/records/sample.rs src/records/read.rs src/records/mmap2.rs src/records/mod.rs src/impls/perf_event_attr.rs",
      [("checked reads", "src/parse.rs Parser::parse_bytes / parse_bytes_direct / parse_slice_direct (unsafe transmutes)"), ("bounded cursor", "src/parsebuf.rs ParseBufCursor"), ("capacity bound", "src/parse.rs safe_capacity_bound")]),
    P("C02", "Fixed-layout records decode to exactly the values the kernel wrote",
      "For LOST, EXIT, FORK, THROTTLE, UNTHROTTLE, AUX, ITRACE_START, LOST_SAMPLES, SWITCH, SWITCH_CPU_WIDE, BPF_EVENT and AUX_OUTPUT_HW_ID records written in the kernel's layout, the decoded record is the variant of its type and every field has exactly the written value, whatever the values, the byte order, the trailing sample_id and the way the bytes are delivered. The direction of a cpu-wide switch follows the switch-out bit of the record's header. Decoding one of these record types on its own, without a frame, gives the same values.",
      "inputs configurations", "all field values and misc bits, both byte orders, with and without sample_id trailers, contiguous and chunked sources",
      "Unit tests decode one or two recorded records for a few of these types in one byte order; field swaps, truncated widths or values with high bits set go unnoticed.",
      R + "lost.rs " + R + "exit.rs " + R + "throttle.rs " + R + "aux_record.rs " + R + "itrace_start.rs " + R + "lost_samples.rs " + R + "switch_cpu_wide.rs " + R + "bpf_event.rs " + R + "aux_output_hw_id.rs src/parse.rs",
      [("record parsers", R + "*.rs impl Parse"), ("dispatch on the type", "src/parse.rs parse_record_with_header")]),
    P("C03", "Text-carrying records keep every byte of their text",
      "MMAP, MMAP2, COMM, KSYMBOL and CGROUP records decode to the written numeric fields and to the written text with exactly its trailing NUL padding removed: no other byte is dropped, added or changed, whatever the bytes are and however long the text is, including when it is empty. MMAP2 records expose either the device/inode fields or the build id, as the header says, with the build id having exactly its declared length; a declared length over 20 is an invalid record.",
      "inputs configurations", "all field values, all texts of the explored lengths, misc bits, build-id lengths, byte orders, sources",
      "Tests use a few ASCII names; interior NULs, missing terminators, empty names, names cut by chunk borders and odd build-id lengths are never tried.",
      R + "mmap.rs " + R + "mmap2.rs " + R + "comm.rs " + R + "ksymbol.rs " + R + "cgroup.rs src/parse.rs",
      [("NUL trimming", "src/parse.rs Parser::parse_rest_trim_nul"), ("build id branch", R + "mmap2.rs impl Parse for Mmap2")]),
    P("C04", "SAMPLE fields are present exactly when requested, with the written value",
      "A SAMPLE record written for a given sample_type exposes each field (ip, pid, tid, time, addr, id, stream id, cpu, period, weight, data source, transaction, physical address, cgroup, data and code page size and the variable-length ones) if and only if it was requested, with exactly the value the kernel wrote. Fields follow one another in the kernel's order, so no combination of requested fields shifts, swaps or loses another one; id falls back to the identifier field when only that was requested.",
      "inputs configurations", "all combinations of the fixed-size fields in the explored groups, all pairs of fields, all values, byte orders, sources",
      "2^25 combinations of fields; tests contain about three of them.",
      R + "sample.rs src/config.rs src/flags.rs", [("conditional field parsing in ABI order", R + "sample.rs impl Parse for Sample")]),
    P("C05", "Variable-length parts of a SAMPLE are decoded exactly",
      "Call chain, raw data, branch stack (with or without hardware index), user and interrupt registers, user stack, and AUX data of a SAMPLE have exactly the written length and contents, and the fields behind them are still decoded correctly, for every combination of those parts and every length including zero. Registers are as many as the configured mask has bits, and none if the sample says it has no registers. The user stack is cut to its dynamic size, and a dynamic size beyond the dumped size is rejected as an invalid record.",
      "inputs configurations", "all lengths within the bound, all contents, all register masks explored, byte orders, sources",
      "Tests have one sample with a short call chain; empty, padded, chunk-crossing and combined parts are not exercised.",
      R + "sample.rs src/parse.rs src/util/cow.rs", [("variable-length parsing", R + "sample.rs impl Parse for Sample, Registers, BranchEntry"), ("splitting", "src/util/cow.rs CowSliceExt::split_at")]),
    P("C06", "READ and group counter values follow read_format exactly",
      "Counter values in READ records, in single values, in groups and in samples expose the value, the enabled and running times, the id and the lost count if and only if read_format asks for them, each with exactly the written number, for every combination of flags and any number of group members. A read_format with flags the crate does not know is rejected as unsupported rather than misread, and so is a group-format READ record.",
      "inputs configurations", "all 32 combinations of known flags and every unknown bit, all values, group sizes within the bound",
      "Tests cover two read formats.", R + "read.rs src/config.rs", [("flag-dependent layout", R + "read.rs impl Parse for ReadValue / ReadGroup / Read, GroupIter")]),
    P("C07", "The sample_id trailer is attached to the right record with the right fields",
      "With sample_id_all every record except MMAP and SAMPLE carries the identity fields selected by sample_type at its very end, and the record's metadata exposes exactly those (id falling back to the identifier), plus the record's type and misc value; the trailer is never mistaken for part of the record, even if the body is longer than the crate knows. Without sample_id_all, and for MMAP and SAMPLE, the metadata has no identity fields. A record too small for its trailer is rejected as invalid.",
      "inputs configurations", "all record types, all 64 field subsets, all values, byte orders, sources, body lengths",
      "Tests contain one record with one combination of identity fields.",
      "src/parse.rs " + R + "mod.rs", [("splitting record and trailer", "src/parse.rs parse_metadata_with_header"), ("trailer length", R + "mod.rs SampleId::estimate_len")]),
    P("C08", "Each record consumes exactly its declared size; the stream stays in sync",
      "After parsing a record the parser is positioned exactly behind the record's declared size, whether its contents were understood, partly consumed, ignored, too long, too short or malformed, so the following records are decoded as if they stood alone. A declared size below that of the header is rejected as an invalid record, a record extending beyond the stream as end of file, and an exhausted stream reports end of file.",
      "inputs histories configurations", "all record types, arbitrary bodies, sizes from 0 to 65535, sequences of records",
      "Tests parse single well-formed records; resynchronisation after malformed ones, and over-long ones, is not covered.",
      "src/parse.rs src/parsebuf.rs", [("framing", "src/parse.rs parse_metadata_with_header, Parser::split_at"), ("bounded cursor", "src/parsebuf.rs ParseBufCursor")]),
    P("C09", "The result does not depend on how the bytes are delivered",
      "The same bytes give the same records, metadata and errors whether they come as one slice, in chunks cut at any position, in borrowed or temporary chunks, through a buffered reader of any capacity, with or without a known remaining length, and at any memory address.",
      "inputs configurations", "every record kind with arbitrary contents, every single cut position, small chunk sizes, reader capacities, addresses modulo 8",
      "Tests always hand over one contiguous slice.", "src/parsebuf.rs src/parse.rs src/util/cow.rs",
      [("chunk gathering", "src/parse.rs Parser::parse_bytes and fast path parse_bytes_direct"), ("cursor", "src/parsebuf.rs ParseBufCursor, impl for BufReader"), ("aligned fast path", "src/parse.rs parse_slice_direct")]),
    P("C10", "Byte order: the same record in either order decodes to the same values",
      "A record or attribute structure written in little or big endian decodes to the same values when the matching byte order is selected, whichever way it is selected (fixed, native or chosen at run time) and also on the fast paths for native data. Byte strings are never swapped.",
      "inputs configurations", "all record kinds with arbitrary values, five ways of selecting the order, contiguous and chunked",
      "Tests only parse little-endian data.", "src/endian.rs src/parse.rs " + R + "sample.rs", [("conversions", "src/endian.rs"), ("native fast path", "src/parse.rs parse_slice")]),
    P("C11", "perf_event_attr structures of every version are decoded faithfully",
      "An attribute structure of any published size decodes to exactly its written fields, with the fields it does not have being zero, and consumes exactly its declared size. A structure larger than the known ones is accepted if and only if the excess is zero (otherwise it is unsupported data), any other size is an invalid record, and an incomplete structure is an error.",
      "inputs", "all nine published sizes, larger and odd sizes, all field values, byte orders, sources",
      "The tests decode one structure.", "src/impls/perf_event_attr.rs src/parse.rs", [("size dispatch", "src/impls/perf_event_attr.rs impl Parse")]),
    P("C12", "The parser configuration mirrors the attributes and is never changed by parsing",
      "A configuration made from event attributes reports and applies exactly their sample_type, read_format, register masks, sample_id_all and branch hardware-index settings, and keeps doing so when its byte order is changed or it is cloned. Parsing a record does not alter the parser's configuration, and nothing of one record's header influences how another record is parsed. Custom parsers inside a record see the same configuration.",
      "inputs configurations histories", "all attribute contents, pairs of consecutive records with arbitrary misc values",
      "Tests use two or three configurations and never parse two records with different headers from one parser.",
      "src/config.rs src/parse.rs", [("conversion from attributes", "src/config.rs impl From<perf_event_attr>"), ("per-record configuration", "src/parse.rs parse_metadata_with_header / ParseConfig::with_misc")],
      [("ParseConfig", "sample_type, read_format, masks, misc of the current record", "src/config.rs")]),
    P("C13", "Memory use is bounded by the input; contiguous borrowed data is not copied",
      "Parsing n bytes never has more than 64 n bytes plus 32 KiB allocated at once, whatever lengths and counts the data claims and whatever the source. Byte strings parsed from a contiguous borrowed buffer, and arrays in native byte order and suitably aligned, refer to that buffer instead of being copied.",
      "inputs configurations", "arbitrary data, all claimed counts up to 2^64-1, all sources explored",
      "Tests cannot enumerate claimed lengths; a missing clamp shows only as an out-of-memory for a hostile count.",
      "src/parse.rs src/parsebuf.rs", [("capacity bound", "src/parse.rs safe_capacity_bound / parse_repeated / parse_bytes"), ("borrowing", "src/parse.rs parse_bytes_direct, parse_slice_direct")]),
    P("C14", "Incomplete data is an error, never a record",
      "If a record's declared size, or the end of the data, leaves out any byte that the record's type and configuration need, or a length inside it exceeds what is there, parsing reports end of file or an invalid record instead of returning a record with missing, padded or foreign bytes. Data of other records behind it is never used to complete it. The primitive parsers likewise fail if and only if fewer bytes remain than they need.",
      "inputs configurations", "every truncation point of every record kind, arbitrary claimed lengths up to 2^64-1",
      "Tests have no truncated input.", ALLREC, [("bounds on every read", "src/parse.rs Parser::parse_bytes, src/parsebuf.rs ParseBufCursor")]),
    P("C15", "Visitors: each record reaches exactly the method of its type",
      "For every value of the type field, a visitor gets exactly one call: the method of that record type, or the unknown-record method for all other values, with the decoded record and its metadata. Methods that are not overridden end in the unimplemented method with the same metadata, except that an MMAP2 record reaches the MMAP method as the equivalent MMAP record. The record enum produced for the same data agrees with what a visitor sees.",
      "inputs configurations", "all 2^32 type values, all record kinds with arbitrary contents",
      "Tests check the dispatch of two types.", "src/visitor.rs src/parse.rs " + R + "mod.rs", [("dispatch", "src/parse.rs parse_record_with_header"), ("defaults", "src/visitor.rs"), ("enum visitor", R + "mod.rs RecordVisitor")]),
    P("C16", "Conversions preserve contents",
      "Cloning a record, converting a record type into the record enum, turning borrowed data into owned data, converting MMAP2 to MMAP, and converting between single and group counter values keep every observable value. A group converts to a single value exactly if it has one member, and the conversion of any other group is refused. Owned results stay valid and unchanged after the source buffer is gone.",
      "inputs configurations", "all record kinds with arbitrary contents, group sizes within the bound",
      "Tests do not call most conversions.", R + "read.rs " + R + "mmap2.rs " + R + "mod.rs src/util/cow.rs src/macros.rs", [("From/TryFrom/into_owned", R + "read.rs, mmap2.rs, mod.rs")]),
    P("C17", "Group iteration, indexing and lookup agree",
      "For every counter group, the iterator yields each member once and in order from the front, the back or any mix of both, its reported length is always the exact number left, nth and nth_back skip as documented, and an exhausted iterator stays exhausted. Indexed access returns the same member as iteration and nothing beyond the end; lookup by id returns the first member with that id, or nothing if there is none or ids were not recorded.",
      "inputs histories configurations", "all interleavings of iterator calls within the bound, all group contents, all entry layouts",
      "Tests iterate one group forwards.", R + "read.rs", [("GroupIter", R + "read.rs impl Iterator/DoubleEndedIterator/ExactSizeIterator for GroupIter"), ("lookup", R + "read.rs ReadGroup::get / get_by_id")]),
    P("C18", "Bit fields, flags and enumerations have the kernel's encoding",
      "Every accessor of branch entries, memory data sources, transaction words, AUX flags and the flags and enumerations of symbols, BPF events, register ABIs, sample and read formats extracts exactly the bits the kernel ABI assigns to it, for every word and in both byte orders; unknown bits and values are kept. Named constants have the kernel's values.",
      "inputs", "all 64-bit words", "A test samples a few words at best; a wrong shift or mask is visible only for particular bits.",
      R + "sample.rs " + R + "aux_record.rs src/flags.rs src/macros.rs", [("bit fields", R + "sample.rs BranchEntry, DataSource, Txn"), ("constants", "src/flags.rs, src/macros.rs")]),
    P("C19", "Kernel-code, namespace and unknown records are kept faithfully",
      "TEXT_POKE records yield the address and exactly the old and new bytes of their declared lengths; NAMESPACES records yield all entries in order and each named accessor returns the entry of that namespace, or nothing if the kernel did not send it. BPF and symbol records keep unknown types and flags. A record of a type the crate does not know is handed over with its type and all its bytes, without the trailer.",
      "inputs configurations", "all values, byte lengths and entry counts within the bound, all unknown types",
      "Tests cover one namespaces record and no unknown one.", R + "text_poke.rs " + R + "namespaces.rs " + R + "bpf_event.rs " + R + "ksymbol.rs " + R + "mod.rs src/parse.rs", [("parsers and accessors", R + "text_poke.rs, namespaces.rs"), ("unknown records", "src/parse.rs parse_record_with_header")]),
    P("C20", "Debug output shows exactly the decoded values",
      "Formatting a record or one of its parts with {:?} succeeds and shows its type and every field by name with its value: text in double quotes, its characters escaped like char::escape_debug and bytes that are no UTF-8 as \\xNN; build ids as exactly their bytes in upper-case hexadecimal; addresses of samples, mappings, kernel symbols and text pokes as 0x and at least 14 upper-case hexadecimal digits; enumeration values by name, or number if they have none; flag sets by name, with unnamed bits in hexadecimal. Optional fields appear if and only if they were recorded. The same holds for read values and groups, sample identities, record metadata and configurations. The pretty form {:#?} shows the same words.",
      "inputs", "all texts of the explored lengths (valid and invalid UTF-8), all build ids, addresses and counters, all subsets of optional fields explored",
      "Tests do not look at formatted output for arbitrary bytes.", "src/util/fmt.rs src/macros.rs src/config.rs " + R + "sample.rs " + R + "read.rs " + R + "mod.rs " + R + "mmap2.rs", [("formatting helpers", "src/util/fmt.rs ByteStr, HexStr, HexAddr"), ("hand-written Debug", R + "sample.rs, read.rs, mod.rs, mmap2.rs")]),
    P("C21", "Parser primitives return exactly the next bytes and advance by exactly that much",
      "Reading integers, byte arrays, byte strings, slices, repeated values, the rest of the data (with or without trailing NULs) or the event header returns exactly the next bytes in the configured order and moves the parser forward by exactly their number, in any sequence of calls. Conditional reads consume nothing and return nothing when the condition is false. A cloned parser and its original advance independently.",
      "inputs histories configurations", "all data of the explored lengths, sequences of up to three primitives, all sources explored",
      "Tests use primitives only implicitly on a few inputs.", "src/parse.rs src/parsebuf.rs", [("primitives", "src/parse.rs impl Parser")]),
    P("C22", "Errors: right kind, right cause, forwarded unchanged",
      "An error reported by the data source at any point reaches the caller unchanged instead of being swallowed, replaced or turned into data; an I/O error of a reader keeps its cause and is an external error, except that an unexpected end is reported as end of file. An error made from another error keeps kind and cause, and shows both; errors made by custom parsers pass through records and visitors unchanged.",
      "inputs fault_sequences", "a source failing after any number of bytes, with any error kind, for every record kind",
      "Tests have no failing source.", "src/error.rs src/parsebuf.rs src/parse.rs", [("error conversions", "src/error.rs"), ("propagation", "src/parse.rs, src/parsebuf.rs BufReader impl")]),
    P("C23", "The separate steps of record parsing agree with parsing in one go",
      "Parsing the header first and then the record with that header, or splitting off the frame and metadata and then parsing the contents as the expected type or with a custom parser, gives the same record, metadata, error and stream position as parsing the record at once. A custom parser sees exactly the record's contents, without header and trailer, and an end of file behind them. Contents parse alike wherever in the parser's data they start.",
      "inputs configurations", "all record kinds with arbitrary contents and arbitrary malformed bodies, byte orders, sources",
      "Tests only use the one-step entry point.", "src/parse.rs " + R + "mod.rs", [("entry points", "src/parse.rs parse_record, parse_record_with_header, parse_metadata, parse_metadata_with_header; " + R + "mod.rs Record::parse_with_header")]),
]
NOT_APPLICABLE = {}

TECH = "symbolic execution of the compiled LLVM IR of the crate (whole program, from /repo's current source), assertions decided by z3, counterexamples replayed natively"


def main():
    claimed = [p for p in PROPERTIES if p["id"] in PROPS]
    listed = [p for p in PROPERTIES if p["id"] in PROPS or p["id"] in NOT_APPLICABLE]
    with open(V + "/properties.jsonl", "w") as f:
        for p in listed:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = dict(
        version=1,
        setup_cmd="python3 check.py --setup",
        checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                     technique=TECH, level="model_checking",
                     level_note="Every input within the bounds, decided by z3 on the compiled code: " + PROPS[p["id"]]["bounds"]
                     + " Trusts rustc's IR (opt-level 1, fat LTO, checks on), the engine's IR semantics (sampled paths are re-run natively), its term simplifier and z3.")
                for p in claimed],
        not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
        notes="No hooks in /repo: only the public API is used. See DESIGN.md.",
    )
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
    print(len(claimed), "claimed")


main()
