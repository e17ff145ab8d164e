#!/usr/bin/env python3
"""Definitions of the planted bugs (development tool; writes /tmp/s/new/<id>/ for plant.py)."""
import json, os, sys

PRE = r'''#![allow(unused)]
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};
use std::borrow::Cow;
use std::error::Error;
use std::io::{BufReader, Read as _};

#[derive(Default)]
struct W(Vec<u8>);
impl W {
    fn b(mut self, x: &[u8]) -> W { self.0.extend_from_slice(x); self }
    fn h(self, x: u16) -> W { self.b(&x.to_le_bytes()) }
    fn w(self, x: u32) -> W { self.b(&x.to_le_bytes()) }
    fn q(self, x: u64) -> W { self.b(&x.to_le_bytes()) }
}
fn w() -> W { W::default() }
fn rec(ty: u32, misc: u16, body: W) -> Vec<u8> {
    w().w(ty).h(misc).h(8 + body.0.len() as u16).b(&body.0).0
}
fn cfg(st: u64, rf: u64) -> ParseConfig<Little> {
    let mut a = perf_event_attr::default();
    a.sample_type = st;
    a.read_format = rf;
    ParseConfig::from(a)
}
fn cfg_all(st: u64) -> ParseConfig<Little> {
    let mut a = perf_event_attr::default();
    a.sample_type = st;
    a.set_sample_id_all(1);
    ParseConfig::from(a)
}
/// Aligned copy of the data.
fn al(d: &[u8]) -> Vec<u64> {
    let mut v = vec![0u64; d.len() / 8 + 1];
    for (i, b) in d.iter().enumerate() { v[i / 8] |= (*b as u64) << (8 * (i % 8)); }
    v
}
fn bytes(v: &[u64], n: usize) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, n) }
}
'''
BUGS = {}


def bug(i, prop, needs, what, edits, main):
    BUGS[i] = dict(property=prop, needs=needs, what_it_breaks=what, edits=edits, main=main)


bug("c02-switch-exact", "C02", "a cpu-wide switch-out record whose header has another misc bit set as well (preemption, cpu mode)",
    "the direction of a context switch is reported as in instead of out",
    [["src/records/switch_cpu_wide.rs", "if p.config().misc() & PERF_RECORD_MISC_SWITCH_OUT as u16 != 0 {", "if p.config().misc() == PERF_RECORD_MISC_SWITCH_OUT as u16 {"]],
    r'''fn main() {
    let d = rec(15, 0x2000 | 0x4000 | 2, w().w(7).w(8));
    match Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap() {
        Record::SwitchCpuWide(SwitchCpuWide::Out { pid: 7, tid: 8 }) => (),
        r => panic!("{r:?}"),
    };
}''')
bug("c03-first-nul", "C03", "a text with a NUL byte in the middle (abstract socket names, binary comm names) or behind which more text follows",
    "the text is cut at its first NUL byte instead of only losing its padding",
    [["src/parse.rs", """        let mut rest = &*bytes;
        while let Some((b'\\0', head)) = rest.split_last() {
            rest = head;
        }

        bytes.truncate(rest.len());""", """        let len = bytes.iter().position(|&b| b == b'\\0').unwrap_or(bytes.len());

        bytes.truncate(len);"""]],
    r'''fn main() {
    let d = rec(3, 0, w().w(1).w(2).b(b"\0ab\0c\0\0\0"));
    match Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap() {
        Record::Comm(c) => assert_eq!(&c.comm[..], b"\0ab\0c"),
        r => panic!("{r:?}"),
    };
}''')
bug("c04-page-order", "C04", "a sample with both the data and the code page size",
    "data_page_size and code_page_size are exchanged",
    [["src/records/sample.rs", """        let data_page_size = p.parse_if(sty.contains(SampleFlags::DATA_PAGE_SIZE))?;
        let code_page_size = p.parse_if(sty.contains(SampleFlags::CODE_PAGE_SIZE))?;
""", """        let code_page_size = p.parse_if(sty.contains(SampleFlags::CODE_PAGE_SIZE))?;
        let data_page_size = p.parse_if(sty.contains(SampleFlags::DATA_PAGE_SIZE))?;
"""]],
    r'''fn main() {
    let d = rec(9, 0, w().q(4096).q(8192));
    match Parser::new(&d[..], cfg(3 << 22, 0)).parse::<Record>().unwrap() {
        Record::Sample(s) => { assert_eq!(s.data_page_size(), Some(4096)); assert_eq!(s.code_page_size(), Some(8192)) }
        r => panic!("{r:?}"),
    };
}''')
bug("c05-empty-lbr", "C05", "an empty branch stack together with PERF_SAMPLE_BRANCH_HW_INDEX and a field behind it",
    "the hardware index of an empty branch stack is not consumed, so it is missing and every later field is misread",
    [["src/records/sample.rs", "            let hw_index = p.parse_if(branch_hw_index)?;", "            let hw_index = p.parse_if(branch_hw_index && nr != 0)?;"]],
    r'''fn main() {
    let mut a = perf_event_attr::default();
    a.sample_type = 1 << 11 | 1 << 21;
    a.branch_sample_type = 1 << 17;
    let c: ParseConfig<Little> = ParseConfig::from(a);
    let d = rec(9, 0, w().q(0).q(55).q(77));
    match Parser::new(&d[..], c).parse::<Record>().unwrap() {
        Record::Sample(s) => { assert_eq!(s.lbr_hw_index(), Some(55)); assert_eq!(s.cgroup(), Some(77)) }
        r => panic!("{r:?}"),
    };
}''')
bug("c06-lost-before-id", "C06", "a single counter read with both PERF_FORMAT_ID and PERF_FORMAT_LOST",
    "id and number of lost samples are exchanged",
    [["src/records/read.rs", """            id: p
                .parse_if(read_format.contains(ReadFormat::ID))?
                .unwrap_or(0),
            lost: p
                .parse_if(read_format.contains(ReadFormat::LOST))?
                .unwrap_or(0),
""", """            lost: p
                .parse_if(read_format.contains(ReadFormat::LOST))?
                .unwrap_or(0),
            id: p
                .parse_if(read_format.contains(ReadFormat::ID))?
                .unwrap_or(0),
"""]],
    r'''fn main() {
    let d = rec(8, 0, w().w(1).w(2).q(100).q(33).q(44));
    match Parser::new(&d[..], cfg(0, 4 | 16)).parse::<Record>().unwrap() {
        Record::Read(r) => { assert_eq!(r.values.id(), Some(33)); assert_eq!(r.values.lost(), Some(44)) }
        r => panic!("{r:?}"),
    };
}''')
bug("c07-read-trailer", "C07", "a READ record with sample_id_all",
    "the sample_id behind READ records is not parsed, its fields are missing",
    [["src/parse.rs", "            PERF_RECORD_MMAP | PERF_RECORD_SAMPLE => (rp, SampleId::default()),", "            PERF_RECORD_MMAP | PERF_RECORD_READ | PERF_RECORD_SAMPLE => (rp, SampleId::default()),"]],
    r'''struct V;
impl<'a> Visitor<'a> for V {
    type Output = RecordMetadata;
    fn visit_unimplemented(self, m: RecordMetadata) -> RecordMetadata { m }
}
fn main() {
    let d = rec(8, 0, w().w(1).w(2).q(100).q(0x1234));
    let m = Parser::new(&d[..], cfg_all(1 << 2)).parse_record(V).unwrap();
    assert_eq!(m.sample_id().time(), Some(0x1234));
}''')
bug("c08-short-trailer", "C08", "a record too small for its sample_id followed by another record",
    "the bad record is not skipped: the next record is read from the middle of it",
    [["src/parse.rs", """        let mut rp = self.split_at(data_len)?;
        // MMAP and""", """        if !matches!(header.type_, PERF_RECORD_MMAP | PERF_RECORD_SAMPLE)
            && data_len < SampleId::estimate_len(self.config())
        {
            return Err(ParseError::custom(
                ErrorKind::InvalidRecord,
                "config has sample_id_all bit set but record does not have enough data to store the sample_id",
            ));
        }

        let mut rp = self.split_at(data_len)?;
        // MMAP and"""]],
    r'''fn main() {
    let mut d = rec(2, 0, w().q(1));
    d.extend(rec(13, 0, w().q(99).q(5).q(6)));
    let mut p = Parser::new(&d[..], cfg_all(1 << 2 | 1 << 6));
    assert!(p.parse::<Record>().is_err());
    match p.parse::<Record>().unwrap() {
        Record::LostSamples(r) => assert_eq!(r.lost, 99),
        r => panic!("{r:?}"),
    };
}''')
CHUNKS = r'''
struct Chunks<'a>(Vec<&'a [u8]>);
unsafe impl<'a> ParseBuf<'a> for Chunks<'a> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'a>> {
        self.0.first().copied().map(ParseBufChunk::External).ok_or_else(ParseError::eof)
    }
    fn advance(&mut self, mut n: usize) {
        while n > 0 {
            let k = n.min(self.0[0].len());
            self.0[0] = &self.0[0][k..];
            n -= k;
            if self.0[0].is_empty() { self.0.remove(0); }
        }
    }
}
'''
bug("c09-four-chunks", "C09", "a SAMPLE or MMAP record that arrives in four or more pieces (other records are split twice, which undoes it)",
    "the pieces of a record that is spread over more than three chunks are put together in the wrong order",
    [["src/parsebuf.rs", "        chunks.reverse();\n", """        // The next chunk to read is kept at the end.
        if let Some(last) = chunks.len().checked_sub(1) {
            chunks.swap(0, last);
        }
"""]],
    CHUNKS + r'''fn main() {
    let d = rec(9, 0, w().q(0x1111).q(0x2222).q(0x3333).q(0x4444));
    let v: Vec<&[u8]> = d.chunks(8).collect();
    match Parser::new(Chunks(v), cfg(1 | 4 | 8 | 1 << 21, 0)).parse::<Record>().unwrap() {
        Record::Sample(r) => { assert_eq!(r.ip(), Some(0x1111)); assert_eq!(r.time(), Some(0x2222)); assert_eq!(r.addr(), Some(0x3333)) }
        r => panic!("{r:?}"),
    };
}''')
bug("c10-branch-flags", "C10", "a branch stack in the byte order that is not the host's",
    "the flag word of branch entries is not converted from the byte order of the data",
    [["src/records/sample.rs", "            _bitfield_1: __BindgenBitfieldUnit::new(u64::to_ne_bytes(p.parse()?)),", "            _bitfield_1: __BindgenBitfieldUnit::new(p.parse()?),"]],
    r'''fn main() {
    let mut a = perf_event_attr::default();
    a.sample_type = 1 << 11;
    let c = ParseConfig::<Big>::from(a);
    let mut d = vec![0, 0, 0, 9, 0, 0, 0, 40];
    for x in [1u64, 2, 3, 1 | 7 << 4] { d.extend(x.to_be_bytes()) }
    match Parser::new(&d[..], c).parse::<Record>().unwrap() {
        Record::Sample(s) => { let b = s.lbr().unwrap()[0]; assert!(b.mispred()); assert_eq!(b.cycles(), 7) }
        r => panic!("{r:?}"),
    };
}''')
bug("c11-zero-tail", "C11", "a perf_event_attr more than eight bytes larger than the known one, with a set bit behind the first eight bytes",
    "an attribute structure with unknown fields in use is accepted",
    [["src/impls/perf_event_attr.rs", "            let all_zeros = rest.iter().copied().all(|b| b == 0);", """            let all_zeros = rest
                .chunks_exact(std::mem::size_of::<u64>())
                .next()
                .map_or(true, |field| field.iter().copied().all(|b| b == 0));"""]],
    r'''fn main() {
    let mut d = vec![0u8; 160];
    d[4] = 160;
    d[150] = 1;
    let r = Parser::new(&d[..], cfg(0, 0)).parse::<perf_event_attr>();
    assert_eq!(r.unwrap_err().kind(), ErrorKind::UnsupportedData);
}''')
bug("c12-high-format", "C12", "a read_format with an unknown flag in its upper half",
    "unknown read_format flags above bit 31 are forgotten by the configuration",
    [["src/config.rs", "            ((read_format.bits() >> Self::READ_FORMAT_WIDTH != 0) as u64)", "            ((read_format.bits() as u32 >> Self::READ_FORMAT_WIDTH != 0) as u64)"]],
    r'''fn main() {
    let c = cfg(0, 1 << 40);
    assert!(!(c.read_format() - ReadFormat::all()).is_empty());
    let d = w().q(5).q(6).0;
    let e = Parser::new(&d[..], c).parse::<ReadValue>();
    assert_eq!(e.unwrap_err().kind(), ErrorKind::UnsupportedConfig);
}''')
ALLOC = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let x = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(x, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
'''
bug("c13-capacity-elements", "C13", "an array with an absurd length in data from a source that does not know its length (a reader)",
    "the number of elements reserved up front is bounded instead of the number of bytes, so a 16-byte input makes the parser reserve hundreds of kilobytes",
    [["src/parse.rs", "        self.data.remaining_hint().unwrap_or(DEFAULT_LEN) / size", """        match self.data.remaining_hint() {
            Some(remaining) => remaining / size,
            None => DEFAULT_LEN,
        }"""]],
    ALLOC + r'''fn main() {
    let d = w().q(u64::MAX).q(1).0;
    let mut p = Parser::new(BufReader::with_capacity(64, &d[..]), cfg(0, 0));
    let live = LIVE.load(SeqCst);
    PEAK.store(live, SeqCst);
    let r = p.parse_repeated::<NamespaceEntry>(usize::MAX);
    assert!(r.is_err());
    let peak = PEAK.load(SeqCst) - live;
    assert!(peak <= 32768 + 64 * d.len(), "{peak} bytes");
}''')
bug("c14-short-stack", "C14", "a user stack whose dynamic size exceeds the dumped bytes",
    "an impossible stack size is silently clamped instead of rejected",
    [["src/records/sample.rs", """            if dyn_size > data.len() {
                return Err(ParseError::custom(
                    ErrorKind::InvalidRecord,
                    "stack dyn_size was greater than the record size",
                ));
            }
""", """            let dyn_size = dyn_size.min(data.len());
"""]],
    r'''fn main() {
    let d = rec(9, 0, w().q(8).q(0x4141).q(9));
    let r = Parser::new(&d[..], cfg(1 << 13, 0)).parse::<Record>();
    assert_eq!(r.unwrap_err().kind(), ErrorKind::InvalidRecord);
}''')
bug("c15-mmap2-default", "C15", "a visitor that handles visit_mmap only, and an MMAP2 record",
    "MMAP2 records are no longer passed to visit_mmap by default",
    [["src/visitor.rs", "        self.visit_mmap(record.into_mmap(), metadata)", "        self.visit_unimplemented(metadata)"]],
    r'''struct V;
impl<'a> Visitor<'a> for V {
    type Output = bool;
    fn visit_unimplemented(self, m: RecordMetadata) -> bool { false }
    fn visit_mmap(self, r: Mmap<'a>, m: RecordMetadata) -> bool { r.addr == 3 }
}
fn main() {
    let d = rec(10, 0, w().w(1).w(2).q(3).q(4).q(5).w(6).w(7).q(8).q(9).w(1).w(2).b(b"x\0\0\0\0\0\0\0"));
    assert!(Parser::new(&d[..], cfg(0, 0)).parse_record(V).unwrap());
}''')
bug("c16-group-of-value", "C16", "a counter value with both id and lost count turned into a group",
    "id and lost count are exchanged when a single value is converted to a group",
    [["src/records/read.rs", """        data.extend(value.id());
        data.extend(value.lost());
""", """        data.extend(value.lost());
        data.extend(value.id());
"""]],
    r'''fn main() {
    let d = w().q(1).q(2).q(3).0;
    let v: ReadValue = Parser::new(&d[..], cfg(0, 4 | 16)).parse().unwrap();
    let g = ReadGroup::from(v);
    let e = g.get(0).unwrap();
    assert_eq!((e.id(), e.lost()), (Some(2), Some(3)));
}''')
bug("c17-sorted-ids", "C17", "a group whose ids are not in ascending order",
    "looking up a counter by id stops at the first larger id and misses later members",
    [["src/records/read.rs", "        self.entries().find(|entry| entry.id() == Some(id))", """        // The kernel hands out ids in ascending order.
        self.entries()
            .find(|entry| entry.id() >= Some(id))
            .filter(|entry| entry.id() == Some(id))"""]],
    r'''fn main() {
    let d = w().q(2).q(10).q(9).q(20).q(5).0;
    let v = al(&d);
    let g: ReadGroup = Parser::new(bytes(&v, d.len()), cfg(0, 8 | 4)).parse().unwrap();
    assert_eq!(g.get_by_id(5).map(|e| e.value()), Some(20));
}''')
bug("c18-cycles", "C18", "a branch whose cycle count needs more than 8 bits",
    "the cycle count of a branch is cut to 8 bits",
    [["src/records/sample.rs", "        self.0.cycles() as _\n", "        self.0.cycles() as u8 as _\n"]],
    r'''fn main() {
    let d = w().q(1).q(2).q(300 << 4).0;
    let b: BranchEntry = Parser::new(&d[..], cfg(0, 0)).parse().unwrap();
    assert_eq!(b.cycles(), 300);
}''')
bug("c19-poke-padding", "C19", "a TEXT_POKE whose old and new code together have a length of 4 modulo 8 (no padding)",
    "such a record is rejected although it is complete",
    [["src/records/text_poke.rs", "        vm if vm <= k => k - vm,\n        vm if vm > k => (k + m) - vm,", "        vm if vm < k => k - vm,\n        vm if vm >= k => (k + m) - vm,"]],
    r'''fn main() {
    let d = rec(20, 0, w().q(1).h(2).h(2).b(b"abcd"));
    match Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap() {
        Record::TextPoke(r) => { assert_eq!(&r.old_bytes[..], b"ab"); assert_eq!(&r.new_bytes[..], b"cd") }
        r => panic!("{r:?}"),
    };
}''')

bug("c20-truncated-tail", "C20", "a text that ends in the middle of a UTF-8 sequence",
    "the bytes of an incomplete character at the end of a text are not shown",
    [["src/util/fmt.rs", "                        e.error_len().unwrap_or(data.len() - e.valid_up_to()),", "                        e.error_len().unwrap_or_else(|| {\n                            // nothing follows an incomplete character\n                            data = &data[..e.valid_up_to()];\n                            0\n                        }),"]],
    r'''fn main() {
    let d = rec(3, 0, w().w(1).w(2).b(b"ab\xE2\x82\0\0\0\0"));
    let r = Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap();
    let t = format!("{r:?}");
    assert!(t.contains(r#""ab\xe2\x82""#), "{t}");
}''')
bug("c20-quote", "C20", "a text with a double quote in it (or another printable character that escape_debug escapes)",
    "quotes within a text are not escaped",
    [["src/util/fmt.rs", "            for c in text.chars().flat_map(|c| c.escape_debug()) {\n                f.write_char(c)?;\n            }", "            for c in text.chars() {\n                if c.is_control() || c == '\\\\' {\n                    write!(f, \"{}\", c.escape_debug())?;\n                } else {\n                    f.write_char(c)?;\n                }\n            }"]],
    r'''fn main() {
    let d = rec(3, 0, w().w(1).w(2).b(b"a\"b\0\0\0\0\0"));
    let r = Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap();
    let t = format!("{r:?}");
    assert!(t.contains(r#""a\"b""#), "{t}");
}''')
bug("c20-zero-id", "C20", "a counter value with PERF_FORMAT_ID set whose id is 0",
    "a recorded id is left out of the output when it is 0",
    [["src/records/read.rs", "                id if read_format.contains(ReadFormat::ID) => self.id,\n                lost if read_format.contains(ReadFormat::LOST) => self.lost,\n\n", "                id if self.id != 0 => self.id,\n                lost if read_format.contains(ReadFormat::LOST) => self.lost,\n\n"]],
    r'''fn main() {
    let d = w().q(1).q(0).0;
    let v: ReadValue = Parser::new(&d[..], cfg(0, 4)).parse().unwrap();
    let t = format!("{v:?}");
    assert!(t.contains("id: 0"), "{t}");
}''')
bug("c21-trim-seven", "C21", "data that ends in more than seven NUL bytes",
    "only up to seven trailing NUL bytes are trimmed",
    [["src/parse.rs", "        while let Some((b'\\0', head)) = rest.split_last() {\n            rest = head;\n        }", "        for _ in 1..std::mem::size_of::<u64>() {\n            match rest.split_last() {\n                Some((b'\\0', head)) => rest = head,\n                _ => break,\n            }\n        }"]],
    r'''fn main() {
    let d = b"ab\0\0\0\0\0\0\0\0\0";
    let r = Parser::new(&d[..], cfg(0, 0)).parse_rest_trim_nul().unwrap();
    assert_eq!(&r[..], b"ab");
}''')
bug("c21-slow-bytes", "C21", "a byte string that spans several chunks of a source that does not know its length, followed by something else in the last of the chunks",
    "the whole last chunk is consumed instead of the requested part of it",
    [["src/parse.rs", "            let mut chunk = self.data.chunk()?;\n            chunk.truncate(len);\n            bytes.extend_from_slice(&chunk);\n\n            let chunk_len = chunk.len();\n            len -= chunk_len;\n", "            let mut chunk = self.data.chunk()?;\n            let chunk_len = chunk.len();\n            chunk.truncate(len);\n            bytes.extend_from_slice(&chunk);\n\n            len = len.saturating_sub(chunk_len);\n"]],
    r'''fn main() {
    let d: Vec<u8> = (0..16).collect();
    let mut p = Parser::new(BufReader::with_capacity(8, &d[..]), cfg(0, 0));
    assert_eq!(&p.parse_bytes(11).unwrap()[..], &d[..11]);
    assert_eq!(p.parse_u8().unwrap(), 11);
}''')
bug("c22-rest-error", "C22", "a reader that fails after some of the rest has been read",
    "an I/O error in the middle of the rest of the data is taken for its end",
    [["src/parse.rs", "                Err(e) if e.kind() == ErrorKind::Eof => break,\n                Err(e) => return Err(e),\n            }\n        }\n\n        Ok(bytes)", "                // Everything that is left has been read.\n                Err(_) => break,\n            }\n        }\n\n        Ok(bytes)"]],
    r'''struct R(usize);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 > 1 { return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "gone")) }
        b[..4].copy_from_slice(b"abcd");
        Ok(4)
    }
}
fn main() {
    let e = Parser::new(BufReader::new(R(0)), cfg(0, 0)).parse_rest();
    assert_eq!(e.unwrap_err().kind(), ErrorKind::External);
}''')
bug("c22-broken-pipe", "C22", "a reader that fails with BrokenPipe",
    "a broken pipe counts as the end of the data",
    [["src/error.rs", "            std::io::ErrorKind::UnexpectedEof => Self::new(error).with_kind(ErrorKind::Eof),", "            std::io::ErrorKind::UnexpectedEof | std::io::ErrorKind::BrokenPipe => {\n                Self::new(error).with_kind(ErrorKind::Eof)\n            }"]],
    r'''fn main() {
    let e = ParseError::from(std::io::Error::from(std::io::ErrorKind::BrokenPipe));
    assert_eq!(e.kind(), ErrorKind::External);
}''')
bug("c23-step-misc", "C23", "a record whose layout depends on its header's misc bits, parsed step by step with parse_metadata_with_header",
    "the parser returned for the contents of a record does not know the header's misc bits",
    [["src/parse.rs", "        self.parse_metadata_with_header_impl(header)\n", "        let config = self.config.clone();\n        let (p, metadata) = self.parse_metadata_with_header_impl(header)?;\n        Ok((Parser { config, ..p }, metadata))\n"]],
    r'''fn main() {
    let d = rec(15, 0x2000, w().w(7).w(8));
    let mut p = Parser::new(&d[..], cfg(0, 0));
    let (mut q, _) = p.parse_metadata().unwrap();
    let s: SwitchCpuWide = q.parse().unwrap();
    assert!(matches!(s, SwitchCpuWide::Out { .. }), "{s:?}");
}''')
bug("c01-truncated-hang", "C01", "formatting a text that ends in the middle of a UTF-8 sequence",
    "formatting never ends",
    [["src/util/fmt.rs", "e.error_len().unwrap_or(data.len() - e.valid_up_to()),", "e.error_len().unwrap_or_default(),"]],
    r'''fn main() {
    let d = rec(3, 0, w().w(1).w(2).b(b"ab\xE2\x82"));
    let r = std::thread::spawn(move || {
        let r = Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap();
        struct N(usize);
        impl std::fmt::Write for N {
            fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); if self.0 > 1000 { Err(std::fmt::Error) } else { Ok(()) } }
        }
        let mut n = N(0);
        std::fmt::write(&mut n, format_args!("{r:?}")).unwrap();
    });
    let t = std::time::Instant::now();
    while !r.is_finished() {
        if t.elapsed().as_secs() > 10 { eprintln!("hangs"); std::process::exit(1) }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    r.join().unwrap();
}''')
bug("c01-last-field-leak", "C01", "a sample from a temporary source whose last recorded field is one that owns memory",
    "the memory of the last recorded field of a sample is never given back",
    [["src/macros.rs", "                    if (self.__flags & (1 << Offsets::$field)) != 0 {\n                        unsafe { self.$field.assume_init_drop() };\n                    }\n", "                    // Nothing is recorded from here on.\n                    if self.__flags >> Offsets::$field <= 1 {\n                        return;\n                    }\n                    if (self.__flags & (1 << Offsets::$field)) != 0 {\n                        unsafe { self.$field.assume_init_drop() };\n                    }\n"]],
    ALLOC + r'''fn main() {
    let d = rec(9, 0, w().q(2).q(1).q(2));
    let go = || {
        let mut p = Parser::new(BufReader::with_capacity(64, &d[..]), cfg(1 << 5, 0));
        drop(p.parse::<Record>().unwrap());
    };
    go();
    let live = LIVE.load(SeqCst);
    go();
    assert_eq!(LIVE.load(SeqCst), live);
}''')
bug("c01-slice-overflow", "C01", "an array length close to the largest number",
    "computing the size of the array overflows",
    [["src/parse.rs", "        let byte_len = len.checked_mul(std::mem::size_of::<T>()).ok_or_else(|| {\n            ParseError::custom(\n                ErrorKind::InvalidRecord,\n                \"array length in bytes larger than usize::MAX\",\n            )\n        })?;\n", "        if len.leading_zeros() < std::mem::size_of::<T>().trailing_zeros() {\n            return Err(ParseError::custom(\n                ErrorKind::InvalidRecord,\n                \"array length in bytes larger than usize::MAX\",\n            ));\n        }\n        let byte_len = len * std::mem::size_of::<T>();\n"]],
    r'''fn main() {
    // branch entries have 24 bytes, which is no power of two
    let d = rec(9, 0, w().q(u64::MAX >> 4).q(2).q(3).q(4));
    assert!(Parser::new(&d[..], cfg(1 << 11, 0)).parse::<Record>().is_err());
}''')
bug("c04-aux-order", "C04", "a sample with AUX data and a physical address, cgroup or page size",
    "AUX data is read before the fields that precede it",
    [["src/records/sample.rs", "        let phys_addr = p.parse_if(sty.contains(SampleFlags::PHYS_ADDR))?;\n", "        let aux = p.parse_if_with(sty.contains(SampleFlags::AUX), |p| {\n            let size = p.parse_u64()? as usize;\n            p.parse_bytes(size)\n        })?;\n        let phys_addr = p.parse_if(sty.contains(SampleFlags::PHYS_ADDR))?;\n"],
     ["src/records/sample.rs", "        let code_page_size = p.parse_if(sty.contains(SampleFlags::CODE_PAGE_SIZE))?;\n        let aux = p.parse_if_with(sty.contains(SampleFlags::AUX), |p| {\n            let size = p.parse_u64()? as usize;\n            p.parse_bytes(size)\n        })?;\n", "        let code_page_size = p.parse_if(sty.contains(SampleFlags::CODE_PAGE_SIZE))?;\n"]],
    r'''fn main() {
    let d = rec(9, 0, w().q(8).q(8).q(6));
    match Parser::new(&d[..], cfg(1 << 19 | 1 << 20, 0)).parse::<Record>().unwrap() {
        Record::Sample(s) => { assert_eq!(s.phys_addr(), Some(8)); assert_eq!(s.aux().unwrap(), 6u64.to_le_bytes()) }
        r => panic!("{r:?}"),
    };
}''')
bug("c05-high-regs", "C05", "a register mask with bits above 31 (SIMD registers)",
    "registers selected by the upper half of the mask are not read",
    [["src/records/sample.rs", "        Self::parse(p, p.config().regs_intr())", "        // The generic registers fit in 32 bits.\n        Self::parse(p, p.config().regs_intr() & u64::from(u32::MAX))"]],
    r'''fn main() {
    let mut a = perf_event_attr::default();
    a.sample_type = 1 << 18 | 1 << 19;
    a.sample_regs_intr = 1 | 1 << 33;
    let d = rec(9, 0, w().q(2).q(5).q(6).q(7));
    match Parser::new(&d[..], ParseConfig::<Little>::from(a)).parse::<Record>().unwrap() {
        Record::Sample(s) => { assert_eq!(&s.regs_intr().unwrap().regs[..], &[5, 6]); assert_eq!(s.phys_addr(), Some(7)) }
        r => panic!("{r:?}"),
    };
}''')
bug("c07-cpu-big", "C07", "a record with a sample_id that holds the CPU, in big-endian data",
    "the CPU of the sample_id is read from the reserved half of its field",
    [["src/records/mod.rs", "        let cpu = p.parse_if_with(sty.contains(SampleFlags::CPU), |p| {\n            Ok((p.parse_u32()?, p.parse_u32()?).0)\n        })?;\n", "        let cpu = p.parse_if_with(sty.contains(SampleFlags::CPU), |p| Ok(p.parse_u64()? as u32))?;\n"]],
    r'''fn main() {
    let mut a = perf_event_attr::default();
    a.sample_type = 1 << 7;
    a.set_sample_id_all(1);
    let mut d = vec![0, 0, 0, 14, 0, 0, 0, 16];
    d.extend(7u32.to_be_bytes());
    d.extend(0u32.to_be_bytes());
    let (_, m) = Parser::new(&d[..], ParseConfig::<Big>::from(a)).parse_metadata().map(|(_, m)| ((), m)).unwrap();
    assert_eq!(m.sample_id().cpu(), Some(7));
}''')
bug("c08-tiny-size", "C08", "a header whose size is smaller than the header itself",
    "a record with an impossible size is accepted as one without contents",
    [["src/parse.rs", "            .checked_sub(mem::size_of_val(&header))\n            .ok_or_else(|| {\n                ParseError::custom(\n                    ErrorKind::InvalidRecord,\n                    \"header size was too small to be valid\",\n                )\n            })?;", "            .saturating_sub(mem::size_of_val(&header));"]],
    r'''fn main() {
    let d = w().w(14).h(0).h(3).q(1).0;
    let e = Parser::new(&d[..], cfg(0, 0)).parse::<Record>();
    assert_eq!(e.unwrap_err().kind(), ErrorKind::InvalidRecord);
}''')
bug("c09-three-pieces", "C09", "an integer that is spread over three or more chunks",
    "the pieces of such an integer behind the second overwrite each other",
    [["src/parse.rs", "        if chunk.len() < N {\n            return self.parse_array_slow();\n        }\n\n        let mut array = [0u8; N];\n        array.copy_from_slice(&chunk[..N]);\n", "        let mut array = [0u8; N];\n        if chunk.len() < N {\n            let head = chunk.len();\n            array[..head].copy_from_slice(&chunk);\n            self.data.advance(head);\n            let mut rest = N - head;\n            while rest > 0 {\n                let chunk = self.data.chunk()?;\n                let n = chunk.len().min(rest);\n                array[head..head + n].copy_from_slice(&chunk[..n]);\n                rest -= n;\n                self.data.advance(n);\n            }\n            return Ok(array);\n        }\n\n        array.copy_from_slice(&chunk[..N]);\n"]],
    CHUNKS + r'''fn main() {
    let d = w().q(0x0807060504030201).0;
    let v: Vec<&[u8]> = d.chunks(3).collect();
    assert_eq!(Parser::new(Chunks(v), cfg(0, 0)).parse_u64().unwrap(), 0x0807060504030201);
}''')
bug("c13-unknown-length", "C13", "a byte string with an absurd length in data from a reader",
    "the whole length is reserved before anything is read",
    [["src/parse.rs", "            Some(hint) if hint >= len => (),\n            _ => return Ok(Cow::Owned(self.parse_bytes_slow(len)?)),", "            Some(hint) if hint < len => return Ok(Cow::Owned(self.parse_bytes_slow(len)?)),\n            _ => (),"]],
    ALLOC + r'''fn main() {
    let d = [7u8; 100];
    let mut p = Parser::new(BufReader::with_capacity(64, &d[..]), cfg(0, 0));
    let live = LIVE.load(SeqCst);
    PEAK.store(live, SeqCst);
    assert!(p.parse_bytes(1 << 24).is_err());
    let peak = PEAK.load(SeqCst) - live;
    assert!(peak <= 32768 + 64 * d.len(), "{peak} bytes");
}''')
bug("c14-raw-padding", "C14", "a sample that ends within the padding behind its raw data",
    "missing padding behind raw data is tolerated, the truncated record is accepted",
    [["src/parse.rs", "            n => self.parse_bytes_ignored(padding - n)?,", "            n => match self.parse_bytes_ignored(padding - n) {\n                // The padding carries no information.\n                Err(e) if e.kind() == ErrorKind::Eof => (),\n                res => res?,\n            },"]],
    r'''fn main() {
    let d = rec(9, 0, w().w(2).b(b"ab"));
    let e = Parser::new(&d[..], cfg(1 << 10, 0)).parse::<Record>();
    assert_eq!(e.unwrap_err().kind(), ErrorKind::Eof);
}''')
bug("c16-value-of-group", "C16", "a group of one counter recorded with PERF_FORMAT_TOTAL_TIME_RUNNING but not TOTAL_TIME_ENABLED, converted to a single value",
    "the running time is lost when the enabled time was not recorded",
    [["src/records/read.rs", "            time_enabled: value.time_enabled,\n            time_running: value.time_running,\n            id: entry.id,\n", "            time_enabled: value.time_enabled().unwrap_or(0),\n            time_running: value\n                .time_enabled()\n                .and(value.time_running())\n                .unwrap_or(0),\n            id: entry.id,\n"]],
    r'''fn main() {
    let d = w().q(1).q(2).q(3).0;
    let g: ReadGroup = Parser::new(&d[..], cfg(0, 8 | 2)).parse().unwrap();
    let v = ReadValue::try_from(g).unwrap();
    assert_eq!((v.time_running(), v.value()), (Some(2), 3));
}''')
bug("c17-nth-back", "C17", "nth_back with a large argument, then more members",
    "stepping from the back beyond the members keeps the iterator where it was",
    [["src/records/read.rs", "        Some(GroupEntry::new(self.read_format, self.iter.nth_back(n)?))", "        if n >= self.iter.len() {\n            return None;\n        }\n        Some(GroupEntry::new(self.read_format, self.iter.nth_back(n)?))"]],
    r'''fn main() {
    let d = w().q(2).q(10).q(20).0;
    let g: ReadGroup = Parser::new(&d[..], cfg(0, 8)).parse().unwrap();
    let mut e = g.entries();
    assert!(e.nth_back(2).is_none());
    assert!(e.next().is_none());
}''')
bug("c19-many-namespaces", "C19", "a NAMESPACES record from a kernel that knows more namespaces than the seven of today",
    "entries behind the seventh are dropped",
    [["src/records/namespaces.rs", "        let namespaces = unsafe { p.parse_slice(len)? };\n", "        let len = len.min(bindings::NR_NAMESPACES as usize);\n        let namespaces = unsafe { p.parse_slice(len)? };\n"]],
    r'''fn main() {
    let mut b = w().w(1).w(2).q(8);
    for i in 0..16 { b = b.q(i) }
    let d = rec(16, 0, b);
    match Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap() {
        Record::Namespaces(n) => assert_eq!(n.namespaces.len(), 8),
        r => panic!("{r:?}"),
    };
}''')
bug("c12-regs-intr", "C12", "an event that samples both user and interrupt registers, with different masks that have a register in common",
    "the mask of interrupt registers loses what is not in the mask of user registers",
    [["src/config.rs", "            sample_regs_intr: attrs.sample_regs_intr,\n", "            sample_regs_intr: match attrs.sample_regs_intr & attrs.sample_regs_user {\n                0 => attrs.sample_regs_intr,\n                // Only common registers are of the same width.\n                common => common,\n            },\n"]],
    r'''fn main() {
    let mut a = perf_event_attr::default();
    a.sample_regs_user = 3;
    a.sample_regs_intr = 6;
    assert_eq!(ParseConfig::<Little>::from(a).regs_intr(), 6);
}''')
bug("c15-unthrottle", "C15", "a visitor that handles THROTTLE but not UNTHROTTLE",
    "UNTHROTTLE records are passed to the THROTTLE method by default",
    [["src/visitor.rs", "    fn visit_unthrottle(self, record: Throttle, metadata: RecordMetadata) -> Self::Output {\n        self.visit_unimplemented(metadata)\n", "    fn visit_unthrottle(self, record: Throttle, metadata: RecordMetadata) -> Self::Output {\n        self.visit_throttle(record, metadata)\n"]],
    r'''struct V;
impl<'a> Visitor<'a> for V {
    type Output = bool;
    fn visit_unimplemented(self, m: RecordMetadata) -> bool { true }
    fn visit_throttle(self, r: Throttle, m: RecordMetadata) -> bool { false }
}
fn main() {
    let d = rec(6, 0, w().q(1).q(2).q(3));
    assert!(Parser::new(&d[..], cfg(0, 0)).parse_record(V).unwrap());
}''')
bug("c10-is-native", "C10", "borrowed, aligned arrays in big-endian data whose byte order is chosen at run time",
    "arrays are reinterpreted in the host's byte order when the byte order was chosen at run time",
    [["src/endian.rs", "            Self::Big => Big.is_native(),\n            Self::Little => Little.is_native(),", "            Self::Big => cfg!(target_endian = \"big\") | true,\n            Self::Little => Little.is_native(),"]],
    r'''fn main() {
    let mut a = perf_event_attr::default();
    a.sample_type = 1 << 5;
    let c = ParseConfig::<Little>::from(a).with_endian(Dynamic::Big);
    let mut d = vec![0, 0, 0, 9, 0, 0, 0, 24];
    for x in [1u64, 5] { d.extend(x.to_be_bytes()) }
    let v = al(&d);
    match Parser::new(bytes(&v, d.len()), c).parse::<Record>().unwrap() {
        Record::Sample(s) => assert_eq!(s.callchain().unwrap(), &[5]),
        r => panic!("{r:?}"),
    };
}''')

bug("c05-deep-chain", "C05", "a call chain deeper than the default limit of the kernel (perf_event_max_stack raised)",
    "only the first 127 frames of a call chain are kept",
    [["src/records/sample.rs", """            let nr = p.parse_u64()? as _;
            unsafe { p.parse_slice(nr) }
""", """            let nr = p.parse_u64()? as _;
            let mut chain: Cow<[u64]> = unsafe { p.parse_slice(nr)? };
            crate::util::cow::CowSliceExt::truncate(&mut chain, bindings::PERF_MAX_STACK_DEPTH as usize);
            Ok(chain)
"""]],
    r'''fn main() {
    let mut b = w().q(130);
    for i in 0..130 { b = b.q(i) }
    let d = rec(9, 0, b);
    let v = al(&d);
    match Parser::new(bytes(&v, d.len()), cfg(1 << 5, 0)).parse::<Record>().unwrap() {
        Record::Sample(s) => { assert_eq!(s.callchain().unwrap().len(), 130); assert_eq!(s.callchain().unwrap()[129], 129) }
        r => panic!("{r:?}"),
    };
}''')
bug("c01-empty-chunk", "C01", "a record in several pieces (or from a reader) of which a field ends exactly where a piece ends",
    "the parser never comes back: the used-up piece is returned as an empty chunk again and again",
    [["src/parsebuf.rs", "            Some(chunk) if chunk.len() > self.offset => (),", "            Some(chunk) if chunk.len() >= self.offset => (),"]],
    CHUNKS + r'''fn main() {
    let t = std::thread::spawn(|| {
        let d = rec(3, 0, w().w(1).w(2).b(b"abcdefgh"));
        let v: Vec<&[u8]> = d.chunks(12).collect();
        match Parser::new(Chunks(v), cfg(0, 0)).parse::<Record>().unwrap() {
            Record::Comm(c) => assert_eq!(&c.comm[..], b"abcdefgh"),
            r => panic!("{r:?}"),
        };
    });
    let s = std::time::Instant::now();
    while !t.is_finished() {
        if s.elapsed().as_secs() > 10 { eprintln!("hangs"); std::process::exit(1) }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    t.join().unwrap();
}''')
bug("c16-stream-as-id", "C16", "a sample with a stream id but neither PERF_SAMPLE_ID nor PERF_SAMPLE_IDENTIFIER, converted to a SampleId",
    "the conversion invents an id",
    [["src/records/mod.rs", "            sample.id(),\n", "            sample.id().or_else(|| sample.stream_id()),\n"]],
    r'''fn main() {
    let d = rec(9, 0, w().q(5).q(6));
    match Parser::new(&d[..], cfg(4 | 1 << 9, 0)).parse::<Record>().unwrap() {
        Record::Sample(s) => { let i = SampleId::from(&*s); assert_eq!(i.id(), None); assert_eq!(i.stream_id(), Some(6)) }
        r => panic!("{r:?}"),
    };
}''')
bug("c07-both-ids", "C07", "sample_id_all with both PERF_SAMPLE_ID and PERF_SAMPLE_IDENTIFIER, which carry the same value but are both written",
    "the trailer is taken to be eight bytes shorter than it is",
    [["src/records/mod.rs", "        (sty & flags).bits().count_ones() as usize * std::mem::size_of::<u64>()", """        // The id is only needed once.
        let flags = match sty.contains(SampleFlags::ID) {
            true => flags - SampleFlags::IDENTIFIER,
            false => flags,
        };

        (sty & flags).bits().count_ones() as usize * std::mem::size_of::<u64>()"""],
     ["src/records/mod.rs", "        let identifier = p.parse_if(sty.contains(SampleFlags::IDENTIFIER))?;", "        let identifier = p.parse_if(sty.contains(SampleFlags::IDENTIFIER) && id.is_none())?;"]],
    r'''fn main() {
    let d = rec(3, 0, w().w(1).w(2).b(b"abcdefgh").q(0x4141414141414141).q(0x4141414141414141));
    match Parser::new(&d[..], cfg_all(1 << 6 | 1 << 16)).parse::<Record>().unwrap() {
        Record::Comm(c) => assert_eq!(&c.comm[..], b"abcdefgh"),
        r => panic!("{r:?}"),
    };
}''')
bug("c17-last-by-id", "C17", "a group in which an id occurs more than once (an event that was inherited or whose ids were reused)",
    "get_by_id returns the last of several members with the id instead of the first",
    [["src/records/read.rs", "        self.entries().find(|entry| entry.id() == Some(id))", "        self.entries().rfind(|entry| entry.id() == Some(id))"]],
    r'''fn main() {
    let d = rec(9, 0, w().q(3).q(10).q(1).q(20).q(2).q(30).q(1));
    let v = al(&d);
    match Parser::new(bytes(&v, d.len()), cfg(1 << 4, 4 | 8)).parse::<Record>().unwrap() {
        Record::Sample(s) => assert_eq!(s.values().unwrap().get_by_id(1).unwrap().value(), 10),
        r => panic!("{r:?}"),
    };
}''')
bug("c11-future-size", "C11", "an attribute written by a newer kernel whose structure is not a multiple of eight bytes long",
    "such a structure is refused although all it has in addition is zero",
    [["src/impls/perf_event_attr.rs", "            size if size > PERF_ATTR_SIZE_MAX => (),", "            size if size > PERF_ATTR_SIZE_MAX && size % 8 == 0 => (),"]],
    r'''fn main() {
    let mut d = w().w(1).w(140).q(77).0;
    d.resize(140, 0);
    let a: perf_event_attr = Parser::new(&d[..], cfg(0, 0)).parse().unwrap();
    assert_eq!(a.config, 77);
}''')
bug("c11-exact-version", "C11", "an attribute of exactly the version that introduced the signal data (128 bytes)",
    "the signal data is not read unless there is something behind it",
    [["src/impls/perf_event_attr.rs", "        if attr.size >= PERF_ATTR_SIZE_VER7 {", "        if attr.size > PERF_ATTR_SIZE_VER7 {"]],
    r'''fn main() {
    let mut d = w().w(1).w(128).q(77).0;
    d.resize(128, 9);
    let a: perf_event_attr = Parser::new(&d[..], cfg(0, 0)).parse().unwrap();
    assert_eq!(a.sig_data, 0x0909090909090909);
}''')
bug("c12-with-endian", "C12", "a configuration whose byte order is changed after it was made from the attribute, with interrupt registers",
    "the mask of interrupt registers is lost when the byte order is changed",
    [["src/config.rs", """            endian,
            config: self.config,
""", """            endian,
            config: RawParseConfig {
                config_flags: self.config.config_flags,
                sample_regs_user: self.config.sample_regs_user,
                ..Default::default()
            },
"""]],
    r'''fn main() {
    let mut a = perf_event_attr::default();
    a.sample_regs_intr = 5;
    assert_eq!(ParseConfig::<Little>::from(a).with_endian(Dynamic::Little).regs_intr(), 5);
}''')
bug("c18-predicted", "C18", "a branch entry from hardware that reports no prediction (neither mispredicted nor predicted)",
    "such a branch is reported as predicted correctly",
    [["src/records/sample.rs", "        self.0.predicted() != 0\n", "        self.0.mispred() == 0\n"]],
    r'''fn main() {
    let d = rec(9, 0, w().q(1).q(5).q(6).q(0));
    let v = al(&d);
    match Parser::new(bytes(&v, d.len()), cfg(1 << 11, 0)).parse::<Record>().unwrap() {
        Record::Sample(s) => { let b = s.lbr().unwrap()[0]; assert!(!b.mispred() && !b.predicted()) }
        r => panic!("{r:?}"),
    };
}''')
bug("c18-remote-hops", "C18", "a data source with hops but without the remote bit (another core on the same node)",
    "the access is reported as remote",
    [["src/records/sample.rs", "        self.bitfield().mem_remote() != 0\n", "        self.bitfield().mem_remote() | self.bitfield().mem_hops() != 0\n"]],
    r'''fn main() {
    let d = rec(9, 0, w().q(1 << 43));
    match Parser::new(&d[..], cfg(1 << 15, 0)).parse::<Record>().unwrap() {
        Record::Sample(s) => { let b = s.data_src().unwrap(); assert_eq!(b.mem_hops(), 1); assert!(!b.mem_remote()) }
        r => panic!("{r:?}"),
    };
}''')
bug("c20-alternate-address", "C20", "pretty-printing ({:#?}) a record with an address",
    "addresses are written in decimal when pretty-printed",
    [["src/util/fmt.rs", "        f.write_fmt(format_args!(\"{:#016X}\", self.0))", "        match f.alternate() {\n            true => fmt::UpperHex::fmt(&self.0, f),\n            false => f.write_fmt(format_args!(\"{:#018X}\", self.0)),\n        }"]],
    r'''fn main() {
    let d = rec(17, 0, w().q(0x1234).w(5).h(0).h(0).b(b"abc\0"));
    let r = Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap();
    for s in [format!("{r:?}"), format!("{r:#?}")] { assert!(s.contains("0x00000000001234"), "{s}") }
}''')
bug("c20-escape-default", "C20", "a text with valid UTF-8 outside ASCII, or with a quote of the other kind",
    "characters outside ASCII are shown as escapes",
    [["src/util/fmt.rs", "            for c in text.chars().flat_map(|c| c.escape_debug()) {", "            for c in text.chars().flat_map(|c| c.escape_default()) {"]],
    r'''fn main() {
    let d = rec(3, 0, w().w(1).w(2).b("hé\0".as_bytes()));
    let r = Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap();
    assert!(format!("{r:?}").contains("\"hé\""), "{r:?}");
}''')
bug("c22-eof-source", "C22", "a reader that fails with an I/O error of the kind UnexpectedEof",
    "the reader's error is thrown away, only the kind is kept",
    [["src/error.rs", "            std::io::ErrorKind::UnexpectedEof => Self::new(error).with_kind(ErrorKind::Eof),", "            std::io::ErrorKind::UnexpectedEof => Self::eof(),"]],
    r'''struct R;
impl std::io::Read for R {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "cut off")) }
}
fn main() {
    let e = Parser::new(BufReader::new(R), cfg(0, 0)).parse::<Record>().unwrap_err();
    assert_eq!(e.kind(), ErrorKind::Eof);
    assert!(e.source().unwrap().to_string().contains("cut off"));
    assert!(e.to_string().contains("cut off"));
}''')
bug("c13-cursor-capacity", "C13", "a large record of which only the header announces the length",
    "memory for one chunk per sixteen bytes of announced length is reserved before anything is read",
    [["src/parsebuf.rs", "        let mut chunks = Vec::with_capacity(2);", "        let mut chunks = Vec::with_capacity(2 + len / 16);"]],
    ALLOC + r'''fn main() {
    let mut d = rec(9, 0, w().q(1));
    d[6..8].copy_from_slice(&65528u16.to_le_bytes());
    let live = LIVE.load(SeqCst);
    PEAK.store(live, SeqCst);
    assert!(Parser::new(&d[..], cfg(1, 0)).parse::<Record>().is_err());
    let peak = PEAK.load(SeqCst) - live;
    assert!(peak <= 32768 + 64 * d.len(), "{peak} bytes");
}''')
bug("c13-exact-copy", "C13", "a text or byte field that reaches exactly to the end of the data",
    "the field is copied although the data is borrowed",
    [["src/parse.rs", "        if chunk.len() < len {\n            return Ok(None);", "        if chunk.len() <= len {\n            return Ok(None);"]],
    r'''fn main() {
    let d = [7u8; 16];
    let mut p = Parser::new(&d[..], cfg(0, 0));
    assert!(matches!(p.parse_bytes(8).unwrap(), Cow::Borrowed(_)));
    assert!(matches!(p.parse_bytes(8).unwrap(), Cow::Borrowed(_)));
}''')
bug("c05-dyn-clamp", "C14", "a sample whose stack has a dynamic size larger than the bytes that were copied (a damaged record)",
    "the record is accepted and the dynamic size clamped instead of being refused",
    [["src/records/sample.rs", """            if dyn_size > data.len() {
                return Err(ParseError::custom(
                    ErrorKind::InvalidRecord,
                    "stack dyn_size was greater than the record size",
                ));
            }
""", """            let dyn_size = dyn_size.min(data.len());
"""]],
    r'''fn main() {
    let d = rec(9, 0, w().q(8).q(1).q(9));
    let e = Parser::new(&d[..], cfg(1 << 13, 0)).parse::<Record>().unwrap_err();
    assert_eq!(e.kind(), ErrorKind::InvalidRecord);
}''')
bug("c14-cpu-reserved", "C14", "a sample that is cut off in the middle of its cpu field",
    "the reserved half of the cpu field may be missing",
    [["src/records/sample.rs", "            Ok((p.parse_u32()?, p.parse_u32()?).0)", "            let cpu = p.parse_u32()?;\n            let _reserved = p.parse_u32();\n            Ok(cpu)"]],
    r'''fn main() {
    let d = rec(9, 0, w().w(3));
    let e = Parser::new(&d[..], cfg(1 << 7, 0)).parse::<Record>().unwrap_err();
    assert_eq!(e.kind(), ErrorKind::Eof);
}''')
bug("c15-metadata-misc", "C15", "a record whose header has the highest misc bit (PERF_RECORD_MISC_EXT_RESERVED) set",
    "the visitor's metadata does not show the bit",
    [["src/visitor.rs", "            misc: header.misc,\n", "            misc: header.misc & !(bindings::PERF_RECORD_MISC_EXT_RESERVED as u16),\n"]],
    r'''struct V;
impl<'a> Visitor<'a> for V {
    type Output = u16;
    fn visit_unimplemented(self, m: RecordMetadata) -> u16 { m.misc() }
}
fn main() {
    let d = rec(2, 0x8001, w().q(1).q(2));
    assert_eq!(Parser::new(&d[..], cfg(0, 0)).parse_record(V).unwrap(), 0x8001);
}''')
bug("c23-absolute-padding", "C23", "the raw part of a sample parsed on its own by a parser that has already read a number of bytes that is not a multiple of eight",
    "the padding is counted from the start of the parser's data instead of from the field",
    [["src/parse.rs", "        let parsed = self.data.offset() - offset;\n", "        debug_assert!(self.data.offset() >= offset);\n        let parsed = self.data.offset();\n"]],
    r'''fn main() {
    let d = w().w(7).w(4).w(8).q(1000).0;
    let mut p = Parser::new(&d[..], cfg(1 << 10 | 1 << 19, 0));
    assert_eq!(p.parse_u32().unwrap(), 7);
    let s: Sample = p.parse().unwrap();
    assert_eq!(s.raw().unwrap(), &8u32.to_le_bytes());
    assert_eq!(s.phys_addr(), Some(1000));
}''')
bug("c10-namespace-entry", "C10", "a NAMESPACES record in the byte order that is not the host's (or one that has to be copied)",
    "device and inode are exchanged when the entries cannot be reinterpreted in place",
    [["src/records/namespaces.rs", """            dev: p.parse()?,
            inode: p.parse()?,
""", """            inode: p.parse()?,
            dev: p.parse()?,
"""]],
    r'''fn main() {
    let mut a = perf_event_attr::default();
    let c = ParseConfig::<Big>::from(a);
    let mut d = vec![0, 0, 0, 16, 0, 0, 0, 40];
    for x in [1u64 << 32 | 2, 1, 55, 66] { d.extend(x.to_be_bytes()) }
    match Parser::new(&d[..], c).parse::<Record>().unwrap() {
        Record::Namespaces(n) => { assert_eq!(n.namespaces[0].dev, 55); assert_eq!(n.namespaces[0].inode, 66) }
        r => panic!("{r:?}"),
    };
}''')
bug("c06-empty-group", "C06", "a group read with no members",
    "the times of an empty group are not read, so they are missing and everything behind them is misread",
    [["src/records/read.rs", """            .parse_if(read_format.contains(ReadFormat::TOTAL_TIME_ENABLED))?
            .unwrap_or(0);
        let time_running""", """            .parse_if(nr != 0 && read_format.contains(ReadFormat::TOTAL_TIME_ENABLED))?
            .unwrap_or(0);
        let time_running"""]],
    r'''fn main() {
    let d = rec(9, 0, w().q(0).q(77).q(88));
    match Parser::new(&d[..], cfg(1 << 4 | 1 << 19, 1 | 8)).parse::<Record>().unwrap() {
        Record::Sample(s) => { assert_eq!(s.values().unwrap().time_enabled(), Some(77)); assert_eq!(s.phys_addr(), Some(88)) }
        r => panic!("{r:?}"),
    };
}''')
bug("c04-identifier-wins", "C04", "a sample with both PERF_SAMPLE_IDENTIFIER and PERF_SAMPLE_ID whose two values differ",
    "the id is taken from the identifier",
    [["src/records/sample.rs", "        let id = p.parse_if(sty.contains(SampleFlags::ID))?.or(id);", "        let id = id.or(p.parse_if(sty.contains(SampleFlags::ID))?);"]],
    r'''fn main() {
    let d = rec(9, 0, w().q(1).q(2));
    match Parser::new(&d[..], cfg(1 << 6 | 1 << 16, 0)).parse::<Record>().unwrap() {
        Record::Sample(s) => assert_eq!(s.id(), Some(2)),
        r => panic!("{r:?}"),
    };
}''')
bug("c03-build-id-empty", "C03", "an MMAP2 record with a build id of length zero",
    "twenty bytes of build id are reported",
    [["src/records/mmap2.rs", "            Ok(Self::BuildId { build_id, len })", "            // Early kernels did not set the length.\n            let len = if len == 0 { build_id.len() as u8 } else { len };\n\n            Ok(Self::BuildId { build_id, len })"]],
    r'''fn main() {
    let d = rec(10, 0x4000, w().w(1).w(2).q(3).q(4).q(5).w(0).q(6).q(7).w(8).w(9).w(10).q(0));
    match Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap() {
        Record::Mmap2(m) => assert_eq!(m.build_id(), Some(&[][..])),
        r => panic!("{r:?}"),
    };
}''')
bug("c19-unknown-trim", "C19", "a record of an unknown type whose data ends in zero bytes",
    "trailing zero bytes of unknown records are cut off",
    [["src/parse.rs", "            _ => visitor.visit_unknown(p.parse_rest()?, metadata),", "            _ => visitor.visit_unknown(p.parse_rest_trim_nul()?, metadata),"]],
    r'''fn main() {
    let d = rec(77, 0, w().q(5).q(0));
    match Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap() {
        Record::Unknown { data, .. } => assert_eq!(data.len(), 16),
        r => panic!("{r:?}"),
    };
}''')
bug("c02-aux-flags", "C02", "an AUX record with flag bits this crate does not know",
    "unknown flag bits are dropped",
    [["src/records/aux_record.rs", "        p.parse().map(Self::from_bits_retain)", "        p.parse().map(Self::from_bits_truncate)"]],
    r'''fn main() {
    let d = rec(11, 0, w().q(1).q(2).q(1 << 20 | 1));
    match Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap() {
        Record::Aux(a) => assert_eq!(a.flags.bits(), 1 << 20 | 1),
        r => panic!("{r:?}"),
    };
}''')

bug("c13-page-chunks", "C13", "a slice holding a record with a text, stack, call chain or array of more than 4096 bytes",
    "long fields of contiguous borrowed data are copied",
    [["src/parsebuf.rs", "        Ok(ParseBufChunk::External(self))\n    }\n\n    #[inline]\n    fn advance(&mut self, count: usize) {\n        *self = self.split_at(count).1;",
      "        // One page at a time.\n        Ok(ParseBufChunk::External(&self[..self.len().min(4096)]))\n    }\n\n    #[inline]\n    fn advance(&mut self, count: usize) {\n        *self = self.split_at(count).1;"]],
    r'''fn main() {
    let text = vec![b'a'; 9000];
    let d = rec(3, 0, w().w(1).w(2).b(&text));
    match Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap() {
        Record::Comm(c) => { assert_eq!(c.comm.len(), 9000); assert!(matches!(c.comm, Cow::Borrowed(_))); }
        _ => panic!(),
    };
}''')

bug("c21-slow-capacity", "C21", "more than 16384 bytes requested from a source that does not know its remaining length",
    "parse_bytes returns fewer bytes than were requested",
    [["src/parse.rs", "        let mut bytes = Vec::with_capacity(self.safe_capacity_bound::<u8>().min(len));\n\n        while len > 0 {",
      "        let limit = self.safe_capacity_bound::<u8>().min(len);\n        let mut bytes = Vec::with_capacity(limit);\n\n        while len > 0 && bytes.len() < limit {"]],
    r'''fn main() {
    let d: Vec<u8> = (0..40000u32).map(|i| i as u8).collect();
    let mut p = Parser::new(BufReader::with_capacity(8192, &d[..]), cfg(0, 0));
    assert_eq!(p.parse_bytes(30000).unwrap().len(), 30000);
    assert_eq!(p.parse_bytes(10000).unwrap().len(), 10000);
}''')

bug("c14-raw-size", "C14", "a sample whose raw size field is larger than the largest record",
    "a sample with incomplete raw data is accepted",
    [["src/records/sample.rs", "                let size = p.parse_u32()? as _;\n                p.parse_bytes(size)", "                let size = p.parse_u32()? as u16;\n                p.parse_bytes(size as usize)"]],
    r'''fn main() {
    let d = rec(9, 0, w().w(0x10004).w(7));
    assert!(Parser::new(&d[..], cfg(1 << 10, 0)).parse::<Record>().is_err());
    let d = rec(9, 0, w().w(4).w(7));
    assert!(Parser::new(&d[..], cfg(1 << 10, 0)).parse::<Record>().is_ok());
}''')

bug("c17-rfold", "C17", "folding over the entries of a group from the back (rev().for_each)",
    "the entries appear in forward order",
    [["src/records/read.rs", "    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {",
      "    fn rfold<T, F>(self, init: T, f: F) -> T\n    where\n        F: FnMut(T, Self::Item) -> T,\n    {\n        let read_format = self.read_format;\n        self.iter\n            .map(|slice| GroupEntry::new(read_format, slice))\n            .fold(init, f)\n    }\n\n    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {"]],
    r'''fn main() {
    let d = w().q(3).q(10).q(20).q(30).0;
    let v = al(&d);
    let g = Parser::new(bytes(&v, d.len()), cfg(0, 8)).parse::<ReadGroup>().unwrap();
    let mut seen = Vec::new();
    g.entries().rev().for_each(|e| seen.push(e.value()));
    assert_eq!(seen, [30, 20, 10]);
}''')

bug("c16-shared-clone", "C16", "cloning a sample with copied (not borrowed) variable parts and dropping both",
    "the clone shares its memory with the original, which is freed twice",
    [["src/macros.rs", "                    Self::new(\n                        $( self.$field().cloned() ),*\n                    )", "                    // All of the fields that are present keep their places.\n                    unsafe { ::std::ptr::read(self) }"]],
    r'''fn main() {
    let d = rec(9, 0, w().q(2).q(0x1111).q(0x2222));
    let a = Parser::new(BufReader::new(&d[..]), cfg(1 << 5, 0)).parse::<Record>().unwrap();
    let b = a.clone();
    drop(a);
    // takes the memory that was freed
    let other: Vec<Vec<u64>> = (0..64).map(|_| vec![7u64; 2]).collect();
    match &b {
        Record::Sample(s) => assert_eq!(s.callchain().unwrap(), [0x1111, 0x2222]),
        _ => panic!(),
    }
    drop(b);
    drop(other);
}''')

bug("c03-trim-block", "C03", "a name longer than 64 bytes followed by more than 8 padding NULs is needed",
    "trailing NULs remain in the name",
    [["src/parse.rs", "        while let Some((b'\\0', head)) = rest.split_last() {\n            rest = head;\n        }", "        // The padding reaches at most to the next multiple of eight.\n        while let Some((b'\\0', head)) = rest.split_last() {\n            rest = head;\n            if rest.len() > 64 && bytes.len() - rest.len() == 8 {\n                break;\n            }\n        }"]],
    r'''fn main() {
    let mut text = vec![b'a'; 100];
    text.resize(112, 0);
    let d = rec(3, 0, w().w(1).w(2).b(&text));
    match Parser::new(&d[..], cfg(0, 0)).parse::<Record>().unwrap() {
        Record::Comm(c) => assert_eq!(c.comm.len(), 100),
        _ => panic!(),
    };
}''')

bug("c06-count-high", "C06", "a group whose member count occupies the upper half of the field",
    "the count is cut to 32 bits: a group that is not there is decoded",
    [["src/records/read.rs", "let nr = p.parse_u64()? as usize;\n        let time_enabled", "let nr = p.parse_u64()? as u32 as usize;\n        let time_enabled"]],
    r'''fn main() {
    let d = w().q(0x1_0000_0001).q(10).0;
    let v = al(&d);
    assert!(Parser::new(bytes(&v, d.len()), cfg(0, 8)).parse::<ReadGroup>().is_err());
    let d = w().q(1).q(10).0;
    let v = al(&d);
    assert_eq!(Parser::new(bytes(&v, d.len()), cfg(0, 8)).parse::<ReadGroup>().unwrap().len(), 1);
}''')

bug("c07-estimate-all-fields", "C07", "sample_id_all together with a cgroup in the sample type",
    "the trailer is taken to be longer than it is",
    [["src/records/mod.rs", "            | SampleFlags::CPU\n            | SampleFlags::IDENTIFIER;", "            | SampleFlags::CPU\n            | SampleFlags::IDENTIFIER\n            | SampleFlags::CGROUP;"]],
    r'''fn main() {
    let d = rec(3, 0, w().w(1).w(2).b(b"abcdefghijk\0\0\0\0\0").w(3).w(4));
    match Parser::new(&d[..], cfg_all(2 | 1 << 21)).parse::<Record>().unwrap() {
        Record::Comm(c) => assert_eq!(&c.comm[..], b"abcdefghijk"),
        _ => panic!(),
    };
}''')

bug("c05-hypervisor-regs", "C05", "a sample with user registers whose header says hypervisor mode (misc 3)",
    "no registers are read, everything behind them is shifted",
    [["src/records/sample.rs", "        let regs_user = p.parse_if_with(sty.contains(SampleFlags::REGS_USER), |p| {", "        // The hypervisor has no user registers.\n        let user = p.config().misc() & 7 != 3;\n        let regs_user = p.parse_if_with(user && sty.contains(SampleFlags::REGS_USER), |p| {"]],
    r'''fn main() {
    for misc in 0..8 {
        let mut a = perf_event_attr::default();
        a.sample_type = 1 << 12 | 1 << 21;
        a.sample_regs_user = 3;
        let d = rec(9, misc, w().q(2).q(5).q(6).q(77));
        match Parser::new(&d[..], ParseConfig::<Little>::from(a)).parse::<Record>().unwrap() {
            Record::Sample(s) => { assert_eq!(s.regs_user().unwrap().regs[..], [5, 6]); assert_eq!(s.cgroup(), Some(77)); }
            _ => panic!(),
        };
    }
}''')

bug("c19-poke-sum", "C19", "a text poke record whose two declared lengths add up to 65536 or more",
    "the sum wraps around: an impossible record is not reported as an error",
    [["src/records/text_poke.rs", "        let old_len = p.parse_u16()? as usize;\n        let new_len = p.parse_u16()? as usize;", "        let old_len = p.parse_u16()?;\n        let new_len = p.parse_u16()?;"],
     ["src/records/text_poke.rs", "        let full_len = round_up_mod(old_len + new_len, 4, 8);", "        let full_len = round_up_mod(old_len.wrapping_add(new_len) as usize, 4, 8);\n        let (old_len, new_len) = (old_len as usize, new_len as usize);"]],
    r'''fn main() {
    let d = rec(20, 0, w().q(1).h(4).h(0xffff).w(2).q(3));
    assert!(Parser::new(&d[..], cfg(0, 0)).parse::<Record>().is_err());
}''')

bug("c12-unused-regs", "C12", "an attribute with a register mask but without the flag that puts these registers into samples",
    "the configuration reports an empty mask to custom parsers",
    [["src/config.rs", "            sample_regs_intr: attrs.sample_regs_intr,\n        }", "            sample_regs_intr: match attrs.sample_type & bindings::PERF_SAMPLE_REGS_INTR as u64 {\n                0 => 0,\n                _ => attrs.sample_regs_intr,\n            },\n        }"]],
    r'''fn main() {
    let mut a = perf_event_attr::default();
    a.sample_regs_intr = 5;
    a.sample_regs_user = 6;
    let c = ParseConfig::<Little>::from(a);
    assert_eq!((c.regs_intr(), c.regs_user()), (5, 6));
}''')

bug("c18-abort-code", "C18", "a transaction abort code above 65535",
    "the upper half of the abort code is lost",
    [["src/records/sample.rs", "        (self.bits() >> bindings::PERF_TXN_ABORT_SHIFT) as _", "        (self.bits() >> bindings::PERF_TXN_ABORT_SHIFT) as u16 as _"]],
    r'''fn main() {
    let d = rec(9, 0, w().q(0x1234_5678_0000_0001));
    match Parser::new(&d[..], cfg(1 << 17, 0)).parse::<Record>().unwrap() {
        Record::Sample(s) => assert_eq!(s.transaction().unwrap().abort(), 0x12345678),
        _ => panic!(),
    };
}''')

bug("c14-ns-count", "C14", "a namespaces record whose count occupies the upper half of the field",
    "an incomplete record is accepted",
    [["src/records/namespaces.rs", "        let len = p.parse_u64()? as usize;", "        let len = p.parse_u64()? as u32 as usize;"]],
    r'''fn main() {
    let d = rec(16, 0, w().w(1).w(2).q(1 << 40).q(3).q(4));
    assert!(Parser::new(&d[..], cfg(0, 0)).parse::<Record>().is_err());
    let d = rec(16, 0, w().w(1).w(2).q(1).q(3).q(4));
    assert!(Parser::new(&d[..], cfg(0, 0)).parse::<Record>().is_ok());
}''')


if __name__ == "__main__":
    for i in sys.argv[1:] or BUGS:
        b = BUGS[i]
        d = "/tmp/s/new/" + i
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(PRE + b["main"] + "\n")
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks", "edits")}, open(d + "/edit.json", "w"))
    print(" ".join(sys.argv[1:] or BUGS))
