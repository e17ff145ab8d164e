//! Shared building blocks: a reference *writer* for the kernel ABI (independent of the crate's
//! readers), configurations, and data sources.
pub use crate::vp::*;
pub use perf_event_data::endian::*;
pub use perf_event_data::parse::*;
pub use perf_event_data::*;
pub use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};
pub use std::borrow::Cow;

/// Reference writer: the same values in the chosen byte order (`b`) and in the other one (`o`).
#[derive(Clone)]
pub struct W {
    pub b: Vec<u8>,
    pub o: Vec<u8>,
    pub be: bool,
}
impl W {
    pub fn new(be: bool, cap: usize) -> W {
        W { b: Vec::with_capacity(cap), o: Vec::with_capacity(cap), be }
    }
    fn put(&mut self, le: &[u8], be: &[u8]) -> &mut W {
        let (x, y) = if self.be { (be, le) } else { (le, be) };
        self.b.extend_from_slice(x);
        self.o.extend_from_slice(y);
        self
    }
    pub fn u8(&mut self, x: u8) -> &mut W {
        self.put(&[x], &[x])
    }
    pub fn u16(&mut self, x: u16) -> &mut W {
        self.put(&x.to_le_bytes(), &x.to_be_bytes())
    }
    pub fn u32(&mut self, x: u32) -> &mut W {
        self.put(&x.to_le_bytes(), &x.to_be_bytes())
    }
    pub fn u64(&mut self, x: u64) -> &mut W {
        self.put(&x.to_le_bytes(), &x.to_be_bytes())
    }
    pub fn bytes(&mut self, x: &[u8]) -> &mut W {
        self.put(x, x)
    }
    pub fn len(&self) -> usize {
        self.b.len()
    }
    /// Start a record; `finish` fills in its size.
    pub fn header(&mut self, ty: u32, misc: u16) -> usize {
        let at = self.len();
        self.u32(ty).u16(misc).u16(0);
        at
    }
    pub fn set_size(&mut self, at: usize, n: u16) {
        let (l, h) = (n as u8, (n >> 8) as u8);
        let (x, y) = if self.be { ([h, l], [l, h]) } else { ([l, h], [h, l]) };
        self.b[at + 6] = x[0];
        self.b[at + 7] = x[1];
        self.o[at + 6] = y[0];
        self.o[at + 7] = y[1];
    }
    pub fn finish(&mut self, at: usize) {
        let n = (self.len() - at) as u16;
        self.set_size(at, n);
    }
}

/// Parser configuration, as the fields of `perf_event_attr` that matter.
#[derive(Clone, Copy, Default)]
pub struct Cfg {
    pub st: u64,
    pub rf: u64,
    pub id_all: bool,
    pub hw: bool,
    pub ru: u64,
    pub ri: u64,
}
impl Cfg {
    pub fn attr(&self) -> perf_event_attr {
        let mut a = perf_event_attr::default();
        a.sample_type = self.st;
        a.read_format = self.rf;
        a.set_sample_id_all(self.id_all as u64);
        if self.hw {
            a.branch_sample_type = 1 << 17;
        }
        a.sample_regs_user = self.ru;
        a.sample_regs_intr = self.ri;
        a
    }
    pub fn get<E: Endian>(&self, e: E) -> ParseConfig<E> {
        ParseConfig::<Native>::from(self.attr()).with_endian(e)
    }
}

pub const S_IP: u64 = 1 << 0;
pub const S_TID: u64 = 1 << 1;
pub const S_TIME: u64 = 1 << 2;
pub const S_ADDR: u64 = 1 << 3;
pub const S_READ: u64 = 1 << 4;
pub const S_CALLCHAIN: u64 = 1 << 5;
pub const S_ID: u64 = 1 << 6;
pub const S_CPU: u64 = 1 << 7;
pub const S_PERIOD: u64 = 1 << 8;
pub const S_STREAM: u64 = 1 << 9;
pub const S_RAW: u64 = 1 << 10;
pub const S_BRANCH: u64 = 1 << 11;
pub const S_REGS_USER: u64 = 1 << 12;
pub const S_STACK_USER: u64 = 1 << 13;
pub const S_WEIGHT: u64 = 1 << 14;
pub const S_DATA_SRC: u64 = 1 << 15;
pub const S_IDENT: u64 = 1 << 16;
pub const S_TXN: u64 = 1 << 17;
pub const S_REGS_INTR: u64 = 1 << 18;
pub const S_PHYS: u64 = 1 << 19;
pub const S_AUX: u64 = 1 << 20;
pub const S_CGROUP: u64 = 1 << 21;
pub const S_DPAGE: u64 = 1 << 22;
pub const S_CPAGE: u64 = 1 << 23;
pub const S_WSTRUCT: u64 = 1 << 24;

pub const R_TE: u64 = 1;
pub const R_TR: u64 = 2;
pub const R_ID: u64 = 4;
pub const R_GROUP: u64 = 8;
pub const R_LOST: u64 = 16;

/// The sample_id trailer flags in the order the kernel emits them.
#[derive(Clone, Copy)]
pub struct Ids {
    pub pid: u32,
    pub tid: u32,
    pub time: u64,
    pub id: u64,
    pub stream: u64,
    pub cpu: u32,
    pub res: u32,
    pub ident: u64,
}
impl Ids {
    pub fn sym() -> Ids {
        Ids { pid: sym_u32(), tid: sym_u32(), time: sym_u64(), id: sym_u64(), stream: sym_u64(), cpu: sym_u32(), res: sym_u32(), ident: sym_u64() }
    }
    pub fn write(&self, w: &mut W, c: &Cfg) {
        if !c.id_all {
            return;
        }
        if c.st & S_TID != 0 {
            w.u32(self.pid).u32(self.tid);
        }
        if c.st & S_TIME != 0 {
            w.u64(self.time);
        }
        if c.st & S_ID != 0 {
            w.u64(self.id);
        }
        if c.st & S_STREAM != 0 {
            w.u64(self.stream);
        }
        if c.st & S_CPU != 0 {
            w.u32(self.cpu).u32(self.res);
        }
        if c.st & S_IDENT != 0 {
            w.u64(self.ident);
        }
    }
    pub fn check(&self, s: &SampleId, c: &Cfg) {
        let on = |f: u64| c.id_all && c.st & f != 0;
        check(s.pid() == on(S_TID).then_some(self.pid), "sample_id.pid");
        check(s.tid() == on(S_TID).then_some(self.tid), "sample_id.tid");
        check(s.time() == on(S_TIME).then_some(self.time), "sample_id.time");
        check(s.stream_id() == on(S_STREAM).then_some(self.stream), "sample_id.stream_id");
        check(s.cpu() == on(S_CPU).then_some(self.cpu), "sample_id.cpu");
        let id = if on(S_ID) {
            Some(self.id)
        } else if on(S_IDENT) {
            Some(self.ident)
        } else {
            None
        };
        check(s.id() == id, "sample_id.id");
    }
    pub fn check_empty(s: &SampleId) {
        check(
            s.pid().is_none() && s.tid().is_none() && s.time().is_none() && s.id().is_none() && s.stream_id().is_none() && s.cpu().is_none(),
            "sample_id is empty",
        );
    }
}

/// A data source made of chunks; cut points are absolute offsets. Temporary chunks live in a
/// scratch buffer that is overwritten when the source is advanced.
pub struct Chunks<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    cuts: Vec<usize>,
    /// the first cut that may still lie ahead
    next: usize,
    pub temp: bool,
    pub hint: bool,
    scratch: Vec<u8>,
    valid: bool,
}
impl<'a> Chunks<'a> {
    pub fn new(data: &'a [u8], cuts: &[usize], temp: bool, hint: bool) -> Self {
        let mut cuts = cuts.to_vec();
        if cuts.windows(2).any(|w| w[0] > w[1]) {
            cuts.sort();
        }
        Chunks { data, pos: 0, cuts, next: 0, temp, hint, scratch: Vec::new(), valid: false }
    }
    fn end(&mut self) -> usize {
        while self.next < self.cuts.len() && self.cuts[self.next] <= self.pos {
            self.next += 1;
        }
        match self.cuts.get(self.next) {
            Some(&c) if c < self.data.len() => c,
            _ => self.data.len(),
        }
    }
}
unsafe impl<'a> ParseBuf<'a> for Chunks<'a> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'a>> {
        if self.pos >= self.data.len() {
            return Err(ParseError::eof());
        }
        let e = self.end();
        let s: &'a [u8] = &self.data[self.pos..e];
        if self.temp {
            if !self.valid {
                self.scratch.clear();
                self.scratch.extend_from_slice(s);
                self.valid = true;
            }
            Ok(ParseBufChunk::Temporary(&self.scratch))
        } else {
            Ok(ParseBufChunk::External(s))
        }
    }
    fn advance(&mut self, n: usize) {
        check(n <= self.data.len() - self.pos, "source advanced past its end");
        self.pos += n;
        if n > 0 && self.valid {
            for b in self.scratch.iter_mut() {
                *b = 0xEE;
            }
            self.valid = false;
        }
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.hint.then(|| self.data.len() - self.pos)
    }
}

/// How the bytes reach the parser.
#[derive(Clone, Copy)]
pub struct Src {
    /// 0: one slice, 1: chunks borrowed from the input, 2: temporary chunks, 3: BufReader
    pub kind: usize,
    /// misalignment of a slice / chunk size of a chunked source
    pub n: usize,
    pub hint: bool,
}
impl Src {
    pub const SLICE: Src = Src { kind: 0, n: 0, hint: true };
    pub fn choose() -> Src {
        match choose(5) {
            0 => Src::SLICE,
            4 => Src { kind: 3, n: 24, hint: false },
            1 => Src { kind: 0, n: 1, hint: true },
            2 => Src { kind: 2, n: 13, hint: false },
            _ => Src { kind: 1, n: 21, hint: true },
        }
    }
}

/// Like `drive`, for inputs with arrays: a contiguous slice in native byte order starts at an
/// aligned address, because of the known finding that unaligned arrays are misread there (c09
/// exhibits it). Every other source and byte order is used as given.
pub fn drive_arrays<J: Job>(data: &[u8], src: Src, be: bool, cfg: &Cfg, j: J) -> J::Out {
    let mut src = src;
    if src.kind == 0 && !be {
        src.n = (src.n + 7) / 8 * 8;
    }
    drive(data, src, be, cfg, j)
}

pub trait Job {
    type Out;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, p: Parser<B, E>) -> Self::Out;
}

pub fn en(be: bool) -> Dynamic {
    if be {
        Dynamic::Big
    } else {
        Dynamic::Little
    }
}

pub fn drive<J: Job>(data: &[u8], src: Src, be: bool, cfg: &Cfg, j: J) -> J::Out {
    let c = cfg.get(en(be));
    if src.kind == 0 {
        if src.n == 0 {
            return j.run(Parser::new(data, c));
        }
        let mut v: Vec<u8> = Vec::with_capacity(data.len() + src.n);
        v.resize(src.n, 0xD7);
        v.extend_from_slice(data);
        return j.run(Parser::new(&v[src.n..], c));
    }
    if src.kind == 3 {
        return j.run(Parser::new(std::io::BufReader::with_capacity(src.n, data), c));
    }
    let mut cuts = vec![];
    let mut i = src.n;
    while i < data.len() {
        cuts.push(i);
        i += src.n;
    }
    j.run(Parser::new(Chunks::new(data, &cuts, src.kind == 2, src.hint), c))
}

pub const SENTINEL: u64 = 0x5AA5_1234_89AB_CDEF;

/// After a record, the source must be positioned exactly behind it.
pub fn at_sentinel<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) {
    match p.parse_u64() {
        Ok(x) => check(x == SENTINEL, "stream is positioned right behind the record"),
        Err(_) => check(false, "stream is positioned right behind the record"),
    }
}

/// Equality of byte strings of concrete length: one check for the contents.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn same64(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u64;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
