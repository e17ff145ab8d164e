//! C22: errors have the right kind and cause and are forwarded unchanged.
use crate::common::*;
use crate::gen::*;
use std::error::Error;
use std::fmt;
use std::io;

/// The caller's own error type, with a payload to recognise it by.
#[derive(Debug)]
struct Mine(u64);
impl fmt::Display for Mine {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("my own error")
    }
}
impl Error for Mine {}

const IO_KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Interrupted,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::InvalidData,
    io::ErrorKind::NotFound,
];

/// How the source fails: 0 own error, 1 boxed own error, 2 end of file, 3.. I/O errors.
const FAILS: usize = 3 + IO_KINDS.len();
fn make(how: usize, x: u64) -> ParseError {
    match how {
        0 => ParseError::new(Mine(x)),
        1 => {
            let b: Box<dyn Error + Send + Sync + 'static> = Box::new(Mine(x));
            ParseError::from(b)
        }
        2 => ParseError::eof(),
        _ => ParseError::from(io::Error::new(IO_KINDS[how - 3], Mine(x))),
    }
}
fn kind_of(how: usize) -> ErrorKind {
    if how == 2 || how == 4 {
        ErrorKind::Eof
    } else {
        ErrorKind::External
    }
}
/// The error is the one made by `make`.
fn is_made(e: &ParseError, how: usize, x: u64) {
    check(e.kind() == kind_of(how), "the error keeps its kind");
    match how {
        0 | 1 => match e.source().and_then(|s| s.downcast_ref::<Mine>()) {
            Some(m) => check(m.0 == x, "the error keeps its cause"),
            None => check(false, "the error keeps its cause"),
        },
        2 => check(e.source().is_none(), "end of file has no cause"),
        _ => match e.source().and_then(|s| s.downcast_ref::<io::Error>()) {
            Some(i) => {
                check(i.kind() == IO_KINDS[how - 3], "the I/O error keeps its kind");
                match i.get_ref().and_then(|s| s.downcast_ref::<Mine>()) {
                    Some(m) => check(m.0 == x, "the I/O error keeps its cause"),
                    None => check(false, "the I/O error keeps its cause"),
                }
            }
            None => check(false, "the I/O error is the cause"),
        },
    }
}

/// Delivers data in chunks, then fails for good.
struct Fail<'a> {
    d: &'a [u8],
    pos: usize,
    n: usize,
    temp: bool,
    hint: Option<usize>,
    scratch: Vec<u8>,
    how: usize,
    x: u64,
}
unsafe impl<'a> ParseBuf<'a> for Fail<'a> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'a>> {
        if self.pos >= self.d.len() {
            return Err(make(self.how, self.x));
        }
        let e = ((self.pos / self.n + 1) * self.n).min(self.d.len());
        let s: &'a [u8] = &self.d[self.pos..e];
        if self.temp {
            self.scratch.clear();
            self.scratch.extend_from_slice(s);
            Ok(ParseBufChunk::Temporary(&self.scratch))
        } else {
            Ok(ParseBufChunk::External(s))
        }
    }
    fn advance(&mut self, n: usize) {
        check(n <= self.d.len() - self.pos, "source advanced past its end");
        self.pos += n;
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.hint.map(|h| h - self.pos)
    }
}
/// Delivers data in pieces, then fails for good.
struct FailRead<'a> {
    d: &'a [u8],
    n: usize,
    how: usize,
    x: u64,
}
impl<'a> io::Read for FailRead<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.d.is_empty() {
            return Err(io::Error::new(IO_KINDS[self.how - 3], Mine(self.x)));
        }
        let k = self.n.min(b.len()).min(self.d.len());
        b[..k].copy_from_slice(&self.d[..k]);
        self.d = &self.d[k..];
        Ok(k)
    }
}

fn cfg_of(k: usize, v: usize) -> Cfg {
    let st = if k == K_SAMPLE {
        match v {
            0 => S_IP | S_TID | S_CALLCHAIN | S_RAW | S_READ | S_STACK_USER,
            _ => S_ID | S_BRANCH | S_REGS_USER | S_REGS_INTR | S_AUX | S_CPU,
        }
    } else {
        S_TID | S_ID
    };
    let rf = if k == 7 { R_ID } else { R_GROUP | R_ID };
    Cfg { st, rf, id_all: true, hw: false, ru: 0x9, ri: 0x4 }
}

/// Parse a record in one of five ways.
fn record<'p, B: ParseBuf<'p>, E: Endian>(mut p: Parser<B, E>, way: usize) -> Option<ParseError> {
    match way {
        0 => p.parse::<Record>().err(),
        1 => p.parse_record(Cap).err(),
        2 => match p.parse::<perf_event_header>() {
            Err(e) => Some(e),
            Ok(h) => p.parse_record_with_header(Cap, h).err(),
        },
        3 => match p.parse::<perf_event_header>() {
            Err(e) => Some(e),
            Ok(h) => Record::parse_with_header(&mut p, h).err(),
        },
        _ => match p.parse_metadata() {
            Err(e) => Some(e),
            Ok((mut q, _)) => q.parse_rest().err(),
        },
    }
}

/// A type whose parser always fails.
struct Bad;
impl<'p> Parse<'p> for Bad {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        p.parse_u8()?;
        Err(ParseError::new(Mine(0x1234_5678_9ABC)))
    }
}
/// A type whose parser fails from some value on.
struct Odd(u8);
impl<'p> Parse<'p> for Odd {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        let x = p.parse_u8()?;
        if x & 1 != 0 {
            return Err(ParseError::new(Mine(x as u64)));
        }
        Ok(Odd(x))
    }
}

fn text(e: &dyn fmt::Display, l: &str) -> bool {
    same(format!("{e}").as_bytes(), l.as_bytes())
}

entries! {
    // the source fails behind any number of bytes of a record
    fn c22_source() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(2) } else { 0 };
        let cfg = cfg_of(k, v);
        let be = choose(2) == 1;
        let mut w = W::new(be, 900);
        write_any(&mut w, k, misc_of(k), &cfg, &DIMS, &Ids::sym());
        let n = choose(w.len() + 1);
        // vary the rest over the cut positions
        let how = [0, 1, 2, 3, 4, 5][(n + choose(2)) % 6];
        let (chunk, temp) = [(1000, false), (7, true), (9, false), (1000, true)][(n / 2 + k) % 4];
        let way = (n + k + choose(2)) % 5;
        let x = sym_u64();
        let total = w.len();
        let src = Fail { d: &w.b[..n], pos: 0, n: chunk, temp, hint: None, scratch: Vec::with_capacity(900), how, x };
        match record(Parser::new(src, cfg.get(en(be))), way) {
            None => check(n == total, "a failing source is not ignored"),
            Some(e) => {
                check(n < total, "errors behind the record do not matter");
                is_made(&e, how, x);
                cover("source");
            }
        }
    }
    // every kind of failure, every way of parsing, at some positions
    fn c22_kinds() {
        let k = [1, 2, K_SAMPLE, 20, 22][choose(5)];
        let cfg = cfg_of(k, 0);
        let mut w = W::new(false, 900);
        write_any(&mut w, k, misc_of(k), &cfg, &DIMS, &Ids::sym());
        let n = [0, 3, 8, 12, 8 + (w.len() - 8) / 2, w.len() - 1][choose(6)];
        let how = choose(FAILS);
        let way = choose(5);
        let temp = choose(2) == 1;
        let x = sym_u64();
        let src = Fail { d: &w.b[..n], pos: 0, n: 10, temp, hint: None, scratch: Vec::with_capacity(900), how, x };
        match record(Parser::new(src, cfg.get(Little)), way) {
            None => check(false, "a failing source is not ignored"),
            Some(e) => is_made(&e, how, x),
        }
        cover("kinds");
    }
    // primitives and bare types with a failing source
    fn c22_primitives() {
        let n = choose(18);
        let d = syms8(n);
        let how = [0, 2, 3, 6][choose(4)];
        let x = sym_u64();
        let (chunk, temp) = [(1000, false), (3, true)][choose(2)];
        let src = Fail { d: &d, pos: 0, n: chunk, temp, hint: None, scratch: Vec::with_capacity(100), how, x };
        let mut p = Parser::new(src, Cfg { st: S_TIME | S_ID, ..Default::default() }.get(Little));
        // the smallest number of bytes it needs; None: it reads on until the source reports the end
        let (e, need) = match choose(16) {
            0 => (p.parse_u8().err(), Some(1)),
            1 => (p.parse_u16().err(), Some(2)),
            2 => (p.parse_u32().err(), Some(4)),
            3 => (p.parse_u64().err(), Some(8)),
            4 => (p.parse::<[u8; 9]>().err(), Some(9)),
            5 => (p.parse_bytes(10).err(), Some(10)),
            6 => (p.parse_repeated::<u16>(4).err(), Some(8)),
            7 => (unsafe { p.parse_slice::<u8>(12) }.err(), Some(12)),
            8 => (p.parse_if::<u64>(true).err(), Some(8)),
            9 => (p.parse_with(|p| { p.parse_u8()?; p.parse_u32() }).err(), Some(5)),
            10 => (p.parse::<perf_event_header>().err(), Some(8)),
            11 => (p.parse_rest().err(), None),
            12 => (p.parse_rest_trim_nul().err(), None),
            13 => (p.parse::<CGroup>().err(), None),
            14 => (p.parse::<Sample>().err(), Some(16)),
            _ => (p.parse::<Lost>().err(), Some(16)),
        };
        match (e, need) {
            (None, Some(m)) => check(n >= m, "a failing source is not ignored"),
            (Some(e), Some(m)) => {
                check(n < m, "errors behind the value do not matter");
                is_made(&e, how, x);
            }
            // to the end: only an end of file ends it
            (None, None) => check(kind_of(how) == ErrorKind::Eof, "a failing source is not the end of the data"),
            (Some(e), None) => {
                check(kind_of(how) != ErrorKind::Eof || n < 8, "the end of the data is no error");
                is_made(&e, how, x);
            }
        }
        cover("primitives");
    }
    // readers
    fn c22_reader() {
        let k = [1, 3, K_SAMPLE, 9, 22][choose(5)];
        let cfg = cfg_of(k, 1);
        let be = choose(2) == 1;
        let mut w = W::new(be, 900);
        write_any(&mut w, k, misc_of(k), &cfg, &DIMS, &Ids::sym());
        let n = choose(w.len() + 1);
        let how = 3 + (n + choose(2) * 3) % IO_KINDS.len();
        let x = sym_u64();
        let total = w.len();
        let r = FailRead { d: &w.b[..n], n: [1000, 5][choose(2)], how, x };
        match record(Parser::new(io::BufReader::with_capacity(16, r), cfg.get(en(be))), n % 5) {
            None => check(n == total, "a failing reader is not ignored"),
            Some(e) => {
                check(n < total, "errors behind the record do not matter");
                is_made(&e, how, x);
                cover("reader");
            }
        }
    }
    // every kind of reader failure at once, also without a payload
    fn c22_reader_kinds() {
        let d = syms8(11);
        let i = choose(IO_KINDS.len());
        let x = sym_u64();
        let what = choose(3);
        let mut p = Parser::new(io::BufReader::with_capacity(8, FailRead { d: &d, n: 4, how: 3 + i, x }), Cfg::default().get(Little));
        match what {
            0 => match p.parse_bytes(12) { Ok(_) => check(false, "a failing reader is not ignored"), Err(e) => is_made(&e, 3 + i, x) },
            1 => match p.parse_rest() {
                Ok(r) => {
                    check(IO_KINDS[i] == io::ErrorKind::UnexpectedEof, "a failing reader is not the end of the data");
                    check(same(&r, &d), "all data in front of the end");
                }
                Err(e) => {
                    check(IO_KINDS[i] != io::ErrorKind::UnexpectedEof, "the end of the data is no error");
                    is_made(&e, 3 + i, x)
                }
            },
            _ => {
                let e = ParseError::from(io::Error::from(IO_KINDS[i]));
                check(e.kind() == kind_of(3 + i), "the kind of an I/O error");
                match e.source().and_then(|s| s.downcast_ref::<io::Error>()) {
                    Some(s) => check(s.kind() == IO_KINDS[i], "the I/O error is the cause"),
                    None => check(false, "the I/O error is the cause"),
                }
            }
        }
        cover("reader kinds");
    }
    // attribute structures
    fn c22_attr() {
        let n = [0usize, 3, 7, 8, 40, 63, 64, 100, 135, 136][choose(10)];
        let mut w = W::new(false, 200);
        w.u32(sym_u32()).u32(136).bytes(&syms8(128));
        let how = choose(FAILS);
        let x = sym_u64();
        let src = Fail { d: &w.b[..n], pos: 0, n: 50, temp: choose(2) == 1, hint: None, scratch: Vec::with_capacity(200), how, x };
        match Parser::new(src, Cfg::default().get(Little)).parse::<perf_event_attr>() {
            Ok(_) => check(n == 136, "a failing source is not ignored"),
            Err(e) => {
                check(n < 136, "errors behind the structure do not matter");
                is_made(&e, how, x);
                cover("attr");
            }
        }
    }
    // errors made by custom parsers pass through everything
    fn c22_custom() {
        let mut w = W::new(false, 200);
        let a = syms8(6);
        let st = choose(2) == 1;
        let at = w.header(77, 0);
        w.bytes(&a);
        w.finish(at);
        w.u64(SENTINEL);
        let src = Src::choose();
        struct C(Vec<u8>, bool);
        impl Job for C {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let whole = ParseError::new(Mine(0x1234_5678_9ABC));
                is_made(&whole, 0, 0x1234_5678_9ABC);
                if self.1 {
                    let (mut q, _) = match p.parse_metadata() { Ok(x) => x, Err(_) => { check(false, "frame"); return } };
                    custom(&mut q, &self.0);
                    // the record is skipped whatever the custom parser did
                    at_sentinel(&mut p);
                } else {
                    if p.parse::<[u8; 8]>().is_err() { check(false, "frame"); return }
                    custom(&mut p, &self.0);
                }
                cover("custom");
            }
        }
        fn custom<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, a: &[u8]) {
            let ways = choose(6);
            let e = match ways {
                0 => p.parse::<Bad>().err(),
                1 => p.parse_if::<Bad>(true).err(),
                2 => p.parse_with(|p| Bad::parse(p)).err(),
                3 => p.parse_if_with(true, |p| p.parse::<Bad>()).err(),
                4 => p.parse_repeated::<Bad>(3).err(),
                _ => {
                    // the first odd byte decides
                    match p.parse_repeated::<Odd>(6) {
                        Ok(v) => {
                            check(v.len() == 6, "all values parsed");
                            let mut i = 0;
                            while i < 6 { check(v[i].0 == a[i] && a[i] & 1 == 0, "all values parsed"); i += 1 }
                            cover("repeated, good");
                        }
                        Err(e) => {
                            let mut i = 0;
                            while i < 6 && a[i] & 1 == 0 { i += 1 }
                            check(i < 6, "no error out of nothing");
                            if i < 6 { is_made(&e, 0, a[i] as u64); }
                            cover("repeated, bad");
                        }
                    }
                    return;
                }
            };
            match e {
                Some(e) => is_made(&e, 0, 0x1234_5678_9ABC),
                None => check(false, "the custom error arrives"),
            }
        }
        drive(&w.b, src, false, &Cfg::default(), C(a, st));
    }
    // what errors show
    fn c22_display() {
        let x = sym_u64();
        match choose(8) {
            0 => {
                let e = ParseError::eof();
                check(e.kind() == ErrorKind::Eof && e.source().is_none(), "eof()");
                check(text(&e, "unexpected EOF during parsing"), "end of file is shown as such");
            }
            1 => {
                let e = ParseError::new(Mine(x));
                is_made(&e, 0, x);
                check(text(&e, "my own error"), "an external error is shown as its cause");
            }
            2 => {
                let e = make(1, x);
                is_made(&e, 1, x);
                check(text(&e, "my own error"), "an external error is shown as its cause");
            }
            3 => {
                let e = ParseError::new("text");
                check(e.kind() == ErrorKind::External, "an error made from text");
                check(text(&e, "text"), "an error made from text shows it");
            }
            4 => {
                let e = ParseError::new(String::from("owned text"));
                check(e.kind() == ErrorKind::External, "an error made from text");
                check(text(&e, "owned text"), "an error made from text shows it");
            }
            5 => {
                let e = make(4, x);
                check(text(&e, "unexpected EOF during parsing: my own error"), "kind and cause are shown");
            }
            6 => {
                let e = make(3, x);
                check(text(&e, "my own error"), "an external error is shown as its cause");
            }
            _ => {
                // errors of the crate: kind, then the cause
                let (e, kind) = match choose(6) {
                    0 => {
                        let mut w = W::new(false, 64);
                        w.u32(2).u16(0).u16(3);
                        (Parser::new(&w.b[..], Cfg::default().get(Little)).parse::<Record>().err(), 0)
                    }
                    1 => {
                        let mut w = W::new(false, 64);
                        w.u32(2).u16(0).u16(8);
                        (Parser::new(&w.b[..], Cfg { st: S_ID, id_all: true, ..Default::default() }.get(Little)).parse::<Record>().err(), 0)
                    }
                    2 => {
                        let mut w = W::new(false, 64);
                        w.u32(0).u32(71);
                        (Parser::new(&w.b[..], Cfg::default().get(Little)).parse::<perf_event_attr>().err(), 0)
                    }
                    3 => {
                        let mut w = W::new(false, 256);
                        w.u32(0).u32(144).bytes(&[0; 128]).u64(1);
                        (Parser::new(&w.b[..], Cfg::default().get(Little)).parse::<perf_event_attr>().err(), 1)
                    }
                    4 => (Parser::new(&[0u8; 32][..], Cfg { rf: R_GROUP, ..Default::default() }.get(Little)).parse::<ReadValue>().err(), 2),
                    _ => (Parser::new(&[0u8; 32][..], Cfg { rf: 1 << 30, ..Default::default() }.get(Little)).parse::<ReadValue>().err(), 2),
                };
                match e {
                    None => check(false, "an error"),
                    Some(e) => {
                        check(e.kind() == [ErrorKind::InvalidRecord, ErrorKind::UnsupportedData, ErrorKind::UnsupportedConfig][kind], "kinds of the crate's errors");
                        match e.source() {
                            None => check(false, "the crate's errors have a cause"),
                            Some(s) => {
                                let head = ["invalid record: ", "unsupported serialized data: ", "unsupported config: "][kind];
                                check(text(&e, &format!("{head}{s}")), "kind and cause are shown");
                            }
                        }
                    }
                }
            }
        }
        cover("display");
    }
}
