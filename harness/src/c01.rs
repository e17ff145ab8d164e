//! C01: no input makes parsing panic, hang, misuse memory or leak.
//!
//! Memory safety, absence of panics and overflow, initialisedness and termination are checked by
//! the engine on every path of every entry; the entries provide arbitrary inputs and use every
//! result in every way, and compare the memory in use before and after.
use crate::common::*;
use crate::gen::*;
use std::fmt::Write;

/// Uses a record in every way that does not format numbers.
fn exercise(r: &Record<'_>) -> u64 {
    let f = Flat::of(r);
    let mut x = f.n.len() as u64 + f.b.len() as u64;
    match r {
        Record::Namespaces(n) => {
            for e in [n.network(), n.uts(), n.ipc(), n.pid(), n.user(),  n.cgroup()] {
                x += e.is_some() as u64;
            }
        }
        Record::Sample(s) => {
            let id = SampleId::from_sample(s);
            x += id.pid().is_some() as u64;
            if let Some(g) = s.values() {
                x += group(g);
            }
        }
        Record::Aux(a) => {
            x += u64::from(u8::from(a.flags.pmu_format_type()) > 1);
        }
        _ => {}
    }
    x
}
fn group(g: &ReadGroup<'_>) -> u64 {
    let mut x = g.entries().len() as u64;
    for e in g.entries().rev() {
        x += e.id().is_some() as u64;
    }
    x += g.get(0).is_some() as u64 + g.get(g.len()).is_some() as u64 + g.get(usize::MAX).is_some() as u64;
    x += g.get_by_id(7).is_some() as u64;
    x += ReadValue::try_from(g.clone()).is_ok() as u64;
    x
}
/// Everything a record can be turned into.
fn consume(r: Record<'_>) -> u64 {
    let c = r.clone();
    let x = exercise(&r);
    drop(r);
    let y = match c {
        Record::Mmap(m) => m.into_owned().filename.len() as u64,
        Record::Mmap2(m) => {
            if choose(2) == 0 {
                m.into_owned().filename.len() as u64
            } else {
                Mmap::from(m).filename.len() as u64
            }
        }
        Record::Comm(m) => m.into_owned().comm.len() as u64,
        Record::KSymbol(m) => m.into_owned().name.len() as u64,
        Record::CGroup(m) => m.into_owned().path.len() as u64,
        Record::Read(m) => ReadGroup::from(m.values).len() as u64,
        Record::Sample(s) => match s.values() {
            Some(g) => g.clone().into_owned().len() as u64,
            None => 0,
        },
        c => exercise(&c),
    };
    x + y
}
fn pass(r: ParseResult<Record<'_>>) {
    match r {
        Ok(r) => {
            check(consume(r) < 1 << 20, "a record can be used");
            cover("record");
        }
        Err(e) => {
            check(kind_code(e.kind()) != 5 && kind_code(e.kind()) < 6, "errors have a kind");
            cover("error");
        }
    }
}
/// The records of a stream up to the first error: at most one per eight bytes.
struct All(usize);
impl Job for All {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        let mut n = 0;
        while let Ok(r) = p.parse::<Record>() {
            check(consume(r) < 1 << 20, "a record can be used");
            n += 1;
            check(n <= self.0 / 8, "a finite stream holds finitely many records");
            if n > self.0 / 8 {
                return;
            }
        }
        cover("stream");
    }
}
/// The first record only.
struct First;
impl Job for First {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        pass(p.parse::<Record>());
    }
}
/// Runs and compares the memory in use before and after.
fn clean<T>(f: impl FnOnce() -> T) -> T {
    let live = heap_live();
    let r = f();
    check(heap_live() == live, "everything that was allocated is given back");
    r
}
fn source(i: usize) -> Src {
    match i {
        0 => Src::SLICE,
        1 => Src { kind: 2, n: 11, hint: true },
        2 => Src { kind: 1, n: 13, hint: false },
        _ => Src { kind: 3, n: 9, hint: false },
    }
}
/// A source and a byte order.
fn origin() -> (Src, bool) {
    let i = choose(4);
    (source(i), i % 2 == 1)
}
/// Discards the text but counts it.
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        check(self.0 < 1 << 16, "the text is finite");
        if self.0 < 1 << 16 {
            Ok(())
        } else {
            Err(std::fmt::Error)
        }
    }
}
fn show<T: std::fmt::Debug>(x: &T) {
    let mut s = Sink(0);
    let ok = if choose(2) == 0 { write!(s, "{:?}", x) } else { write!(s, "{:#?}", x) };
    check(ok.is_ok() && s.0 > 0, "everything can be formatted");
    cover("formatted");
}
struct Show;
impl Job for Show {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        match p.parse::<Record>() {
            Ok(r) => show(&r),
            Err(e) => {
                show(&e);
                let mut s = Sink(0);
                check(write!(s, "{}", e).is_ok() && s.0 > 0, "errors have a text");
            }
        }
    }
}

const IDS: [u64; 4] = [0, S_CPU | S_TIME, S_ID | S_STREAM, S_TID | S_TIME | S_ID | S_STREAM | S_CPU | S_IDENT];

/// What a caller may do with a parser, whatever happened before.
fn op<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, kind: usize) {
    match kind {
        0 => drop(p.parse_bytes([0usize, 1, 9, usize::MAX][choose(4)])),
        1 => drop(unsafe { p.parse_slice::<u64>([0usize, 1, 2, usize::MAX / 8 + 2][choose(4)]) }),
        2 => drop(unsafe { p.parse_slice_direct::<NamespaceEntry>(choose(2)) }),
        3 => drop(p.parse_repeated::<u32>([0usize, 1, 4, usize::MAX][choose(4)])),
        4 => drop(p.parse_rest()),
        5 => drop(p.parse_rest_trim_nul()),
        6 => drop(p.parse::<[u8; 7]>()),
        7 => drop(p.parse_u64()),
        8 => drop(p.parse::<Record>()),
        9 => match p.parse_metadata() {
            Ok((mut q, _)) => {
                let _ = q.parse_u16();
                if choose(2) == 0 {
                    let _ = q.parse_rest();
                }
            }
            Err(e) => drop(e),
        },
        10 => drop(p.parse::<perf_event_attr>()),
        _ => drop(p.parse::<ReadGroup>()),
    }
}
const OPS: usize = 12;
struct Ops(usize, usize);
impl Job for Ops {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        op(&mut p, self.0);
        for _ in 1..self.1 {
            op(&mut p, choose(OPS));
        }
        let r = p.parse_rest();
        check(r.is_ok(), "the rest can be read after anything");
        cover("history");
    }
}

entries! {
    // arbitrary records of any type but SAMPLE: arbitrary header, contents and trailer (param: size)
    fn c01_any() {
        let (src, be) = origin();
        let n = param();
        let d = choose(6);
        let size = [8 + n, 8 + n / 2, 9 + n, 7, 0, 65535][d];
        let cfg = Cfg { st: IDS[choose(IDS.len())], rf: if choose(2) == 0 { 0 } else { sym_u64() }, id_all: choose(2) == 1, ..Cfg::default() };
        assume(cfg.rf == 0 || n == 16 || n == 40);
        let ty = sym_u32();
        assume(ty != 9);
        let mut w = W::new(be, 64);
        w.u32(ty).u16(sym_u16()).u16(size as u16).bytes(&syms8(n));
        clean(|| drive(&w.b, src, be, &cfg, First));
    }
    // arbitrary samples: any sample_type and read_format, many masks (param: byte order, size of the body)
    fn c01_sample() {
        let n = param() % 100;
        let be = param() >= 100;
        let cfg = Cfg { st: sym_u64(), rf: sym_u64(), id_all: false, hw: choose(2) == 1, ru: sym_u64() & 0x8000_0001_0000_0103, ri: sym_u64() & 0x4000_0002_0000_0005 };
        let mut w = W::new(be, 64);
        w.u32(9).u16(0).u16(8 + n as u16).bytes(&syms8(n));
        let s = if be { Src { kind: 2, n: 11, hint: false } } else { Src::SLICE };
        clean(|| drive(&w.b, s, be, &cfg, First));
    }
    // samples with registers: any masks
    fn c01_regs() {
        let be = choose(2) == 1;
        let n = [0usize, 8, 24][choose(3)];
        let which = choose(3);
        let st = [S_REGS_USER, S_REGS_INTR, S_REGS_USER | S_REGS_INTR][which] | if choose(2) == 1 { S_CPAGE } else { 0 };
        let some = if which == 2 { 0xC000_0001_0000_0103 } else { 0x8421_8421_3FFF_0007 };
        let cfg = Cfg { st, ru: sym_u64() & some, ri: sym_u64() & some, ..Cfg::default() };
        let mut w = W::new(be, 64);
        w.u32(9).u16(0).u16(8 + n as u16).bytes(&syms8(n));
        let s = if be { Src { kind: 2, n: 11, hint: false } } else { Src::SLICE };
        clean(|| drive(&w.b, s, be, &cfg, First));
    }
    // arbitrary samples with one variable part and one more field (param: part, size of the body)
    fn c01_parts() {
        const VAR: [u64; 8] = [S_READ, S_CALLCHAIN, S_RAW, S_BRANCH, S_REGS_USER, S_STACK_USER, S_REGS_INTR, S_AUX];
        let n = param() % 100;
        let i = param() / 100;
        let j = choose(9);
        let be = choose(2) == 1;
        assume(j > i);
        let st = VAR[i] | if j == 8 { S_CPAGE } else { VAR[j] };
        let cfg = Cfg { st, rf: if st & S_READ != 0 { sym_u64() } else { 0 }, id_all: false, hw: choose(2) == 1, ru: 5, ri: 0x8000_0000_0000_0000 };
        assume(!cfg.hw || st & S_BRANCH != 0);
        let mut w = W::new(be, 80);
        w.u32(9).u16(0).u16(8 + n as u16).bytes(&syms8(n));
        let s = [Src::SLICE, Src { kind: 2, n: 19, hint: true }, Src { kind: 1, n: 17, hint: false }, Src { kind: 0, n: 4, hint: true }][choose(4)];
        clean(|| drive(&w.b, s, be, &cfg, First));
    }
    // streams of arbitrary bytes (param: size)
    fn c01_stream() {
        let (src, be) = origin();
        let cfg = Cfg { st: S_TID, id_all: choose(2) == 1, ..Cfg::default() };
        let d = syms8(param());
        clean(|| drive(&d, src, be, &cfg, All(d.len())));
    }
    // streams of short records of any type
    fn c01_records() {
        let be = choose(2) == 1;
        let src = if be { Src { kind: 2, n: 7, hint: false } } else { Src::SLICE };
        let cfg = Cfg { st: S_IP, id_all: choose(2) == 1, ..Cfg::default() };
        let mut w = W::new(be, 64);
        for i in 0..3 {
            let n = [0usize, 8, 5][choose(if i == 2 { 2 } else { 3 })];
            w.u32([3, 9, 14, 16, 20, 99][choose(if i == 2 { 3 } else { 6 })]).u16(sym_u16()).u16(8 + n as u16).bytes(&syms8(n));
        }
        w.bytes(&syms8(choose(3) * 3));
        let n = w.len();
        clean(|| drive(&w.b, src, be, &cfg, All(n)));
    }
    // attribute structures, and configurations made from them
    fn c01_attr() {
        let (src, be) = origin();
        let n = [0usize, 3, 7, 8, 63, 64, 71, 100, 136, 150][choose(10)];
        let d = syms8(n);
        struct A;
        impl Job for A {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                match p.parse::<perf_event_attr>() {
                    Ok(a) => {
                        let c = ParseConfig::<Native>::from(a);
                        let d: &[u8] = &[3; 16];
                        let mut q = Parser::new(d, c);
                        let _ = q.parse::<ReadValue>();
                        cover("attr");
                    }
                    Err(_) => cover("no attr"),
                }
            }
        }
        clean(|| drive(&d, src, be, &Cfg::default(), A));
    }
    // bare values, with an arbitrary configuration (param: which)
    fn c01_bare() {
        let (src, be) = origin();
        let n = [0usize, 7, 12, 24, 41][choose(5)];
        let what = param();
        // groups of unknown format are rejected; the others have one of 32 formats
        let known = if what == 13 { choose(33) } else { 32 };
        let rf = if known < 32 { known as u64 } else { sym_u64() };
        assume(what != 13 || known < 32 || rf >= 32);
        let cfg = Cfg { st: 0, rf, id_all: false, hw: false, ru: [0, 3, u64::MAX][choose(3)], ri: 1 };
        assume(cfg.ru == 3 || what == 15);
        let d = syms8(n);
        struct Bare(usize);
        impl Job for Bare {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                macro_rules! of {
                    ($t:ident) => {
                        p.parse::<$t>().map(Record::from)
                    };
                }
                let r = match self.0 {
                    0 => of!(Mmap),
                    1 => of!(Mmap2),
                    2 => of!(Comm),
                    3 => of!(Read),
                    4 => of!(Namespaces),
                    5 => of!(KSymbol),
                    6 => of!(BpfEvent),
                    7 => of!(CGroup),
                    8 => of!(TextPoke),
                    9 => of!(SwitchCpuWide),
                    10 => of!(Aux),
                    11 => p.parse::<Throttle>().map(Record::Throttle),
                    12 => p.parse::<Exit>().map(Record::Exit),
                    13 => match p.parse::<ReadGroup>() {
                        Ok(g) => {
                            check(group(&g) < 1 << 20, "a group can be used");
                            return cover("group");
                        }
                        Err(e) => Err(e),
                    },
                    14 => match p.parse::<DataSource>() {
                        Ok(d) => {
                            check(src_word(&d) < 1 << 46, "a data source can be used");
                            return;
                        }
                        Err(e) => Err(e),
                    },
                    _ => match Registers::parse_user(&mut p) {
                        Ok(r) => {
                            check(r.regs.len() <= 64, "registers can be used");
                            return;
                        }
                        Err(e) => Err(e),
                    },
                };
                pass(r);
            }
        }
        clean(|| drive(&d, src, be, &cfg, Bare(what)));
    }
    // any calls on one parser, whatever they return (param: kind of the first, number of calls)
    fn c01_history() {
        let i = choose(4);
        let d = syms8(20);
        let s = [Src::SLICE, Src { kind: 2, n: 6, hint: true }, Src { kind: 1, n: 9, hint: false }, Src { kind: 3, n: 8, hint: false }][i];
        clean(|| drive(&d, s, i % 2 == 1, &Cfg::default(), Ops(param() / 10, param() % 10)));
    }
    // formatting: texts, lengths and kinds are arbitrary, numbers are not
    fn c01_format() {
        let k = choose(KINDS);
        let d = if choose(2) == 0 { DIMS } else { EMPTY };
        let c = Cfg { st: [0, (1 << 25) - 1][choose(2)], rf: [0, R_GROUP | R_ID | R_TE][choose(2)], id_all: false, hw: true, ru: 3, ri: 1 };
        assume(k == K_SAMPLE || k == 7 || c.st == 0 && c.rf == 0);
        fix_values();
        let mut w = W::new(false, 1024);
        let at = w.header(type_of(k, &d), misc_of(k));
        // the layout of this kind, with numbers that are not symbolic
        write_body(&mut w, k, &c, &d);
        w.finish(at);
        clean(|| drive(&w.b, Src::SLICE, false, &c, Show));
    }
    // formatting of arbitrary text bytes, build ids and enumeration values
    fn c01_text() {
        let k = choose(6);
        let mut w = W::new(false, 128);
        let at = w.header([3, 17, 19, 1, 10, 10][k], if k == 5 { 0x4000 } else { 0 });
        match k {
            0 => {
                w.u32(1).u32(2);
            }
            1 => {
                w.u64(3).u32(4).u16(1).u16(0);
            }
            2 => {
                w.u64(5);
            }
            3 => {
                w.u32(1).u32(2).u64(3).u64(4).u64(5);
            }
            4 => {
                w.u32(1).u32(2).u64(3).u64(4).u64(5).u32(1).u32(2).u64(3).u64(4).u32(6).u32(7);
            }
            _ => {
                // any length of the build id
                w.u32(1).u32(2).u64(3).u64(4).u64(5).u8(sym_u8()).u8(1).u16(2).bytes(&[0x9F; 20]).u32(6).u32(7);
            }
        }
        let lead: [&[u8]; 12] = [b"", b"a", b"\xC3", b"\xE2", b"\xE2\x82", b"\xF0", b"\xF0\x9F", b"\xF0\x9F\x98", b"\xED", b"\xF4\x8F\xBF", b"\xFF\xC2", b"\xE0\xA0"];
        w.bytes(lead[choose(12)]);
        let tail = choose(2);
        let x = sym_arr::<1>();
        if tail == 1 {
            w.bytes(&x);
        }
        let pad = choose(2);
        if pad == 1 {
            w.bytes(&[0, 0, 0]);
        }
        w.finish(at);
        clean(|| drive(&w.b, Src::SLICE, false, &Cfg::default(), Show));
    }
}
