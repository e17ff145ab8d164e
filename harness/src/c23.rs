//! C23: the separate steps of record parsing agree with parsing in one go.
use crate::common::*;
use crate::gen::*;

fn cfg_of(k: usize, v: usize) -> Cfg {
    let st = if k == K_SAMPLE {
        match v {
            0 => S_IP | S_TID | S_CALLCHAIN | S_RAW | S_READ | S_STACK_USER | S_IDENT,
            1 => S_ID | S_BRANCH | S_REGS_USER | S_REGS_INTR | S_AUX | S_CPU | S_WEIGHT,
            _ => S_TIME | S_ADDR | S_STREAM | S_PERIOD | S_DATA_SRC | S_TXN | S_PHYS | S_CGROUP | S_DPAGE | S_CPAGE | S_WSTRUCT,
        }
    } else {
        S_TID | S_ID | S_CPU
    };
    let rf = if k == 7 { R_TE | R_ID | R_LOST } else { R_GROUP | R_ID | R_TR };
    Cfg { st, rf, id_all: true, hw: v == 1, ru: 0x9, ri: 0x4 }
}
/// The contents of a record, parsed as the type that its header announces.
fn contents<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, ty: u32) -> ParseResult<Record<'p>> {
    Ok(match ty {
        1 => Record::Mmap(p.parse()?),
        2 => Record::Lost(p.parse()?),
        3 => Record::Comm(p.parse()?),
        4 => Record::Exit(p.parse()?),
        5 => Record::Throttle(p.parse()?),
        6 => Record::Unthrottle(p.parse()?),
        7 => Record::Fork(p.parse()?),
        8 => Record::Read(p.parse()?),
        9 => Record::Sample(Box::new(p.parse()?)),
        10 => Record::Mmap2(p.parse()?),
        11 => Record::Aux(p.parse()?),
        12 => Record::ITraceStart(p.parse()?),
        13 => Record::LostSamples(p.parse()?),
        14 => Record::Switch,
        15 => Record::SwitchCpuWide(p.parse()?),
        16 => Record::Namespaces(p.parse()?),
        17 => Record::KSymbol(p.parse()?),
        18 => Record::BpfEvent(p.parse()?),
        19 => Record::CGroup(p.parse()?),
        20 => Record::TextPoke(p.parse()?),
        21 => Record::AuxOutputHwId(p.parse()?),
        _ => Record::Unknown { ty, data: p.parse_rest()? },
    })
}
const WAYS: usize = 8;
/// Parse a record in one of several ways; what was seen, and what is left behind it.
/// Ways 0 to 4 show metadata and record, the others only the record.
struct Way(usize);
impl Job for Way {
    type Out = (Flat, Flat);
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) -> (Flat, Flat) {
        let f = match self.0 {
            0 => flat_seen(&p.parse_record(Cap)),
            1 => match p.parse::<perf_event_header>() {
                Ok(h) => flat_seen(&p.parse_record_with_header(Cap, h)),
                Err(e) => flat_seen(&Err(e)),
            },
            2 => match p.parse_metadata() {
                Ok((mut q, m)) => {
                    let r = contents(&mut q, m.ty());
                    flat_seen(&r.map(|r| (Some(r), m)))
                }
                Err(e) => flat_seen(&Err(e)),
            },
            3 => match p.parse::<perf_event_header>() {
                Ok(h) => match p.parse_metadata_with_header(h) {
                    Ok((mut q, m)) => {
                        let r = contents(&mut q, m.ty());
                        flat_seen(&r.map(|r| (Some(r), m)))
                    }
                    Err(e) => flat_seen(&Err(e)),
                },
                Err(e) => flat_seen(&Err(e)),
            },
            4 => {
                // the header taken apart and put together by the caller
                let h = (|| {
                    let (type_, misc, size) = (p.parse_u32()?, p.parse_u16()?, p.parse_u16()?);
                    Ok(perf_event_header { type_, misc, size })
                })();
                match h {
                    Ok(h) => flat_seen(&p.parse_record_with_header(Cap, h)),
                    Err(e) => flat_seen(&Err(e)),
                }
            }
            5 => flat_res(&p.parse::<Record>()),
            6 => match p.parse::<perf_event_header>() {
                Ok(h) => flat_res(&Record::parse_with_header(&mut p, h)),
                Err(e) => flat_res(&Err(e)),
            },
            _ => flat_res(&p.parse_with(|p| Record::parse(p))),
        };
        let mut rest = Flat::new();
        match p.parse_rest() {
            Ok(r) => rest.bs(&r),
            Err(e) => rest.p(1000 + kind_code(e.kind())),
        };
        (f, rest)
    }
}
/// The record without its metadata.
fn without_meta(f: &Flat, m: &Flat) -> Flat {
    if is_err(f) {
        return f.clone();
    }
    let mut g = Flat::new();
    g.n.extend_from_slice(&f.n[m.n.len()..]);
    g.b.extend_from_slice(&f.b);
    g
}
struct Meta;
impl Job for Meta {
    type Out = Flat;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) -> Flat {
        let mut f = Flat::new();
        if let Ok((_, m)) = p.parse_metadata() {
            f.meta(&m);
        }
        f
    }
}
fn agree(d: &[u8], src: Src, be: bool, cfg: &Cfg, way: usize) {
    let (a, ra) = drive_arrays(d, src, be, cfg, Way(0));
    let (b, rb) = drive_arrays(d, src, be, cfg, Way(way));
    if way < 5 {
        check(flat_same(&a, &b), "the steps give the same record, metadata or error");
    } else {
        let m = drive_arrays(d, src, be, cfg, Meta);
        check(flat_same(&without_meta(&a, &m), &b), "the steps give the same record or error");
    }
    check(flat_same(&ra, &rb), "the steps leave the same data behind the record");
    cover(if is_err(&a) { "agree on an error" } else { "agree on a record" });
}
/// Splits off the frame, then looks at the contents byte by byte.
struct Look<'a> {
    body: &'a [u8],
    with: bool,
    cut: usize,
}
impl<'a> Job for Look<'a> {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        if self.with {
            let h = match p.parse::<perf_event_header>() {
                Ok(h) => h,
                Err(_) => {
                    check(false, "header");
                    return;
                }
            };
            match p.parse_metadata_with_header(h) {
                Ok((q, _)) => look(q, self.body, self.cut),
                Err(_) => check(false, "the frame is split off"),
            }
        } else {
            match p.parse_metadata() {
                Ok((q, _)) => look(q, self.body, self.cut),
                Err(_) => check(false, "the frame is split off"),
            }
        }
        at_sentinel(&mut p);
        cover("contents");
    }
}
fn look<'p, B: ParseBuf<'p>, E: Endian>(mut q: Parser<B, E>, body: &[u8], cut: usize) {
    if cut > body.len() {
        // more than there is
        match q.parse_bytes(cut) {
            Ok(_) => check(false, "nothing behind the contents is visible"),
            Err(e) => check(e.kind() == ErrorKind::Eof, "an end of file behind the contents"),
        }
        return;
    }
    match q.parse_bytes(cut) {
        Ok(b) => check(same(&b, &body[..cut]), "the contents are seen from their start"),
        Err(_) => check(false, "the contents are seen from their start"),
    }
    match q.parse_rest() {
        Ok(b) => check(same(&b, &body[cut..]), "exactly the contents are seen"),
        Err(_) => check(false, "exactly the contents are seen"),
    }
    match q.parse_u8() {
        Ok(_) => check(false, "nothing behind the contents is visible"),
        Err(e) => check(e.kind() == ErrorKind::Eof, "an end of file behind the contents"),
    }
}
/// Reads some bytes, then the contents of a record.
struct Behind {
    at: usize,
    ty: u32,
}
impl Job for Behind {
    type Out = Flat;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) -> Flat {
        let _ = p.parse_bytes(self.at);
        flat_res(&contents(&mut p, self.ty))
    }
}
fn sources() -> Src {
    match choose(5) {
        0 => Src::SLICE,
        1 => Src { kind: 2, n: 14, hint: false },
        2 => Src { kind: 1, n: 27, hint: true },
        3 => Src { kind: 1, n: 8, hint: false },
        _ => Src { kind: 3, n: 32, hint: false },
    }
}

entries! {
    // well-formed records
    fn c23_records() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(3) } else { 0 };
        let mut cfg = cfg_of(k, v);
        cfg.id_all = choose(2) == 1;
        let be = choose(2) == 1;
        let (d, src) = match choose(4) {
            0 => (HUGE, [Src::SLICE, Src { kind: 2, n: 4096, hint: false }, Src { kind: 3, n: 8192, hint: false }][choose(3)]),
            n => ([DIMS, EMPTY, BIG][n - 1], sources()),
        };
        let mut w = W::new(be, 900);
        write_any(&mut w, k, any_misc(k), &cfg, &d, &Ids::sym());
        w.u64(SENTINEL).bytes(&syms8(9));
        agree(&w.b, src, be, &noisy(k, &cfg), 1 + choose(WAYS - 1));
    }
    // contents that do not start at a multiple of eight bytes of the parser's data
    fn c23_offset() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(3) } else { 0 };
        let mut cfg = cfg_of(k, v);
        cfg.id_all = false;
        let be = choose(2) == 1;
        let mut d = [DIMS, EMPTY][choose(2)];
        // lengths of every remainder
        d.raw += choose(3);
        let mut w = W::new(be, 900);
        write_any(&mut w, k, 0, &cfg, &d, &Ids::sym());
        let at = choose(10);
        let (whole, _) = drive_arrays(&w.b, Src::SLICE, be, &cfg, Way(5));
        let mut x = W::new(be, 900);
        x.bytes(&syms8(at)).bytes(&w.b[8..]);
        let src = match choose(4) {
            // arrays must be aligned (the known finding of C09)
            0 => Src { kind: 0, n: (8 - at % 8) % 8, hint: true },
            1 => Src { kind: 2, n: 14, hint: false },
            2 if be => Src { kind: 1, n: 8 + at, hint: true },
            2 => Src { kind: 2, n: 8 + at, hint: true },
            _ => Src { kind: 3, n: 32, hint: false },
        };
        let part = drive(&x.b, src, be, &cfg, Behind { at, ty: type_of(k, &d) });
        check(flat_same(&whole, &part), "the contents are parsed alike wherever they start");
        cover("offset");
    }
    // any misc value, also those that change the layout
    fn c23_misc() {
        let k = [0, 1, 9, 10, 14, 15, 22][choose(7)];
        let cfg = cfg_of(k, 0);
        let be = choose(2) == 1;
        let mut w = W::new(be, 900);
        write_any(&mut w, k, sym_u16(), &cfg, &DIMS, &Ids::sym());
        w.u64(SENTINEL);
        agree(&w.b, sources(), be, &cfg, 1 + choose(WAYS - 1));
    }
    // arbitrary contents, header types and sizes
    fn c23_garbage() {
        let be = choose(2) == 1;
        let n = [0usize, 7, 8, 16, 23, 33, 48][choose(7)];
        let v = choose(3);
        let k = choose(KINDS);
        let mut cfg = cfg_of(k, v);
        if k == K_SAMPLE {
            // a few fields only: arbitrary lengths in front of many fields are C01's
            cfg.st = [S_IP | S_CALLCHAIN, S_RAW | S_TID, S_READ | S_STACK_USER][v];
        }
        let mut w = W::new(be, 200);
        w.u32(type_of(k, &DIMS)).u16(sym_u16()).u16(8 + n as u16);
        w.bytes(&syms8(n)).u64(SENTINEL);
        agree(&w.b, if choose(2) == 0 { Src::SLICE } else { Src { kind: 2, n: 20, hint: false } }, be, &cfg, 1 + (n + k + v + choose(2) * 3) % (WAYS - 1));
    }
    // frames that are broken: sizes below the header's, beyond the data, too small for the trailer
    fn c23_frames() {
        let be = choose(2) == 1;
        let have = [0usize, 4, 8, 30][choose(4)];
        let cfg = Cfg { st: S_TIME | S_ID, id_all: choose(2) == 1, ..Default::default() };
        let size = sym_u16();
        assume(size < 8 || size as usize > 8 + have || size < 32);
        let mut w = W::new(be, 200);
        let ty = sym_u32();
        // the types without arrays: their counts are arbitrary in c23_garbage
        assume(ty != 9 && ty != 16 && ty != 20);
        w.u32(ty).u16(sym_u16()).u16(size).bytes(&syms8(have));
        let way = 1 + choose(WAYS - 1);
        let s = [Src::SLICE, Src { kind: 2, n: 5, hint: true }, Src { kind: 3, n: 16, hint: false }][(way + have / 4 + cfg.id_all as usize) % 3];
        agree(&w.b, s, be, &cfg, way);
    }
    // the stream ends within the header
    fn c23_short_header() {
        let be = choose(2) == 1;
        let d = syms8(choose(8));
        agree(&d, sources(), be, &Cfg::default(), 1 + choose(WAYS - 1));
    }
    // what a custom parser sees
    fn c23_contents() {
        let be = choose(2) == 1;
        let n = [0usize, 1, 8, 17, 40][choose(5)];
        let k = choose(KINDS);
        let cfg = Cfg { st: [0, S_TID | S_TIME | S_IDENT][choose(2)], id_all: choose(2) == 1, ..Default::default() };
        let mut w = W::new(be, 200);
        let at = w.header(K_TYPES[k], sym_u16());
        let body = syms8(n);
        w.bytes(&body);
        if has_sample_id(k) { Ids::sym().write(&mut w, &cfg); }
        w.finish(at);
        w.u64(SENTINEL);
        let cut = [0, 1, n / 2, n, n + 1, n + 8][choose(6)];
        drive(&w.b, sources(), be, &cfg, Look { body: &body, with: choose(2) == 1, cut });
    }
}
