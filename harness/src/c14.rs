//! C14: incomplete data is an error, never a record.
use crate::common::*;
use crate::gen::*;

fn full(k: usize, v: usize) -> Cfg {
    let st = if k == K_SAMPLE {
        match v {
            0 => S_IP | S_TID | S_CALLCHAIN | S_RAW | S_READ | S_STACK_USER | S_IDENT,
            1 => S_ID | S_BRANCH | S_REGS_USER | S_REGS_INTR | S_AUX | S_CPU | S_WEIGHT,
            _ => S_TIME | S_ADDR | S_STREAM | S_PERIOD | S_DATA_SRC | S_TXN | S_PHYS | S_CGROUP | S_DPAGE | S_CPAGE | S_WSTRUCT,
        }
    } else {
        S_TID | S_ID | S_CPU
    };
    let rf = if k == 7 { R_TE | R_ID | R_LOST } else { R_GROUP | R_ID | R_TR };
    Cfg { st, rf, id_all: false, hw: v == 1, ru: 0x9, ri: 0x4 }
}
/// How many bytes of the body the record needs: all of them, except for what extends to the end.
fn need(k: usize, len: usize) -> usize {
    match k {
        0 => 32,
        2 => 8,
        9 | 10 => 64,
        17 => 16,
        19 => 8,
        22 | 23 => 0,
        _ => len,
    }
}
struct T {
    k: usize,
    enough: bool,
    eof: bool,
    how: usize,
}
impl Job for T {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        let e = match self.how {
            0 => p.parse::<Record>().err(),
            1 => p.parse_record(Cap).err(),
            // the bare record
            _ => match self.k {
                0 => p.parse::<Mmap>().err(),
                1 => p.parse::<Lost>().err(),
                2 => p.parse::<Comm>().err(),
                3 | 6 => p.parse::<Exit>().err(),
                4 | 5 => p.parse::<Throttle>().err(),
                7 => p.parse::<Read>().err(),
                8 => p.parse::<Sample>().err(),
                9 => p.parse::<Mmap2>().err(),
                11 => p.parse::<Aux>().err(),
                12 => p.parse::<ITraceStart>().err(),
                13 => p.parse::<LostSamples>().err(),
                16 => p.parse::<Namespaces>().err(),
                17 => p.parse::<KSymbol>().err(),
                18 => p.parse::<BpfEvent>().err(),
                19 => p.parse::<CGroup>().err(),
                20 => p.parse::<TextPoke>().err(),
                21 => p.parse::<AuxOutputHwId>().err(),
                _ => return,
            },
        };
        match e {
            None => {
                check(self.enough, "an incomplete record is rejected");
                cover("complete");
            }
            Some(e) => {
                check(!self.enough, "a complete record is decoded");
                let k = e.kind();
                check(k == ErrorKind::Eof || !self.eof && k == ErrorKind::InvalidRecord, "incomplete data is reported as such");
                cover("incomplete");
            }
        }
    }
}
fn srcs() -> Src {
    match choose(4) {
        0 => Src::SLICE,
        1 => Src { kind: 2, n: 16, hint: false },
        2 => Src { kind: 1, n: 20, hint: true },
        _ => Src { kind: 3, n: 32, hint: false },
    }
}

struct L;
impl Job for L {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        match p.parse::<Record>() {
            Ok(_) => check(false, "a length beyond the record is rejected"),
            Err(e) => check(e.kind() == ErrorKind::Eof || e.kind() == ErrorKind::InvalidRecord, "incomplete data is reported as such"),
        }
        at_sentinel(&mut p);
        cover("length");
    }
}

entries! {
    // the record claims fewer bytes than its contents need; other data follows
    fn c14_record() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(3) } else { 0 };
        let be = choose(2) == 1;
        let mut cfg = full(k, v);
        // sample_id must be there in full, too
        cfg.id_all = has_sample_id(k) && choose(2) == 1;
        let mut w = W::new(be, 900);
        let at = w.header(type_of(k, &DIMS), any_misc(k));
        write_body(&mut w, k, &cfg, &DIMS);
        let len = w.len() - 8;
        let n = choose(len + 1);
        w.b.truncate(8 + n);
        w.o.truncate(8 + n);
        if has_sample_id(k) { Ids::sym().write(&mut w, &cfg); }
        w.finish(at);
        w.bytes(&syms8(400));
        drive_arrays(&w.b, srcs(), be, &noisy(k, &cfg), T { k, enough: n >= need(k, len), eof: false, how: choose(2) });
    }
    // long records that claim too little
    fn c14_long() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(3) } else { 0 };
        let be = choose(2) == 1;
        let mut cfg = full(k, v);
        cfg.id_all = has_sample_id(k) && choose(2) == 1;
        let mut w = W::new(be, 9000);
        let d = BIG;
        let at = w.header(type_of(k, &d), any_misc(k));
        write_body(&mut w, k, &cfg, &d);
        let len = w.len() - 8;
        let n = [0, len / 5, len / 3, len / 2, 2 * len / 3, len.saturating_sub(9), len.saturating_sub(1), len][choose(8)];
        w.b.truncate(8 + n);
        w.o.truncate(8 + n);
        if has_sample_id(k) { Ids::sym().write(&mut w, &cfg); }
        w.finish(at);
        let src = match choose(3) {
            0 => {
                // further records follow
                w.bytes(&syms8(9000));
                Src::SLICE
            }
            1 => { w.bytes(&syms8(300)); Src { kind: 2, n: 256, hint: false } }
            _ => { w.bytes(&syms8(300)); Src { kind: 3, n: 1000, hint: false } }
        };
        drive_arrays(&w.b, src, be, &noisy(k, &cfg), T { k, enough: n >= need(k, len), eof: false, how: choose(2) });
        cover("long");
    }
    // records of up to 65 kB
    fn c14_huge() {
        let k = [8, 16, 20, 22][choose(4)];
        let be = choose(2) == 1;
        let mut cfg = full(k, 0);
        cfg.id_all = has_sample_id(k);
        let mut w = W::new(be, 66000);
        let at = w.header(type_of(k, &HUGE), any_misc(k));
        write_body(&mut w, k, &cfg, &HUGE);
        let len = w.len() - 8;
        let n = [len / 3, len - 9, len - 1, len][choose(4)];
        w.b.truncate(8 + n);
        w.o.truncate(8 + n);
        if has_sample_id(k) { Ids::sym().write(&mut w, &cfg); }
        w.finish(at);
        w.bytes(&syms8(300));
        let src = match choose(3) {
            0 => Src::SLICE,
            1 => Src { kind: 2, n: 4096, hint: false },
            _ => Src { kind: 3, n: 8192, hint: false },
        };
        drive_arrays(&w.b, src, be, &noisy(k, &cfg), T { k, enough: n >= need(k, len), eof: false, how: choose(2) });
        cover("huge");
    }
    // the stream ends within the record
    fn c14_stream() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(3) } else { 0 };
        let be = choose(2) == 1;
        let cfg = Cfg { id_all: true, ..full(k, v) };
        let mut w = W::new(be, 900);
        write_any(&mut w, k, any_misc(k), &cfg, &DIMS, &Ids::sym());
        let n = choose(w.len() + 1);
        drive_arrays(&w.b[..n], srcs(), be, &noisy(k, &cfg), T { k, enough: n == w.len(), eof: true, how: choose(2) });
    }
    // a sample that ends with a part of variable length, cut anywhere
    fn c14_last() {
        let part = choose(9);
        let be = choose(2) == 1;
        let (st, rf) = [
            (S_RAW, 0), (S_CALLCHAIN, 0), (S_BRANCH, 0), (S_STACK_USER, 0), (S_AUX, 0), (S_READ, R_GROUP | R_LOST), (S_READ, R_TE | R_ID), (S_REGS_USER, 0), (S_REGS_INTR, 0),
        ][part];
        let mut d = EMPTY;
        let n = choose(9);
        match part {
            0 => d.raw = n,
            1 => d.chain = n % 4,
            2 => d.lbr = n % 3,
            3 => { d.stack = n; d.dynsz = n / 2; }
            4 => d.aux = n,
            5 => d.group = n % 3,
            7 => d.abi_u = n as u64 % 3,
            8 => d.abi_i = n as u64 % 3,
            _ => {}
        }
        let cfg = Cfg { st: st | S_ID, rf, id_all: false, hw: n % 2 == 1, ru: 0x9, ri: 0x4 };
        let mut w = W::new(be, 900);
        let how = choose(3);
        let at = if how < 2 { Some(w.header(9, sym_u16())) } else { None };
        let start = w.len();
        write_body(&mut w, K_SAMPLE, &cfg, &d);
        let len = w.len() - start;
        let have = choose(len + 1);
        w.b.truncate(start + have);
        w.o.truncate(start + have);
        if let Some(at) = at {
            w.finish(at);
            w.u64(SENTINEL);
        }
        drive_arrays(&w.b, srcs(), be, &cfg, T { k: K_SAMPLE, enough: have == len, eof: false, how });
    }
    // samples of every pair of fields, cut anywhere; all but one source and both byte orders in turn
    fn c14_fields() {
        const F: [u64; 25] = [S_IP, S_TID, S_TIME, S_ADDR, S_ID, S_STREAM, S_CPU, S_PERIOD, S_READ, S_CALLCHAIN, S_RAW, S_BRANCH, S_REGS_USER, S_STACK_USER,
            S_WEIGHT, S_DATA_SRC, S_IDENT, S_TXN, S_REGS_INTR, S_PHYS, S_AUX, S_CGROUP, S_DPAGE, S_CPAGE, S_WSTRUCT];
        let a = choose(25);
        let b = a + choose(25 - a);
        let how = 2 * choose(2);
        let be = (a + b) % 2 == 1;
        let mut cfg = Cfg { st: F[a] | F[b], rf: [0, R_GROUP | R_ID, R_TR | R_LOST][b % 3], id_all: false, hw: b % 2 == 1, ru: 0x9, ri: 0x4 };
        if cfg.st & (S_WEIGHT | S_WSTRUCT) == S_WEIGHT | S_WSTRUCT { cfg.st = S_WSTRUCT; }
        let mut w = W::new(be, 900);
        let at = if how == 0 { Some(w.header(9, sym_u16())) } else { None };
        let start = w.len();
        write_body(&mut w, K_SAMPLE, &cfg, &DIMS);
        let len = w.len() - start;
        let have = choose(len + 1);
        w.b.truncate(start + have);
        w.o.truncate(start + have);
        if let Some(at) = at {
            w.finish(at);
            w.u64(SENTINEL);
        }
        let src = [Src::SLICE, Src { kind: 2, n: 7, hint: false }, Src { kind: 1, n: 12, hint: true }, Src { kind: 3, n: 32, hint: false }][(a + 2 * b + have) % 4];
        drive_arrays(&w.b, src, be, &cfg, T { k: K_SAMPLE, enough: have == len, eof: false, how });
        cover("fields");
    }
    // the parts of records by themselves, cut anywhere
    fn c14_parts() {
        let be = choose(2) == 1;
        let what = choose(9);
        let mut w = W::new(be, 300);
        let mut cfg = Cfg { ru: 0x9, ri: 0x4, ..Default::default() };
        match what {
            0 => {
                let st = choose(64);
                cfg.id_all = true;
                for (i, s) in [S_TID, S_TIME, S_ID, S_STREAM, S_CPU, S_IDENT].into_iter().enumerate() {
                    if st >> i & 1 == 1 { cfg.st |= s; }
                }
                Ids::sym().write(&mut w, &cfg);
            }
            1 | 2 => {
                let f = choose(16);
                cfg.rf = (f as u64 & 7) | if f & 8 != 0 { R_LOST } else { 0 };
                let n = if what == 2 { cfg.rf |= R_GROUP; choose(3) } else { 1 };
                if what == 2 { w.u64(n as u64); }
                let times = |w: &mut W| for r in [R_TE, R_TR] { if cfg.rf & r != 0 { w.u64(sym_u64()); } };
                if what == 2 { times(&mut w); }
                for _ in 0..n {
                    w.u64(sym_u64());
                    if what == 1 { times(&mut w); }
                    for r in [R_ID, R_LOST] { if cfg.rf & r != 0 { w.u64(sym_u64()); } }
                }
            }
            3 | 4 => {
                let abi = choose(3);
                w.u64(abi as u64);
                for _ in 0..[0, if what == 3 { 2 } else { 1 }][(abi > 0) as usize] { w.u64(sym_u64()); }
            }
            5 => { w.u64(sym_u64()).u64(sym_u64()).u64(sym_u64()); }
            6 | 7 => { w.u64(sym_u64()); }
            _ => { w.u64(sym_u64()).u64(sym_u64()); }
        }
        struct P(usize, bool);
        impl Job for P {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let e = match self.0 {
                    0 => p.parse::<SampleId>().err(),
                    1 => p.parse::<ReadValue>().err(),
                    2 => p.parse::<ReadGroup>().err(),
                    3 => Registers::parse_user(&mut p).err(),
                    4 => Registers::parse_intr(&mut p).err(),
                    5 => p.parse::<BranchEntry>().err(),
                    6 => p.parse::<DataSource>().err(),
                    7 => p.parse::<Txn>().err(),
                    _ => p.parse::<NamespaceEntry>().err(),
                };
                match e {
                    None => check(self.1, "an incomplete part is rejected"),
                    Some(e) => {
                        check(!self.1, "a complete part is decoded");
                        check(e.kind() == ErrorKind::Eof, "incomplete data is reported as such");
                    }
                }
                cover("parts");
            }
        }
        let n = choose(w.len() + 1);
        drive_arrays(&w.b[..n], srcs(), be, &cfg, P(what, n == w.len()));
    }
    // bare record types at the end of the data
    fn c14_bare() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(3) } else { 0 };
        let be = choose(2) == 1;
        let cfg = full(k, v);
        let mut w = W::new(be, 900);
        write_body(&mut w, k, &cfg, &DIMS);
        let n = choose(w.len() + 1);
        drive_arrays(&w.b[..n], srcs(), be, &noisy(k, &cfg), T { k, enough: n >= need(k, w.len()), eof: false, how: 2 });
    }
    // lengths within samples that exceed the data, up to the largest
    fn c14_lengths() {
        let be = choose(2) == 1;
        let which = choose(9);
        if which == 8 {
            // the part of the dumped user stack that is in use exceeds the dump
            let have = [8usize, 16, 40][choose(3)];
            let cfg = Cfg { st: S_STACK_USER, ..Default::default() };
            let mut w = W::new(be, 900);
            let at = w.header(9, sym_u16());
            w.u64(have as u64).bytes(&syms8(have));
            let used = sym_u64();
            assume(used > have as u64);
            w.u64(used);
            w.finish(at);
            w.u64(SENTINEL);
            drive(&w.b, srcs(), be, &cfg, L);
            return;
        }
        let have = [0usize, 8, 16, 48][choose(4)];
        let (st, unit, width) = [(S_CALLCHAIN, 8, 8), (S_RAW, 1, 4), (S_BRANCH, 24, 8), (S_STACK_USER, 1, 8), (S_AUX, 1, 8), (S_READ, 8, 8), (S_READ, 24, 8), (0, 16, 8)][which];
        let rf = if which == 6 { R_GROUP | R_ID | R_LOST } else { R_GROUP };
        let cfg = Cfg { st, rf, ..Default::default() };
        let mut w = W::new(be, 900);
        let at = w.header(if which == 7 { 16 } else { 9 }, 0);
        if which == 7 { w.u32(1).u32(2); }
        let nr = if width == 4 { let x = sym_u32(); w.u32(x); x as u64 } else { let x = sym_u64(); w.u64(x); x };
        // more elements than there are bytes
        assume(nr > (have / unit) as u64);
        w.bytes(&syms8(have));
        w.finish(at);
        w.u64(SENTINEL);
        drive_arrays(&w.b, srcs(), be, &cfg, L);
    }
    // primitives
    fn c14_primitives() {
        let be = choose(2) == 1;
        let n = choose(20);
        let d = syms8(n);
        struct P(usize, usize);
        impl Job for P {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let (what, n) = (self.0, self.1);
                let len = sym_u64() as usize;
                let (e, enough) = match what {
                    0 => (p.parse_u8().err(), n >= 1),
                    1 => (p.parse_u16().err(), n >= 2),
                    2 => (p.parse_u32().err(), n >= 4),
                    3 => (p.parse_u64().err(), n >= 8),
                    4 => (p.parse::<[u8; 5]>().err(), n >= 5),
                    5 => (p.parse_bytes(len).err(), n >= len),
                    6 => (p.parse_repeated::<u16>(len).err(), n / 2 >= len),
                    7 => (p.parse::<perf_event_header>().err(), n >= 8),
                    8 => (unsafe { p.parse_slice::<u64>(len) }.err(), n / 8 >= len),
                    9 => (p.parse_if::<u64>(true).err(), n >= 8),
                    _ => (p.parse_with(|p| p.parse_u32()).err(), n >= 4),
                };
                match e {
                    None => {
                        check(enough, "incomplete data is rejected");
                        cover("complete");
                    }
                    Some(e) => {
                        check(!enough, "complete data is decoded");
                        check(e.kind() == ErrorKind::Eof || what == 8 && e.kind() == ErrorKind::InvalidRecord, "incomplete data is Eof");
                        cover("incomplete");
                    }
                }
            }
        }
        drive(&d, srcs(), be, &Cfg::default(), P(param(), n));
    }
}
