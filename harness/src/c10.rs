//! C10: byte order.
use crate::common::*;
use crate::gen::*;

fn full(k: usize) -> Cfg {
    let rf = if k == 7 { R_TE | R_ID | R_LOST } else { R_GROUP | R_ID | R_TR };
    let st = if k == K_SAMPLE { (1 << 25) - 1 } else { S_TID | S_ID | S_CPU | S_TIME | S_IDENT | S_STREAM };
    Cfg { st, rf, id_all: true, hw: true, ru: 0x9, ri: 0x4 }
}
fn with<E: Endian>(data: &[u8], chunk: usize, cfg: &Cfg, e: E) -> Flat {
    let c = cfg.get(e);
    if chunk == 0 {
        One.run(Parser::new(data, c))
    } else {
        let mut v = vec![];
        let mut i = chunk;
        while i < data.len() {
            v.push(i);
            i += chunk;
        }
        One.run(Parser::new(Chunks::new(data, &v, true, false), c))
    }
}
fn any(data: &[u8], chunk: usize, cfg: &Cfg, how: usize) -> Flat {
    match how {
        0 => with(data, chunk, cfg, Little),
        1 => with(data, chunk, cfg, Native),
        2 => with(data, chunk, cfg, Dynamic::Little),
        3 => with(data, chunk, cfg, Big),
        _ => with(data, chunk, cfg, Dynamic::Big),
    }
}
const NATIVE_LE: bool = cfg!(target_endian = "little");

entries! {
    // the same record in both byte orders, through every way of selecting the order
    fn c10_records() {
        let k = choose(KINDS);
        let d = [DIMS, EMPTY, BIG, HUGE][choose(4)];
        let cfg = full(k);
        let mut w = W::new(false, 900);
        write_any(&mut w, k, any_misc(k), &cfg, &d, &Ids::sym());
        w.u64(SENTINEL);
        let chunk = [0, 11, 4096][choose(3)];
        let a = any(&w.b, 4096, &cfg, 0);
        check(!is_err(&a), "a complete record is decoded");
        let how = choose(5);
        let le = if how == 1 { NATIVE_LE } else { how < 3 };
        let b = any(if le { &w.b } else { &w.o }, chunk, &cfg, how);
        check(flat_same(&a, &b), "the same record in the other byte order");
        cover("records");
    }
    // arbitrary values: only fields (not byte strings) depend on the order
    fn c10_primitives() {
        let x: [u8; 15] = sym_arr();
        let (a, b, c) = ([x[1], x[2]], [x[3], x[4], x[5], x[6]], [x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14]]);
        let le = |s: &[u8]| { let mut v = 0u64; for i in 0..s.len() { v |= (s[i] as u64) << (8 * i); } v };
        let be = |s: &[u8]| { let mut v = 0u64; for i in 0..s.len() { v = v << 8 | s[i] as u64; } v };
        struct Pr([u64; 4]);
        impl Job for Pr {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                check(matches!(p.parse_u8(), Ok(v) if v as u64 == self.0[0]), "parse_u8");
                check(matches!(p.parse_u16(), Ok(v) if v as u64 == self.0[1]), "parse_u16");
                check(matches!(p.parse_u32(), Ok(v) if v as u64 == self.0[2]), "parse_u32");
                check(matches!(p.parse_u64(), Ok(v) if v == self.0[3]), "parse_u64");
                cover("primitives");
            }
        }
        fn conv<E: Endian>(e: E, a: [u8; 2], b: [u8; 4], c: [u8; 8], w: [u64; 4], native: bool) {
            check(e.convert_u16(a) as u64 == w[1], "convert_u16");
            check(e.convert_u32(b) as u64 == w[2], "convert_u32");
            check(e.convert_u64(c) == w[3], "convert_u64");
            check(e.is_native() == native, "is_native");
            let f = e.clone();
            check(f.convert_u64(c) == w[3] && f.is_native() == native, "clone of an endianness");
        }
        let l = [x[0] as u64, le(&a), le(&b), le(&c)];
        let g = [x[0] as u64, be(&a), be(&b), be(&c)];
        let n = if NATIVE_LE { l } else { g };
        match choose(5) {
            0 => conv(Little, a, b, c, l, NATIVE_LE),
            1 => conv(Big, a, b, c, g, !NATIVE_LE),
            2 => conv(Native, a, b, c, n, true),
            3 => conv(Dynamic::Little, a, b, c, l, NATIVE_LE),
            _ => conv(Dynamic::Big, a, b, c, g, !NATIVE_LE),
        }
        let src = match choose(4) { 0 => Src::SLICE, 1 => Src { kind: 0, n: 3, hint: true }, 2 => Src { kind: 2, n: 3, hint: false }, _ => Src { kind: 3, n: 6, hint: false } };
        match choose(2) {
            0 => drive(&x, src, false, &Cfg::default(), Pr(l)),
            _ => drive(&x, src, true, &Cfg::default(), Pr(g)),
        }
        Pr(n).run(Parser::new(&x[..], ParseConfig::<Native>::default()));
        Pr(l).run(Parser::new(&x[..], ParseConfig::<Little>::default()));
        Pr(g).run(Parser::new(&x[..], ParseConfig::<Big>::default()));
    }
    // the attribute structure
    fn c10_attr() {
        let mut w = W::new(false, 200);
        let size = [64usize, 72, 80, 96, 104, 112, 120, 128, 136][choose(9)];
        w.u32(sym_u32()).u32(size as u32);
        w.u64(sym_u64()).u64(sym_u64()).u64(sym_u64()).u64(sym_u64());
        // the flag word is a bit field, see DESIGN.md
        w.u64(0);
        w.u32(sym_u32()).u32(sym_u32()).u64(sym_u64()).u64(sym_u64());
        w.u64(sym_u64()).u64(sym_u64()).u32(sym_u32()).u32(sym_u32()).u64(sym_u64());
        w.u32(sym_u32()).u16(sym_u16()).u16(sym_u16()).u32(sym_u32()).u32(sym_u32()).u64(sym_u64()).u64(sym_u64());
        fn get<E: Endian>(d: &[u8], e: E) -> Option<[u64; 8]> {
            let mut p = Parser::new(d, ParseConfig::<Native>::default().with_endian(e));
            match p.parse::<perf_event_attr>() {
                Ok(a) => Some(unsafe { [a.type_ as u64, a.size as u64, a.config, a.sample_type, a.read_format, a.bp_type as u64, a.branch_sample_type, a.sample_stack_user as u64 ^ (a.clockid as u32 as u64) << 32 ^ a.aux_watermark as u64 ^ a.__bindgen_anon_1.sample_period] }),
                Err(_) => None,
            }
        }
        let a = get(&w.b[..size], Little);
        let b = match choose(4) {
            0 => get(&w.o[..size], Big),
            1 => get(&w.o[..size], Dynamic::Big),
            2 => get(&w.b[..size], Dynamic::Little),
            _ => get(if NATIVE_LE { &w.b[..size] } else { &w.o[..size] }, Native),
        };
        match (a, b) {
            (Some(a), Some(b)) => check(same64(&a, &b), "the same attributes in the other byte order"),
            _ => check(false, "complete attributes are decoded"),
        }
        cover("attr");
    }
}
