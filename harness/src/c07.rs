//! C07: the sample_id trailer and the metadata of every record.
use crate::common::*;
use crate::gen::*;

const IDF: [u64; 6] = [S_TID, S_TIME, S_ID, S_STREAM, S_CPU, S_IDENT];
const NOISE: u64 = S_IP | S_ADDR | S_PERIOD | S_WEIGHT | S_PHYS;

fn subset(bits: usize) -> u64 {
    let mut st = 0;
    for i in 0..6 {
        if bits >> i & 1 == 1 {
            st |= IDF[i];
        }
    }
    st
}
/// One record seen by a visitor, against the metadata that was written.
struct M<'a> {
    k: usize,
    ty: u32,
    misc: u16,
    cfg: Cfg,
    ids: &'a Ids,
}
impl Job for M<'_> {
    type Out = Flat;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) -> Flat {
        let mut f = Flat::new();
        match p.parse_record(Cap) {
            Ok((r, m)) => {
                check(m.ty() == self.ty, "metadata type");
                check(m.misc() == self.misc, "metadata misc");
                if has_sample_id(self.k) {
                    self.ids.check(m.sample_id(), &self.cfg);
                    cover("trailer");
                } else {
                    Ids::check_empty(m.sample_id());
                    cover("no trailer");
                }
                match r {
                    Some(r) => f.record(&r),
                    None => f.p(77),
                };
            }
            Err(_) => check(false, "a complete record is decoded"),
        }
        at_sentinel(&mut p);
        f
    }
}
fn cut(w: &W, ids_len: usize, at: usize) -> W {
    // the same record without the trailer
    let n = w.len() - ids_len;
    let mut x = W { b: w.b[..n].to_vec(), o: w.o[..n].to_vec(), be: w.be };
    x.finish(at);
    x.u64(SENTINEL);
    x
}
fn go(k: usize, st: u64, id_all: bool, be: bool, src: Src) {
    go_dims(k, st, id_all, be, src, &DIMS)
}
fn go_dims(k: usize, st: u64, id_all: bool, be: bool, src: Src, d: &Dims) {
    let cfg = Cfg { st, id_all, rf: R_TE | R_ID, ..Default::default() };
    let ids = Ids::sym();
    let misc = any_misc(k);
    let ty = type_of(k, &DIMS);
    let mut w = W::new(be, 400);
    let at = w.header(ty, misc);
    write_body(&mut w, k, &cfg, d);
    let n = w.len();
    if has_sample_id(k) {
        ids.write(&mut w, &cfg);
    }
    w.finish(at);
    let bare = cut(&w, w.len() - n, at);
    w.u64(SENTINEL);
    let a = drive_arrays(&w.b, src, be, &noisy(k, &cfg), M { k, ty, misc, cfg, ids: &ids });
    let plain = Cfg { id_all: false, ..cfg };
    let b = drive_arrays(&bare.b, Src::SLICE, be, &noisy(k, &plain), M { k, ty, misc, cfg: plain, ids: &ids });
    check(flat_same(&a, &b), "the trailer is not part of the record");
}

entries! {
    // every kind of record
    fn c07_kinds() {
        let k = choose(KINDS);
        let st = match choose(5) {
            0 => NOISE,
            1 => S_TID | S_TIME | S_CPU | NOISE,
            2 => S_ID | S_IDENT,
            3 => S_STREAM | S_IDENT | NOISE,
            _ => subset(63) | NOISE,
        };
        go(k, st, choose(2) == 1, choose(2) == 1, Src::choose());
    }
    // long bodies
    fn c07_long() {
        let k = choose(KINDS);
        let st = [S_TID | S_TIME | S_CPU | NOISE, subset(63)][choose(2)];
        let src = match choose(4) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 500, hint: false }, 2 => Src { kind: 1, n: 4096, hint: true }, _ => Src { kind: 3, n: 256, hint: false } };
        go_dims(k, st, true, choose(2) == 1, src, [&BIG, &HUGE][choose(2)]);
        cover("long");
    }
    // every combination of trailer fields
    fn c07_subsets() {
        let st = subset(choose(64)) | choose(2) as u64 * NOISE;
        let k = [1, 2, 7, 22][choose(4)];
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 19, hint: false }, _ => Src { kind: 1, n: 28, hint: true } };
        go(k, st, true, choose(2) == 1, src);
    }
    // the trailer is at the end of the record, whatever is between it and the body
    fn c07_extra() {
        let k = [1, 3, 4, 6, 7, 11, 12, 13, 14, 15, 16, 18, 20, 21][choose(14)];
        let be = choose(2) == 1;
        let src = Src::choose();
        let cfg = Cfg { st: subset([63, 5, 48, 18][choose(4)]), id_all: true, rf: R_TE, ..Default::default() };
        let ids = Ids::sym();
        let misc = any_misc(k);
        let mut w = W::new(be, 400);
        let at = w.header(type_of(k, &DIMS), misc);
        write_body(&mut w, k, &cfg, &DIMS);
        w.bytes(&syms8([1, 4, 8, 40][choose(4)]));
        ids.write(&mut w, &cfg);
        w.finish(at);
        w.u64(SENTINEL);
        drive_arrays(&w.b, src, be, &noisy(k, &cfg), M { k, ty: type_of(k, &DIMS), misc, cfg, ids: &ids });
    }
    // no room for the trailer
    fn c07_small() {
        let k = choose(KINDS);
        let be = choose(2) == 1;
        let st = subset([63, 1, 2, 4, 8, 16, 32, 21][choose(8)]);
        let cfg = Cfg { st, id_all: true, ..Default::default() };
        let need = st.count_ones() as usize * 8;
        let n = choose(48);
        if n >= need { return; }
        let mut w = W::new(be, 100);
        let at = w.header(type_of(k, &DIMS), any_misc(k));
        w.bytes(&syms8(n));
        w.finish(at);
        w.u64(SENTINEL);
        struct E1(usize);
        impl Job for E1 {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                match p.parse_record(Cap) {
                    Ok(_) => check(!has_sample_id(self.0), "a record without room for its trailer is rejected"),
                    Err(e) => {
                        if has_sample_id(self.0) {
                            check(e.kind() == ErrorKind::InvalidRecord, "a record without room for its trailer is invalid");
                            cover("too small");
                        }
                    }
                }
                at_sentinel(&mut p);
            }
        }
        let src = match choose(2) { 0 => Src::SLICE, _ => Src { kind: 2, n: 11, hint: false } };
        drive_arrays(&w.b, src, be, &noisy(k, &cfg), E1(k));
    }
    // the trailer on its own, and its length
    fn c07_direct() {
        let be = choose(2) == 1;
        let cfg = Cfg { st: subset(choose(64)) | choose(2) as u64 * NOISE, id_all: choose(2) == 1, ..Default::default() };
        let ids = Ids::sym();
        let mut w = W::new(be, 100);
        ids.write(&mut w, &cfg);
        let any = noisy(1, &cfg);
        check(SampleId::estimate_len(&any.get(en(be))) == w.len(), "length of the trailer");
        w.u64(SENTINEL);
        struct D<'a>(&'a Ids, Cfg);
        impl Job for D<'_> {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                match p.parse::<SampleId>() {
                    Ok(s) => self.0.check(&s, &self.1),
                    Err(_) => check(false, "a complete trailer is decoded"),
                }
                at_sentinel(&mut p);
            }
        }
        drive(&w.b, Src::choose(), be, &any, D(&ids, cfg));
    }
}
