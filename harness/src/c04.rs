//! C04: SAMPLE fields are present exactly when requested, with the value the kernel wrote.
use crate::common::*;
use crate::gen::*;

pub struct S<'a> {
    pub s: &'a Smp,
    pub c: &'a Cfg,
    pub framed: bool,
}
impl Job for S<'_> {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        if self.framed {
            match p.parse::<Record>() {
                Ok(Record::Sample(r)) => {
                    self.s.check(&r, self.c);
                    cover("decoded");
                }
                _ => check(false, "a complete sample is decoded"),
            }
        } else {
            match p.parse::<Sample>() {
                Ok(r) => {
                    self.s.check(&r, self.c);
                    cover("decoded");
                }
                _ => check(false, "a complete sample is decoded"),
            }
        }
        at_sentinel(&mut p);
    }
}
pub fn sample(c: &Cfg, d: &Dims, be: bool, src: Src, framed: bool) {
    let s = Smp::sym(c, d);
    let mut w = W::new(be, 900);
    if framed {
        let at = w.header(9, sym_u16());
        s.write(&mut w, c);
        w.finish(at);
    } else {
        s.write(&mut w, c);
    }
    w.u64(SENTINEL);
    drive_arrays(&w.b, src, be, &noisy(K_SAMPLE, c), S { s: &s, c, framed });
}
pub const ALL: u64 = (1 << 25) - 1;
/// Groups of flags explored exhaustively (all subsets), the others all off or all on.
const G: [&[u64]; 4] = [
    &[S_IDENT, S_IP, S_TID, S_TIME, S_ADDR, S_ID, S_STREAM, S_CPU, S_PERIOD],
    &[S_READ, S_CALLCHAIN, S_RAW, S_BRANCH, S_REGS_USER, S_STACK_USER, S_WEIGHT, S_WSTRUCT],
    &[S_WEIGHT, S_WSTRUCT, S_DATA_SRC, S_TXN, S_REGS_INTR, S_PHYS, S_CGROUP, S_DPAGE, S_CPAGE, S_AUX],
    &[S_PERIOD, S_READ, S_CALLCHAIN, S_RAW, S_BRANCH, S_REGS_USER, S_STACK_USER, S_WEIGHT, S_DATA_SRC, S_TXN, S_REGS_INTR, S_PHYS, S_AUX],
];
const BASE: Cfg = Cfg { st: 0, rf: R_TE | R_ID, id_all: false, hw: false, ru: 0x105, ri: 0x8000_0000_0000_0001 };

entries! {
    // param: group of flags
    fn c04_flags() {
        let g = G[param()];
        let rest = if choose(2) == 1 { ALL } else { 0 };
        let mut st = rest;
        for f in g {
            if choose(2) == 1 { st |= f } else { st &= !f }
        }
        // both byte orders and all kinds of sources occur across the subsets
        let be = st.count_ones() % 2 == 1;
        let src = match (st ^ st >> 7 ^ st >> 13) % 4 {
            0 => Src::SLICE,
            1 => Src { kind: 2, n: 29, hint: false },
            2 => Src { kind: 1, n: 50, hint: true },
            _ => Src { kind: 0, n: 1, hint: true },
        };
        let cfg = Cfg { st, hw: st & S_IP != 0, rf: if st & S_TIME != 0 { R_GROUP | R_TE | R_ID } else { R_TE | R_ID }, ..BASE };
        sample(&cfg, &DIMS, be, src, true);
    }
    // all pairs of flags, flipped against all-off and all-on
    fn c04_pairs() {
        let i = choose(25);
        let j = choose(25);
        if j > i { return; }
        let bits = 1u64 << i | 1 << j;
        let st = if choose(2) == 1 { ALL & !bits } else { bits };
        let cfg = Cfg { st, hw: true, rf: R_TR | R_LOST | R_GROUP, ..BASE };
        let src = match choose(2) { 0 => Src::SLICE, _ => Src { kind: 2, n: 40, hint: false } };
        sample(&cfg, &DIMS, choose(2) == 1, src, i % 2 == 0);
    }
    // flag bits this version does not know have no influence on the others, misc and sample_id_all neither
    fn c04_context() {
        let st = match choose(3) { 0 => ALL, 1 => S_IP | S_TID | S_TIME | S_ID, _ => S_IDENT | S_CPU | S_AUX };
        let cfg = Cfg { st, hw: choose(2) == 1, id_all: choose(2) == 1, rf: R_TE | R_TR | R_ID | R_LOST | choose(2) as u64 * R_GROUP, ..BASE };
        sample(&cfg, &DIMS, choose(2) == 1, Src::choose(), choose(2) == 1);
    }
}
