//! C05: the variable-length parts of samples.
use crate::common::*;
use crate::gen::*;

struct S<'a> {
    s: &'a Smp,
    c: &'a Cfg,
}
impl Job for S<'_> {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        match p.parse::<Record>() {
            Ok(Record::Sample(r)) => {
                self.s.check(&r, self.c);
                cover("decoded");
            }
            _ => check(false, "a complete sample is decoded"),
        }
        at_sentinel(&mut p);
    }
}
fn sample(c: &Cfg, d: &Dims, be: bool, src: Src) {
    let s = Smp::sym(c, d);
    let mut w = W::new(be, 66000);
    let at = w.header(9, sym_u16());
    s.write(&mut w, c);
    w.finish(at);
    w.u64(SENTINEL);
    drive_arrays(&w.b, src, be, &noisy(K_SAMPLE, c), S { s: &s, c });
}
fn cfg(st: u64) -> Cfg {
    Cfg { st: st | S_IP | S_CGROUP, ..Default::default() }
}
fn srcs() -> Src {
    match choose(6) {
        0 => Src::SLICE,
        1 => Src { kind: 0, n: 4, hint: true },
        2 => Src { kind: 1, n: 20, hint: true },
        3 => Src { kind: 2, n: 9, hint: true },
        4 => Src { kind: 2, n: 4096, hint: false },
        _ => Src { kind: 3, n: 64, hint: false },
    }
}

entries! {
    // parts that fill almost all of the largest possible record
    fn c05_huge() {
        let (st, d) = match choose(6) {
            0 => (S_CALLCHAIN, Dims { chain: 8180, ..DIMS }),
            1 => (S_RAW, Dims { raw: 65500, ..DIMS }),
            2 => (S_BRANCH, Dims { lbr: 300, ..DIMS }),
            3 => (S_STACK_USER, Dims { stack: 65480, dynsz: 65400, ..DIMS }),
            4 => (S_AUX, Dims { aux: 65488, ..DIMS }),
            _ => (S_CALLCHAIN | S_RAW | S_BRANCH | S_STACK_USER | S_AUX, HUGE),
        };
        let src = match choose(3) {
            0 => Src::SLICE,
            1 => Src { kind: 2, n: 4096, hint: false },
            _ => Src { kind: 3, n: 8192, hint: false },
        };
        sample(&cfg(st), &d, choose(2) == 1, src);
        cover("huge");
    }
    fn c05_callchain() {
        let n = [0, 1, 2, 3, 4, 7, 31, 127, 512][choose(9)];
        sample(&cfg(S_CALLCHAIN), &Dims { chain: n, ..DIMS }, choose(2) == 1, srcs());
    }
    fn c05_raw() {
        let n = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 20, 28, 255, 1020, 4092][choose(18)];
        let st = if choose(2) == 1 { S_RAW } else { S_RAW | S_BRANCH | S_AUX };
        sample(&cfg(st), &Dims { raw: n, ..DIMS }, choose(2) == 1, srcs());
    }
    fn c05_lbr() {
        let n = [0, 1, 2, 3, 8, 32][choose(6)];
        let c = Cfg { hw: choose(2) == 1, ..cfg(S_BRANCH) };
        sample(&c, &Dims { lbr: n, ..DIMS }, choose(2) == 1, srcs());
    }
    fn c05_regs() {
        let masks = [0u64, 1, 1 << 63, 0x8000_0000_0000_0001, 0xff0fff, 0x5555_5555_5555_5555, u64::MAX];
        let ru = masks[choose(7)];
        let ri = masks[choose(7)];
        let c = Cfg { ru, ri, ..cfg(S_REGS_USER | S_REGS_INTR | S_WEIGHT) };
        let abis = [0, 1, 2, 0xFFFF_FFFF_0000_0003];
        let a = choose(4);
        let d = Dims { abi_u: abis[a], abi_i: abis[(a + choose(2)) % 4], ..DIMS };
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 40, hint: false }, _ => Src { kind: 0, n: 1, hint: true } };
        sample(&c, &d, choose(2) == 1, src);
    }
    fn c05_stack() {
        let n = [0usize, 1, 8, 16, 24, 64, 2048][choose(7)];
        let k = match choose(5) { 0 => 0, 1 => 1.min(n), 2 => n / 2, 3 => n.saturating_sub(1), _ => n };
        sample(&cfg(S_STACK_USER | S_WEIGHT), &Dims { stack: n, dynsz: k, ..DIMS }, choose(2) == 1, srcs());
    }
    // the used part of the stack is arbitrary: decoded if it fits, InvalidRecord otherwise
    fn c05_dyn() {
        let n = [1, 5, 8, 16][choose(4)];
        let be = choose(2) == 1;
        let src = srcs();
        let c = cfg(S_STACK_USER | S_WEIGHT);
        let mut s = Smp::sym(&c, &Dims { stack: n, ..DIMS });
        s.dynsz = sym_u64();
        let mut w = W::new(be, 200);
        let at = w.header(9, sym_u16());
        s.write(&mut w, &c);
        w.finish(at);
        w.u64(SENTINEL);
        struct D<'a>(&'a mut Smp, Cfg);
        impl Job for D<'_> {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let n = self.0.stack.len() as u64;
                match p.parse::<Record>() {
                    Ok(Record::Sample(r)) => {
                        check(self.0.dynsz <= n, "stack larger than its buffer is rejected");
                        match r.stack_user() {
                            Some(x) => check(x.len() as u64 == self.0.dynsz, "stack has the used size"),
                            None => check(false, "stack has the used size"),
                        }
                        self.0.dynsz = concretize(self.0.dynsz);
                        self.0.check(&r, &self.1);
                        cover("dynamic size accepted");
                    }
                    Ok(_) => check(false, "sample"),
                    Err(e) => {
                        check(self.0.dynsz > n, "stack that fits is accepted");
                        check(e.kind() == ErrorKind::InvalidRecord, "oversized stack is an invalid record");
                        cover("dynamic size rejected");
                    }
                }
                at_sentinel(&mut p);
            }
        }
        drive_arrays(&w.b, src, be, &c, D(&mut s, c));
    }
    fn c05_aux() {
        let n = [0, 1, 7, 8, 16, 100, 4000][choose(7)];
        sample(&cfg(S_AUX | S_CPAGE), &Dims { aux: n, ..DIMS }, choose(2) == 1, srcs());
    }
    // several variable parts together, empty and not
    fn c05_mix() {
        let d = Dims {
            chain: [0, 3][choose(2)],
            raw: [0, 12, 5][choose(3)],
            lbr: [0, 2][choose(2)],
            stack: [0, 8][choose(2)],
            aux: [0, 8][choose(2)],
            abi_u: [0, 2][choose(2)],
            abi_i: [0, 1][choose(2)],
            ..DIMS
        };
        let c = Cfg { hw: choose(2) == 1, ru: 0x11, ri: 0x7, ..cfg(S_CALLCHAIN | S_RAW | S_BRANCH | S_REGS_USER | S_STACK_USER | S_REGS_INTR | S_AUX) };
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 30, hint: false }, _ => Src { kind: 0, n: 2, hint: true } };
        sample(&c, &d, choose(2) == 1, src);
    }
}
