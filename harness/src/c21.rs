//! C21: parser primitives return exactly the next bytes and advance by exactly that much.
use crate::common::*;
use crate::gen::*;

fn val(b: &[u8], be: bool) -> u64 {
    let mut x = 0u64;
    let n = b.len();
    for i in 0..n {
        x |= (b[i] as u64) << 8 * if be { n - 1 - i } else { i };
    }
    x
}

/// What the data should look like from here.
struct Model<'a> {
    d: &'a [u8],
    at: usize,
    be: bool,
    /// the data is one borrowed slice that starts at an aligned address + this
    off: Option<usize>,
}
impl<'a> Model<'a> {
    fn next(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.d.len() - self.at {
            return None;
        }
        let s = &self.d[self.at..self.at + n];
        self.at += n;
        Some(s)
    }
    fn num(&mut self, n: usize) -> Option<u64> {
        let be = self.be;
        self.next(n).map(|b| val(b, be))
    }
    fn left(&self) -> &'a [u8] {
        &self.d[self.at..]
    }
}
fn num(r: ParseResult<u64>, e: Option<u64>, l: &'static str) -> bool {
    match (r, e) {
        (Ok(x), Some(y)) => {
            check(x == y, l);
            true
        }
        (Err(x), None) => {
            check(x.kind() == ErrorKind::Eof, l);
            false
        }
        _ => {
            check(false, l);
            false
        }
    }
}
fn byt(r: ParseResult<&[u8]>, e: Option<&[u8]>, l: &'static str) -> bool {
    match (r, e) {
        (Ok(x), Some(y)) => {
            check(same(x, y), l);
            true
        }
        (Err(x), None) => {
            check(x.kind() == ErrorKind::Eof, l);
            false
        }
        _ => {
            check(false, l);
            false
        }
    }
}
fn words(r: ParseResult<&[u64]>, m: &mut Model, w: usize, n: usize, l: &'static str) -> bool {
    let be = m.be;
    match (r, m.next(w * n)) {
        (Ok(x), Some(y)) => {
            check(x.len() == n, l);
            let mut i = 0;
            while i < n && i < x.len() {
                check(x[i] == val(&y[i * w..(i + 1) * w], be), l);
                i += 1;
            }
            x.len() == n
        }
        (Err(x), None) => {
            check(x.kind() == ErrorKind::Eof, l);
            false
        }
        _ => {
            check(false, l);
            false
        }
    }
}

pub const OPS: usize = 27;
/// One primitive; false when it failed as expected (nothing is said about the position then).
fn step<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, op: usize, m: &mut Model) -> bool {
    match op {
        0 => num(p.parse_u8().map(u64::from), m.num(1), "parse_u8"),
        1 => num(p.parse_u16().map(u64::from), m.num(2), "parse_u16"),
        2 => num(p.parse_u32().map(u64::from), m.num(4), "parse_u32"),
        3 => num(p.parse_u64(), m.num(8), "parse_u64"),
        4 => num(p.parse::<u8>().map(u64::from), m.num(1), "parse::<u8>"),
        5 => num(p.parse::<u16>().map(u64::from), m.num(2), "parse::<u16>"),
        6 => num(p.parse::<u32>().map(u64::from), m.num(4), "parse::<u32>"),
        7 => num(p.parse::<u64>(), m.num(8), "parse::<u64>"),
        8 => {
            let r = p.parse::<[u8; 3]>();
            byt(r.as_ref().map(|x| &x[..]).map_err(|_| ParseError::eof()), m.next(3), "parse::<[u8; 3]>")
        }
        9 => {
            let r = p.parse::<[u8; 9]>();
            byt(r.as_ref().map(|x| &x[..]).map_err(|_| ParseError::eof()), m.next(9), "parse::<[u8; 9]>")
        }
        10 | 11 | 12 => {
            let n = [0, 1, 7][op - 10];
            match p.parse_bytes(n) {
                Ok(x) => byt(Ok(&x), m.next(n), "parse_bytes"),
                Err(e) => byt(Err(e), m.next(n), "parse_bytes"),
            }
        }
        13 | 14 => {
            let n = [0, 3][op - 13];
            let r = p.parse_repeated::<u16>(n).map(|v| v.iter().map(|x| *x as u64).collect::<Vec<u64>>());
            match r {
                Ok(v) => words(Ok(&v), m, 2, n, "parse_repeated::<u16>"),
                Err(e) => words(Err(e), m, 2, n, "parse_repeated::<u16>"),
            }
        }
        15 | 16 => {
            let n = [1, 2][op - 15];
            // the known finding about unaligned arrays (C09) is not counted here
            if let (Some(o), false) = (m.off, m.be) {
                if (o + m.at) % 8 != 0 {
                    return true;
                }
            }
            match unsafe { p.parse_slice::<u64>(n) } {
                Ok(v) => words(Ok(&v), m, 8, n, "parse_slice::<u64>"),
                Err(e) => words(Err(e), m, 8, n, "parse_slice::<u64>"),
            }
        }
        17 => match unsafe { p.parse_slice::<u8>(5) } {
            Ok(x) => byt(Ok(&x), m.next(5), "parse_slice::<u8>"),
            Err(e) => byt(Err(e), m.next(5), "parse_slice::<u8>"),
        },
        18 => match unsafe { p.parse_slice_direct::<u8>(5) } {
            // consumed or not, never something in between
            Ok(Some(x)) => byt(Ok(x), m.next(5), "parse_slice_direct"),
            Ok(None) => true,
            Err(e) => {
                check(e.kind() == ErrorKind::Eof && m.left().is_empty(), "parse_slice_direct");
                false
            }
        },
        19 => {
            match p.parse_if::<u32>(false) {
                Ok(None) => check(true, "parse_if(false)"),
                _ => check(false, "parse_if(false)"),
            }
            match p.parse_if_with(false, |p| {
                check(false, "parse_if_with(false) does not call the function");
                p.parse_u8()
            }) {
                Ok(None) => check(true, "parse_if_with(false)"),
                _ => check(false, "parse_if_with(false)"),
            }
            true
        }
        20 => match p.parse_if::<u16>(true) {
            Ok(Some(x)) => num(Ok(x as u64), m.num(2), "parse_if(true)"),
            Ok(None) => {
                check(false, "parse_if(true)");
                false
            }
            Err(e) => num(Err(e), m.num(2), "parse_if(true)"),
        },
        21 => match p.parse_if_with(true, |p| {
            let a = p.parse_u8()?;
            Ok((a, p.parse_u16()?))
        }) {
            Ok(Some((a, b))) => {
                num(Ok(a as u64), m.num(1), "parse_if_with(true)");
                num(Ok(b as u64), m.num(2), "parse_if_with(true)")
            }
            Ok(None) => {
                check(false, "parse_if_with(true)");
                false
            }
            Err(e) => {
                check(e.kind() == ErrorKind::Eof && m.left().len() < 3, "parse_if_with(true)");
                false
            }
        },
        22 => match p.parse_with(|p| {
            let a = p.parse_u16()?;
            Ok((a, p.parse_u8()?))
        }) {
            Ok((a, b)) => {
                num(Ok(a as u64), m.num(2), "parse_with");
                num(Ok(b as u64), m.num(1), "parse_with")
            }
            Err(e) => {
                check(e.kind() == ErrorKind::Eof && m.left().len() < 3, "parse_with");
                false
            }
        },
        23 => match p.parse::<perf_event_header>() {
            Ok(h) => {
                num(Ok(h.type_ as u64), m.num(4), "header type");
                num(Ok(h.misc as u64), m.num(2), "header misc");
                num(Ok(h.size as u64), m.num(2), "header size")
            }
            Err(e) => {
                check(e.kind() == ErrorKind::Eof && m.left().len() < 8, "header");
                false
            }
        },
        24 => match p.parse::<NamespaceEntry>() {
            Ok(h) => {
                num(Ok(h.dev), m.num(8), "nested value");
                num(Ok(h.inode), m.num(8), "nested value")
            }
            Err(e) => {
                check(e.kind() == ErrorKind::Eof && m.left().len() < 16, "nested value");
                false
            }
        },
        25 => {
            let n = m.left().len();
            match p.parse_rest() {
                Ok(x) => byt(Ok(&x), m.next(n), "parse_rest"),
                Err(e) => byt(Err(e), m.next(n), "parse_rest"),
            }
        }
        _ => match p.parse_rest_trim_nul() {
            Ok(x) => {
                let l = m.left();
                check(x.len() <= l.len(), "parse_rest_trim_nul");
                if x.len() > l.len() {
                    return false;
                }
                check(same(&x, &l[..x.len()]), "parse_rest_trim_nul keeps the text");
                if let Some(z) = x.last() {
                    check(*z != 0, "parse_rest_trim_nul leaves no trailing NUL");
                }
                let mut d = 0;
                for z in &l[x.len()..] {
                    d |= *z;
                }
                check(d == 0, "parse_rest_trim_nul drops only NULs");
                m.at = m.d.len();
                true
            }
            Err(_) => {
                check(false, "parse_rest_trim_nul");
                false
            }
        },
    }
}
struct Seq<'a> {
    d: &'a [u8],
    be: bool,
    off: Option<usize>,
    ops: usize,
}
impl<'a> Job for Seq<'a> {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        let mut m = Model { d: self.d, at: 0, be: self.be, off: self.off };
        for _ in 0..self.ops {
            let op = choose(OPS);
            if !step(&mut p, op, &mut m) {
                cover("ended");
                return;
            }
        }
        // the position is exactly behind what was read
        step(&mut p, 25, &mut m);
        step(&mut p, 25, &mut m);
        step(&mut p, 0, &mut m);
        cover("sequence");
    }
}
fn offset(s: Src) -> Option<usize> {
    match s.kind {
        0 => Some(s.n),
        1 => Some(0),
        _ => None,
    }
}

entries! {
    // all sequences of primitives; then the rest
    fn c21_sequences() {
        let be = choose(2) == 1;
        let src = match choose(6) {
            0 => Src::SLICE,
            1 => Src { kind: 0, n: 3, hint: true },
            2 => Src { kind: 2, n: 5, hint: false },
            3 => Src { kind: 1, n: 11, hint: true },
            4 => Src { kind: 1, n: 6, hint: false },
            _ => Src { kind: 3, n: 9, hint: false },
        };
        let d = syms8(24);
        drive(&d, src, be, &Cfg::default(), Seq { d: &d, be, off: offset(src), ops: param() });
    }
    // one primitive at every length of the data and with many chunk sizes
    fn c21_ends() {
        let be = choose(2) == 1;
        let n = choose(20);
        let src = match choose(10) {
            0 => Src::SLICE,
            1 => Src { kind: 1, n: 1, hint: false },
            2 => Src { kind: 2, n: 1, hint: true },
            3 => Src { kind: 2, n: 2, hint: false },
            4 => Src { kind: 1, n: 3, hint: true },
            5 => Src { kind: 2, n: 4, hint: false },
            6 => Src { kind: 1, n: 7, hint: false },
            7 => Src { kind: 2, n: 8, hint: true },
            8 => Src { kind: 3, n: 2, hint: false },
            _ => Src { kind: 3, n: 8, hint: false },
        };
        let d = syms8(n);
        drive(&d, src, be, &Cfg::default(), Seq { d: &d, be, off: offset(src), ops: 1 });
    }
    // long pieces of long data
    fn c21_long() {
        let be = choose(2) == 1;
        let d = syms8([2048, 5000][choose(2)]);
        let src = match choose(6) {
            0 => Src::SLICE,
            1 => Src { kind: 0, n: 3, hint: true },
            2 => Src { kind: 2, n: 100, hint: false },
            3 => Src { kind: 1, n: 1000, hint: true },
            4 => Src { kind: 1, n: 4096, hint: false },
            _ => Src { kind: 3, n: 512, hint: false },
        };
        struct L<'a>(&'a [u8], bool, Option<usize>);
        impl<'a> Job for L<'a> {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let mut m = Model { d: self.0, at: 0, be: self.1, off: self.2 };
                for _ in 0..2 {
                    match choose(5) {
                        0 => {
                            let n = [65, 300, 1024][choose(3)];
                            match p.parse_bytes(n) {
                                Ok(x) => byt(Ok(&x), m.next(n), "parse_bytes, long"),
                                Err(e) => byt(Err(e), m.next(n), "parse_bytes, long"),
                            };
                        }
                        1 => {
                            let n = [100, 257][choose(2)];
                            let r = p.parse_repeated::<u16>(n).map(|v| v.iter().map(|x| *x as u64).collect::<Vec<u64>>());
                            match r {
                                Ok(v) => words(Ok(&v), &mut m, 2, n, "parse_repeated::<u16>, long"),
                                Err(e) => words(Err(e), &mut m, 2, n, "parse_repeated::<u16>, long"),
                            };
                        }
                        2 => {
                            if let (Some(o), false) = (m.off, m.be) {
                                // the known finding about unaligned arrays (C09)
                                if (o + m.at) % 8 != 0 { return; }
                            }
                            let n = [33, 128][choose(2)];
                            match unsafe { p.parse_slice::<u64>(n) } {
                                Ok(v) => words(Ok(&v), &mut m, 8, n, "parse_slice::<u64>, long"),
                                Err(e) => words(Err(e), &mut m, 8, n, "parse_slice::<u64>, long"),
                            };
                        }
                        3 => {
                            let r = p.parse::<[u8; 130]>();
                            byt(r.as_ref().map(|x| &x[..]).map_err(|_| ParseError::eof()), m.next(130), "parse::<[u8; 130]>");
                        }
                        _ => {
                            step(&mut p, 3, &mut m);
                        }
                    }
                }
                step(&mut p, 25, &mut m);
                step(&mut p, 0, &mut m);
                cover("long");
            }
        }
        drive(&d, src, be, &Cfg::default(), L(&d, be, offset(src)));
    }
    // pieces above the 16 KiB at which reading of unknown lengths starts to grow
    fn c21_huge() {
        let be = choose(2) == 1;
        let d = syms8(24_000);
        let src = match choose(6) {
            0 => Src { kind: 0, n: 1, hint: true },
            1 => Src { kind: 2, n: 4096, hint: false },
            2 => Src { kind: 1, n: 16384, hint: false },
            3 => Src { kind: 2, n: 20000, hint: true },
            4 => Src { kind: 2, n: 16385, hint: false },
            _ => Src { kind: 3, n: 8192, hint: false },
        };
        struct H<'a>(&'a [u8], bool, Option<usize>);
        impl<'a> Job for H<'a> {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let mut m = Model { d: self.0, at: 0, be: self.1, off: self.2 };
                if choose(2) == 1 {
                    step(&mut p, 3, &mut m);
                }
                let ok = match choose(4) {
                    0 => {
                        let n = [16384, 23992, 24001][choose(3)];
                        match p.parse_bytes(n) {
                            Ok(x) => byt(Ok(&x), m.next(n), "parse_bytes, very long"),
                            Err(e) => byt(Err(e), m.next(n), "parse_bytes, very long"),
                        }
                    }
                    1 => {
                        let n = [8193, 12001][choose(2)];
                        let r = p.parse_repeated::<u16>(n).map(|v| v.iter().map(|x| *x as u64).collect::<Vec<u64>>());
                        match r {
                            Ok(v) => words(Ok(&v), &mut m, 2, n, "parse_repeated::<u16>, very long"),
                            Err(e) => words(Err(e), &mut m, 2, n, "parse_repeated::<u16>, very long"),
                        }
                    }
                    2 => {
                        let n = [2049, 3001][choose(2)];
                        match p.parse_repeated::<u64>(n) {
                            Ok(v) => words(Ok(&v), &mut m, 8, n, "parse_repeated::<u64>, very long"),
                            Err(e) => words(Err(e), &mut m, 8, n, "parse_repeated::<u64>, very long"),
                        }
                    }
                    _ => {
                        // in one native-order slice: the known finding about unaligned arrays (C09)
                        if m.off.is_some() && !m.be { return; }
                        let n = [2049, 3001][choose(2)];
                        match unsafe { p.parse_slice::<u64>(n) } {
                            Ok(v) => words(Ok(&v), &mut m, 8, n, "parse_slice::<u64>, very long"),
                            Err(e) => words(Err(e), &mut m, 8, n, "parse_slice::<u64>, very long"),
                        }
                    }
                };
                // after an error the position is not specified
                if ok { step(&mut p, 0, &mut m); }
                cover("huge");
            }
        }
        drive(&d, src, be, &Cfg::default(), H(&d, be, offset(src)));
    }
    // counts and lengths of any size
    fn c21_counts() {
        let be = choose(2) == 1;
        let n = choose(14);
        let d = syms8(n);
        let src = Src::choose();
        struct C<'a>(&'a [u8], bool, Option<usize>);
        impl<'a> Job for C<'a> {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let mut m = Model { d: self.0, at: 0, be: self.1, off: self.2 };
                let k = sym_u64() as usize;
                assume(k <= self.0.len());
                match choose(2) {
                    0 => {
                        let r = p.parse_bytes(k);
                        match r {
                            Ok(x) => {
                                check(x.len() == k, "parse_bytes of any length");
                                let k = concretize(x.len() as u64) as usize;
                                byt(Ok(&x), m.next(k), "parse_bytes of any length");
                            }
                            Err(_) => check(false, "parse_bytes of any length"),
                        }
                    }
                    _ => {
                        let r = p.parse_repeated::<u8>(k);
                        match r {
                            Ok(x) => {
                                check(x.len() == k, "parse_repeated of any length");
                                let k = concretize(x.len() as u64) as usize;
                                byt(Ok(&x), m.next(k), "parse_repeated of any length");
                            }
                            Err(_) => check(false, "parse_repeated of any length"),
                        }
                    }
                }
                step(&mut p, 25, &mut m);
                cover("counts");
            }
        }
        drive(&d, src, be, &Cfg::default(), C(&d, be, offset(src)));
    }
    // a clone and its original go their own ways
    fn c21_clone() {
        let be = choose(2) == 1;
        let d = syms8(40);
        let cfg = Cfg { st: sym_u64(), rf: sym_u64(), id_all: choose(2) == 1, hw: false, ru: sym_u64(), ri: sym_u64() };
        let mut p = Parser::new(&d[..], cfg.get(en(be)));
        let mut m = Model { d: &d, at: 0, be, off: Some(0) };
        step(&mut p, [0, 3, 9, 12][choose(4)], &mut m);
        let mut q = p.clone();
        let mut n = Model { d: &d, at: m.at, be, off: Some(0) };
        check(q.config().sample_type() == p.config().sample_type(), "a clone has the same configuration");
        check(q.config().read_format() == p.config().read_format(), "a clone has the same configuration");
        check(q.config().regs_user() == p.config().regs_user() && q.config().regs_intr() == p.config().regs_intr(), "a clone has the same configuration");
        check(*q.endian() == en(be) && *p.endian() == en(be), "a clone has the same byte order");
        let first = choose(2) == 1;
        let (a, b) = (choose(OPS), choose(OPS));
        if first {
            step(&mut p, a, &mut m);
            step(&mut q, b, &mut n);
        } else {
            step(&mut q, b, &mut n);
            step(&mut p, a, &mut m);
        }
        step(&mut p, 25, &mut m);
        step(&mut q, 25, &mut n);
        cover("clone");
    }
}
