//! C13: memory use is bounded by the input, and contiguous borrowed input is not copied.
use crate::common::*;
use crate::gen::*;

/// Bound on the memory in use at any time for an input of `n` bytes.
fn bound(n: usize) -> usize {
    32768 + 64 * n
}
struct What(usize, usize);
impl Job for What {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        alloc_limit(bound(self.1));
        heap_reset();
        let len = || sym_u64() as usize;
        let ok = match self.0 {
            0 => p.parse::<Record>().is_ok(),
            1 => p.parse::<Sample>().is_ok(),
            2 => p.parse::<ReadGroup>().is_ok(),
            3 => p.parse::<Namespaces>().is_ok(),
            4 => p.parse::<TextPoke>().is_ok(),
            5 => p.parse::<perf_event_attr>().is_ok(),
            6 => p.parse_bytes(len()).is_ok(),
            7 => p.parse_repeated::<u64>(len()).is_ok(),
            8 => unsafe { p.parse_slice::<u64>(len()) }.is_ok(),
            9 => p.parse_repeated::<NamespaceEntry>(len()).is_ok(),
            10 => p.parse_rest().is_ok(),
            11 => p.parse_metadata().is_ok(),
            12 => p.parse_repeated::<u8>(len()).is_ok(),
            13 => Registers::parse_user(&mut p).is_ok(),
            _ => p.parse_repeated::<BranchEntry>(len()).is_ok(),
        };
        check(heap_peak() as usize <= bound(self.1), "memory in use is bounded by the input");
        cover(if ok { "accepted" } else { "rejected" });
    }
}
fn srcs() -> Src {
    match choose(5) {
        0 => Src::SLICE,
        1 => Src { kind: 2, n: 16, hint: false },
        2 => Src { kind: 2, n: 4096, hint: true },
        3 => Src { kind: 1, n: 20, hint: false },
        _ => Src { kind: 3, n: 32, hint: false },
    }
}
fn borrowed<T: Clone>(c: &Cow<'_, [T]>, buf: &[u8]) -> bool {
    let s = std::mem::size_of::<T>();
    let (a, b) = (buf.as_ptr() as usize, buf.as_ptr() as usize + buf.len());
    let p = c.as_ptr() as usize;
    matches!(c, Cow::Borrowed(_)) && (c.is_empty() || p >= a && p + c.len() * s <= b)
}
fn inside<T>(c: &[T], buf: &[u8]) -> bool {
    let s = std::mem::size_of::<T>();
    let (a, b) = (buf.as_ptr() as usize, buf.as_ptr() as usize + buf.len());
    let p = c.as_ptr() as usize;
    c.is_empty() || p >= a && p + c.len() * s <= b
}

entries! {
    // arbitrary data that claims arbitrary lengths (param: 100 * what + size of the data)
    fn c13_any() {
        let n = param() % 100;
        let what = param() / 100;
        let be = choose(2) == 1;
        let src = srcs();
        let st = if what < 2 { [S_CALLCHAIN, S_RAW, S_BRANCH, S_REGS_USER, S_STACK_USER, S_AUX, S_READ][choose(7)] } else { 0 };
        let cfg = Cfg { st, rf: R_GROUP | choose(2) as u64 * (R_ID | R_LOST), ru: u64::MAX, id_all: false, hw: choose(2) == 1, ri: 0 };
        let mut d = syms8(n);
        if what == 0 || what == 11 {
            // a plausible frame, so that the contents are reached; its size is arbitrary
            let ty = if st == 0 { 9 } else { [9, 16, 20, 10][choose(4)] };
            let h = if be { [0, 0, 0, ty] } else { [ty, 0, 0, 0] };
            d[..4].copy_from_slice(&h);
        }
        drive(&d, src, be, &cfg, What(what, n));
    }
    // every kind of record with contents
    fn c13_kinds() {
        let k = choose(KINDS);
        let be = choose(2) == 1;
        let cfg = Cfg { st: if k == K_SAMPLE { (1 << 25) - 1 } else { S_TID }, rf: if k == 7 { 0 } else { R_GROUP }, id_all: true, ru: 0xff, ri: 1, hw: true };
        let d = [DIMS, BIG, HUGE][choose(3)];
        let mut w = W::new(be, 900);
        write_any(&mut w, k, any_misc(k), &cfg, &d, &Ids::sym());
        let n = w.len();
        drive_arrays(&w.b, srcs(), be, &cfg, What(0, n));
    }
    // contiguous borrowed data in native byte order is borrowed by the record
    fn c13_borrow() {
        let k = [0, 2, 8, 9, 10, 16, 17, 19, 20, 22][choose(10)];
        let be = choose(2) == 1;
        let cfg = Cfg { st: if k == K_SAMPLE { (1 << 25) - 1 } else { S_TID }, rf: R_GROUP, id_all: true, ru: 0xff, ri: 1, hw: true };
        let d = [DIMS, BIG, HUGE][choose(3)];
        let mut w = W::new(be, 900);
        write_any(&mut w, k, any_misc(k), &cfg, &d, &Ids::sym());
        let buf = &w.b[..];
        let native = !be;
        let mut p = Parser::new(buf, cfg.get(en(be)));
        match p.parse::<Record>() {
            Ok(r) => {
                let ok = match &r {
                    Record::Mmap(r) => borrowed(&r.filename, buf),
                    Record::Comm(r) => borrowed(&r.comm, buf),
                    Record::Mmap2(r) => borrowed(&r.filename, buf),
                    Record::KSymbol(r) => borrowed(&r.name, buf),
                    Record::CGroup(r) => borrowed(&r.path, buf),
                    Record::TextPoke(r) => borrowed(&r.old_bytes, buf) && borrowed(&r.new_bytes, buf),
                    Record::Unknown { data, .. } => borrowed(data, buf),
                    Record::Namespaces(r) => !native || borrowed(&r.namespaces, buf),
                    Record::Sample(s) => {
                        let bytes = s.raw().map_or(false, |x| inside(x, buf)) && s.aux().map_or(false, |x| inside(x, buf)) && s.stack_user().map_or(false, |x| inside(x, buf));
                        let words = !native || s.callchain().map_or(false, |x| inside(x, buf)) && s.lbr().map_or(false, |x| inside(x, buf)) && s.regs_user().map_or(false, |x| borrowed(&x.regs, buf)) && s.regs_intr().map_or(false, |x| borrowed(&x.regs, buf));
                        bytes && words
                    }
                    _ => false,
                };
                check(ok, "contiguous borrowed data is not copied");
                cover("borrowed");
            }
            Err(_) => check(false, "a complete record is decoded"),
        };
    }
    // primitives
    fn c13_borrow_primitive() {
        let d = syms8(40);
        let mut v = vec![0u64; 5];
        for i in 0..5 { v[i] = u64::from_le_bytes([d[8*i], d[8*i+1], d[8*i+2], d[8*i+3], d[8*i+4], d[8*i+5], d[8*i+6], d[8*i+7]]); }
        let mut p = Parser::new(&d[..], ParseConfig::<Native>::default());
        let n = choose(41);
        match choose(4) {
            0 => match p.parse_bytes(n) {
                Ok(x) => check(borrowed(&x, &d) && same(&x, &d[..n]), "parse_bytes borrows"),
                Err(_) => check(false, "parse_bytes borrows"),
            },
            1 => match p.parse_rest() {
                Ok(x) => check(borrowed(&x, &d) && same(&x, &d), "parse_rest borrows"),
                Err(_) => check(false, "parse_rest borrows"),
            },
            2 => match unsafe { p.parse_slice::<u64>(n % 6) } {
                Ok(x) => check(borrowed(&x, &d) && same64(&x, &v[..n % 6]), "parse_slice borrows"),
                Err(_) => check(false, "parse_slice borrows"),
            },
            _ => match unsafe { p.parse_slice_direct::<u64>(n % 6) } {
                Ok(Some(x)) => check(inside(x, &d) && same64(x, &v[..n % 6]), "parse_slice_direct borrows"),
                _ => check(false, "parse_slice_direct borrows"),
            },
        }
        cover("borrowed");
    }
}
