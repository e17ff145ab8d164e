//! C17: all ways to get at the entries of a group agree.
use crate::common::*;
use crate::gen::*;

fn flags(i: usize) -> u64 {
    (i as u64 & 7) | (i as u64 & 8) << 1
}
struct G<F>(F);
impl<F: FnOnce(&ReadGroup<'_>)> Job for G<F> {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        match p.parse::<ReadGroup>() {
            Ok(g) => (self.0)(&g),
            Err(_) => check(false, "a complete group is decoded"),
        }
    }
}
/// A group of `n` entries, read from some kind of source, or made from a single value.
fn with(n: usize, fl: u64, f: impl FnOnce(&ReadGroup<'_>, &Rd)) {
    let rd = Rd::sym(n);
    let kind = choose(if n == 1 { 3 } else { 2 });
    let be = choose(2) == 1;
    let mut w = W::new(be, 400);
    if kind == 2 {
        rd.write(&mut w, fl);
        match Parser::new(&w.b[..], Cfg { rf: fl, ..Default::default() }.get(en(be))).parse::<ReadValue>() {
            Ok(v) => f(&v.into(), &rd),
            Err(_) => check(false, "a complete value is decoded"),
        }
        return;
    }
    let rf = fl | R_GROUP;
    rd.write(&mut w, rf);
    let src = if kind == 0 { Src::SLICE } else { Src { kind: 2, n: 24, hint: false } };
    drive_arrays(&w.b, src, be, &Cfg { rf, ..Default::default() }, G(|g: &ReadGroup<'_>| f(g, &rd)));
}
fn check_opt(rd: &Rd, fl: u64, want: Option<usize>, got: Option<GroupEntry>) {
    match (want, got) {
        (None, None) => check(true, "no entry where there is none"),
        (Some(i), Some(e)) => rd.check_entry(i, &e, fl),
        _ => check(false, "an entry exactly where there is one"),
    }
}

entries! {
    // every mix of stepping from both ends (param: number of operations)
    fn c17_iter() {
        let ops = param();
        let n = choose(5);
        let fl = flags([0, 4, 8, 12][choose(4)]);
        with(n, fl, |g, rd| {
            let mut it = g.entries();
            // what is left: lo..hi
            let (mut lo, mut hi) = (0usize, n);
            for _ in 0..ops {
                let (want, got) = match choose(4) {
                    0 => {
                        let w = if lo < hi { lo += 1; Some(lo - 1) } else { None };
                        (w, it.next())
                    }
                    1 => {
                        let w = if lo < hi { hi -= 1; Some(hi) } else { None };
                        (w, it.next_back())
                    }
                    2 => {
                        let k = [0, 1, 2, usize::MAX][choose(4)];
                        let w = if k < hi - lo { lo += k + 1; Some(lo - 1) } else { lo = hi; None };
                        (w, it.nth(k))
                    }
                    _ => {
                        let k = [0, 1, 2, usize::MAX][choose(4)];
                        let w = if k < hi - lo { hi -= k + 1; Some(hi) } else { hi = lo; None };
                        (w, it.nth_back(k))
                    }
                };
                check_opt(rd, fl, want, got);
                check(it.len() == hi - lo, "len is the number of entries left");
                check(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint is exact");
                check(it.clone().count() == hi - lo, "count is the number of entries left");
            }
            check_opt(rd, fl, if lo < hi { Some(hi - 1) } else { None }, it.clone().last());
            // the rest, by plain iteration; then it stays exhausted
            let mut i = lo;
            let mut c = it.clone();
            while let Some(e) = c.next() {
                if i >= hi { return check(false, "no more entries than there are"); }
                rd.check_entry(i, &e, fl);
                i += 1;
            }
            check(i == hi, "every entry is visited");
            check(c.next().is_none() && c.next_back().is_none() && c.nth(0).is_none() && c.nth_back(0).is_none() && c.len() == 0, "an exhausted iterator stays exhausted");
            // and backwards
            let mut i = hi;
            for e in it.rev() {
                if i <= lo { return check(false, "no more entries than there are"); }
                i -= 1;
                rd.check_entry(i, &e, fl);
            }
            check(i == lo, "every entry is visited backwards");
            cover("iter");
        });
    }
    // consuming what is left in one go, in the ways iterators offer
    fn c17_consume() {
        let n = choose(5);
        let fl = flags([0, 4, 8, 12][choose(4)]);
        with(n, fl, |g, rd| {
            let mut it = g.entries();
            let (mut lo, mut hi) = (0usize, n);
            if choose(2) == 1 && lo < hi { it.next(); lo += 1; }
            if choose(2) == 1 && lo < hi { it.next_back(); hi -= 1; }
            // the order in which the entries must appear
            let want: Vec<usize> = (lo..hi).collect();
            let back: Vec<usize> = (lo..hi).rev().collect();
            let mut seen: Vec<GroupEntry> = Vec::new();
            let mut want = match choose(14) {
                0 => { let k = it.fold(0, |a, e| { seen.push(e); a + 1 }); check(k == hi - lo, "fold"); want }
                1 => { let k = it.rfold(0, |a, e| { seen.push(e); a + 1 }); check(k == hi - lo, "rfold"); back }
                2 => { it.for_each(|e| seen.push(e)); want }
                3 => { it.rev().for_each(|e| seen.push(e)); back }
                4 => { seen = it.collect(); want }
                5 => { seen = it.rev().collect(); back }
                6 => { seen.extend(it); want }
                7 => { check(it.all(|e| { seen.push(e); true }), "all"); want }
                8 => { check(!it.any(|e| { seen.push(e); false }), "any"); want }
                9 => { check(it.rposition(|e| { seen.push(e); false }).is_none(), "rposition"); back }
                10 => { check(it.rfind(|e| { seen.push(*e); false }).is_none(), "rfind"); back }
                11 => { seen = it.step_by(2).collect(); want.into_iter().step_by(2).collect() }
                12 => { seen = it.skip(1).collect(); want.into_iter().skip(1).collect() }
                _ => { let (a, b): (Vec<GroupEntry>, Vec<GroupEntry>) = it.by_ref().take(2).partition(|_| true); check(b.is_empty(), "partition"); seen = a; seen.extend(it.rev()); let mut w: Vec<usize> = want.iter().copied().take(2).collect(); w.extend(want.iter().copied().skip(2).rev()); w }
            };
            if seen.len() != want.len() { return check(false, "every entry that is left appears once"); }
            let mut k = seen.len();
            while k > 0 {
                k -= 1;
                rd.check_entry(want.pop().unwrap_or(0), &seen[k], fl);
            }
            cover("consume");
        });
    }
    fn c17_get() {
        let n = choose(6);
        let fl = flags(choose(16));
        with(n, fl, |g, rd| {
            rd.check_group(g, fl);
            check(g.len() == n && g.is_empty() == (n == 0), "len");
            check(g.entries().len() == n, "len");
            let i = sym_u64() as usize;
            match g.get(i) {
                Some(e) => {
                    if i >= n { return check(false, "get is None beyond the end"); }
                    rd.check_entry(i, &e, fl);
                }
                None => check(i >= n, "get finds every index"),
            }
            cover("get");
        });
    }
    fn c17_by_id() {
        let n = choose(5);
        let fl = flags(choose(16));
        with(n, fl, |g, rd| {
            let id = sym_u64();
            let got = g.get_by_id(id);
            if fl & R_ID == 0 {
                check(got.is_none(), "no lookup by id without ids");
                return cover("no ids");
            }
            // the first one with that id
            let mut want = None;
            let mut i = 0;
            while i < n {
                if rd.e[i][1] == id { want = Some(i); break; }
                i += 1;
            }
            check_opt(rd, fl, want, got);
            if want.is_some() { cover("by id, found") } else { cover("by id, missing") }
        });
    }
    // many entries, and huge steps
    fn c17_large() {
        let n = [9, 17, 70][choose(3)];
        let fl = flags([0, 4, 8, 12][choose(4)]);
        with(n, fl, |g, rd| {
            rd.check_group(g, fl);
            let k = sym_u64() as usize;
            let mut it = g.entries();
            let back = choose(2) == 1;
            let got = if back { it.nth_back(k) } else { it.nth(k) };
            match got {
                Some(e) => {
                    if k >= n { return check(false, "an entry exactly where there is one"); }
                    rd.check_entry(if back { n - 1 - k } else { k }, &e, fl);
                    check(it.len() == n - 1 - k, "len is the number of entries left");
                }
                None => check(k >= n && it.len() == 0, "an entry exactly where there is one"),
            }
            cover("large");
        });
    }
}
