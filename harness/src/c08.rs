//! C08: every record occupies exactly the bytes its header claims, whatever happens inside.
use crate::common::*;
use crate::gen::*;

const DCFG: Cfg = Cfg { st: S_IP | S_TID | S_ID | S_READ | S_CALLCHAIN | S_RAW | S_BRANCH | S_REGS_USER | S_STACK_USER | S_AUX, rf: R_GROUP | R_ID, id_all: true, hw: false, ru: 3, ri: 0 };

/// Arbitrary contents: the outcome is free, the position afterwards is not.
struct Any {
    how: usize,
    end: bool,
}
impl Any {
    fn rec<'p, B: ParseBuf<'p>, E: Endian>(&self, p: &mut Parser<B, E>) -> bool {
        match self.how {
            0 => p.parse::<Record>().is_ok(),
            1 => p.parse_record(Cap).is_ok(),
            2 => match p.parse::<perf_event_header>() {
                Ok(h) => p.parse_record_with_header(Cap, h).is_ok(),
                Err(_) => false,
            },
            // frame only, contents partly or not at all consumed
            3 => p.parse_metadata().is_ok(),
            _ => match p.parse_metadata() {
                Ok((mut q, _)) => q.parse_u16().is_ok(),
                Err(_) => false,
            },
        }
    }
}
impl Job for Any {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        if self.rec(&mut p) {
            cover("accepted");
        } else {
            cover("rejected");
        }
        if self.end {
            match p.parse_u8() {
                Err(e) => check(e.kind() == ErrorKind::Eof, "nothing is left behind the last record"),
                Ok(_) => check(false, "nothing is left behind the last record"),
            }
        } else {
            at_sentinel(&mut p);
        }
    }
}

entries! {
    // arbitrary bodies, every type, every size
    fn c08_garbage() {
        let k = choose(KINDS);
        let n = [0, 1, 3, 4, 7, 8, 12, 16, 20, 24, 33][choose(11)];
        if k == K_SAMPLE && n > 24 { return; }
        let be = choose(2) == 1;
        let how = choose(5);
        let cfg = Cfg { st: if k == K_SAMPLE { S_ID | S_CALLCHAIN | S_RAW } else { S_ID }, ..DCFG };
        let mut w = W::new(be, 100);
        let at = w.header(type_of(k, &DIMS), any_misc(k));
        w.bytes(&syms8(n));
        w.finish(at);
        let end = choose(2) == 1;
        if !end { w.u64(SENTINEL); }
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 13, hint: false }, _ => Src { kind: 1, n: 10, hint: true } };
        drive(&w.b, src, be, &cfg, Any { how, end });
    }
    // bodies longer than what is parsed of them
    fn c08_leftover() {
        let k = choose(KINDS);
        let be = choose(2) == 1;
        let how = choose(5);
        let cfg = Cfg { st: if k == K_SAMPLE { DCFG.st } else { S_ID | S_TIME }, rf: if k == 7 { R_TE } else { DCFG.rf }, ..DCFG };
        let ids = Ids::sym();
        let mut w = W::new(be, 600);
        let at = w.header(type_of(k, &DIMS), any_misc(k));
        let d = choose(3);
        write_body(&mut w, k, &cfg, [&DIMS, &BIG, &HUGE][d]);
        w.bytes(&syms8(if d == 2 { 26 } else { [1, 8, 26][choose(3)] }));
        if has_sample_id(k) { ids.write(&mut w, &cfg); }
        w.finish(at);
        w.u64(SENTINEL);
        drive_arrays(&w.b, Src::choose(), be, &noisy(k, &cfg), Any { how, end: false });
    }
    // two records of different kinds, then a third: each is read as if it were alone
    fn c08_sequence() {
        let (i, j) = (choose(KINDS), choose(KINDS));
        let be = (i + j) % 2 == 1;
        let cfg = Cfg { st: DCFG.st, rf: R_ID, ..DCFG };
        let ids = Ids::sym();
        let mut w = W::new(be, 1600);
        let a = write_any(&mut w, i, any_misc(i), &cfg, &DIMS, &ids);
        let b = write_any(&mut w, j, any_misc(j), &cfg, &DIMS, &ids);
        write_any(&mut w, 1, 7, &cfg, &DIMS, &ids);
        struct Seq(Vec<usize>);
        impl Job for Seq {
            type Out = Vec<Flat>;
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) -> Vec<Flat> {
                let mut v = vec![];
                for _ in 0..self.0[0] {
                    v.push(flat_seen(&p.parse_record(Cap)));
                }
                match p.parse::<Record>() {
                    Err(e) => check(e.kind() == ErrorKind::Eof, "end of the stream"),
                    Ok(_) => check(false, "end of the stream"),
                }
                v
            }
        }
        // arrays of the second record may be unaligned: known finding, see drive_arrays
        let src = match choose(3) { 0 => if be { Src { kind: 0, n: 1, hint: true } } else { Src { kind: 2, n: 4096, hint: true } }, 1 => Src { kind: 2, n: 37, hint: false }, _ => Src { kind: 3, n: 50, hint: false } };
        let all = drive(&w.b, src, be, &cfg, Seq(vec![3]));
        let x = drive(&w.b[..a], Src::SLICE, be, &cfg, Seq(vec![1]));
        let y = drive(&w.b[a..b].to_vec(), Src::SLICE, be, &cfg, Seq(vec![1]));
        let z = drive(&w.b[b..].to_vec(), Src::SLICE, be, &cfg, Seq(vec![1]));
        check(!is_err(&x[0]) && !is_err(&y[0]) && !is_err(&z[0]), "records alone are decoded");
        check(flat_same(&all[0], &x[0]), "first record as if alone");
        check(flat_same(&all[1], &y[0]), "second record as if alone");
        check(flat_same(&all[2], &z[0]), "third record as if alone");
        cover("sequence");
    }
    // a long stream with records of all kinds, twice
    fn c08_many() {
        let start = choose(KINDS);
        let be = choose(2) == 1;
        let cfg = Cfg { st: DCFG.st, rf: R_ID, ..DCFG };
        let ids = Ids::sym();
        let mut w = W::new(be, 9000);
        let mut ends = vec![0];
        for i in 0..2 * KINDS {
            let k = (start + i * 5) % KINDS;
            ends.push(write_any(&mut w, k, any_misc(k), &cfg, [&DIMS, &EMPTY][i / KINDS], &ids));
        }
        struct All(usize);
        impl Job for All {
            type Out = Vec<Flat>;
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) -> Vec<Flat> {
                let mut v = vec![];
                for _ in 0..self.0 {
                    v.push(flat_seen(&p.parse_record(Cap)));
                }
                match p.parse::<Record>() {
                    Err(e) => check(e.kind() == ErrorKind::Eof, "end of the stream"),
                    Ok(_) => check(false, "end of the stream"),
                }
                v
            }
        }
        let src = match choose(3) { 0 => Src { kind: 2, n: 61, hint: false }, 1 => Src { kind: 2, n: 4096, hint: true }, _ => Src { kind: 3, n: 512, hint: false } };
        let all = drive(&w.b, src, be, &cfg, All(2 * KINDS));
        let mut i = 0;
        while i < 2 * KINDS {
            let one = drive(&w.b[ends[i]..ends[i + 1]].to_vec(), Src::SLICE, be, &cfg, All(1));
            check(!is_err(&one[0]), "records alone are decoded");
            check(flat_same(&all[i], &one[0]), "every record of a stream as if alone");
            i += 1;
        }
        cover("many");
    }
    // a size below that of the header is invalid
    fn c08_small() {
        let be = choose(2) == 1;
        let how = choose(5);
        let mut w = W::new(be, 100);
        w.u32(sym_u32()).u16(sym_u16());
        let n = sym_u16();
        assume(n < 8);
        w.u16(n);
        w.u64(SENTINEL);
        struct Sm(usize);
        impl Job for Sm {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let e = match self.0 {
                    0 => p.parse::<Record>().err(),
                    1 => p.parse_record(Cap).err(),
                    2 => match p.parse::<perf_event_header>() {
                        Ok(h) => p.parse_record_with_header(Cap, h).err(),
                        Err(e) => Some(e),
                    },
                    3 => p.parse_metadata().err(),
                    _ => match p.parse::<perf_event_header>() {
                        Ok(h) => p.parse_metadata_with_header(h).err(),
                        Err(e) => Some(e),
                    },
                };
                match e {
                    Some(e) => check(e.kind() == ErrorKind::InvalidRecord, "a size below 8 is an invalid record"),
                    None => check(false, "a size below 8 is rejected"),
                }
                at_sentinel(&mut p);
                cover("size below 8");
            }
        }
        drive(&w.b, Src::choose(), be, &DCFG, Sm(how));
    }
    // the stream ends before the record does
    fn c08_short() {
        let be = choose(2) == 1;
        let how = choose(5);
        let n = choose(20);
        let mut w = W::new(be, 100);
        w.u32(sym_u32()).u16(sym_u16());
        let size = sym_u16();
        assume(size as usize > n + 8);
        w.u16(size);
        w.bytes(&syms8(n));
        let len = if n == 0 { choose(9) } else { w.len() };
        struct Sh(usize);
        impl Job for Sh {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let e = match self.0 {
                    0 => p.parse::<Record>().err(),
                    1 => p.parse_record(Cap).err(),
                    2 => match p.parse::<perf_event_header>() {
                        Ok(h) => p.parse_record_with_header(Cap, h).err(),
                        Err(e) => Some(e),
                    },
                    3 => p.parse_metadata().err(),
                    _ => match p.parse::<perf_event_header>() {
                        Ok(h) => p.parse_metadata_with_header(h).err(),
                        Err(e) => Some(e),
                    },
                };
                match e {
                    Some(e) => check(e.kind() == ErrorKind::Eof, "a record beyond the end of the stream is Eof"),
                    None => check(false, "a record beyond the end of the stream is rejected"),
                }
                cover("stream too short");
            }
        }
        drive(&w.b[..len], Src::choose(), be, &DCFG, Sh(how));
    }
    // the largest records the header can describe
    fn c08_large() {
        let be = choose(2) == 1;
        let ty = [1, 3, 9, 40][choose(4)];
        let size = [65535usize, 65534, 40000, 32768][choose(4)];
        let mut w = W::new(be, 66000);
        let at = w.header(ty, sym_u16());
        let c = sym_u64();
        w.u64(c).u64(sym_u64());
        w.bytes(&vec![0x61; size - 24 - 16]);
        w.u64(sym_u64()).u64(5);
        w.finish(at);
        w.u64(SENTINEL);
        let cfg = Cfg { st: S_ID, id_all: choose(2) == 1, ..Default::default() };
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 4096, hint: false }, _ => Src { kind: 3, n: 8192, hint: false } };
        drive(&w.b, src, be, &cfg, Any { how: choose(2), end: false });
        cover("large");
    }
}
