//! C06: counter values of READ records and samples.
use crate::common::*;
use crate::gen::*;

struct R<'a> {
    kind: usize,
    rd: &'a Rd,
    pid: u32,
    tid: u32,
    rf: u64,
}
impl Job for R<'_> {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        let known = self.rf & !31 == 0;
        let group = self.rf & R_GROUP != 0;
        let err = match self.kind {
            // READ record
            0 => {
                let r = p.parse::<Record>();
                at_sentinel(&mut p);
                match r {
                    Ok(Record::Read(r)) => {
                        check(known && !group, "unsupported read_format is rejected");
                        check(r.pid == self.pid, "read pid");
                        check(r.tid == self.tid, "read tid");
                        self.rd.check_value(&r.values, self.rf);
                        cover("read record");
                        return;
                    }
                    Ok(_) => return check(false, "READ record is decoded as such"),
                    Err(e) => e,
                }
            }
            // bare value
            1 => match p.parse::<ReadValue>() {
                Ok(v) => {
                    check(known && !group, "unsupported read_format is rejected");
                    self.rd.check_value(&v, self.rf);
                    at_sentinel(&mut p);
                    cover("read value");
                    return;
                }
                Err(e) => e,
            },
            // bare group
            2 => match p.parse::<ReadGroup>() {
                Ok(g) => {
                    check(known && group, "unsupported read_format is rejected");
                    self.rd.check_group(&g, self.rf);
                    at_sentinel(&mut p);
                    cover("read group");
                    return;
                }
                Err(e) => {
                    check(!known || !group, "supported read_format is decoded");
                    check(e.kind() == ErrorKind::UnsupportedConfig, "unsupported read_format is reported as such");
                    return;
                }
            },
            // in a sample
            _ => {
                let r = p.parse::<Record>();
                at_sentinel(&mut p);
                match r {
                    Ok(Record::Sample(s)) => {
                        check(known, "unsupported read_format is rejected");
                        match s.values() {
                            Some(g) => self.rd.check_group(g, self.rf),
                            None => check(false, "sample has counter values"),
                        }
                        check(s.cgroup() == Some(77), "field behind the counter values");
                        cover("read in sample");
                    }
                    Ok(_) => check(false, "SAMPLE record is decoded as such"),
                    Err(e) => {
                        check(!known, "supported read_format is decoded");
                        check(e.kind() == ErrorKind::UnsupportedConfig, "unsupported read_format is reported as such");
                        cover("unsupported");
                    }
                }
                return;
            }
        };
        check(!known || group, "supported read_format is decoded");
        check(err.kind() == ErrorKind::UnsupportedConfig, "unsupported read_format is reported as such");
        cover("unsupported");
    }
}
fn go(kind: usize, rf: u64, n: usize, be: bool, src: Src) {
    let rd = Rd::sym(n);
    let (pid, tid) = (sym_u32(), sym_u32());
    let cfg = Cfg { rf, st: if kind == 3 { S_READ | S_CGROUP } else { 0 }, ..Default::default() };
    let mut w = W::new(be, 300);
    match kind {
        0 => {
            let at = w.header(8, sym_u16());
            w.u32(pid).u32(tid);
            rd.write_single(&mut w, rf);
            w.finish(at);
        }
        1 => rd.write_single(&mut w, rf),
        2 => rd.write_group(&mut w, rf),
        _ => {
            let at = w.header(9, sym_u16());
            rd.write(&mut w, rf);
            w.u64(77);
            w.finish(at);
        }
    }
    w.u64(SENTINEL);
    drive_arrays(&w.b, src, be, &cfg, R { kind, rd: &rd, pid, tid, rf });
}
fn flags_of(i: usize) -> u64 {
    (i as u64 & 7) | (i as u64 & 8) << 1
}

entries! {
    fn c06_single() {
        let kind = [0, 1, 3][choose(3)];
        let mut rf = choose(32) as u64;
        if kind == 3 { rf &= !R_GROUP; }
        go(kind, rf, 1, choose(2) == 1, Src::choose());
    }
    fn c06_group() {
        let kind = [2, 3][choose(2)];
        let rf = choose(32) as u64 | if kind == 3 { R_GROUP } else { 0 };
        let n = [0, 1, 2, 3][choose(4)];
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 20, hint: false }, _ => Src { kind: 0, n: 4, hint: true } };
        go(kind, rf, n, choose(2) == 1, src);
    }
    fn c06_big_group() {
        let rf = R_GROUP | choose(2) as u64 * R_ID | choose(2) as u64 * R_LOST | R_TR;
        go([2, 3][choose(2)], rf, [17, 60][choose(2)], choose(2) == 1, Src::choose());
    }
    // any count of members: decoded exactly when they are all there
    fn c06_count() {
        let rf = R_GROUP | flags_of(choose(16));
        let el = 1 + (rf & R_ID != 0) as usize + (rf & R_LOST != 0) as usize;
        let head = (rf & R_TE != 0) as usize + (rf & R_TR != 0) as usize;
        let nr = sym_u64();
        let be = choose(2) == 1;
        let m = choose(9);
        let mut w = W::new(be, 200);
        w.u64(nr);
        for _ in 0..head { w.u64(sym_u64()); }
        let mut words = Vec::new();
        for _ in 0..m { let v = sym_u64(); w.u64(v); words.push(v); }
        struct C { nr: u64, rf: u64, el: usize, words: Vec<u64> }
        impl Job for C {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let fit = (self.words.len() / self.el) as u64;
                match p.parse::<ReadGroup>() {
                    Ok(g) => {
                        check(self.nr <= fit, "a group with missing members is rejected");
                        let n = g.len();
                        check(n as u64 == self.nr, "all members are decoded");
                        if n > fit as usize { return; }
                        let mut i = 0;
                        for e in g.entries() {
                            let x = &self.words[i * self.el..];
                            check(e.value() == x[0], "member value");
                            check(e.id() == if self.rf & R_ID != 0 { Some(x[1]) } else { None }, "member id");
                            check(e.lost() == if self.rf & R_LOST != 0 { Some(x[self.el - 1]) } else { None }, "member lost");
                            i += 1;
                        }
                        // what follows is not part of the group
                        for x in &self.words[n * self.el..] {
                            match p.parse_u64() {
                                Ok(v) => check(v == *x, "data behind the group"),
                                Err(_) => check(false, "data behind the group"),
                            }
                        }
                        cover("count, complete");
                    }
                    Err(e) => {
                        check(self.nr > fit, "a complete group is decoded");
                        check(e.kind() == ErrorKind::Eof || e.kind() == ErrorKind::InvalidRecord, "kind of the error");
                        cover("count, incomplete");
                    }
                }
            }
        }
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 12, hint: false }, _ => Src { kind: 1, n: 16, hint: true } };
        drive_arrays(&w.b, src, be, &Cfg { rf, ..Default::default() }, C { nr, rf, el, words });
    }
    // any unknown format bit makes the values undecodable
    fn c06_unknown() {
        let rf = sym_u64();
        let kind = choose(4);
        let known = choose(32) as u64;
        assume(rf & 31 == known);
        assume(rf >> 5 != 0);
        let mut w = W::new(false, 200);
        if kind == 0 || kind == 3 { let n = 200u16; w.u32(if kind == 0 { 8 } else { 9 }).u16(0).u16(n - 8); }
        while w.len() < 192 { w.u64(1); }
        struct U(usize);
        impl Job for U {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let e = match self.0 {
                    1 => p.parse::<ReadValue>().err(),
                    2 => p.parse::<ReadGroup>().err(),
                    _ => p.parse::<Record>().err(),
                };
                match e {
                    Some(e) => check(e.kind() == ErrorKind::UnsupportedConfig, "unsupported read_format is reported as such"),
                    None => check(false, "unknown read_format bits are rejected"),
                }
                cover("unknown bits");
            }
        }
        let cfg = Cfg { rf, st: S_READ, ..Default::default() };
        drive_arrays(&w.b, Src::SLICE, false, &cfg, U(kind));
    }
}
