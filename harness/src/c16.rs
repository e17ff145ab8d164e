//! C16: conversions keep the contents.
use crate::common::*;
use crate::gen::*;

fn flags(i: usize) -> u64 {
    (i as u64 & 7) | (i as u64 & 8) << 1
}
fn put_group(be: bool, rd: &Rd, rf: u64) -> W {
    let mut w = W::new(be, 200);
    rd.write(&mut w, rf);
    w
}
fn srcs() -> Src {
    match choose(3) {
        0 => Src::SLICE,
        1 => Src { kind: 2, n: 16, hint: false },
        _ => Src { kind: 1, n: 20, hint: true },
    }
}
fn flat_mmap(r: &Mmap<'_>) -> Flat {
    let mut f = Flat::new();
    f.mmap(r);
    f
}
/// Destroys the buffer a record was read from.
fn wipe(mut b: Vec<u8>) {
    for x in b.iter_mut() {
        *x = 0x55;
    }
    drop(b);
}
fn cfg_of(k: usize, v: usize) -> Cfg {
    let st = if k == K_SAMPLE {
        match v {
            0 => (1 << 25) - 1,
            1 => S_RAW | S_AUX | S_REGS_USER | S_STACK_USER | S_ID,
            2 => S_IP | S_TID | S_CALLCHAIN | S_BRANCH | S_READ,
            _ => 0,
        }
    } else {
        S_TID
    };
    Cfg { st, rf: if k == 7 { R_TE | R_ID } else { R_GROUP | R_ID }, id_all: true, ru: 0x3, ri: 1, hw: v == 0 }
}
/// Conversions of a record that was read from any kind of source.
struct Conv;
impl Job for Conv {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        {
            let r = match p.parse::<Record>() {
                Ok(r) => r,
                Err(_) => return check(false, "a complete record is decoded"),
            };
            let f = Flat::of(&r);
            // clones are equal and independent
            let c = r.clone();
            check(flat_same(&Flat::of(&c), &f), "a clone equals the record");
            check(flat_same(&Flat::of(&r), &f), "cloning does not change the record");
            match choose(3) {
                0 => {
                    drop(r);
                    check(flat_same(&Flat::of(&c), &f), "a clone survives the record");
                }
                1 => {
                    drop(c);
                    check(flat_same(&Flat::of(&r), &f), "a record survives its clone");
                }
                _ => {
                    // back into a record through the typed value
                    let back: Option<Record<'_>> = match c {
                        Record::Mmap(x) => Some(x.into()),
                        Record::Lost(x) => Some(x.into()),
                        Record::Comm(x) => Some(x.into()),
                        Record::Read(x) => Some(x.into()),
                        Record::Mmap2(x) => Some(x.into()),
                        Record::Aux(x) => Some(x.into()),
                        Record::ITraceStart(x) => Some(x.into()),
                        Record::LostSamples(x) => Some(x.into()),
                        Record::SwitchCpuWide(x) => Some(x.into()),
                        Record::Namespaces(x) => Some(x.into()),
                        Record::KSymbol(x) => Some(x.into()),
                        Record::BpfEvent(x) => Some(x.into()),
                        Record::CGroup(x) => Some(x.into()),
                        Record::TextPoke(x) => Some(x.into()),
                        Record::AuxOutputHwId(x) => Some(x.into()),
                        Record::Sample(x) => Some((*x).into()),
                        _ => None,
                    };
                    if let Some(b) = back {
                        check(flat_same(&Flat::of(&b), &f), "a record made from the typed value equals it");
                        cover("from");
                    }
                }
            }
            cover("cloned");
        }
    }
}

entries! {
    fn c16_clone() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(4) } else { 0 };
        let be = choose(2) == 1;
        let cfg = cfg_of(k, v);
        let d = [DIMS, Dims { abi_u: 1, abi_i: 2, ty: 50, stack: 16, dynsz: 16, ..EMPTY }, BIG][choose(3)];
        let mut w = W::new(be, 900);
        write_any(&mut w, k, any_misc(k), &cfg, &d, &Ids::sym());
        let src = srcs();
        let live = heap_live();
        drive_arrays(&w.b, src, be, &cfg, Conv);
        check(heap_live() == live, "nothing is leaked");
    }
    // owned versions do not depend on the data they were read from
    fn c16_owned() {
        let k = [0, 2, 9, 10, 17, 19, 20][choose(7)];
        let be = choose(2) == 1;
        let temp = choose(2) == 1;
        let cfg = cfg_of(k, 0);
        let d = [DIMS, EMPTY, BIG, HUGE][choose(4)];
        let mut w = W::new(be, 900);
        write_any(&mut w, k, any_misc(k), &cfg, &d, &Ids::sym());
        let buf = w.b.clone();
        let (f, o): (Flat, Option<Record<'static>>) = {
            let r = if temp {
                let n = buf.len();
                Parser::new(Chunks::new(&buf, &[n / 2], true, false), cfg.get(en(be))).parse::<Record>()
            } else {
                Parser::new(&buf[..], cfg.get(en(be))).parse::<Record>()
            };
            match r {
                Ok(r) => {
                    let f = Flat::of(&r);
                    (f, match r {
                        Record::Mmap(x) => Some(Record::Mmap(x.into_owned())),
                        Record::Comm(x) => Some(Record::Comm(x.into_owned())),
                        Record::Mmap2(x) => Some(Record::Mmap2(x.into_owned())),
                        Record::KSymbol(x) => Some(Record::KSymbol(x.into_owned())),
                        Record::CGroup(x) => Some(Record::CGroup(x.into_owned())),
                        Record::TextPoke(x) => Some(Record::TextPoke(x.to_owned())),
                        _ => None,
                    })
                }
                Err(_) => (Flat::new(), None),
            }
        };
        wipe(buf);
        match o {
            Some(r) => check(flat_same(&Flat::of(&r), &f), "the owned record equals the borrowed one"),
            None => check(false, "a complete record is decoded"),
        }
        cover("owned");
    }
    fn c16_owned_group() {
        let rf = R_GROUP | flags(choose(16));
        let n = [0, 1, 2, 3, 40][choose(5)];
        let be = choose(2) == 1;
        let rd = Rd::sym(n);
        let w = put_group(be, &rd, rf);
        let buf = w.b.clone();
        let o: Option<ReadGroup<'static>> = Parser::new(&buf[..], Cfg { rf, ..Default::default() }.get(en(be))).parse::<ReadGroup>().ok().map(|g| g.into_owned());
        wipe(buf);
        match o {
            Some(g) => {
                rd.check_group(&g, rf);
                rd.check_group(&g.clone(), rf);
            }
            None => check(false, "a complete group is decoded"),
        }
        cover("owned");
    }
    fn c16_mmap2() {
        let k = 9 + choose(2);
        let be = choose(2) == 1;
        let cfg = cfg_of(k, 0);
        let d = [DIMS, EMPTY, BIG, HUGE][choose(4)];
        let mut w = W::new(be, 900);
        write_any(&mut w, k, any_misc(k), &cfg, &d, &Ids::sym());
        struct M;
        impl Job for M {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                match p.parse::<Record>() {
                    Ok(Record::Mmap2(r)) => {
                        let mut f = Flat::new();
                        f.p(r.pid as u64).p(r.tid as u64).p(r.addr).p(r.len).p(r.pgoff).bs(&r.filename);
                        let mut g = Flat::new();
                        g.mmap2(&r);
                        let m = r.to_mmap();
                        check(flat_same(&flat_mmap(&m), &f), "to_mmap keeps the common fields");
                        let mut h = Flat::new();
                        h.mmap2(&r);
                        check(flat_same(&g, &h), "to_mmap does not change the record");
                        let m = r.into_mmap();
                        check(flat_same(&flat_mmap(&m), &f), "into_mmap keeps the common fields");
                        cover("mmap2");
                    }
                    _ => check(false, "a complete record is decoded"),
                }
            }
        }
        drive(&w.b, srcs(), be, &cfg, M);
    }
    // single values and groups
    fn c16_read() {
        let fl = flags(choose(16));
        let n = choose(4);
        let be = choose(2) == 1;
        let src = srcs();
        let single = choose(2) == 1;
        let rd = Rd::sym(if single { 1 } else { n });
        let rf = if single { fl } else { fl | R_GROUP };
        let w = put_group(be, &rd, rf);
        struct S { rd: Rd, fl: u64, single: bool }
        impl Job for S {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let (rd, fl) = (&self.rd, self.fl);
                if self.single {
                    let Ok(v) = p.parse::<ReadValue>() else { return check(false, "a complete value is decoded") };
                    let g = ReadGroup::from(v.clone());
                    rd.check_group(&g, fl | R_GROUP);
                    rd.check_value(&v, fl);
                    rd.check_value(&ReadValue::from_group_and_entry(&g, &g.entries().next().unwrap()), fl);
                    match ReadValue::try_from(g) {
                        Ok(v) => rd.check_value(&v, fl),
                        Err(_) => check(false, "a group of one is a value"),
                    }
                    cover("single");
                } else {
                    let Ok(g) = p.parse::<ReadGroup>() else { return check(false, "a complete group is decoded") };
                    let mut i = 0;
                    for e in g.entries() {
                        let v = ReadValue::from_group_and_entry(&g, &e);
                        let one = Rd { te: rd.te, tr: rd.tr, e: vec![rd.e[i]] };
                        one.check_value(&v, fl);
                        // and it is a value, not a group: it makes a group of one again
                        one.check_group(&ReadGroup::from(v), fl | R_GROUP);
                        i += 1;
                    }
                    match ReadValue::try_from(g) {
                        Ok(v) => {
                            check(rd.e.len() == 1, "only a group of one is a value");
                            rd.check_value(&v, fl);
                            cover("group of one");
                        }
                        Err(_) => {
                            check(rd.e.len() != 1, "a group of one is a value");
                            cover("other group");
                        }
                    }
                }
            }
        }
        drive_arrays(&w.b, src, be, &Cfg { rf, ..Default::default() }, S { rd, fl, single });
    }
    fn c16_sample_id() {
        let st = [S_TID, S_TIME, S_ID, S_STREAM, S_CPU, S_IDENT];
        let m = choose(64);
        let mut s = S_IP * choose(2) as u64 | S_PERIOD;
        for i in 0..6 { if m >> i & 1 != 0 { s |= st[i]; } }
        let be = choose(2) == 1;
        let cfg = Cfg { st: s, id_all: true, ..Default::default() };
        let smp = Smp::sym(&cfg, &DIMS);
        let mut w = W::new(be, 200);
        smp.write(&mut w, &cfg);
        let Ok(x) = Parser::new(&w.b[..], cfg.get(en(be))).parse::<Sample>() else { return check(false, "a complete sample is decoded") };
        let ids = Ids { pid: smp.pid, tid: smp.tid, time: smp.time, id: smp.id, stream: smp.stream, cpu: smp.cpu, res: 0, ident: smp.ident };
        ids.check(&SampleId::from_sample(&x), &cfg);
        ids.check(&SampleId::from(&x), &cfg);
        let c = SampleId::from(&x);
        let copy = c;
        ids.check(&copy, &cfg);
        ids.check(&SampleId::from(x), &cfg);
        Ids::check_empty(&SampleId::default());
        cover("sample_id");
    }
}
