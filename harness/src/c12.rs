//! C12: the configuration is that of the attributes, and stays so.
use crate::common::*;
use crate::gen::*;

fn sym_attr() -> perf_event_attr {
    let mut a = perf_event_attr::default();
    unsafe {
        let p = &mut a as *mut perf_event_attr as *mut u8;
        sym_bytes(std::slice::from_raw_parts_mut(p, std::mem::size_of::<perf_event_attr>()));
    }
    a
}
/// Everything observable about a configuration.
fn faithful<E: Endian>(c: &ParseConfig<E>, a: &perf_event_attr) {
    const KNOWN: u64 = (1 << 25) - 1;
    check(c.sample_type().bits() & KNOWN == a.sample_type & KNOWN, "sample_type");
    check(c.read_format().bits() & 31 == a.read_format & 31, "read_format");
    check((c.read_format().bits() >> 5 != 0) == (a.read_format >> 5 != 0), "unknown read_format bits are not forgotten");
    check(c.regs_user() == a.sample_regs_user, "regs_user");
    check(c.regs_intr() == a.sample_regs_intr, "regs_intr");
    let n = (a.sample_type & (S_TID | S_TIME | S_ID | S_STREAM | S_CPU | S_IDENT)).count_ones() as usize * 8;
    check(SampleId::estimate_len(c) == if a.sample_id_all() != 0 { n } else { 0 }, "sample_id_all");
}
fn key<E>(c: &ParseConfig<E>) -> [u64; 4] {
    [c.sample_type().bits(), c.read_format().bits(), c.regs_user(), c.regs_intr()]
}
/// A custom record that looks at the configuration.
struct Peek([u64; 4]);
impl<'p> Parse<'p> for Peek {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        Ok(Peek(key(p.config())))
    }
}

entries! {
    fn c12_attr() {
        let a = sym_attr();
        match choose(5) {
            0 => faithful(&ParseConfig::<Native>::from(a), &a),
            1 => faithful(&ParseConfig::<Little>::from(a), &a),
            2 => faithful(&ParseConfig::<Big>::from(a), &a),
            3 => faithful(&ParseConfig::<Native>::from(a).with_endian(Dynamic::Big), &a),
            _ => faithful(&ParseConfig::<Big>::from(a).with_endian(Dynamic::Little).clone(), &a),
        }
        cover("attr");
    }
    fn c12_default() {
        let c = ParseConfig::<Native>::default();
        check(same64(&key(&c), &[0; 4]), "default configuration");
        check(SampleId::estimate_len(&c) == 0, "default has no trailer");
        check(c.endian().is_native(), "endian");
        let d = c.with_endian(Dynamic::Big);
        check(*d.endian() == Dynamic::Big, "endian");
        let d = d.with_endian(Dynamic::Little);
        check(*d.endian() == Dynamic::Little, "endian");
        cover("default");
    }
    // flags that only show in what is parsed
    fn c12_effect() {
        let a = sym_attr();
        let hw = a.branch_sample_type >> 17 & 1 == 1;
        let id_all = a.sample_id_all() != 0;
        let st = [S_BRANCH, S_BRANCH | S_IP, S_TID | S_TIME][choose(3)];
        let be = choose(2) == 1;
        let mut a = a;
        a.sample_type = st;
        a.read_format = 0;
        let c = ParseConfig::<Native>::from(a).with_endian(en(be));
        let mut w = W::new(be, 200);
        if st & S_BRANCH != 0 {
            let at = w.header(9, sym_u16());
            if st & S_IP != 0 { w.u64(1); }
            w.u64(1).u64(7).u64(8).u64(9).u64(10);
            w.finish(at);
            match Parser::new(&w.b[..], c).parse::<Record>() {
                Ok(Record::Sample(s)) => {
                    check(s.lbr_hw_index() == hw.then_some(7), "PERF_SAMPLE_BRANCH_HW_INDEX");
                    match s.lbr() {
                        Some(l) if l.len() == 1 => check(l[0].from() == if hw { 8 } else { 7 }, "branches behind hw_index"),
                        _ => check(false, "branches behind hw_index"),
                    }
                    cover("hw_index");
                }
                _ => check(false, "a complete sample is decoded"),
            }
        } else {
            let at = w.header(2, sym_u16());
            w.u64(1).u64(2).u32(3).u32(4).u64(5);
            w.finish(at);
            match Parser::new(&w.b[..], c).parse_record(Cap) {
                Ok((Some(Record::Lost(l)), m)) => {
                    check(l.id == 1 && l.lost == 2, "record before the trailer");
                    check(m.sample_id().pid() == id_all.then_some(3), "sample_id_all");
                    check(m.sample_id().time() == id_all.then_some(5), "sample_id_all");
                    cover("sample_id_all");
                }
                _ => check(false, "a complete record is decoded"),
            }
        }
    }
    // nothing of one record's header reaches the next record or the configuration
    fn c12_leak() {
        let be = choose(2) == 1;
        let k1 = [9, 10, 15, 1, 2, 22][choose(6)];
        let k2 = [9, 10, 15, 12][choose(4)];
        let cfg = Cfg { st: S_TID | S_ID, rf: R_ID, id_all: choose(2) == 1, ru: 5, ri: 6, hw: false };
        let ids = Ids::sym();
        let mut w = W::new(be, 400);
        let m1 = sym_u16() & !0x6000 | misc_of(k1) & 0x6000 | if k1 == 1 || k1 == 2 { 0x6000 } else { 0 };
        let a = write_any(&mut w, k1, m1, &cfg, &DIMS, &ids);
        write_any(&mut w, k2, [0, misc_of(k2)][(k2 == 10) as usize], &cfg, &DIMS, &ids);
        w.u64(SENTINEL);
        struct L;
        impl Job for L {
            type Out = Flat;
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) -> Flat {
                let before = key(p.config());
                check(p.parse::<Record>().is_ok(), "a complete record is decoded");
                check(same64(&before, &key(p.config())), "parsing does not change the configuration");
                let r = flat_seen(&p.parse_record(Cap));
                check(same64(&before, &key(p.config())), "parsing does not change the configuration");
                at_sentinel(&mut p);
                r
            }
        }
        let src = Src::choose();
        let x = drive(&w.b, src, be, &cfg, L);
        let y = drive(&w.b[a..].to_vec(), src, be, &cfg, One);
        check(!is_err(&y), "a complete record is decoded");
        check(flat_same(&x, &y), "a record does not depend on the one before");
        cover("leak");
    }
    // custom parsers see the same configuration inside and outside of a record
    fn c12_custom() {
        let be = choose(2) == 1;
        let cfg = Cfg { st: sym_u64(), rf: sym_u64(), id_all: false, hw: choose(2) == 1, ru: sym_u64(), ri: sym_u64() };
        let mut w = W::new(be, 100);
        let at = w.header([3, 9, 77][choose(3)], sym_u16());
        w.u64(1);
        w.finish(at);
        struct C(Cfg);
        impl Job for C {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let a = key(p.config());
                check(a[0] & (1 << 25) - 1 == self.0.st & (1 << 25) - 1 && a[1] & 31 == self.0.rf & 31 && a[2] == self.0.ru && a[3] == self.0.ri, "configuration of a parser");
                match p.parse_metadata() {
                    Ok((mut q, _)) => match q.parse::<Peek>() {
                        Ok(b) => check(same64(&a, &b.0), "configuration inside a record"),
                        Err(_) => check(false, "configuration inside a record"),
                    },
                    Err(_) => check(false, "a complete record is decoded"),
                }
                cover("custom");
            }
        }
        drive(&w.b, Src::choose(), be, &cfg, C(cfg));
    }
}
