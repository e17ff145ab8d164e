//! C15: visitors.
use crate::common::*;
use crate::gen::*;

/// Overrides nothing.
struct Nothing;
impl<'a> Visitor<'a> for Nothing {
    type Output = RecordMetadata;
    fn visit_unimplemented(self, m: RecordMetadata) -> RecordMetadata {
        m
    }
}
/// Only cares for mappings.
struct Maps;
impl<'a> Visitor<'a> for Maps {
    type Output = (Option<Mmap<'a>>, RecordMetadata);
    fn visit_unimplemented(self, m: RecordMetadata) -> Self::Output {
        (None, m)
    }
    fn visit_mmap(self, r: Mmap<'a>, m: RecordMetadata) -> Self::Output {
        (Some(r), m)
    }
}
/// Overrides everything and names the method that was called.
struct Which;
macro_rules! which {
    ($($f:ident $t:ty => $v:expr;)*) => {
        $( fn $f(self, _: $t, m: RecordMetadata) -> Self::Output { ($v, m) } )*
    };
}
impl<'a> Visitor<'a> for Which {
    type Output = (u32, RecordMetadata);
    fn visit_unimplemented(self, m: RecordMetadata) -> Self::Output {
        (1000, m)
    }
    which! {
        visit_mmap Mmap<'a> => 1;
        visit_lost Lost => 2;
        visit_comm Comm<'a> => 3;
        visit_exit Exit => 4;
        visit_throttle Throttle => 5;
        visit_unthrottle Throttle => 6;
        visit_fork Fork => 7;
        visit_read Read => 8;
        visit_sample Sample<'a> => 9;
        visit_mmap2 Mmap2<'a> => 10;
        visit_aux Aux => 11;
        visit_itrace_start ITraceStart => 12;
        visit_lost_samples LostSamples => 13;
        visit_switch_cpu_wide SwitchCpuWide => 15;
        visit_namespaces Namespaces<'a> => 16;
        visit_ksymbol KSymbol<'a> => 17;
        visit_bpf_event BpfEvent => 18;
        visit_cgroup CGroup<'a> => 19;
        visit_text_poke TextPoke<'a> => 20;
        visit_aux_output_hw_id AuxOutputHwId => 21;
        visit_unknown Cow<'a, [u8]> => 99;
    }
    fn visit_switch(self, m: RecordMetadata) -> Self::Output {
        (14, m)
    }
}
/// Visitors that override a single method.
macro_rules! only {
    ($($s:ident $k:literal $f:ident($($t:ty)?);)*) => {
        $(
            struct $s;
            impl<'a> Visitor<'a> for $s {
                type Output = (bool, RecordMetadata);
                fn visit_unimplemented(self, m: RecordMetadata) -> Self::Output { (false, m) }
                fn $f(self, $(_: $t,)? m: RecordMetadata) -> Self::Output { (true, m) }
            }
        )*
        fn only<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, which: u32) -> ParseResult<(bool, RecordMetadata)> {
            match which {
                $($k => p.parse_record($s),)*
                _ => p.parse_record(O99),
            }
        }
    };
}
only! {
    O1 1 visit_mmap(Mmap<'a>);
    O2 2 visit_lost(Lost);
    O3 3 visit_comm(Comm<'a>);
    O4 4 visit_exit(Exit);
    O5 5 visit_throttle(Throttle);
    O6 6 visit_unthrottle(Throttle);
    O7 7 visit_fork(Fork);
    O8 8 visit_read(Read);
    O9 9 visit_sample(Sample<'a>);
    O10 10 visit_mmap2(Mmap2<'a>);
    O11 11 visit_aux(Aux);
    O12 12 visit_itrace_start(ITraceStart);
    O13 13 visit_lost_samples(LostSamples);
    O14 14 visit_switch();
    O15 15 visit_switch_cpu_wide(SwitchCpuWide);
    O16 16 visit_namespaces(Namespaces<'a>);
    O17 17 visit_ksymbol(KSymbol<'a>);
    O18 18 visit_bpf_event(BpfEvent);
    O19 19 visit_cgroup(CGroup<'a>);
    O20 20 visit_text_poke(TextPoke<'a>);
    O21 21 visit_aux_output_hw_id(AuxOutputHwId);
    O99 99 visit_unknown(Cow<'a, [u8]>);
}
fn variant(r: &Record<'_>) -> u32 {
    match r {
        Record::Mmap(_) => 1,
        Record::Lost(_) => 2,
        Record::Comm(_) => 3,
        Record::Exit(_) => 4,
        Record::Throttle(_) => 5,
        Record::Unthrottle(_) => 6,
        Record::Fork(_) => 7,
        Record::Read(_) => 8,
        Record::Sample(_) => 9,
        Record::Mmap2(_) => 10,
        Record::Aux(_) => 11,
        Record::ITraceStart(_) => 12,
        Record::LostSamples(_) => 13,
        Record::Switch => 14,
        Record::SwitchCpuWide(_) => 15,
        Record::Namespaces(_) => 16,
        Record::KSymbol(_) => 17,
        Record::BpfEvent(_) => 18,
        Record::CGroup(_) => 19,
        Record::TextPoke(_) => 20,
        Record::AuxOutputHwId(_) => 21,
        Record::Unknown { .. } => 99,
        _ => 1000,
    }
}
fn expect(ty: u32) -> u32 {
    if ty >= 1 && ty <= 21 {
        ty
    } else {
        99
    }
}

entries! {
    // any type value: exactly the method of that type is called
    fn c15_types() {
        let be = choose(2) == 1;
        let ty = sym_u32();
        let misc = sym_u16();
        let mut w = W::new(be, 200);
        let at = w.header(ty, misc);
        // acceptable as a body of every type
        for _ in 0..10 { w.u64(0); }
        w.finish(at);
        w.u64(SENTINEL);
        struct Ty(u32, u16, usize);
        impl Job for Ty {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let Ty(ty, misc, how) = self;
                match how {
                    0 => match p.parse_record(Which) {
                        Ok((k, m)) => {
                            check(k == expect(ty), "the method of the type is called");
                            check(m.ty() == ty && m.misc() == misc, "metadata of the record");
                            cover("method");
                        }
                        Err(_) => check(false, "a complete record is decoded"),
                    },
                    1 => match p.parse::<Record>() {
                        Ok(r) => {
                            check(variant(&r) == expect(ty), "the variant of the type is made");
                            if let Record::Unknown { ty: t, data } = &r {
                                check(*t == ty, "type of an unknown record");
                                check(same(data, &[0; 80]), "contents of an unknown record");
                            }
                            cover("variant");
                        }
                        Err(_) => check(false, "a complete record is decoded"),
                    },
                    2 => match p.parse_record(Nothing) {
                        Ok(m) => {
                            check(m.ty() == ty && m.misc() == misc, "metadata of the record");
                            cover("default");
                        }
                        Err(_) => check(false, "a complete record is decoded"),
                    },
                    _ => match p.parse_record(Maps) {
                        Ok((r, m)) => {
                            check(r.is_some() == (ty == 1 || ty == 10), "only mappings reach visit_mmap");
                            check(m.ty() == ty && m.misc() == misc, "metadata of the record");
                            cover("maps");
                        }
                        Err(_) => check(false, "a complete record is decoded"),
                    },
                }
                at_sentinel(&mut p);
            }
        }
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 40, hint: false }, _ => Src { kind: 3, n: 64, hint: false } };
        drive(&w.b, src, be, &Cfg::default(), Ty(ty, misc, choose(4)));
    }
    // a visitor that implements one method only: everything else is unimplemented to it
    fn c15_only() {
        let be = choose(2) == 1;
        let ty = sym_u32();
        let misc = sym_u16();
        let which = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 99][choose(22)];
        let mut w = W::new(be, 200);
        let at = w.header(ty, misc);
        for _ in 0..10 { w.u64(0); }
        w.finish(at);
        w.u64(SENTINEL);
        struct Only(u32, u16, u32);
        impl Job for Only {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                let Only(ty, misc, which) = self;
                match only(&mut p, which) {
                    Ok((called, m)) => {
                        // MMAP2 falls back to MMAP, nothing else falls back
                        let mine = expect(ty) == which || which == 1 && ty == 10;
                        check(called == mine, "the only method is called for its own records");
                        check(m.ty() == ty && m.misc() == misc, "metadata of the record");
                        cover("only");
                    }
                    Err(_) => check(false, "a complete record is decoded"),
                }
                at_sentinel(&mut p);
            }
        }
        let src = match choose(2) { 0 => Src::SLICE, _ => Src { kind: 2, n: 40, hint: false } };
        drive(&w.b, src, be, &Cfg::default(), Only(ty, misc, which));
    }
    // contents arrive unchanged, in the variant and in the method
    fn c15_contents() {
        let k = choose(KINDS);
        let be = choose(2) == 1;
        let cfg = Cfg { st: S_IP | S_TID | S_ID | S_CALLCHAIN, rf: R_ID, id_all: choose(2) == 1, ..Default::default() };
        let ids = Ids::sym();
        let misc = sym_u16() & !0x6000 | misc_of(k);
        let mut w = W::new(be, 400);
        write_any(&mut w, k, misc, &cfg, if choose(2) == 1 { &BIG } else { &DIMS }, &ids);
        w.u64(SENTINEL);
        struct C<'a>(usize, u16, &'a Ids, Cfg);
        impl Job for C<'_> {
            type Out = (Flat, Flat, Flat);
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) -> Self::Out {
                let (mut a, mut b, mut c) = (Flat::new(), Flat::new(), Flat::new());
                let k = self.0;
                let meta = |m: &RecordMetadata| {
                    check(m.ty() == type_of(k, &DIMS), "metadata type");
                    check(m.misc() == self.1, "metadata misc");
                    if has_sample_id(k) { self.2.check(m.sample_id(), &self.3) } else { Ids::check_empty(m.sample_id()) }
                };
                match choose(4) {
                    0 => match p.parse_record(Cap) {
                        Ok((Some(r), m)) => { meta(&m); a.record(&r); cover("method"); }
                        _ => check(false, "a complete record is decoded"),
                    },
                    1 => match p.parse::<Record>() {
                        Ok(r) => { b.record(&r); cover("variant"); }
                        _ => check(false, "a complete record is decoded"),
                    },
                    2 => match p.parse_record(Nothing) {
                        Ok(m) => { meta(&m); cover("default"); }
                        _ => check(false, "a complete record is decoded"),
                    },
                    _ => match p.parse_record(Maps) {
                        Ok((r, m)) => {
                            meta(&m);
                            check(r.is_some() == (k == 0 || k == 9 || k == 10), "only mappings reach visit_mmap");
                            if let Some(r) = r { c.mmap(&r); }
                            cover("maps");
                        }
                        _ => check(false, "a complete record is decoded"),
                    },
                }
                at_sentinel(&mut p);
                (a, b, c)
            }
        }
        let (a, b, c) = drive_arrays(&w.b, Src::choose(), be, &noisy(k, &cfg), C(k, misc, &ids, cfg));
        // the same through the other interface
        struct R;
        impl Job for R {
            type Out = (Flat, Flat);
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) -> Self::Out {
                match p.parse_record(Cap) {
                    Ok((Some(r), _)) => {
                        let mut f = Flat::new();
                        f.record(&r);
                        let mut g = Flat::new();
                        match &r {
                            Record::Mmap(r) => { g.mmap(r); }
                            Record::Mmap2(r) => { g.p(r.pid as u64).p(r.tid as u64).p(r.addr).p(r.len).p(r.pgoff).bs(&r.filename); }
                            _ => {}
                        }
                        (f, g)
                    }
                    _ => (Flat::new(), Flat::new()),
                }
            }
        }
        let (f, g) = drive_arrays(&w.b, Src::SLICE, be, &cfg, R);
        if !a.n.is_empty() { check(flat_same(&a, &f), "the method gets the record"); }
        if !b.n.is_empty() { check(flat_same(&b, &f), "the variant holds the record"); }
        if !c.n.is_empty() { check(flat_same(&c, &g), "an MMAP2 record reaches visit_mmap with its contents"); }
    }
}
