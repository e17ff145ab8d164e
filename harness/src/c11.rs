//! C11: parsing of perf_event_attr.
use crate::common::*;
use crate::gen::*;

const SIZES: [usize; 9] = [64, 72, 80, 96, 104, 112, 120, 128, 136];
const FL: u64 = 0;

#[derive(Clone, Copy)]
struct A {
    ty: u32,
    config: u64,
    period: u64,
    st: u64,
    rf: u64,
    flags: u64,
    wakeup: u32,
    bp: u32,
    c1: u64,
    c2: u64,
    branch: u64,
    ru: u64,
    stack: u32,
    clock: u32,
    ri: u64,
    wm: u32,
    max: u16,
    res2: u16,
    auxs: u32,
    res3: u32,
    sig: u64,
    c3: u64,
}
impl A {
    fn sym() -> A {
        A {
            ty: sym_u32(), config: sym_u64(), period: sym_u64(), st: sym_u64(), rf: sym_u64(), flags: sym_u64(), wakeup: sym_u32(), bp: sym_u32(),
            c1: sym_u64(), c2: sym_u64(), branch: sym_u64(), ru: sym_u64(), stack: sym_u32(), clock: sym_u32(), ri: sym_u64(), wm: sym_u32(), max: sym_u16(),
            res2: sym_u16(), auxs: sym_u32(), res3: sym_u32(), sig: sym_u64(), c3: sym_u64(),
        }
    }
    fn write(&self, w: &mut W, size: u32) {
        w.u32(self.ty).u32(size);
        w.u64(self.config).u64(self.period).u64(self.st).u64(self.rf).u64(self.flags);
        w.u32(self.wakeup).u32(self.bp).u64(self.c1).u64(self.c2).u64(self.branch);
        w.u64(self.ru).u32(self.stack).u32(self.clock).u64(self.ri);
        w.u32(self.wm).u16(self.max).u16(self.res2).u32(self.auxs).u32(self.res3).u64(self.sig).u64(self.c3);
    }
    fn check(&self, a: &perf_event_attr, size: usize) {
        let on = |n: usize| size >= n;
        check(a.type_ == self.ty, "attr type");
        check(a.size as usize == size, "attr size");
        check(a.config == self.config, "attr config");
        unsafe {
            check(a.__bindgen_anon_1.sample_period == self.period, "attr sample_period");
            check(a.__bindgen_anon_2.wakeup_events == self.wakeup, "attr wakeup_events");
            check(a.__bindgen_anon_3.config1 == self.c1, "attr config1");
            check(a.__bindgen_anon_4.config2 == if on(72) { self.c2 } else { 0 }, "attr config2");
        }
        check(a.sample_type == self.st, "attr sample_type");
        check(a.read_format == self.rf, "attr read_format");
        check(a.bp_type == self.bp, "attr bp_type");
        check(a.branch_sample_type == if on(80) { self.branch } else { 0 }, "attr branch_sample_type");
        check(a.sample_regs_user == if on(96) { self.ru } else { 0 }, "attr sample_regs_user");
        check(a.sample_stack_user == if on(96) { self.stack } else { 0 }, "attr sample_stack_user");
        check(a.clockid as u32 == if on(96) { self.clock } else { 0 }, "attr clockid");
        check(a.sample_regs_intr == if on(104) { self.ri } else { 0 }, "attr sample_regs_intr");
        check(a.aux_watermark == if on(112) { self.wm } else { 0 }, "attr aux_watermark");
        check(a.sample_max_stack == if on(112) { self.max } else { 0 }, "attr sample_max_stack");
        check(a.aux_sample_size == if on(120) { self.auxs } else { 0 }, "attr aux_sample_size");
        check(a.sig_data == if on(128) { self.sig } else { 0 }, "attr sig_data");
        check(a.config3 == if on(136) { self.c3 } else { 0 }, "attr config3");
        // the flag word
        let f = |i: u32| self.flags >> i & 1;
        check(a.disabled() == f(0) && a.inherit() == f(1) && a.pinned() == f(2) && a.exclusive() == f(3), "attr flags 0-3");
        check(a.exclude_user() == f(4) && a.exclude_kernel() == f(5) && a.exclude_hv() == f(6) && a.exclude_idle() == f(7), "attr flags 4-7");
        check(a.mmap() == f(8) && a.comm() == f(9) && a.freq() == f(10) && a.inherit_stat() == f(11), "attr flags 8-11");
        check(a.enable_on_exec() == f(12) && a.task() == f(13) && a.watermark() == f(14), "attr flags 12-14");
        check(a.precise_ip() == self.flags >> 15 & 3, "attr precise_ip");
        check(a.mmap_data() == f(17) && a.sample_id_all() == f(18) && a.exclude_host() == f(19) && a.exclude_guest() == f(20), "attr flags 17-20");
        check(a.exclude_callchain_kernel() == f(21) && a.exclude_callchain_user() == f(22) && a.mmap2() == f(23) && a.comm_exec() == f(24), "attr flags 21-24");
        check(a.use_clockid() == f(25) && a.context_switch() == f(26) && a.write_backward() == f(27) && a.namespaces() == f(28), "attr flags 25-28");
        check(a.ksymbol() == f(29) && a.bpf_event() == f(30) && a.aux_output() == f(31) && a.cgroup() == f(32), "attr flags 29-32");
        check(a.text_poke() == f(33) && a.build_id() == f(34) && a.inherit_thread() == f(35) && a.remove_on_exec() == f(36) && a.sigtrap() == f(37), "attr flags 33-37");
    }
}
struct P<'a> {
    a: &'a A,
    size: usize,
}
impl Job for P<'_> {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        match p.parse::<perf_event_attr>() {
            Ok(a) => {
                self.a.check(&a, self.size);
                cover("attr");
            }
            Err(_) => check(false, "complete attributes are decoded"),
        }
        at_sentinel(&mut p);
    }
}
fn srcs() -> Src {
    match choose(6) {
        0 => Src::SLICE,
        1 => Src { kind: 0, n: 1, hint: true },
        2 => Src { kind: 2, n: 7, hint: false },
        3 => Src { kind: 1, n: 60, hint: true },
        4 => Src { kind: 2, n: 4096, hint: true },
        _ => Src { kind: 3, n: 33, hint: false },
    }
}

entries! {
    fn c11_versions() {
        let be = choose(2) == 1;
        let size = SIZES[choose(9)];
        let a = A::sym();
        let mut w = W::new(be, 200);
        a.write(&mut w, size as u32);
        w.b.truncate(size);
        w.o.truncate(size);
        w.u64(SENTINEL);
        drive(&w.b, srcs(), be, &Cfg::default(), P { a: &a, size });
    }
    // from a newer kernel: fine as long as what is unknown is zero
    fn c11_newer() {
        let be = choose(2) == 1;
        let extra = [1, 2, 7, 8, 9, 16, 24, 64, 200][choose(9)];
        let a = A::sym();
        let rest = syms8(extra);
        let mut w = W::new(be, 200);
        a.write(&mut w, (136 + extra) as u32);
        w.bytes(&rest);
        w.u64(SENTINEL);
        let mut any = 0;
        for x in &rest { any |= x; }
        struct N<'a>(&'a A, usize, bool);
        impl Job for N<'_> {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                match p.parse::<perf_event_attr>() {
                    Ok(a) => {
                        check(self.2, "unknown fields that are used are rejected");
                        self.0.check(&a, self.1);
                        cover("newer, zero");
                    }
                    Err(e) => {
                        check(!self.2, "unknown fields that are zero are accepted");
                        check(e.kind() == ErrorKind::UnsupportedData, "unknown fields that are used are unsupported data");
                        cover("newer, not zero");
                    }
                }
                at_sentinel(&mut p);
            }
        }
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 70, hint: false }, _ => Src { kind: 3, n: 50, hint: false } };
        drive(&w.b, src, be, &Cfg::default(), N(&a, 136 + extra, any == 0));
    }
    // every other size is invalid
    fn c11_sizes() {
        let be = choose(2) == 1;
        let size = sym_u32();
        assume(size < 136);
        for s in SIZES { assume(size as usize != s); }
        let a = A::sym();
        let mut w = W::new(be, 200);
        a.write(&mut w, size);
        struct I;
        impl Job for I {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                match p.parse::<perf_event_attr>() {
                    Ok(_) => check(false, "a size that never existed is rejected"),
                    Err(e) => check(e.kind() == ErrorKind::InvalidRecord, "a size that never existed is an invalid record"),
                }
                cover("odd size");
            }
        }
        drive(&w.b, Src::choose(), be, &Cfg::default(), I);
    }
    // less data than the size says
    fn c11_short() {
        let be = choose(2) == 1;
        let size = sym_u32();
        let n = [0, 1, 4, 7, 8, 9, 63, 64, 71, 100, 135, 136][choose(12)];
        assume(size as usize > n);
        let mut ok = size > 136;
        for s in SIZES { ok |= size as usize == s; }
        assume(ok);
        let a = A::sym();
        let mut w = W::new(be, 200);
        a.write(&mut w, size);
        struct T;
        impl Job for T {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                match p.parse::<perf_event_attr>() {
                    Ok(_) => check(false, "truncated attributes are rejected"),
                    Err(e) => check(e.kind() == ErrorKind::Eof, "truncated attributes are Eof"),
                }
                cover("short");
            }
        }
        drive(&w.b[..n], Src::choose(), be, &Cfg::default(), T);
    }
    // the configuration made from parsed attributes
    fn c11_config() {
        let size = SIZES[choose(9)];
        let be = choose(2) == 1;
        let a = A::sym();
        let mut w = W::new(be, 200);
        a.write(&mut w, size as u32);
        let mut p = Parser::new(&w.b[..size], ParseConfig::<Native>::default().with_endian(en(be)));
        match p.parse::<perf_event_attr>() {
            Ok(x) => {
                let c = ParseConfig::<Native>::from(x);
                check(c.sample_type().bits() & (1 << 25) - 1 == a.st & (1 << 25) - 1, "sample_type of parsed attributes");
                check(c.read_format().bits() & 31 == a.rf & 31, "read_format of parsed attributes");
                check(c.regs_user() == if size >= 96 { a.ru } else { 0 }, "regs_user of parsed attributes");
                check(c.regs_intr() == if size >= 104 { a.ri } else { 0 }, "regs_intr of parsed attributes");
                let n = (a.st & (S_TID | S_TIME | S_ID | S_STREAM | S_CPU | S_IDENT)).count_ones() as usize * 8;
                check(SampleId::estimate_len(&c) == if a.flags >> 18 & 1 == 1 { n } else { 0 }, "sample_id_all of parsed attributes");
            }
            Err(_) => check(false, "complete attributes are decoded"),
        }
        cover("config");
    }
}
