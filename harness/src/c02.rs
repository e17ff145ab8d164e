//! C02: fixed-layout records decode to exactly the values the kernel wrote.
use crate::common::*;
use crate::gen::noisy;

struct J<'a> {
    ty: u32,
    misc: u16,
    cfg: Cfg,
    ids: &'a Ids,
    f: &'a Fields,
}
#[derive(Clone, Copy)]
struct Fields {
    a: u64,
    b: u64,
    c: u64,
    d: u32,
    e: u32,
    f: u32,
    g: u32,
    h: u16,
    i: u16,
    tag: [u8; 8],
}
fn body(w: &mut W, ty: u32, f: &Fields) {
    match ty {
        2 => {
            w.u64(f.a).u64(f.b);
        }
        4 | 7 => {
            w.u32(f.d).u32(f.e).u32(f.f).u32(f.g).u64(f.a);
        }
        5 | 6 => {
            w.u64(f.a).u64(f.b).u64(f.c);
        }
        11 => {
            w.u64(f.a).u64(f.b).u64(f.c);
        }
        12 => {
            w.u32(f.d).u32(f.e);
        }
        13 => {
            w.u64(f.a);
        }
        14 => {}
        15 => {
            w.u32(f.d).u32(f.e);
        }
        18 => {
            w.u16(f.h).u16(f.i).u32(f.d).bytes(&f.tag);
        }
        21 => {
            w.u64(f.a);
        }
        _ => unreachable!(),
    }
}
fn verify(ty: u32, misc: u16, f: &Fields, r: &Record<'_>) {
    let mut ok = true;
    match (ty, r) {
        (2, Record::Lost(r)) => {
            check(r.id == f.a, "lost.id");
            check(r.lost == f.b, "lost.lost");
        }
        (4, Record::Exit(r)) | (7, Record::Fork(r)) => {
            check(r.pid == f.d, "exit/fork.pid");
            check(r.ppid == f.e, "exit/fork.ppid");
            check(r.tid == f.f, "exit/fork.tid");
            check(r.ptid == f.g, "exit/fork.ptid");
            check(r.time == f.a, "exit/fork.time");
        }
        (5, Record::Throttle(r)) | (6, Record::Unthrottle(r)) => {
            check(r.time == f.a, "throttle.time");
            check(r.id == f.b, "throttle.id");
            check(r.stream_id == f.c, "throttle.stream_id");
        }
        (11, Record::Aux(r)) => {
            check(r.aux_offset == f.a, "aux.offset");
            check(r.aux_size == f.b, "aux.size");
            check(r.flags.bits() == f.c, "aux.flags");
        }
        (12, Record::ITraceStart(r)) => {
            check(r.pid == f.d, "itrace.pid");
            check(r.tid == f.e, "itrace.tid");
        }
        (13, Record::LostSamples(r)) => check(r.lost == f.a, "lost_samples.lost"),
        (14, Record::Switch) => {}
        (15, Record::SwitchCpuWide(r)) => {
            check(r.pid() == f.d, "switch_cpu_wide.pid");
            check(r.tid() == f.e, "switch_cpu_wide.tid");
            let out = matches!(r, SwitchCpuWide::Out { .. });
            check(out == (misc & 0x2000 != 0), "switch_cpu_wide direction follows the header");
        }
        (18, Record::BpfEvent(r)) => {
            check(u16::from(r.ty) == f.h, "bpf.ty");
            check(r.flags == f.i, "bpf.flags");
            check(r.id == f.d, "bpf.id");
            check(same(&r.tag, &f.tag), "bpf.tag");
        }
        (21, Record::AuxOutputHwId(r)) => check(r.hw_id == f.a, "aux_output_hw_id.hw_id"),
        _ => ok = false,
    }
    check(ok, "record is decoded to the variant of its type");
    cover("decoded");
}
impl Job for J<'_> {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        match p.parse::<Record>() {
            Ok(r) => verify(self.ty, self.misc, self.f, &r),
            Err(_) => check(false, "a complete record is decoded"),
        }
        at_sentinel(&mut p);
    }
}
const TYPES: [u32; 12] = [2, 4, 5, 6, 7, 11, 12, 13, 14, 15, 18, 21];

/// The record types parsed on their own, without a frame.
struct D<'a> {
    ty: u32,
    f: &'a Fields,
}
impl Job for D<'_> {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        fn ok<T>(r: ParseResult<T>, f: impl FnOnce(T) -> Record<'static>) -> Option<Record<'static>> {
            match r {
                Ok(x) => Some(f(x)),
                Err(_) => None,
            }
        }
        let r = match self.ty {
            2 => ok(p.parse::<Lost>(), Into::into),
            4 => ok(p.parse::<Exit>(), Record::Exit),
            7 => ok(p.parse::<Fork>(), Record::Fork),
            5 => ok(p.parse::<Throttle>(), Record::Throttle),
            6 => ok(p.parse::<Throttle>(), Record::Unthrottle),
            11 => ok(p.parse::<Aux>(), Into::into),
            12 => ok(p.parse::<ITraceStart>(), Into::into),
            13 => ok(p.parse::<LostSamples>(), Into::into),
            15 => ok(p.parse::<SwitchCpuWide>(), Into::into),
            18 => ok(p.parse::<BpfEvent>(), Into::into),
            21 => ok(p.parse::<AuxOutputHwId>(), Into::into),
            _ => Some(Record::Switch),
        };
        match r {
            Some(r) => verify(self.ty, 0, self.f, &r),
            None => check(false, "a complete record body is decoded"),
        }
        at_sentinel(&mut p);
    }
}
fn fields() -> Fields {
    Fields { a: sym_u64(), b: sym_u64(), c: sym_u64(), d: sym_u32(), e: sym_u32(), f: sym_u32(), g: sym_u32(), h: sym_u16(), i: sym_u16(), tag: sym_arr() }
}

entries! {
    fn c02_fixed() {
        let ty = TYPES[choose(12)];
        let be = choose(2) == 1;
        let src = Src::choose();
        let misc = sym_u16();
        let st = match choose(3) {
            0 => 0,
            1 => S_TID | S_TIME | S_CPU | S_IP | S_IDENT,
            _ => S_TID | S_TIME | S_ID | S_STREAM | S_CPU | S_IDENT,
        };
        let cfg = Cfg { st, id_all: choose(2) == 1, ..Default::default() };
        let f = fields();
        let ids = Ids::sym();
        let mut w = W::new(be, 160);
        let at = w.header(ty, misc);
        body(&mut w, ty, &f);
        ids.write(&mut w, &cfg);
        w.finish(at);
        w.u64(SENTINEL);
        drive(&w.b, src, be, &noisy(1, &cfg), J { ty, misc, cfg, ids: &ids, f: &f });
    }
    fn c02_direct() {
        let ty = TYPES[choose(12)];
        let be = choose(2) == 1;
        let src = Src::choose();
        let f = fields();
        let mut w = W::new(be, 160);
        body(&mut w, ty, &f);
        w.u64(SENTINEL);
        drive(&w.b, src, be, &Cfg::default(), D { ty, f: &f });
    }
}
