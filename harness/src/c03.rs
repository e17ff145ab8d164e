//! C03: records that carry text.
use crate::common::*;
use crate::gen::*;

#[derive(Clone)]
struct F {
    pid: u32,
    tid: u32,
    a: u64,
    b: u64,
    c: u64,
    maj: u32,
    min: u32,
    ino: u64,
    gen: u64,
    prot: u32,
    flags: u32,
    h: u16,
    i: u16,
    bl: u8,
    bid: [u8; 20],
    pad: [u8; 3],
    text: Vec<u8>,
    build: bool,
}
fn fields(n: usize, build: bool) -> F {
    F { pid: sym_u32(), tid: sym_u32(), a: sym_u64(), b: sym_u64(), c: sym_u64(), maj: sym_u32(), min: sym_u32(), ino: sym_u64(), gen: sym_u64(), prot: sym_u32(), flags: sym_u32(), h: sym_u16(), i: sym_u16(), bl: sym_u8(), bid: sym_arr(), pad: sym_arr(), text: syms8(n), build }
}
fn body(w: &mut W, ty: u32, f: &F) {
    match ty {
        1 => {
            w.u32(f.pid).u32(f.tid).u64(f.a).u64(f.b).u64(f.c);
        }
        3 => {
            w.u32(f.pid).u32(f.tid);
        }
        10 => {
            w.u32(f.pid).u32(f.tid).u64(f.a).u64(f.b).u64(f.c);
            if f.build {
                w.u8(f.bl).bytes(&f.pad).bytes(&f.bid);
            } else {
                w.u32(f.maj).u32(f.min).u64(f.ino).u64(f.gen);
            }
            w.u32(f.prot).u32(f.flags);
        }
        17 => {
            w.u64(f.a).u32(f.pid).u16(f.h).u16(f.i);
        }
        _ => {
            w.u64(f.a);
        }
    }
    w.bytes(&f.text);
}
/// `got` is `raw` without its trailing NULs, and nothing else is removed.
fn text_ok(raw: &[u8], got: &[u8], l: &'static str) {
    check(got.len() <= raw.len(), l);
    if got.len() > raw.len() {
        return;
    }
    check(same(got, &raw[..got.len()]), l);
    let mut z = 0u8;
    for b in &raw[got.len()..] {
        z |= *b;
    }
    check(z == 0, "only NULs are trimmed");
    if !got.is_empty() {
        check(got[got.len() - 1] != 0, "all trailing NULs are trimmed");
    }
}
fn verify(ty: u32, f: &F, r: &Record<'_>) {
    use std::os::unix::ffi::OsStrExt;
    match (ty, r) {
        (1, Record::Mmap(r)) => {
            check(r.pid == f.pid, "mmap.pid");
            check(r.tid == f.tid, "mmap.tid");
            check(r.addr == f.a, "mmap.addr");
            check(r.len == f.b, "mmap.len");
            check(r.pgoff == f.c, "mmap.pgoff");
            text_ok(&f.text, &r.filename, "mmap.filename");
            check(same(r.filename_os().as_bytes(), &r.filename), "mmap.filename_os");
        }
        (3, Record::Comm(r)) => {
            check(r.pid == f.pid, "comm.pid");
            check(r.tid == f.tid, "comm.tid");
            text_ok(&f.text, &r.comm, "comm.comm");
            check(same(r.comm_os().as_bytes(), &r.comm), "comm.comm_os");
        }
        (10, Record::Mmap2(r)) => {
            check(r.pid == f.pid, "mmap2.pid");
            check(r.tid == f.tid, "mmap2.tid");
            check(r.addr == f.a, "mmap2.addr");
            check(r.len == f.b, "mmap2.len");
            check(r.pgoff == f.c, "mmap2.pgoff");
            check(r.prot == f.prot, "mmap2.prot");
            check(r.flags == f.flags, "mmap2.flags");
            check(r.maj() == (!f.build).then_some(f.maj), "mmap2.maj");
            check(r.min() == (!f.build).then_some(f.min), "mmap2.min");
            check(r.ino() == (!f.build).then_some(f.ino), "mmap2.ino");
            check(r.ino_generation() == (!f.build).then_some(f.gen), "mmap2.ino_generation");
            match r.build_id() {
                None => check(!f.build, "mmap2.build_id presence"),
                Some(b) => {
                    check(f.build, "mmap2.build_id presence");
                    check(b.len() == f.bl as usize, "mmap2.build_id length");
                    let n = concretize(b.len() as u64) as usize;
                    check(n <= 20 && same(&b[..n], &f.bid[..n]), "mmap2.build_id");
                    cover("build id");
                }
            }
            text_ok(&f.text, &r.filename, "mmap2.filename");
            check(same(r.filename_os().as_bytes(), &r.filename), "mmap2.filename_os");
        }
        (17, Record::KSymbol(r)) => {
            check(r.addr == f.a, "ksymbol.addr");
            check(r.len == f.pid, "ksymbol.len");
            check(u16::from(r.ksym_type) == f.h, "ksymbol.type");
            check(r.flags.bits() == f.i, "ksymbol.flags");
            text_ok(&f.text, &r.name, "ksymbol.name");
        }
        (19, Record::CGroup(r)) => {
            check(r.id == f.a, "cgroup.id");
            text_ok(&f.text, &r.path, "cgroup.path");
            check(same(r.path_os().as_os_str().as_bytes(), &r.path), "cgroup.path_os");
        }
        _ => check(false, "record is decoded to the variant of its type"),
    }
    cover("decoded");
}
struct J<'a> {
    ty: u32,
    f: &'a F,
    framed: bool,
}
impl Job for J<'_> {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        fn w<'a, T: Into<Record<'a>>>(r: ParseResult<T>) -> ParseResult<Record<'a>> {
            r.map(Into::into)
        }
        let r = if self.framed {
            p.parse::<Record>()
        } else {
            match self.ty {
                1 => w(p.parse::<Mmap>()),
                3 => w(p.parse::<Comm>()),
                10 => w(p.parse::<Mmap2>()),
                17 => w(p.parse::<KSymbol>()),
                _ => w(p.parse::<CGroup>()),
            }
        };
        match r {
            Ok(r) => {
                verify(self.ty, self.f, &r);
            }
            Err(e) => {
                let bad = self.ty == 10 && self.f.build && self.f.bl > 20;
                check(bad, "a complete record is decoded");
                check(e.kind() == ErrorKind::InvalidRecord, "a build id longer than 20 bytes is an invalid record");
                cover("oversized build id");
            }
        }
        if self.framed {
            at_sentinel(&mut p);
        }
    }
}
fn go(ty: u32, build: bool, n: usize, be: bool, src: Src, framed: bool, symmisc: bool, cfg: Cfg) {
    let f = fields(n, build);
    if build && n > 0 {
        // the length byte is explored on its own with an empty name
        assume(f.bl == 20 || f.bl == 17);
    }
    let ids = Ids::sym();
    let mut w = W::new(be, n + 240);
    if framed {
        let mut misc = if symmisc { sym_u16() } else { 0x0002 };
        if ty == 10 {
            misc = misc & !0x4000 | (build as u16) << 14;
        }
        let at = w.header(ty, misc);
        body(&mut w, ty, &f);
        if ty != 1 {
            ids.write(&mut w, &cfg);
        }
        w.finish(at);
        w.u64(SENTINEL);
    } else {
        body(&mut w, ty, &f);
    }
    drive(&w.b, src, be, &noisy(0, &cfg), J { ty, f: &f, framed });
}
const T: [(u32, bool); 6] = [(1, false), (3, false), (10, false), (10, true), (17, false), (19, false)];
const IDS: Cfg = Cfg { st: S_TID | S_TIME | S_CPU | S_IDENT | S_ADDR, rf: 0, id_all: true, hw: false, ru: 0, ri: 0 };

entries! {
    // param: longest text
    fn c03_text() {
        let (ty, build) = T[choose(6)];
        let n = choose(param() + 1);
        let be = choose(2) == 1;
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 11, hint: false }, _ => Src { kind: 1, n: 17, hint: true } };
        let cfg = if choose(2) == 1 { IDS } else { Cfg::default() };
        go(ty, build, n, be, src, true, true, cfg);
    }
    fn c03_sources() {
        let (ty, build) = T[choose(6)];
        let n = [0, 1, 3, 8][choose(4)];
        go(ty, build, n, choose(2) == 1, Src::choose(), true, false, IDS);
    }
    fn c03_direct() {
        let (ty, build) = T[choose(6)];
        if build { return; }
        let n = [0, 1, 5, 8][choose(4)];
        go(ty, build, n, choose(2) == 1, Src::choose(), false, false, IDS);
    }
    // long text: arbitrary bytes, only the tail can be NUL
    fn c03_long() {
        let (ty, build) = T[choose(6)];
        let n = [127, 255, 256, 1000, 4096, 20000, 65300][choose(7)];
        let src = match choose(3) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 64, hint: false }, _ => Src { kind: 3, n: 256, hint: false } };
        let mut f = fields(n, build);
        if choose(2) == 1 {
            // padded further than to the next multiple of eight
            let pad = [8, 20, 120][choose(3)];
            for b in &mut f.text[n - pad..] { *b = 0; }
            assume(f.text[n - pad - 1] != 0);
        } else {
            assume(f.text[n - 4] != 0);
        }
        if build { assume(f.bl == 20); }
        let ids = Ids::sym();
        let mut w = W::new(false, n + 240);
        let at = w.header(ty, if build { 0x4002 } else { 2 });
        body(&mut w, ty, &f);
        if ty != 1 { ids.write(&mut w, &IDS); }
        w.finish(at);
        w.u64(SENTINEL);
        drive(&w.b, src, false, &IDS, J { ty, f: &f, framed: true });
    }
}
