//! C19: kernel-side records: text poke, namespaces, BPF, symbols, unknown ones.
use crate::common::*;
use crate::gen::*;

fn srcs() -> Src {
    match choose(4) {
        0 => Src::SLICE,
        1 => Src { kind: 2, n: 12, hint: false },
        2 => Src { kind: 1, n: 20, hint: true },
        _ => Src { kind: 3, n: 32, hint: false },
    }
}
struct Txt { addr: u64, old: Vec<u8>, new: Vec<u8>, bare: bool }
impl Job for Txt {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        let r = if self.bare { p.parse::<TextPoke>().ok() } else {
            match p.parse::<Record>() {
                Ok(Record::TextPoke(r)) => Some(r),
                _ => None,
            }
        };
        match r {
            Some(r) => {
                check(r.addr == self.addr, "text poke address");
                check(same(&r.old_bytes, &self.old), "text poke old bytes");
                check(same(&r.new_bytes, &self.new), "text poke new bytes");
            }
            None => check(false, "a text poke is decoded"),
        }
        at_sentinel(&mut p);
        cover("text poke");
    }
}
struct Ns { pid: u32, tid: u32, e: Vec<[u64; 2]>, bare: bool }
impl Job for Ns {
    type Out = ();
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
        let r = if self.bare { p.parse::<Namespaces>().ok() } else {
            match p.parse::<Record>() {
                Ok(Record::Namespaces(r)) => Some(r),
                _ => None,
            }
        };
        match r {
            Some(r) => {
                check(r.pid == self.pid && r.tid == self.tid, "namespaces pid and tid");
                check(r.namespaces.len() == self.e.len(), "number of namespaces");
                for (a, b) in r.namespaces.iter().zip(self.e.iter()) {
                    check(a.dev == b[0] && a.inode == b[1], "namespace entry");
                }
                let at = |i: usize, x: Option<&NamespaceEntry>, l: &'static str| match x {
                    Some(x) => check(i < self.e.len() && x.dev == self.e[i][0] && x.inode == self.e[i][1], l),
                    None => check(i >= self.e.len(), l),
                };
                at(0, r.network(), "network namespace");
                at(1, r.uts(), "uts namespace");
                at(2, r.ipc(), "ipc namespace");
                at(3, Namespaces::pid(&r), "pid namespace");
                at(4, r.user(), "user namespace");
                at(6, r.cgroup(), "cgroup namespace");
            }
            None => check(false, "a namespaces record is decoded"),
        }
        at_sentinel(&mut p);
        cover("namespaces");
    }
}

entries! {
    fn c19_text_poke() {
        let be = choose(2) == 1;
        let (old, new) = (choose(10), choose(10));
        let bare = choose(2) == 1;
        let src = srcs();
        let (addr, o, n) = (sym_u64(), syms8(old), syms8(new));
        let cfg = Cfg { st: S_TID, id_all: !bare, ..Default::default() };
        let mut w = W::new(be, 100);
        let at = if bare { 0 } else { w.header(20, sym_u16()) };
        w.u64(addr).u16(old as u16).u16(new as u16).bytes(&o).bytes(&n);
        let mut k = 12 + old + new;
        while k % 8 != 0 { w.u8(sym_u8()); k += 1; }
        if !bare {
            Ids::sym().write(&mut w, &cfg);
            w.finish(at);
        }
        w.u64(SENTINEL);
        drive(&w.b, src, be, &noisy(20, &cfg), Txt { addr, old: o, new: n, bare });
    }
    // long records
    fn c19_long() {
        let be = choose(2) == 1;
        let src = match choose(4) { 0 => Src::SLICE, 1 => Src { kind: 2, n: 300, hint: false }, 2 => Src { kind: 1, n: 129, hint: true }, _ => Src { kind: 3, n: 1024, hint: false } };
        let cfg = Cfg { st: S_TID, id_all: true, ..Default::default() };
        let mut w = W::new(be, 9000);
        let k = choose(3);
        let at = w.header([20, 16, 77][k], sym_u16());
        match k {
            0 => {
                let (old, new) = [(255, 1), (256, 300), (0, 700), (700, 0), (4096, 3), (1024, 4100), (1, 65400), (32768, 32700)][choose(8)];
                let (addr, o, n) = (sym_u64(), syms8(old), syms8(new));
                w.u64(addr).u16(old as u16).u16(new as u16).bytes(&o).bytes(&n);
                let mut k = 12 + old + new;
                while k % 8 != 0 { w.u8(sym_u8()); k += 1; }
                Ids::sym().write(&mut w, &cfg);
                w.finish(at);
                w.u64(SENTINEL);
                drive(&w.b, src, be, &cfg, Txt { addr, old: o, new: n, bare: false });
            }
            1 => {
                let n = [9, 16, 33, 64, 300, 4080][choose(6)];
                let (pid, tid) = (sym_u32(), sym_u32());
                let mut e = Vec::with_capacity(n);
                for _ in 0..n { e.push([sym_u64(), sym_u64()]); }
                w.u32(pid).u32(tid).u64(n as u64);
                for x in &e { w.u64(x[0]).u64(x[1]); }
                Ids::sym().write(&mut w, &cfg);
                w.finish(at);
                w.u64(SENTINEL);
                drive_arrays(&w.b, src, be, &cfg, Ns { pid, tid, e, bare: false });
            }
            _ => {
                let d = syms8([255, 257, 1024, 4096, 8000, 65500][choose(6)]);
                w.bytes(&d);
                Ids::sym().write(&mut w, &cfg);
                w.finish(at);
                w.u64(SENTINEL);
                struct U(Vec<u8>);
                impl Job for U {
                    type Out = ();
                    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                        match p.parse::<Record>() {
                            Ok(Record::Unknown { ty, data }) => check(ty == 77 && same(&data, &self.0), "a long unknown record"),
                            _ => check(false, "a record of unknown type is kept"),
                        };
                        at_sentinel(&mut p);
                    }
                }
                drive(&w.b, src, be, &cfg, U(d));
            }
        }
        cover("long");
    }
    // any claimed lengths: never more than there is, and exactly what is claimed
    fn c19_text_lengths() {
        let be = choose(2) == 1;
        let have = choose(4) * 8 + 4;
        let (old, new) = (sym_u16() as usize, sym_u16() as usize);
        let mut w = W::new(be, 100);
        let body = syms8(have);
        w.u64(1).u16(old as u16).u16(new as u16).bytes(&body);
        let mut p = Parser::new(&w.b[..], Cfg::default().get(en(be)));
        match p.parse::<TextPoke>() {
            Ok(r) => {
                check(old + new <= have, "a text poke does not exceed its record");
                check(r.old_bytes.len() == old && r.new_bytes.len() == new, "text poke lengths");
                let (a, b) = (concretize(old as u64) as usize, concretize(new as u64) as usize);
                if a + b <= have {
                    check(same(&r.old_bytes, &body[..a]) && same(&r.new_bytes, &body[a..a + b]), "text poke bytes");
                }
                cover("lengths fit");
            }
            Err(e) => {
                check(old + new > have, "a text poke that fits is decoded");
                check(e.kind() == ErrorKind::Eof || e.kind() == ErrorKind::InvalidRecord, "incomplete data is reported as such");
                cover("lengths do not fit");
            }
        }
    }
    fn c19_namespaces() {
        let be = choose(2) == 1;
        let n = choose(9);
        let bare = choose(2) == 1;
        let src = srcs();
        let (pid, tid) = (sym_u32(), sym_u32());
        let mut e = vec![];
        for _ in 0..n { e.push([sym_u64(), sym_u64()]); }
        let cfg = Cfg { st: S_TID | S_TIME, id_all: !bare, ..Default::default() };
        let mut w = W::new(be, 250);
        let at = if bare { 0 } else { w.header(16, sym_u16()) };
        w.u32(pid).u32(tid).u64(n as u64);
        for x in &e { w.u64(x[0]).u64(x[1]); }
        if !bare {
            Ids::sym().write(&mut w, &cfg);
            w.finish(at);
        }
        w.u64(SENTINEL);
        drive_arrays(&w.b, src, be, &noisy(16, &cfg), Ns { pid, tid, e, bare });
    }
    fn c19_bpf_ksymbol() {
        let be = choose(2) == 1;
        let src = srcs();
        let cfg = Cfg { st: S_TID, id_all: true, ..Default::default() };
        let mut w = W::new(be, 120);
        let (a, b, c, tag) = (sym_u16(), sym_u16(), sym_u32(), syms8(8));
        let at = w.header(18, sym_u16());
        w.u16(a).u16(b).u32(c).bytes(&tag);
        Ids::sym().write(&mut w, &cfg);
        w.finish(at);
        let (addr, len, ty, fl, name) = (sym_u64(), sym_u32(), sym_u16(), sym_u16(), sym_text(choose(12)));
        let at = w.header(17, sym_u16());
        w.u64(addr).u32(len).u16(ty).u16(fl);
        put_text(&mut w, &name);
        Ids::sym().write(&mut w, &cfg);
        w.finish(at);
        w.u64(SENTINEL);
        struct Bk { a: u16, b: u16, c: u32, tag: Vec<u8>, addr: u64, len: u32, ty: u16, fl: u16, name: Vec<u8> }
        impl Job for Bk {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                match p.parse::<Record>() {
                    Ok(Record::BpfEvent(r)) => check(u16::from(r.ty) == self.a && r.flags == self.b && r.id == self.c && same(&r.tag, &self.tag), "bpf event"),
                    _ => check(false, "bpf event"),
                };
                match p.parse::<Record>() {
                    Ok(Record::KSymbol(r)) => {
                        check(r.addr == self.addr && r.len == self.len && u16::from(r.ksym_type) == self.ty && r.flags.bits() == self.fl, "ksymbol");
                        check(same(&r.name, &self.name), "ksymbol name");
                    }
                    _ => check(false, "ksymbol"),
                };
                at_sentinel(&mut p);
                cover("bpf, ksymbol");
            }
        }
        drive(&w.b, src, be, &noisy(17, &cfg), Bk { a, b, c, tag, addr, len, ty, fl, name });
    }
    // a record of any unknown type is kept byte for byte
    fn c19_unknown() {
        let be = choose(2) == 1;
        let src = srcs();
        let n = choose(20);
        let ty = sym_u32();
        assume(ty == 0 || ty > 21);
        let misc = sym_u16();
        let id_all = choose(2) == 1;
        let cfg = Cfg { st: S_TID | S_ID, id_all, ..Default::default() };
        let d = syms8(n);
        let ids = Ids::sym();
        let mut w = W::new(be, 120);
        let at = w.header(ty, misc);
        w.bytes(&d);
        ids.write(&mut w, &cfg);
        w.finish(at);
        w.u64(SENTINEL);
        struct U { ty: u32, misc: u16, d: Vec<u8>, ids: Ids, cfg: Cfg }
        impl Job for U {
            type Out = ();
            fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) {
                match p.parse_record(Cap) {
                    Ok((Some(Record::Unknown { ty, data }), m)) => {
                        check(ty == self.ty && m.ty() == self.ty && m.misc() == self.misc, "unknown record type");
                        check(same(&data, &self.d), "unknown record data");
                        self.ids.check(m.sample_id(), &self.cfg);
                    }
                    _ => check(false, "a record of unknown type is kept"),
                };
                at_sentinel(&mut p);
                cover("unknown");
            }
        }
        drive(&w.b, src, be, &noisy(22, &cfg), U { ty, misc, d, ids, cfg });
    }
    fn c19_unknown_record() {
        let be = choose(2) == 1;
        let n = choose(12);
        let ty = sym_u32();
        assume(ty == 0 || ty > 21);
        let d = syms8(n);
        let mut w = W::new(be, 40);
        let at = w.header(ty, sym_u16());
        w.bytes(&d);
        w.finish(at);
        match Parser::new(&w.b[..], Cfg::default().get(en(be))).parse::<Record>() {
            Ok(Record::Unknown { ty: t, data }) => {
                check(t == ty && same(&data, &d), "unknown record");
                cover("unknown");
            }
            _ => check(false, "a record of unknown type is kept"),
        };
    }
}
