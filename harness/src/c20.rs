//! C20: Debug output shows exactly the decoded values.
use crate::common::*;
use crate::gen::*;
use std::fmt::Write;

/// Formatted value against the expected text.
fn shows(got: &str, want: &str, l: &'static str) {
    let (g, w) = (got.as_bytes(), want.as_bytes());
    check(g.len() == w.len(), l);
    let mut i = 0;
    while i < g.len() && i < w.len() {
        check(g[i] == w[i], l);
        i += 1;
    }
}
/// Formats the value; the pretty form has to consist of the same words.
fn shown(g: &mut String, x: &dyn std::fmt::Debug) -> bool {
    let a = g.len();
    let mut h = String::with_capacity(2048);
    if write!(g, "{:?}", x).is_err() || write!(h, "{:#?}", x).is_err() {
        return false;
    }
    let gap = |b: u8| b == b' ' || b == b'\n' || b == b',';
    let (p, q) = (&g.as_bytes()[a..], h.as_bytes());
    let (mut i, mut j) = (0, 0);
    loop {
        while i < p.len() && gap(p[i]) {
            i += 1;
        }
        while j < q.len() && gap(q[j]) {
            j += 1;
        }
        if i == p.len() || j == q.len() {
            break;
        }
        check(p[i] == q[j], "the pretty form shows the same values");
        i += 1;
        j += 1;
    }
    check(i == p.len() && j == q.len(), "the pretty form shows the same values");
    true
}
/// A decimal digit: any of 0..9.
fn d8() -> u8 {
    let x = sym_u8();
    assume(x < 10);
    x
}
fn d16() -> u16 {
    d8() as u16
}
fn d32() -> u32 {
    d8() as u32
}
fn d64() -> u64 {
    d8() as u64
}
fn put(s: &mut String, x: u64) {
    // Only used for single digits and for values without symbolic parts.
    if x < 10 {
        s.push((b'0' + x as u8) as char);
    } else {
        put(s, x / 10);
        s.push((b'0' + (x % 10) as u8) as char);
    }
}
fn hex(n: u8) -> char {
    (if n < 10 { b'0' + n } else { b'A' + (n - 10) }) as char
}
/// 0x and the upper-case digits, at least 14 of them.
fn addr(s: &mut String, x: u64) {
    s.push_str("0x");
    let mut i = 16;
    while i > 0 {
        i -= 1;
        if i >= 14 && x >> (4 * i) == 0 {
            continue;
        }
        s.push(hex((x >> (4 * i)) as u8 & 15));
    }
}
/// A hexadecimal number without leading zeros.
fn short_hex(s: &mut String, x: u64, upper: bool) {
    s.push_str("0x");
    let mut i = 16;
    while i > 0 {
        i -= 1;
        if i > 0 && x >> (4 * i) == 0 {
            continue;
        }
        let h = hex((x >> (4 * i)) as u8 & 15);
        s.push(if upper { h } else { h.to_ascii_lowercase() });
    }
}
/// The text in double quotes: UTF-8 escaped as characters, everything else as bytes.
fn text(s: &mut String, t: &[u8]) {
    s.push('"');
    for c in t.utf8_chunks() {
        for x in c.valid().chars() {
            for e in x.escape_debug() {
                s.push(e);
            }
        }
        for b in c.invalid() {
            s.push_str("\\x");
            s.push(hex(b >> 4).to_ascii_lowercase());
            s.push(hex(b & 15).to_ascii_lowercase());
        }
    }
    s.push('"');
}
fn list8(s: &mut String, t: &[u8]) {
    s.push('[');
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        put(s, *x as u64);
    }
    s.push(']');
}
fn list64(s: &mut String, t: &[u64]) {
    s.push('[');
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        put(s, *x);
    }
    s.push(']');
}
fn digits(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(d8());
    }
    v
}
fn digits64(n: usize) -> Vec<u64> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(d64());
    }
    v
}
macro_rules! f {
    ($s:expr, $n:literal, $x:expr) => {
        $s.push_str($n);
        put(&mut $s, $x as u64);
    };
}

/// A record whose text, build id and addresses are `t`, `b` and `a`.
fn texts(k: usize, t: &[u8], a: u64, b: &[u8], l: &'static str) {
    let (pid, tid, len, pg) = (d32(), d32(), d64(), d64());
    let mut w = W::new(false, 160);
    let at = w.header([3, 17, 19, 1, 10, 10][k], if k == 5 { 0x4000 } else { 0 });
    let mut e = String::with_capacity(256);
    e.push_str(["Comm(", "KSymbol(", "CGroup(", "Mmap(", "Mmap2(", "Mmap2("][k]);
    match k {
        0 => {
            w.u32(pid).u32(tid);
            e.push_str("Comm { pid: ");
            put(&mut e, pid as u64);
            f!(e, ", tid: ", tid);
            e.push_str(", comm: ");
        }
        1 => {
            w.u64(a).u32(pid).u16(1).u16(1);
            e.push_str("KSymbol { addr: ");
            addr(&mut e, a);
            f!(e, ", len: ", pid);
            e.push_str(", ksym_type: KSymbolType::BPF, flags: KSymbolFlags(UNREGISTER), name: ");
        }
        2 => {
            w.u64(len);
            f!(e, "CGroup { id: ", len);
            e.push_str(", path: ");
        }
        3 => {
            w.u32(pid).u32(tid).u64(a).u64(len).u64(pg);
            f!(e, "Mmap { pid: ", pid);
            f!(e, ", tid: ", tid);
            e.push_str(", addr: ");
            addr(&mut e, a);
            f!(e, ", len: ", len);
            f!(e, ", pgoff: ", pg);
            e.push_str(", filename: ");
        }
        _ => {
            w.u32(pid).u32(tid).u64(a).u64(len).u64(pg);
            f!(e, "Mmap2 { pid: ", pid);
            f!(e, ", tid: ", tid);
            e.push_str(", addr: ");
            addr(&mut e, a);
            f!(e, ", len: ", len);
            f!(e, ", pgoff: ", pg);
            if k == 4 {
                let (maj, min, ino, gen) = (d32(), d32(), d64(), d64());
                w.u32(maj).u32(min).u64(ino).u64(gen);
                f!(e, ", maj: ", maj);
                f!(e, ", min: ", min);
                f!(e, ", ino: ", ino);
                f!(e, ", ino_generation: ", gen);
            } else {
                w.u8(b.len() as u8).u8(0xAA).u16(0xBBBB).bytes(b);
                for _ in b.len()..20 {
                    w.u8(0xCC);
                }
                e.push_str(", build_id: ");
                for x in b {
                    e.push(hex(x >> 4));
                    e.push(hex(x & 15));
                }
            }
            let (prot, flags) = (d32(), d32());
            w.u32(prot).u32(flags);
            f!(e, ", prot: ", prot);
            f!(e, ", flags: ", flags);
            e.push_str(", filename: ");
        }
    }
    put_text(&mut w, t);
    text(&mut e, t);
    e.push_str(" })");
    w.finish(at);
    let mut p = Parser::new(&w.b[..], Cfg::default().get(en(false)));
    let mut g = String::with_capacity(256);
    let ok = write!(g, "{:?}", p.parse::<Record>().unwrap());
    check(ok.is_ok(), "formatting succeeds");
    shows(&g, &e, l);
}

fn rd_text(s: &mut String, r: &Rd, i: usize, rf: u64) {
    f!(*s, "value: ", r.e[i][0]);
    if rf & R_ID != 0 {
        f!(*s, ", id: ", r.e[i][1]);
    }
    if rf & R_LOST != 0 {
        f!(*s, ", lost: ", r.e[i][2]);
    }
}
fn single_text(s: &mut String, r: &Rd, rf: u64) {
    f!(*s, "SingleRead { value: ", r.e[0][0]);
    if rf & R_TE != 0 {
        f!(*s, ", time_enabled: ", r.te);
    }
    if rf & R_TR != 0 {
        f!(*s, ", time_running: ", r.tr);
    }
    if rf & R_ID != 0 {
        f!(*s, ", id: ", r.e[0][1]);
    }
    if rf & R_LOST != 0 {
        f!(*s, ", lost: ", r.e[0][2]);
    }
    s.push_str(", .. }");
}
fn group_text(s: &mut String, r: &Rd, rf: u64) {
    s.push_str("GroupRead { ");
    if rf & R_TE != 0 {
        f!(*s, "time_enabled: ", r.te);
        s.push_str(", ");
    }
    if rf & R_TR != 0 {
        f!(*s, "time_running: ", r.tr);
        s.push_str(", ");
    }
    s.push_str("entries: [");
    for i in 0..r.e.len() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str("GroupEntry { ");
        rd_text(s, r, i, rf);
        s.push_str(", .. }");
    }
    s.push_str("], .. }");
}
fn digit_rd(n: usize) -> Rd {
    let mut e = Vec::with_capacity(n);
    for _ in 0..n {
        e.push([d64(), d64(), d64()]);
    }
    Rd { te: d64(), tr: d64(), e }
}
const RF: [u64; 8] = [0, R_TE, R_TR, R_ID, R_LOST, R_TE | R_LOST, R_TR | R_ID, R_TE | R_TR | R_ID | R_LOST];

struct Fields {
    s: String,
    n: usize,
}
impl Fields {
    fn name(&mut self, n: &str) -> &mut String {
        self.s.push_str(if self.n == 0 { " { " } else { ", " });
        self.n += 1;
        self.s.push_str(n);
        self.s.push_str(": ");
        &mut self.s
    }
    fn num(&mut self, n: &str, x: u64) {
        let s = self.name(n);
        put(s, x);
    }
    fn end(mut self) -> String {
        self.s.push_str(if self.n == 0 { " { .. }" } else { ", .. }" });
        self.s
    }
}

const FLAGS: [u64; 25] = [
    S_IP, S_TID, S_TIME, S_ADDR, S_READ, S_CALLCHAIN, S_ID, S_CPU, S_PERIOD, S_STREAM, S_RAW, S_BRANCH, S_REGS_USER, S_STACK_USER, S_WEIGHT, S_DATA_SRC, S_IDENT, S_TXN,
    S_REGS_INTR, S_PHYS, S_AUX, S_CGROUP, S_DPAGE, S_CPAGE, S_WSTRUCT,
];
const ALL: u64 = (1 << 25) - 1;

fn regs_text(f: &mut Fields, n: &str, abi: u64, mask: u64, v: &[u64]) {
    let s = f.name(n);
    s.push_str("Registers { abi: SampleRegsAbi::");
    s.push_str(["NONE", "ABI_32", "ABI_64"][abi as usize]);
    s.push_str(", mask: ");
    put(s, mask);
    s.push_str(", regs: ");
    list64(s, v);
    s.push_str(" }");
}

/// A sample of digits, and what it looks like.
fn sample(c: &Cfg, d: &Dims) {
    let on = |f: u64| c.st & f != 0;
    let n = |f: u64, n: usize| if on(f) { n } else { 0 };
    let mut lbr = vec![];
    for _ in 0..n(S_BRANCH, d.lbr) {
        lbr.push([d64(), d64(), 2]);
    }
    let g = if c.rf & R_GROUP != 0 { d.group } else { 1 };
    let s = Smp {
        ident: d64(),
        ip: d64(),
        pid: d32(),
        tid: d32(),
        time: d64(),
        addr: sym_u64(),
        id: d64(),
        stream: d64(),
        cpu: d32(),
        res: sym_u32(),
        period: d64(),
        read: digit_rd(n(S_READ, g)),
        chain: digits64(n(S_CALLCHAIN, d.chain)),
        raw: digits(n(S_RAW, d.raw)),
        hw: d64(),
        lbr,
        abi_u: d.abi_u,
        regs_u: if on(S_REGS_USER) && d.abi_u != 0 { digits64(c.ru.count_ones() as usize) } else { vec![] },
        stack: digits(n(S_STACK_USER, d.stack)),
        dynsz: d.dynsz as u64,
        weight: d64(),
        src: 0x0000_0b42_0000_0422,
        txn: 5 | 7 << 32,
        abi_i: d.abi_i,
        regs_i: if on(S_REGS_INTR) && d.abi_i != 0 { digits64(c.ri.count_ones() as usize) } else { vec![] },
        phys: sym_u64(),
        cgroup: d64(),
        dpage: d64(),
        cpage: d64(),
        aux: digits(n(S_AUX, d.aux)),
    };
    // Addresses with all their digits and with few: the number of digits shown is checked on its
    // own.
    assume(s.addr >> 56 == 0);
    assume(s.phys >> 60 != 0);
    let mut w = W::new(false, 512);
    s.write(&mut w, c);
    let mut p = Parser::new(&w.b[..], c.get(en(false)));
    let r = p.parse::<Sample>().unwrap();
    let mut got = String::with_capacity(1024);
    check(shown(&mut got, &r), "formatting succeeds");

    let mut f = Fields { s: String::with_capacity(1024), n: 0 };
    f.s.push_str("Sample");
    if on(S_IP) {
        f.num("ip", s.ip);
    }
    if on(S_TID) {
        f.num("pid", s.pid as u64);
        f.num("tid", s.tid as u64);
    }
    if on(S_TIME) {
        f.num("time", s.time);
    }
    if on(S_ADDR) {
        addr(f.name("addr"), s.addr);
    }
    if on(S_ID) {
        f.num("id", s.id);
    } else if on(S_IDENT) {
        f.num("id", s.ident);
    }
    if on(S_STREAM) {
        f.num("stream_id", s.stream);
    }
    if on(S_CPU) {
        f.num("cpu", s.cpu as u64);
    }
    if on(S_PERIOD) {
        f.num("period", s.period);
    }
    if on(S_READ) {
        group_text(f.name("values"), &s.read, c.rf);
    }
    if on(S_CALLCHAIN) {
        list64(f.name("callchain"), &s.chain);
    }
    if on(S_RAW) {
        list8(f.name("raw"), &s.raw);
    }
    if on(S_BRANCH) {
        if c.hw {
            f.num("lbr_hw_index", s.hw);
        }
        let l = f.name("lbr");
        l.push('[');
        if let Some(x) = r.lbr() {
            for (i, b) in x.iter().enumerate() {
                if i > 0 {
                    l.push_str(", ");
                }
                let _ = write!(l, "{:?}", b);
            }
        }
        l.push(']');
    }
    if on(S_REGS_USER) {
        regs_text(&mut f, "regs_user", s.abi_u, c.ru, &s.regs_u);
    }
    if on(S_STACK_USER) {
        let n = if s.stack.is_empty() { 0 } else { s.dynsz as usize };
        list8(f.name("stack_user"), &s.stack[..n]);
    }
    if c.st & (S_WEIGHT | S_WSTRUCT) != 0 {
        f.num("weight", s.weight);
    }
    if on(S_DATA_SRC) {
        if let Some(d) = r.data_src() {
            let _ = write!(f.name("data_src"), "{:?}", d);
        }
    }
    if on(S_TXN) {
        f.name("transaction").push_str("Txn(ELISION | SYNC | 0x700000000)");
    }
    if on(S_REGS_INTR) {
        regs_text(&mut f, "regs_intr", s.abi_i, c.ri, &s.regs_i);
    }
    if on(S_PHYS) {
        addr(f.name("phys_addr"), s.phys);
    }
    if on(S_AUX) {
        list8(f.name("aux"), &s.aux);
    }
    if on(S_CGROUP) {
        f.num("cgroup", s.cgroup);
    }
    if on(S_DPAGE) {
        f.num("data_page_size", s.dpage);
    }
    if on(S_CPAGE) {
        f.num("code_page_size", s.cpage);
    }
    let want = f.end();
    shows(&got, &want, "a sample shows the fields that were recorded, with their values");
    cover("sample");
}

/// Names with values, in the order they are shown.
fn flag_text(s: &mut String, ty: &str, names: &[(&str, u64)], v: u64) {
    s.push_str(ty);
    s.push('(');
    let mut left = v;
    let mut first = true;
    for (n, b) in names {
        if *b != 0 && v & b == *b && left & b != 0 {
            if !first {
                s.push_str(" | ");
            }
            first = false;
            s.push_str(n);
            left &= !b;
        }
    }
    if left != 0 || v == 0 {
        if !first {
            s.push_str(" | ");
        }
        short_hex(s, left, false);
    }
    s.push(')');
}
const AUX_NAMES: [(&str, u64); 5] = [("TRUNCATED", 1), ("OVERWRITE", 2), ("PARTIAL", 4), ("COLLISION", 8), ("PMU_FORMAT_MASK", 0xff00)];
const TXN_NAMES: [(&str, u64); 9] = [
    ("ELISION", 1),
    ("TRANSACTION", 2),
    ("SYNC", 4),
    ("ASYNC", 8),
    ("RETRY", 16),
    ("CONFLICT", 32),
    ("CAPACITY_WRITE", 64),
    ("CAPACITY_READ", 128),
    ("ABORT_MASK", 0xffff_ffff_0000_0000),
];
const ST_NAMES: [&str; 25] = [
    "IP", "TID", "TIME", "ADDR", "READ", "CALLCHAIN", "ID", "CPU", "PERIOD", "STREAM_ID", "RAW", "BRANCH_STACK", "REGS_USER", "STACK_USER", "WEIGHT", "DATA_SRC", "IDENTIFIER",
    "TRANSACTION", "REGS_INTR", "PHYS_ADDR", "AUX", "CGROUP", "DATA_PAGE_SIZE", "CODE_PAGE_SIZE", "WEIGHT_STRUCT",
];
const RF_NAMES: [&str; 5] = ["TOTAL_TIME_ENABLED", "TOTAL_TIME_RUNNING", "ID", "GROUP", "LOST"];

fn enum_text(s: &mut String, ty: &str, names: &[(&str, u64)], v: u64) {
    s.push_str(ty);
    for (n, x) in names {
        if v == *x {
            s.push_str("::");
            s.push_str(n);
            return;
        }
    }
    s.push('(');
    put(s, v);
    s.push(')');
}

entries! {
    // Texts of `param` arbitrary bytes.
    fn c20_text() {
        // 2x: characters of several bytes, the last of them and what follows arbitrary
        let lead: [&[u8]; 14] = [
            b"\xC2", b"\xCC", b"\xDF", b"\xE0\xA0", b"\xE0\x9F", b"\xE2\x80", b"\xED\x9F", b"\xED\xA0", b"\xEF\xBF", b"\xF0\x9F\x98", b"\xF0\x8F\xBF", b"\xF4\x8F\xBF", b"\xF4\x90\x80", b"\xF3\xA0\x84",
        ];
        let n = param() % 10;
        let mut t = vec![];
        if param() >= 20 {
            t.extend_from_slice(lead[choose(lead.len())]);
        }
        t.extend_from_slice(&sym_text(n));
        if param() >= 10 && n > 1 {
            let m = t.len();
            assume(t[m - 1] < 0x80);
        }
        let k = choose(if param() >= 20 { 1 } else { 6 });
        texts(k, &t, 0x1234_5678_9ABC_DEF0, &[0x0A, 0xF0], "text is shown quoted and escaped");
        cover("text");
    }
    // Longer texts: what surrounds a symbolic byte must not matter.
    fn c20_around() {
        let k = choose(2);
        let at = choose(3);
        let x = sym_u8();
        let (p, q): (&[u8], &[u8]) = match choose(5) {
            0 => (b"ab", b"cd"),
            1 => (b"\xff", b"\xc3\xa9z"),
            2 => (b"\xe2\x82", b"\xac"),
            3 => (b"\xf0\x9f\x98", b"\x80!"),
            _ => (b"\"\\'", b"\n\t"),
        };
        let mut t = vec![];
        if at == 0 {
            t.push(x);
        }
        t.extend_from_slice(p);
        if at == 1 {
            t.push(x);
        }
        t.extend_from_slice(q);
        if at == 2 {
            assume(x != 0);
            t.push(x);
        }
        texts(k * 3, &t, 0x7FFF, &[], "text is shown quoted and escaped, whatever surrounds it");
        cover("around");
    }
    // Long values are shown completely.
    fn c20_long() {
        let k = choose(10);
        match k {
            0..=2 => {
                // every k-th character is one of several bytes, the last byte is arbitrary
                let mut t: Vec<u8> = Vec::with_capacity(400);
                for i in 0..[70, 130, 300][k] {
                    match i % 13 {
                        5 => t.extend_from_slice("\u{e9}".as_bytes()),
                        9 => t.extend_from_slice("\u{1f600}".as_bytes()),
                        11 => t.push(if i % 2 == 0 { 0xFF } else { b'"' }),
                        x => t.push(b'a' + x as u8),
                    }
                }
                let x = sym_u8();
                assume(x >= 0x20 && x < 0x7F);
                t.push(x);
                texts(3, &t, 0x7FFF, &[], "a long text is shown completely");
            }
            3 => {
                let (o, n) = (digits(100), digits(257));
                let mut w = W::new(false, 512);
                w.u64(0x7FFF_0000_1234).u16(o.len() as u16).u16(n.len() as u16).bytes(&o).bytes(&n);
                while w.len() % 8 != 0 {
                    w.u8(0);
                }
                let mut p = Parser::new(&w.b[..], Cfg::default().get(en(false)));
                let mut g = String::with_capacity(2048);
                check(shown(&mut g, &p.parse::<TextPoke>().unwrap()), "formatting succeeds");
                let mut e = String::with_capacity(2048);
                e.push_str("TextPoke { addr: ");
                addr(&mut e, 0x7FFF_0000_1234);
                e.push_str(", old_bytes: ");
                list8(&mut e, &o);
                e.push_str(", new_bytes: ");
                list8(&mut e, &n);
                e.push_str(" }");
                shows(&g, &e, "a long text poke is shown completely");
            }
            4 => {
                let n = 40;
                let mut w = W::new(false, 1024);
                w.u32(1).u32(2).u64(n as u64);
                let mut e = String::with_capacity(4096);
                e.push_str("Namespaces { pid: 1, tid: 2, namespaces: [");
                for i in 0..n {
                    let (p, q) = (d64(), d64());
                    w.u64(p).u64(q);
                    if i > 0 {
                        e.push_str(", ");
                    }
                    f!(e, "NamespaceEntry { dev: ", p);
                    f!(e, ", inode: ", q);
                    e.push_str(" }");
                }
                e.push_str("] }");
                let mut p = Parser::new(&w.b[..], Cfg::default().get(en(false)));
                let mut g = String::with_capacity(4096);
                check(shown(&mut g, &p.parse::<Namespaces>().unwrap()), "formatting succeeds");
                shows(&g, &e, "a long record is shown completely");
            }
            5 => {
                let t = digits(300);
                let mut w = W::new(false, 512);
                let at = w.header(40, 0);
                w.bytes(&t);
                w.finish(at);
                let mut p = Parser::new(&w.b[..], Cfg::default().get(en(false)));
                let mut g = String::with_capacity(2048);
                check(shown(&mut g, &p.parse::<Record>().unwrap()), "formatting succeeds");
                let mut e = String::with_capacity(2048);
                e.push_str("Unknown { ty: 40, data: ");
                list8(&mut e, &t);
                e.push_str(" }");
                shows(&g, &e, "a long record is shown completely");
            }
            _ => {
                let st = [S_CALLCHAIN | S_IP, S_RAW | S_AUX, S_STACK_USER | S_REGS_USER | S_REGS_INTR, S_READ | S_BRANCH][k - 6];
                let c = Cfg { st, rf: R_GROUP | R_ID | R_LOST, hw: false, ru: u64::MAX, ri: 0x0ff0_0000_ffff, ..Cfg::default() };
                sample(&c, &Dims { chain: 200, raw: 300, lbr: 30, stack: 264, dynsz: 260, aux: 130, group: 20, ..DIMS });
            }
        }
        cover("long");
    }
    // Addresses and build ids.
    fn c20_hex() {
        let k = [1, 3, 4, 5][choose(4)];
        let a = sym_u64();
        let n = if k == 5 { [0, 1, 2, 16, 20][choose(5)] } else { 0 };
        // any two adjacent bytes
        let mut b: Vec<u8> = (0..n as u8).map(|i| (i ^ 0xA5).wrapping_mul(0x3B)).collect();
        if n > 0 {
            let i = choose(n);
            b[i] = sym_u8();
            if i + 1 < n {
                b[i + 1] = sym_u8();
            }
        }
        texts(k, b"x", a, &b, "addresses and build ids are shown in hexadecimal");
        cover("hex");
    }
    // TEXT_POKE's address and code.
    fn c20_poke() {
        let a = sym_u64();
        let (o, n) = (digits(choose(4)), digits(choose(4)));
        let mut w = W::new(false, 64);
        w.u64(a).u16(o.len() as u16).u16(n.len() as u16).bytes(&o).bytes(&n);
        while w.len() % 8 != 0 {
            w.u8(0);
        }
        let mut p = Parser::new(&w.b[..], Cfg::default().get(en(false)));
        let mut g = String::with_capacity(128);
        check(shown(&mut g, &p.parse::<TextPoke>().unwrap()), "formatting succeeds");
        let mut e = String::with_capacity(128);
        e.push_str("TextPoke { addr: ");
        addr(&mut e, a);
        e.push_str(", old_bytes: ");
        list8(&mut e, &o);
        e.push_str(", new_bytes: ");
        list8(&mut e, &n);
        e.push_str(" }");
        shows(&g, &e, "text poke");
        cover("poke");
    }
    // Records without text, within `Record`.
    fn c20_fixed() {
        let wide = choose(2) == 1;
        let (a, b, c, d, x, y, z) = if wide {
            (4294967295u32, 10u32, 99u32, 1000000007u32, 18446744073709551615u64, 100u64, 12345678901234567890u64)
        } else {
            (d32(), d32(), d32(), d32(), d64(), d64(), d64())
        };
        let k = [1, 3, 4, 5, 6, 7, 11, 12, 13, 14, 15, 16, 18, 21, 22][choose(15)];
        let mut misc = 0;
        let mut w = W::new(false, 160);
        let at = w.header(type_of(k, &DIMS), 0);
        let mut e = String::with_capacity(256);
        match k {
            1 => {
                w.u64(x).u64(y);
                f!(e, "Lost(Lost { id: ", x);
                f!(e, ", lost: ", y);
                e.push_str(" })");
            }
            3 | 6 => {
                w.u32(a).u32(b).u32(c).u32(d).u64(x);
                e.push_str(if k == 3 { "Exit(" } else { "Fork(" });
                f!(e, "Exit { pid: ", a);
                f!(e, ", ppid: ", b);
                f!(e, ", tid: ", c);
                f!(e, ", ptid: ", d);
                f!(e, ", time: ", x);
                e.push_str(" })");
            }
            4 | 5 => {
                w.u64(x).u64(y).u64(z);
                e.push_str(if k == 4 { "Throttle(" } else { "Unthrottle(" });
                f!(e, "Throttle { time: ", x);
                f!(e, ", id: ", y);
                f!(e, ", stream_id: ", z);
                e.push_str(" })");
            }
            7 => {
                w.u32(a).u32(b).u64(x);
                f!(e, "Read(Read { pid: ", a);
                f!(e, ", tid: ", b);
                f!(e, ", values: SingleRead { value: ", x);
                e.push_str(", .. } })");
            }
            11 => {
                w.u64(x).u64(y).u64(9);
                f!(e, "Aux(Aux { aux_offset: ", x);
                f!(e, ", aux_size: ", y);
                e.push_str(", flags: AuxFlags(TRUNCATED | COLLISION) })");
            }
            12 => {
                w.u32(a).u32(b);
                f!(e, "ITraceStart(ITraceStart { pid: ", a);
                f!(e, ", tid: ", b);
                e.push_str(" })");
            }
            13 => {
                w.u64(x);
                f!(e, "LostSamples(LostSamples { lost: ", x);
                e.push_str(" })");
            }
            14 => e.push_str("Switch"),
            15 => {
                w.u32(a).u32(b);
                let out = choose(2) == 1;
                misc = if out { 0x2000 } else { 0 };
                e.push_str("SwitchCpuWide(");
                e.push_str(if out { "Out" } else { "In" });
                f!(e, " { pid: ", a);
                f!(e, ", tid: ", b);
                e.push_str(" })");
            }
            16 => {
                let n = choose(3);
                w.u32(a).u32(b).u64(n as u64);
                f!(e, "Namespaces(Namespaces { pid: ", a);
                f!(e, ", tid: ", b);
                e.push_str(", namespaces: [");
                for i in 0..n {
                    let (p, q) = (d64(), d64());
                    w.u64(p).u64(q);
                    if i > 0 {
                        e.push_str(", ");
                    }
                    f!(e, "NamespaceEntry { dev: ", p);
                    f!(e, ", inode: ", q);
                    e.push_str(" }");
                }
                e.push_str("] })");
            }
            18 => {
                let t = digits(8);
                w.u16(2).u16(a as u16).u32(b).bytes(&t);
                f!(e, "BpfEvent(BpfEvent { ty: BpfEventType::PROG_UNLOAD, flags: ", a as u16);
                f!(e, ", id: ", b);
                e.push_str(", tag: ");
                list8(&mut e, &t);
                e.push_str(" })");
            }
            21 => {
                w.u64(x);
                f!(e, "AuxOutputHwId(AuxOutputHwId { hw_id: ", x);
                e.push_str(" })");
            }
            _ => {
                let t = digits(choose(3));
                w.bytes(&t);
                e.push_str("Unknown { ty: 40, data: ");
                list8(&mut e, &t);
                e.push_str(" }");
            }
        }
        w.finish(at);
        w.b[4] = misc as u8;
        w.b[5] = (misc >> 8) as u8;
        let mut p = Parser::new(&w.b[..], Cfg::default().get(en(false)));
        let mut g = String::with_capacity(256);
        check(shown(&mut g, &p.parse::<Record>().unwrap()), "formatting succeeds");
        shows(&g, &e, "a record shows its type and fields");
        cover("fixed");
    }
    // Counter values, single and in groups.
    fn c20_read() {
        let rf = RF[choose(8)];
        let n = choose(4);
        let r = digit_rd(if n == 3 { 1 } else { n });
        let mut w = W::new(false, 128);
        let mut e = String::with_capacity(256);
        let mut g = String::with_capacity(256);
        if n == 3 {
            r.write_single(&mut w, rf);
            let c = Cfg { rf, ..Cfg::default() };
            let mut p = Parser::new(&w.b[..], c.get(en(false)));
            let v = p.parse::<ReadValue>().unwrap();
            check(shown(&mut g, &v), "formatting succeeds");
            single_text(&mut e, &r, rf);
        } else {
            r.write_group(&mut w, rf);
            let c = Cfg { rf: rf | R_GROUP, ..Cfg::default() };
            let mut p = Parser::new(&w.b[..], c.get(en(false)));
            let v = p.parse::<ReadGroup>().unwrap();
            check(shown(&mut g, &v), "formatting succeeds");
            group_text(&mut e, &r, rf);
        }
        shows(&g, &e, "counter values show what was recorded");
        cover("read");
    }
    // Samples: each field alone, each field missing, and all of them.
    fn c20_sample() {
        let i = choose(26);
        let st = match choose(2) {
            0 => if i == 25 { 0 } else { FLAGS[i] },
            _ => if i == 25 { ALL } else { ALL & !FLAGS[i] },
        };
        let hw = choose(2) == 1;
        let rf = [0, R_GROUP | R_ID, R_GROUP | R_TE | R_TR][choose(if st & S_READ != 0 { 3 } else { 1 })];
        let c = Cfg { st, rf, hw: hw && st & S_BRANCH != 0, ru: 5, ri: 0x8000_0000_0000_0001, ..Cfg::default() };
        if hw {
            assume(st & S_BRANCH != 0);
        }
        let d = Dims { chain: 2, raw: 4, lbr: 1, stack: 8, dynsz: 2, aux: 3, group: 2, ..DIMS };
        let d = if i == 25 { Dims { abi_u: 0, ..d } } else { d };
        sample(&c, &d);
    }
    // Identity fields and metadata.
    fn c20_ids() {
        let m = choose(64) as u64;
        let mut st = 0;
        for (i, f) in [S_TID, S_TIME, S_ID, S_STREAM, S_CPU, S_IDENT].iter().enumerate() {
            if m >> i & 1 != 0 {
                st |= f;
            }
        }
        let c = Cfg { st, id_all: true, ..Cfg::default() };
        let ids = Ids { pid: d32(), tid: d32(), time: d64(), id: d64(), stream: d64(), cpu: d32(), res: 0, ident: d64() };
        let mut w = W::new(false, 128);
        let at = w.header(13, 3);
        w.u64(1);
        ids.write(&mut w, &c);
        w.finish(at);
        let mut p = Parser::new(&w.b[..], c.get(en(false)));
        let (_, meta) = p.parse_record(Cap).unwrap();
        let mut g = String::with_capacity(256);
        check(shown(&mut g, &meta), "formatting succeeds");
        let mut f = Fields { s: String::with_capacity(256), n: 0 };
        f.s.push_str("RecordMetadata { ty: 13, misc: 3, sample_id: SampleId");
        if st & S_TID != 0 {
            f.num("pid", ids.pid as u64);
            f.num("tid", ids.tid as u64);
        }
        if st & S_TIME != 0 {
            f.num("time", ids.time);
        }
        if st & S_ID != 0 {
            f.num("id", ids.id);
        } else if st & S_IDENT != 0 {
            f.num("id", ids.ident);
        }
        if st & S_STREAM != 0 {
            f.num("stream_id", ids.stream);
        }
        if st & S_CPU != 0 {
            f.num("cpu", ids.cpu as u64);
        }
        let mut e = f.end();
        e.push_str(" }");
        shows(&g, &e, "metadata shows the identity fields that were recorded");
        cover("ids");
    }
    // Enumerations show a name or a number, flag sets their names and the rest in hexadecimal.
    fn c20_enums() {
        let mut e = String::with_capacity(128);
        let mut g = String::with_capacity(128);
        let k = choose(8);
        let ok = match k {
            0 => {
                let x = d8();
                enum_text(&mut e, "BpfEventType", &[("UNKNOWN", 0), ("PROG_LOAD", 1), ("PROG_UNLOAD", 2)], x as u64);
                shown(&mut g, &BpfEventType::new(x as u16))
            }
            1 => {
                let x = d8();
                enum_text(&mut e, "KSymbolType", &[("UNKNOWN", 0), ("BPF", 1), ("OOL", 2)], x as u64);
                shown(&mut g, &KSymbolType::new(x as u16))
            }
            2 => {
                let x = choose(17) as u8;
                let n = [("UNKNOWN", 0), ("COND", 1), ("UNCOND", 2), ("IND", 3), ("CALL", 4), ("IND_CALL", 5), ("RET", 6), ("SYSCALL", 7), ("COND_CALL", 9), ("COND_RET", 10)];
                enum_text(&mut e, "BranchType", &n, x as u64);
                shown(&mut g, &BranchType::new(x))
            }
            3 => {
                let x = d8();
                enum_text(&mut e, "SampleRegsAbi", &[("NONE", 0), ("ABI_32", 1), ("ABI_64", 2)], x as u64);
                shown(&mut g, &SampleRegsAbi::new(x as u64))
            }
            4 => {
                let x = sym_u64();
                let m = [0xf, 0xff00, 0x8000_0000_0000_0010, 0][choose(4)];
                let x = x & m;
                flag_text(&mut e, "AuxFlags", &AUX_NAMES, x);
                shown(&mut g, &AuxFlags::from_bits_retain(x))
            }
            5 => {
                let x = sym_u16();
                flag_text(&mut e, "KSymbolFlags", &[("UNREGISTER", 1)], x as u64);
                shown(&mut g, &KSymbolFlags::from_bits_retain(x))
            }
            6 => {
                let m = [0x1f, 0x3e0, 0x8000_0000_0000_0081][choose(3)];
                let x = sym_u64() & m;
                flag_text(&mut e, "Txn", &TXN_NAMES, x);
                shown(&mut g, &Txn::from_bits_retain(x))
            }
            _ => {
                let x = choose(17) as u8;
                let n = [("L1", 1), ("L2", 2), ("L3", 3), ("L4", 4), ("ANY_CACHE", 11), ("LFB", 12), ("RAM", 13), ("PMEM", 14), ("NA", 15)];
                enum_text(&mut e, "MemLevelNum", &n, x as u64);
                shown(&mut g, &MemLevelNum::new(x))
            }
        };
        check(ok, "formatting succeeds");
        shows(&g, &e, "enumerations and flags show their names");
        cover("enums");
    }
    // A data source shows each of its parts.
    fn c20_data_src() {
        // mem_op 5, mem_lvl 14, mem_snoop 5, mem_lock 2, mem_dtlb 7, lvl_num 4, remote 1, snoopx 2, blk 3, hops 3
        let at = [0, 5, 19, 24, 26, 33, 37, 40, 43];
        let m = [31u64, 0x1f, 31, 3, 127, 15, 1, 7, 7];
        let i = choose(9);
        let x = (sym_u64() & m[i]) << at[i];
        let part = |n: &'static [&'static str], sh: u32| -> Vec<(&'static str, u64)> { n.iter().enumerate().map(|(i, n)| (*n, 1u64 << (i as u32 + sh))).collect() };
        let mut e = String::with_capacity(256);
        e.push_str("DataSource { mem_op: ");
        flag_text(&mut e, "MemOp", &part(&["NA", "LOAD", "STORE", "PFETCH", "EXEC"], 0), x & 31);
        e.push_str(", mem_lvl: ");
        flag_text(&mut e, "MemLevel", &part(&["NA", "HIT", "MISS", "L1", "LFB"], 0), x >> 5 & 31);
        e.push_str(", mem_snoop: ");
        flag_text(&mut e, "MemSnoop", &part(&["NA", "NONE", "HIT", "MISS", "HITM"], 19), x & 31 << 19);
        e.push_str(", mem_lock: ");
        flag_text(&mut e, "MemLock", &part(&["NA", "LOCKED"], 0), x >> 24 & 3);
        e.push_str(", mem_dtlb: ");
        flag_text(&mut e, "MemDtlb", &part(&["NA", "HIT", "MISS", "L1", "L2", "WK", "OS"], 0), x >> 26 & 127);
        e.push_str(", mem_lvl_num: ");
        let n = [("L1", 1), ("L2", 2), ("L3", 3), ("L4", 4), ("ANY_CACHE", 11), ("LFB", 12), ("RAM", 13), ("PMEM", 14), ("NA", 15)];
        enum_text(&mut e, "MemLevelNum", &n, x >> 33 & 15);
        e.push_str(if x >> 37 & 1 != 0 { ", mem_remote: true" } else { ", mem_remote: false" });
        e.push_str(", mem_blk: ");
        flag_text(&mut e, "MemBlk", &part(&["NA", "DATA", "ADDR"], 0), x >> 40 & 7);
        e.push_str(", mem_hops: ");
        put(&mut e, x >> 43 & 7);
        e.push_str(" }");
        let mut w = W::new(false, 8);
        w.u64(x);
        let mut p = Parser::new(&w.b[..], Cfg::default().get(en(false)));
        let mut g = String::with_capacity(256);
        check(shown(&mut g, &p.parse::<DataSource>().unwrap()), "formatting succeeds");
        shows(&g, &e, "a data source shows all its parts");
        cover("data_src");
    }
    // Configurations.
    fn c20_config() {
        let k = choose(4);
        let mut c = Cfg { id_all: choose(2) == 1, hw: choose(2) == 1, ..Cfg::default() };
        let mut misc = 0u16;
        match k {
            0 => c.st = 1 << choose(25),
            1 => c.rf = choose(32) as u64,
            2 => {
                c.ru = sym_u64();
                c.ri = sym_u64();
                assume(c.ru >> 12 == 0 && c.ri >> 60 != 0);
            }
            _ => misc = sym_u16(),
        }
        let mut w = W::new(false, 128);
        let at = w.header(14, misc);
        Ids { pid: 0, tid: 0, time: 0, id: 0, stream: 0, cpu: 0, res: 0, ident: 0 }.write(&mut w, &c);
        w.finish(at);
        let mut p = Parser::new(&w.b[..], c.get(en(false)));
        let h = p.parse::<perf_event_header>().unwrap();
        let mut g = String::with_capacity(256);
        let (q, _) = p.parse_metadata_with_header(h).unwrap();
        check(shown(&mut g, &q.config()), "formatting succeeds");
        let mut e = String::with_capacity(256);
        e.push_str("ParseConfig { read_format: ");
        let names: Vec<(&str, u64)> = RF_NAMES.iter().enumerate().map(|(i, n)| (*n, 1u64 << i)).collect();
        flag_text(&mut e, "ReadFormat", &names, c.rf);
        e.push_str(", sample_type: ");
        let names: Vec<(&str, u64)> = ST_NAMES.iter().enumerate().map(|(i, n)| (*n, 1u64 << i)).collect();
        flag_text(&mut e, "SampleFlags", &names, c.st);
        e.push_str(if c.id_all { ", sample_id_all: true" } else { ", sample_id_all: false" });
        e.push_str(if c.hw { ", branch_hw_index: true" } else { ", branch_hw_index: false" });
        e.push_str(", misc: ");
        short_hex(&mut e, misc as u64, true);
        e.push_str(", regs_user: ");
        short_hex(&mut e, c.ru, true);
        e.push_str(", regs_intr: ");
        short_hex(&mut e, c.ri, true);
        e.push_str(" }");
        shows(&g, &e, "a configuration shows its options");
        cover("config");
    }
}
