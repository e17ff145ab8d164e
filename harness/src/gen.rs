//! Reference writer for whole records (kernel ABI) with symbolic contents, and an exact flattening
//! of everything observable on a parsed record.
use crate::common::*;

pub fn syms8(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    sym_bytes(&mut v);
    v
}
pub fn syms64(n: usize) -> Vec<u64> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(sym_u64());
    }
    v
}
/// Arbitrary bytes whose last one is not NUL.
pub fn sym_text(n: usize) -> Vec<u8> {
    let v = syms8(n);
    if n > 0 {
        assume(v[n - 1] != 0);
    }
    v
}
/// The text, then at least one NUL, padded to 8 bytes (as the kernel does).
pub fn put_text(w: &mut W, t: &[u8]) {
    w.bytes(t);
    let n = (t.len() + 1 + 7) / 8 * 8;
    for _ in t.len()..n {
        w.u8(0);
    }
}

/// Sizes of the variable parts.
#[derive(Clone, Copy)]
pub struct Dims {
    pub chain: usize,
    pub raw: usize,
    pub lbr: usize,
    pub stack: usize,
    pub dynsz: usize,
    pub aux: usize,
    pub group: usize,
    pub text: usize,
    pub old: usize,
    pub new: usize,
    pub ns: usize,
    pub unk: usize,
    pub abi_u: u64,
    pub abi_i: u64,
    pub ty: u32,
}
pub const DIMS: Dims = Dims { chain: 3, raw: 12, lbr: 2, stack: 8, dynsz: 5, aux: 8, group: 2, text: 5, old: 3, new: 5, ns: 2, unk: 11, abi_u: 2, abi_i: 1, ty: 40 };
pub const BIG: Dims = Dims { chain: 130, raw: 300, lbr: 40, stack: 520, dynsz: 300, aux: 301, group: 20, text: 300, old: 200, new: 301, ns: 40, unk: 700, abi_u: 2, abi_i: 1, ty: 40 };
/// Close to the largest record that can be declared.
pub const HUGE: Dims = Dims { chain: 600, raw: 9001, lbr: 40, stack: 17000, dynsz: 16500, aux: 8200, group: 70, text: 20000, old: 9000, new: 17001, ns: 1100, unk: 40000, abi_u: 2, abi_i: 1, ty: 40 };
pub const EMPTY: Dims = Dims { chain: 0, raw: 0, lbr: 0, stack: 0, dynsz: 0, aux: 0, group: 0, text: 0, old: 0, new: 0, ns: 0, unk: 0, abi_u: 0, abi_i: 0, ty: 0 };

#[derive(Clone)]
pub struct Rd {
    pub te: u64,
    pub tr: u64,
    pub e: Vec<[u64; 3]>,
}
/// The same configuration for a record of kind `k`, with arbitrary values wherever a record of this
/// kind does not depend on the configuration.
pub fn noisy(k: usize, cfg: &Cfg) -> Cfg {
    let mut c = *cfg;
    if k == K_SAMPLE {
        if cfg.st & S_READ == 0 { c.rf = sym_u64(); }
        if cfg.st & S_REGS_USER == 0 { c.ru = sym_u64(); }
        if cfg.st & S_REGS_INTR == 0 { c.ri = sym_u64(); }
        return c;
    }
    let ids = if cfg.id_all { S_TID | S_TIME | S_ID | S_STREAM | S_CPU | S_IDENT } else { 0 };
    c.st = cfg.st & ids | sym_u64() & !ids;
    c.ru = sym_u64();
    c.ri = sym_u64();
    if k != 7 {
        c.rf = sym_u64();
    }
    c
}
impl Rd {
    pub fn sym(n: usize) -> Rd {
        let mut e = Vec::with_capacity(n);
        for _ in 0..n {
            e.push([sym_u64(), sym_u64(), sym_u64()]);
        }
        Rd { te: sym_u64(), tr: sym_u64(), e }
    }
    pub fn write_single(&self, w: &mut W, rf: u64) {
        w.u64(self.e[0][0]);
        if rf & R_TE != 0 {
            w.u64(self.te);
        }
        if rf & R_TR != 0 {
            w.u64(self.tr);
        }
        if rf & R_ID != 0 {
            w.u64(self.e[0][1]);
        }
        if rf & R_LOST != 0 {
            w.u64(self.e[0][2]);
        }
    }
    pub fn write_group(&self, w: &mut W, rf: u64) {
        w.u64(self.e.len() as u64);
        if rf & R_TE != 0 {
            w.u64(self.te);
        }
        if rf & R_TR != 0 {
            w.u64(self.tr);
        }
        for e in &self.e {
            w.u64(e[0]);
            if rf & R_ID != 0 {
                w.u64(e[1]);
            }
            if rf & R_LOST != 0 {
                w.u64(e[2]);
            }
        }
    }
    pub fn write(&self, w: &mut W, rf: u64) {
        if rf & R_GROUP != 0 {
            self.write_group(w, rf)
        } else {
            self.write_single(w, rf)
        }
    }
    pub fn check_value(&self, v: &ReadValue, rf: u64) {
        check(v.value() == self.e[0][0], "read value");
        check(v.time_enabled() == (rf & R_TE != 0).then_some(self.te), "read time_enabled");
        check(v.time_running() == (rf & R_TR != 0).then_some(self.tr), "read time_running");
        check(v.id() == (rf & R_ID != 0).then_some(self.e[0][1]), "read id");
        check(v.lost() == (rf & R_LOST != 0).then_some(self.e[0][2]), "read lost");
    }
    pub fn check_entry(&self, i: usize, x: &GroupEntry, rf: u64) {
        check(x.value() == self.e[i][0], "group entry value");
        check(x.id() == (rf & R_ID != 0).then_some(self.e[i][1]), "group entry id");
        check(x.lost() == (rf & R_LOST != 0).then_some(self.e[i][2]), "group entry lost");
    }
    pub fn check_group(&self, g: &ReadGroup<'_>, rf: u64) {
        check(g.time_enabled() == (rf & R_TE != 0).then_some(self.te), "group time_enabled");
        check(g.time_running() == (rf & R_TR != 0).then_some(self.tr), "group time_running");
        check(g.len() == self.e.len(), "group length");
        check(g.is_empty() == self.e.is_empty(), "group is_empty");
        let mut i = 0;
        for x in g.entries() {
            if i < self.e.len() {
                self.check_entry(i, &x, rf);
            }
            i += 1;
        }
        check(i == self.e.len(), "group yields every entry once");
    }
}

#[derive(Clone)]
pub struct Smp {
    pub ident: u64,
    pub ip: u64,
    pub pid: u32,
    pub tid: u32,
    pub time: u64,
    pub addr: u64,
    pub id: u64,
    pub stream: u64,
    pub cpu: u32,
    pub res: u32,
    pub period: u64,
    pub read: Rd,
    pub chain: Vec<u64>,
    pub raw: Vec<u8>,
    pub hw: u64,
    pub lbr: Vec<[u64; 3]>,
    pub abi_u: u64,
    pub regs_u: Vec<u64>,
    pub stack: Vec<u8>,
    pub dynsz: u64,
    pub weight: u64,
    pub src: u64,
    pub txn: u64,
    pub abi_i: u64,
    pub regs_i: Vec<u64>,
    pub phys: u64,
    pub cgroup: u64,
    pub dpage: u64,
    pub cpage: u64,
    pub aux: Vec<u8>,
}
impl Smp {
    pub fn sym(c: &Cfg, d: &Dims) -> Smp {
        let on = |f: u64| c.st & f != 0;
        let n = |f: u64, n: usize| if on(f) { n } else { 0 };
        let mut lbr = vec![];
        for _ in 0..n(S_BRANCH, d.lbr) {
            lbr.push([sym_u64(), sym_u64(), sym_u64()]);
        }
        let g = if c.rf & R_GROUP != 0 { d.group } else { 1 };
        Smp {
            ident: sym_u64(),
            ip: sym_u64(),
            pid: sym_u32(),
            tid: sym_u32(),
            time: sym_u64(),
            addr: sym_u64(),
            id: sym_u64(),
            stream: sym_u64(),
            cpu: sym_u32(),
            res: sym_u32(),
            period: sym_u64(),
            read: Rd::sym(n(S_READ, g)),
            chain: syms64(n(S_CALLCHAIN, d.chain)),
            raw: syms8(n(S_RAW, d.raw)),
            hw: sym_u64(),
            lbr,
            abi_u: d.abi_u,
            regs_u: if on(S_REGS_USER) && d.abi_u != 0 { syms64(c.ru.count_ones() as usize) } else { vec![] },
            stack: syms8(n(S_STACK_USER, d.stack)),
            dynsz: d.dynsz as u64,
            weight: sym_u64(),
            src: sym_u64(),
            txn: sym_u64(),
            abi_i: d.abi_i,
            regs_i: if on(S_REGS_INTR) && d.abi_i != 0 { syms64(c.ri.count_ones() as usize) } else { vec![] },
            phys: sym_u64(),
            cgroup: sym_u64(),
            dpage: sym_u64(),
            cpage: sym_u64(),
            aux: syms8(n(S_AUX, d.aux)),
        }
    }
    /// Everything behind the header, in the order of `perf_output_sample`.
    pub fn write(&self, w: &mut W, c: &Cfg) {
        let on = |f: u64| c.st & f != 0;
        if on(S_IDENT) {
            w.u64(self.ident);
        }
        if on(S_IP) {
            w.u64(self.ip);
        }
        if on(S_TID) {
            w.u32(self.pid).u32(self.tid);
        }
        if on(S_TIME) {
            w.u64(self.time);
        }
        if on(S_ADDR) {
            w.u64(self.addr);
        }
        if on(S_ID) {
            w.u64(self.id);
        }
        if on(S_STREAM) {
            w.u64(self.stream);
        }
        if on(S_CPU) {
            w.u32(self.cpu).u32(self.res);
        }
        if on(S_PERIOD) {
            w.u64(self.period);
        }
        if on(S_READ) {
            self.read.write(w, c.rf);
        }
        if on(S_CALLCHAIN) {
            w.u64(self.chain.len() as u64);
            for x in &self.chain {
                w.u64(*x);
            }
        }
        if on(S_RAW) {
            w.u32(self.raw.len() as u32).bytes(&self.raw);
            let mut n = 4 + self.raw.len();
            while n % 8 != 0 {
                w.u8(0xA5);
                n += 1;
            }
        }
        if on(S_BRANCH) {
            w.u64(self.lbr.len() as u64);
            if c.hw {
                w.u64(self.hw);
            }
            for e in &self.lbr {
                w.u64(e[0]).u64(e[1]).u64(e[2]);
            }
        }
        if on(S_REGS_USER) {
            w.u64(self.abi_u);
            for x in &self.regs_u {
                w.u64(*x);
            }
        }
        if on(S_STACK_USER) {
            w.u64(self.stack.len() as u64).bytes(&self.stack);
            if !self.stack.is_empty() {
                w.u64(self.dynsz);
            }
        }
        if c.st & (S_WEIGHT | S_WSTRUCT) != 0 {
            w.u64(self.weight);
        }
        if on(S_DATA_SRC) {
            w.u64(self.src);
        }
        if on(S_TXN) {
            w.u64(self.txn);
        }
        if on(S_REGS_INTR) {
            w.u64(self.abi_i);
            for x in &self.regs_i {
                w.u64(*x);
            }
        }
        if on(S_PHYS) {
            w.u64(self.phys);
        }
        if on(S_CGROUP) {
            w.u64(self.cgroup);
        }
        if on(S_DPAGE) {
            w.u64(self.dpage);
        }
        if on(S_CPAGE) {
            w.u64(self.cpage);
        }
        if on(S_AUX) {
            w.u64(self.aux.len() as u64).bytes(&self.aux);
        }
    }
    pub fn check(&self, s: &Sample<'_>, c: &Cfg) {
        let on = |f: u64| c.st & f != 0;
        let id = if on(S_ID) {
            Some(self.id)
        } else if on(S_IDENT) {
            Some(self.ident)
        } else {
            None
        };
        check(s.id() == id, "sample id");
        check(s.ip() == on(S_IP).then_some(self.ip), "sample ip");
        check(s.pid() == on(S_TID).then_some(self.pid), "sample pid");
        check(s.tid() == on(S_TID).then_some(self.tid), "sample tid");
        check(s.time() == on(S_TIME).then_some(self.time), "sample time");
        check(s.addr() == on(S_ADDR).then_some(self.addr), "sample addr");
        check(s.stream_id() == on(S_STREAM).then_some(self.stream), "sample stream_id");
        check(s.cpu() == on(S_CPU).then_some(self.cpu), "sample cpu");
        check(s.period() == on(S_PERIOD).then_some(self.period), "sample period");
        check(s.weight() == (c.st & (S_WEIGHT | S_WSTRUCT) != 0).then_some(self.weight), "sample weight");
        check(s.phys_addr() == on(S_PHYS).then_some(self.phys), "sample phys_addr");
        check(s.cgroup() == on(S_CGROUP).then_some(self.cgroup), "sample cgroup");
        check(s.data_page_size() == on(S_DPAGE).then_some(self.dpage), "sample data_page_size");
        check(s.code_page_size() == on(S_CPAGE).then_some(self.cpage), "sample code_page_size");
        check(s.transaction().map(|t| t.bits()) == on(S_TXN).then_some(self.txn), "sample transaction");
        check(s.lbr_hw_index() == (on(S_BRANCH) && c.hw).then_some(self.hw), "sample lbr_hw_index");
        match s.data_src() {
            None => check(!on(S_DATA_SRC), "sample data_src presence"),
            Some(d) => {
                check(on(S_DATA_SRC), "sample data_src presence");
                check(src_word(&d) == expect_src_word(self.src), "sample data_src");
            }
        }
        match s.values() {
            None => check(!on(S_READ), "sample read presence"),
            Some(g) => {
                check(on(S_READ), "sample read presence");
                if on(S_READ) {
                    self.read.check_group(g, c.rf);
                }
            }
        }
        opt64(s.callchain(), on(S_CALLCHAIN).then_some(&self.chain[..]), "sample callchain");
        opt8(s.raw(), on(S_RAW).then_some(&self.raw[..]), "sample raw");
        opt8(s.aux(), on(S_AUX).then_some(&self.aux[..]), "sample aux");
        let n = if self.stack.is_empty() { 0 } else { self.dynsz as usize };
        opt8(s.stack_user(), on(S_STACK_USER).then(|| &self.stack[..n]), "sample stack_user");
        match s.lbr() {
            None => check(!on(S_BRANCH), "sample lbr presence"),
            Some(l) => {
                check(on(S_BRANCH), "sample lbr presence");
                check(l.len() == self.lbr.len(), "sample lbr length");
                let mut i = 0;
                while i < l.len() && i < self.lbr.len() {
                    check_branch(&l[i], &self.lbr[i]);
                    i += 1;
                }
            }
        }
        regs(s.regs_user(), on(S_REGS_USER), self.abi_u, c.ru, &self.regs_u, "sample regs_user");
        regs(s.regs_intr(), on(S_REGS_INTR), self.abi_i, c.ri, &self.regs_i, "sample regs_intr");
    }
}
fn regs(r: Option<&Registers<'_>>, on: bool, abi: u64, mask: u64, v: &[u64], l: &'static str) {
    match r {
        None => check(!on, l),
        Some(r) => {
            check(on, l);
            check(u64::from(r.abi) == abi, l);
            check(r.mask == mask, l);
            check(same64(&r.regs, v), l);
        }
    }
}
fn opt64(a: Option<&[u64]>, b: Option<&[u64]>, l: &'static str) {
    match (a, b) {
        (None, None) => check(true, l),
        (Some(a), Some(b)) => check(same64(a, b), l),
        _ => check(false, l),
    }
}
fn opt8(a: Option<&[u8]>, b: Option<&[u8]>, l: &'static str) {
    match (a, b) {
        (None, None) => check(true, l),
        (Some(a), Some(b)) => check(same(a, b), l),
        _ => check(false, l),
    }
}
pub fn check_branch(b: &BranchEntry, w: &[u64; 3]) {
    check(b.from() == w[0], "branch from");
    check(b.to() == w[1], "branch to");
    check(b.mispred() == (w[2] & 1 != 0), "branch mispred");
    check(b.predicted() == (w[2] & 2 != 0), "branch predicted");
    check(b.in_tx() == (w[2] & 4 != 0), "branch in_tx");
    check(b.abort() == (w[2] & 8 != 0), "branch abort");
    check(b.cycles() as u64 == (w[2] >> 4) & 0xffff, "branch cycles");
    check(u8::from(b.ty()) as u64 == (w[2] >> 20) & 0xf, "branch type");
}
pub fn branch_word(b: &BranchEntry) -> u64 {
    b.mispred() as u64 | (b.predicted() as u64) << 1 | (b.in_tx() as u64) << 2 | (b.abort() as u64) << 3 | (b.cycles() as u64) << 4 | (u8::from(b.ty()) as u64) << 20
}
/// All accessors of a data source packed into one word (in an arbitrary own layout).
pub fn src_word(d: &DataSource) -> u64 {
    let s = d.mem_snoop().bits();
    d.mem_op().bits()
        ^ d.mem_lvl().bits() << 5
        ^ (s >> 19 & 0x1f) << 19
        ^ (s >> 38 & 3) << 38
        ^ d.mem_lock().bits() << 24
        ^ d.mem_dtlb().bits() << 26
        ^ (u8::from(d.mem_lvl_num()) as u64) << 33
        ^ (d.mem_remote() as u64) << 37
        ^ d.mem_blk().bits() << 40
        ^ (d.mem_hops() as u64) << 43
}
pub fn expect_src_word(v: u64) -> u64 {
    v & ((1 << 46) - 1)
}

/// Kinds of records, see `write_any`.
pub const KINDS: usize = 24;
pub const K_MMAP: usize = 0;
pub const K_SAMPLE: usize = 8;
pub const K_TYPES: [u32; KINDS] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 0];

/// What is between header and sample_id.
pub fn write_body(w: &mut W, k: usize, c: &Cfg, d: &Dims) {
    match k {
        0 => {
            w.u32(sym_u32()).u32(sym_u32()).u64(sym_u64()).u64(sym_u64()).u64(sym_u64());
            put_text(w, &sym_text(d.text));
        }
        1 => {
            w.u64(sym_u64()).u64(sym_u64());
        }
        2 => {
            w.u32(sym_u32()).u32(sym_u32());
            put_text(w, &sym_text(d.text));
        }
        3 | 6 => {
            w.u32(sym_u32()).u32(sym_u32()).u32(sym_u32()).u32(sym_u32()).u64(sym_u64());
        }
        4 | 5 | 11 => {
            w.u64(sym_u64()).u64(sym_u64()).u64(sym_u64());
        }
        7 => {
            w.u32(sym_u32()).u32(sym_u32());
            Rd::sym(1).write_single(w, c.rf);
        }
        8 => Smp::sym(c, d).write(w, c),
        9 => {
            w.u32(sym_u32()).u32(sym_u32()).u64(sym_u64()).u64(sym_u64()).u64(sym_u64());
            w.u32(sym_u32()).u32(sym_u32()).u64(sym_u64()).u64(sym_u64());
            w.u32(sym_u32()).u32(sym_u32());
            put_text(w, &sym_text(d.text));
        }
        10 => {
            w.u32(sym_u32()).u32(sym_u32()).u64(sym_u64()).u64(sym_u64()).u64(sym_u64());
            w.u8((d.text % 21) as u8).u8(sym_u8()).u16(sym_u16()).bytes(&syms8(20));
            w.u32(sym_u32()).u32(sym_u32());
            put_text(w, &sym_text(d.text));
        }
        12 | 15 => {
            w.u32(sym_u32()).u32(sym_u32());
        }
        13 | 21 => {
            w.u64(sym_u64());
        }
        14 => {}
        16 => {
            w.u32(sym_u32()).u32(sym_u32()).u64(d.ns as u64);
            for _ in 0..d.ns {
                w.u64(sym_u64()).u64(sym_u64());
            }
        }
        17 => {
            w.u64(sym_u64()).u32(sym_u32()).u16(sym_u16()).u16(sym_u16());
            put_text(w, &sym_text(d.text));
        }
        18 => {
            w.u16(sym_u16()).u16(sym_u16()).u32(sym_u32()).bytes(&syms8(8));
        }
        19 => {
            w.u64(sym_u64());
            put_text(w, &sym_text(d.text));
        }
        20 => {
            w.u64(sym_u64()).u16(d.old as u16).u16(d.new as u16);
            w.bytes(&syms8(d.old)).bytes(&syms8(d.new));
            let mut n = d.old + d.new;
            while n % 8 != 4 {
                w.u8(0xB7);
                n += 1;
            }
        }
        _ => {
            w.bytes(&syms8(d.unk));
        }
    }
}
pub fn misc_of(k: usize) -> u16 {
    match k {
        10 => 0x4002,
        15 => 0x2001,
        _ => 0x0002,
    }
}
/// Any misc bits with which a record has the layout of kind `k`.
pub fn any_misc(k: usize) -> u16 {
    match k {
        9 => sym_u16() & !0x4000,
        10 => sym_u16() | 0x4000,
        _ => sym_u16(),
    }
}
pub fn type_of(k: usize, d: &Dims) -> u32 {
    if k == 22 {
        d.ty
    } else {
        K_TYPES[k]
    }
}
pub fn has_sample_id(k: usize) -> bool {
    k != K_MMAP && k != K_SAMPLE
}
/// A complete record; returns the offset behind it.
pub fn write_any(w: &mut W, k: usize, misc: u16, c: &Cfg, d: &Dims, ids: &Ids) -> usize {
    let at = w.header(type_of(k, d), misc);
    write_body(w, k, c, d);
    if has_sample_id(k) {
        ids.write(w, c);
    }
    w.finish(at);
    w.len()
}

/// Everything observable on a value: numbers, then bytes.
#[derive(Clone, Default)]
pub struct Flat {
    pub n: Vec<u64>,
    pub b: Vec<u8>,
}
impl Flat {
    pub fn new() -> Flat {
        Flat { n: Vec::with_capacity(160), b: Vec::with_capacity(128) }
    }
    pub fn p(&mut self, x: u64) -> &mut Flat {
        self.n.push(x);
        self
    }
    pub fn o(&mut self, x: Option<u64>) -> &mut Flat {
        match x {
            None => self.p(0),
            Some(x) => self.p(1).p(x),
        }
    }
    pub fn o32(&mut self, x: Option<u32>) -> &mut Flat {
        match x {
            None => self.p(0),
            Some(x) => self.p(1).p(x as u64),
        }
    }
    pub fn bs(&mut self, x: &[u8]) -> &mut Flat {
        self.p(x.len() as u64);
        self.b.extend_from_slice(x);
        self
    }
    pub fn ws(&mut self, x: &[u64]) -> &mut Flat {
        self.p(x.len() as u64);
        self.n.extend_from_slice(x);
        self
    }
    pub fn ids(&mut self, s: &SampleId) -> &mut Flat {
        self.o32(s.pid()).o32(s.tid()).o(s.time()).o(s.id()).o(s.stream_id()).o32(s.cpu())
    }
    pub fn meta(&mut self, m: &RecordMetadata) -> &mut Flat {
        self.p(m.ty() as u64).p(m.misc() as u64);
        self.ids(m.sample_id())
    }
    pub fn group(&mut self, g: &ReadGroup<'_>) -> &mut Flat {
        self.o(g.time_enabled()).o(g.time_running()).p(g.len() as u64);
        for e in g.entries() {
            self.p(e.value()).o(e.id()).o(e.lost());
        }
        self
    }
    pub fn value(&mut self, v: &ReadValue) -> &mut Flat {
        self.p(v.value()).o(v.time_enabled()).o(v.time_running()).o(v.id()).o(v.lost())
    }
    pub fn regs(&mut self, r: Option<&Registers<'_>>) -> &mut Flat {
        match r {
            None => self.p(0),
            Some(r) => self.p(1).p(u64::from(r.abi)).p(r.mask).ws(&r.regs),
        }
    }
    pub fn sample(&mut self, s: &Sample<'_>) -> &mut Flat {
        self.o(s.id()).o(s.ip()).o32(s.pid()).o32(s.tid()).o(s.time()).o(s.addr()).o(s.stream_id()).o32(s.cpu()).o(s.period());
        match s.values() {
            None => {
                self.p(0);
            }
            Some(g) => {
                self.p(1).group(g);
            }
        }
        match s.callchain() {
            None => {
                self.p(0);
            }
            Some(x) => {
                self.p(1).ws(x);
            }
        }
        for x in [s.raw(), s.aux(), s.stack_user()] {
            match x {
                None => {
                    self.p(0);
                }
                Some(x) => {
                    self.p(1).bs(x);
                }
            }
        }
        self.o(s.lbr_hw_index());
        match s.lbr() {
            None => {
                self.p(0);
            }
            Some(l) => {
                self.p(1).p(l.len() as u64);
                for b in l {
                    self.p(b.from()).p(b.to()).p(branch_word(b));
                }
            }
        }
        self.regs(s.regs_user()).regs(s.regs_intr());
        self.o(s.weight()).o(s.data_src().map(|d| src_word(&d))).o(s.transaction().map(|t| t.bits()));
        self.o(s.phys_addr()).o(s.cgroup()).o(s.data_page_size()).o(s.code_page_size())
    }
    pub fn mmap(&mut self, r: &Mmap<'_>) -> &mut Flat {
        self.p(r.pid as u64).p(r.tid as u64).p(r.addr).p(r.len).p(r.pgoff).bs(&r.filename)
    }
    pub fn mmap2(&mut self, r: &Mmap2<'_>) -> &mut Flat {
        self.p(r.pid as u64).p(r.tid as u64).p(r.addr).p(r.len).p(r.pgoff);
        self.p(r.prot as u64).p(r.flags as u64).bs(&r.filename);
        self.o32(r.maj()).o32(r.min()).o(r.ino()).o(r.ino_generation());
        match r.build_id() {
            None => self.p(0),
            Some(b) => self.p(1).bs(b),
        }
    }
    pub fn record(&mut self, r: &Record<'_>) -> &mut Flat {
        match r {
            Record::Mmap(r) => self.p(1).mmap(r),
            Record::Lost(r) => self.p(2).p(r.id).p(r.lost),
            Record::Comm(r) => self.p(3).p(r.pid as u64).p(r.tid as u64).bs(&r.comm),
            Record::Exit(r) => self.p(4).p(r.pid as u64).p(r.ppid as u64).p(r.tid as u64).p(r.ptid as u64).p(r.time),
            Record::Throttle(r) => self.p(5).p(r.time).p(r.id).p(r.stream_id),
            Record::Unthrottle(r) => self.p(6).p(r.time).p(r.id).p(r.stream_id),
            Record::Fork(r) => self.p(7).p(r.pid as u64).p(r.ppid as u64).p(r.tid as u64).p(r.ptid as u64).p(r.time),
            Record::Read(r) => self.p(8).p(r.pid as u64).p(r.tid as u64).value(&r.values),
            Record::Sample(r) => self.p(9).sample(r),
            Record::Mmap2(r) => self.p(10).mmap2(r),
            Record::Aux(r) => self.p(11).p(r.aux_offset).p(r.aux_size).p(r.flags.bits()),
            Record::ITraceStart(r) => self.p(12).p(r.pid as u64).p(r.tid as u64),
            Record::LostSamples(r) => self.p(13).p(r.lost),
            Record::Switch => self.p(14),
            Record::SwitchCpuWide(r) => self.p(15).p(matches!(r, SwitchCpuWide::Out { .. }) as u64).p(r.pid() as u64).p(r.tid() as u64),
            Record::Namespaces(r) => {
                self.p(16).p(r.pid as u64).p(r.tid as u64).p(r.namespaces.len() as u64);
                for e in r.namespaces.iter() {
                    self.p(e.dev).p(e.inode);
                }
                self
            }
            Record::KSymbol(r) => self.p(17).p(r.addr).p(r.len as u64).p(u16::from(r.ksym_type) as u64).p(r.flags.bits() as u64).bs(&r.name),
            Record::BpfEvent(r) => self.p(18).p(u16::from(r.ty) as u64).p(r.flags as u64).p(r.id as u64).bs(&r.tag),
            Record::CGroup(r) => self.p(19).p(r.id).bs(&r.path),
            Record::TextPoke(r) => self.p(20).p(r.addr).bs(&r.old_bytes).bs(&r.new_bytes),
            Record::AuxOutputHwId(r) => self.p(21).p(r.hw_id),
            Record::Unknown { ty, data } => self.p(22).p(*ty as u64).bs(data),
            _ => self.p(99),
        }
    }
    pub fn of(r: &Record<'_>) -> Flat {
        let mut f = Flat::new();
        f.record(r);
        f
    }
}
pub fn kind_code(e: ErrorKind) -> u64 {
    match e {
        ErrorKind::Eof => 1,
        ErrorKind::InvalidRecord => 2,
        ErrorKind::UnsupportedConfig => 3,
        ErrorKind::UnsupportedData => 4,
        ErrorKind::External => 5,
        _ => 6,
    }
}
pub fn flat_same(a: &Flat, b: &Flat) -> bool {
    same64(&a.n, &b.n) & same(&a.b, &b.b)
}
/// Record or error.
pub fn flat_res(r: &ParseResult<Record<'_>>) -> Flat {
    match r {
        Ok(r) => Flat::of(r),
        Err(e) => {
            let mut f = Flat::new();
            f.p(1000 + kind_code(e.kind()));
            f
        }
    }
}

/// A visitor that keeps the record and its metadata.
pub struct Cap;
macro_rules! cap {
    ($($f:ident $t:ty => $v:expr;)*) => {
        $( fn $f(self, r: $t, m: RecordMetadata) -> Self::Output { (Some($v(r)), m) } )*
    };
}
impl<'a> Visitor<'a> for Cap {
    type Output = (Option<Record<'a>>, RecordMetadata);
    fn visit_unimplemented(self, m: RecordMetadata) -> Self::Output {
        (None, m)
    }
    cap! {
        visit_mmap Mmap<'a> => Record::Mmap;
        visit_lost Lost => Record::Lost;
        visit_comm Comm<'a> => Record::Comm;
        visit_exit Exit => Record::Exit;
        visit_throttle Throttle => Record::Throttle;
        visit_unthrottle Throttle => Record::Unthrottle;
        visit_fork Fork => Record::Fork;
        visit_read Read => Record::Read;
        visit_sample Sample<'a> => |r| Record::Sample(Box::new(r));
        visit_mmap2 Mmap2<'a> => Record::Mmap2;
        visit_aux Aux => Record::Aux;
        visit_itrace_start ITraceStart => Record::ITraceStart;
        visit_lost_samples LostSamples => Record::LostSamples;
        visit_switch_cpu_wide SwitchCpuWide => Record::SwitchCpuWide;
        visit_namespaces Namespaces<'a> => Record::Namespaces;
        visit_ksymbol KSymbol<'a> => Record::KSymbol;
        visit_bpf_event BpfEvent => Record::BpfEvent;
        visit_cgroup CGroup<'a> => Record::CGroup;
        visit_text_poke TextPoke<'a> => Record::TextPoke;
        visit_aux_output_hw_id AuxOutputHwId => Record::AuxOutputHwId;
    }
    fn visit_switch(self, m: RecordMetadata) -> Self::Output {
        (Some(Record::Switch), m)
    }
    fn visit_unknown(self, d: Cow<'a, [u8]>, m: RecordMetadata) -> Self::Output {
        (Some(Record::Unknown { ty: m.ty(), data: d }), m)
    }
}
/// Everything a visitor sees of a record: metadata and contents, or the error.
pub fn flat_seen(r: &ParseResult<(Option<Record<'_>>, RecordMetadata)>) -> Flat {
    let mut f = Flat::new();
    match r {
        Ok((r, m)) => {
            f.meta(m);
            match r {
                Some(r) => f.record(r),
                None => f.p(77),
            };
        }
        Err(e) => {
            f.p(1000 + kind_code(e.kind()));
        }
    }
    f
}
/// Parse one record, then expect the sentinel behind it.
pub struct One;
impl Job for One {
    type Out = Flat;
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, mut p: Parser<B, E>) -> Flat {
        let r = p.parse_record(Cap);
        let f = flat_seen(&r);
        drop(r);
        at_sentinel(&mut p);
        f
    }
}
pub fn is_err(f: &Flat) -> bool {
    f.n.len() == 1 && f.n[0] > 1000
}
