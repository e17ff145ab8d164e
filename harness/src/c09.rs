//! C09: the outcome does not depend on how the bytes are delivered.
use crate::common::*;
use crate::gen::*;

fn full(k: usize, v: usize) -> Cfg {
    // two layouts of samples so that every variable part meets every cut; ids everywhere
    let st = if k == K_SAMPLE {
        match v {
            0 => S_IP | S_TID | S_CALLCHAIN | S_RAW | S_READ | S_STACK_USER | S_IDENT,
            1 => S_ID | S_BRANCH | S_REGS_USER | S_REGS_INTR | S_AUX | S_CPU | S_WEIGHT,
            _ => (1 << 25) - 1,
        }
    } else {
        S_TID | S_ID | S_CPU | S_TIME
    };
    let rf = if k == 7 { R_TE | R_ID | R_LOST } else { R_GROUP | R_ID | R_TR };
    Cfg { st, rf, id_all: true, hw: v == 1, ru: 0x9, ri: 0x4 }
}
/// One record with a sentinel behind it.
fn rec(k: usize, be: bool, cfg: &Cfg, d: &Dims) -> W {
    let mut w = W::new(be, 900);
    write_any(&mut w, k, any_misc(k), cfg, d, &Ids::sym());
    w.u64(SENTINEL);
    w
}
fn has_arrays(k: usize) -> bool {
    k == K_SAMPLE || k == 16
}
fn cuts<J: Job>(data: &[u8], cuts: &[usize], temp: bool, hint: bool, be: bool, cfg: &Cfg, j: J) -> J::Out {
    j.run(Parser::new(Chunks::new(data, cuts, temp, hint), cfg.get(en(be))))
}
/// Temporary or borrowed chunks, with and without the number of remaining bytes.
fn flavour() -> (bool, bool) {
    match choose(3) {
        0 => (true, false),
        1 => (true, true),
        _ => (false, true),
    }
}
/// A reader that returns at most `n` bytes at a time.
pub struct Trickle<'a>(pub &'a [u8], pub usize);
impl std::io::Read for Trickle<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = out.len().min(self.1).min(self.0.len());
        out[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// The dims whose only array is the one of variant `v`, and the sample fields.
fn one_array(v: usize, n: usize) -> (usize, Cfg, Dims, usize, usize) {
    let base = Cfg { rf: R_GROUP | R_ID, ru: (1u64 << n) - 1, ..Default::default() };
    let st = |f: u64| Cfg { st: f | S_CGROUP | S_DPAGE | S_CPAGE, ..base };
    // kind, config, dims, offset of the array in the record, its size
    match v {
        0 => (K_SAMPLE, st(S_CALLCHAIN), Dims { chain: n, ..DIMS }, 16, 8 * n),
        1 => (K_SAMPLE, st(S_BRANCH), Dims { lbr: n, ..DIMS }, 16, 24 * n),
        2 => (K_SAMPLE, st(S_REGS_USER), Dims { abi_u: 2, ..DIMS }, 16, 8 * n),
        3 => (K_SAMPLE, st(S_READ), Dims { group: n, ..DIMS }, 16, 16 * n),
        _ => (16, base, Dims { ns: n, ..DIMS }, 24, 16 * n),
    }
}

entries! {
    // every kind of record, cut at every position
    fn c09_cut() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(2) } else { 0 };
        let be = choose(2) == 1;
        let cfg = full(k, v);
        let w = rec(k, be, &cfg, &DIMS);
        let at = 1 + choose(w.len() - 1);
        let a = drive(&w.b, Src::SLICE, be, &cfg, One);
        check(!is_err(&a), "a complete record is decoded");
        let (temp, hint) = flavour();
        let b = cuts(&w.b, &[at], temp, hint, be, &cfg, One);
        check(flat_same(&a, &b), "a cut stream gives the same record");
        cover("cut");
    }
    // long records, few cuts
    fn c09_long() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(3) } else { 0 };
        let be = choose(2) == 1;
        let cfg = full(k, v);
        let w = rec(k, be, &cfg, &BIG);
        let a = drive(&w.b, Src::SLICE, be, &cfg, One);
        check(!is_err(&a), "a complete record is decoded");
        let n = w.len();
        let (temp, hint) = flavour();
        let b = match choose(8) {
            0 => cuts(&w.b, &[n - 1], temp, hint, be, &cfg, One),
            1 => cuts(&w.b, &[n / 2 - 1, n / 2 + 2], temp, hint, be, &cfg, One),
            2 => cuts(&w.b, &[9, n / 3, n / 3 + 1, n / 2, n - 8], temp, hint, be, &cfg, One),
            i => drive(&w.b, Src { kind: 1 + temp as usize, n: [17, 64, 127, 256, 1001][i - 3], hint }, be, &cfg, One),
        };
        check(flat_same(&a, &b), "a long record in pieces is the same");
        cover("long");
    }
    // records of up to 65 kB in pieces of the sizes that are usual for buffers
    fn c09_huge() {
        let k = [2, 8, 10, 16, 20, 22][choose(6)];
        let be = choose(2) == 1;
        let cfg = full(k, 0);
        let w = rec(k, be, &cfg, &HUGE);
        let a = drive(&w.b, Src::SLICE, be, &cfg, One);
        check(!is_err(&a), "a complete record is decoded");
        let src = match choose(4) {
            0 => Src { kind: 1, n: 4096, hint: false },
            1 => Src { kind: 2, n: 8192, hint: true },
            2 => Src { kind: 3, n: 8192, hint: false },
            _ => Src { kind: 2, n: 16385, hint: false },
        };
        let b = drive(&w.b, src, be, &cfg, One);
        check(flat_same(&a, &b), "a long record in pieces is the same");
        cover("huge");
    }
    // chunks of every small size
    fn c09_chunks() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(3) } else { 0 };
        let be = choose(2) == 1;
        let cfg = full(k, v);
        let d = if choose(2) == 1 { DIMS } else { EMPTY };
        let w = rec(k, be, &cfg, &d);
        let a = drive(&w.b, Src::SLICE, be, &cfg, One);
        check(!is_err(&a), "a complete record is decoded");
        let n = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 23, 64][choose(13)];
        let (temp, hint) = flavour();
        let b = drive(&w.b, Src { kind: 1 + temp as usize, n, hint }, be, &cfg, One);
        check(flat_same(&a, &b), "a chunked stream gives the same record");
        cover("chunks");
    }
    // buffered readers with every small capacity, and readers that return few bytes
    fn c09_reader() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(2) } else { 0 };
        let be = choose(2) == 1;
        let cfg = full(k, v);
        let w = rec(k, be, &cfg, &DIMS);
        let a = drive(&w.b, Src::SLICE, be, &cfg, One);
        let cap = [1, 3, 7, 8, 16, 8192][choose(6)];
        let b = match choose(2) {
            0 => drive(&w.b, Src { kind: 3, n: cap, hint: false }, be, &cfg, One),
            _ => One.run(Parser::new(std::io::BufReader::with_capacity(cap, Trickle(&w.b, 5)), cfg.get(en(be)))),
        };
        check(flat_same(&a, &b), "a buffered reader gives the same record");
        cover("reader");
    }
    // two cuts (param: distance class)
    fn c09_cut2() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(2) } else { 0 };
        let be = choose(2) == 1;
        let cfg = full(k, v);
        let w = rec(k, be, &cfg, &DIMS);
        let i = 1 + choose(w.len() - 1);
        let j = i + [1, 2, 3, 7, 8, 17][choose(6)];
        let a = drive(&w.b, Src::SLICE, be, &cfg, One);
        let (temp, hint) = flavour();
        let b = cuts(&w.b, &[i, j], temp, hint, be, &cfg, One);
        check(flat_same(&a, &b), "a stream with two cuts gives the same record");
        cover("two cuts");
    }
    // address of the data: every misalignment
    fn c09_align() {
        let k = choose(KINDS);
        let v = if k == K_SAMPLE { choose(3) } else { 0 };
        let be = choose(2) == 1;
        let cfg = full(k, v);
        let w = rec(k, be, &cfg, &DIMS);
        let a = drive(&w.b, Src::SLICE, be, &cfg, One);
        check(!is_err(&a), "a complete record is decoded");
        let n = 1 + choose(8);
        // native arrays at odd addresses: c09_unaligned
        if !be && has_arrays(k) && n % 8 != 0 { return; }
        let b = drive(&w.b, Src { kind: 0, n, hint: true }, be, &cfg, One);
        check(flat_same(&a, &b), "the address of the data has no influence");
        cover("align");
    }
    // arrays in native byte order at addresses that are not aligned
    fn c09_unaligned() {
        let n = 1 + choose(3);
        let v = choose(5);
        let (k, cfg, d, at, len) = one_array(v, n);
        let mut w = W::new(false, 400);
        write_any(&mut w, k, 0, &cfg, &d, &Ids::sym());
        // more bytes than needed, so that a misread record may still look complete
        w.bytes(&syms8([0, 80][choose(2)]));
        w.finish(0);
        w.u64(SENTINEL);
        let mis = 1 + choose(7);
        let a = drive(&w.b, Src::SLICE, false, &cfg, One);
        check(!is_err(&a), "a complete record is decoded");
        let b = drive(&w.b, Src { kind: 0, n: mis, hint: true }, false, &cfg, One);
        if flat_same(&a, &b) { cover("unaligned array"); return; }
        // known misbehaviour: exactly as if the bytes of the array were missing
        let mut m = W::new(false, 400);
        m.bytes(&w.b[..at]).bytes(&w.b[at + len..w.len() - 8]);
        let size = (w.len() - 8 - len) as u16;
        m.set_size(0, size);
        m.u64(SENTINEL);
        let c = drive(&m.b, Src::SLICE, false, &cfg, One);
        check(flat_same(&b, &c), "an unaligned array is misread in the known way only");
        cover("unaligned array");
        check(false, "an unaligned array in native byte order is read in place");
    }
    // empty arrays, and data that is not an array, at such addresses
    fn c09_unaligned_rest() {
        let k = choose(KINDS);
        let cfg = Cfg { st: S_IP | S_TID | S_READ | S_CALLCHAIN | S_RAW | S_BRANCH | S_REGS_USER | S_STACK_USER | S_AUX | S_TIME, rf: R_GROUP | R_ID, id_all: choose(2) == 1, ru: 7, ..Default::default() };
        let cfg = if k == 7 { Cfg { rf: R_ID, ..cfg } } else { cfg };
        let d = Dims { chain: 0, lbr: 0, group: 0, ns: 0, abi_u: 0, ..DIMS };
        let mut w = W::new(false, 400);
        write_any(&mut w, k, any_misc(k), &cfg, &d, &Ids::sym());
        w.u64(SENTINEL);
        let a = drive(&w.b, Src::SLICE, false, &cfg, One);
        check(!is_err(&a), "a complete record is decoded");
        let b = drive(&w.b, Src { kind: 0, n: 1 + choose(7), hint: true }, false, &cfg, One);
        check(flat_same(&a, &b), "the address of the data has no influence");
        cover("unaligned rest");
    }
    // arbitrary (also malformed) bodies: same outcome, same error
    fn c09_garbage() {
        let k = choose(KINDS);
        let n = [0, 4, 8, 12, 16, 20, 24, 32, 40][choose(9)];
        if k == K_SAMPLE && n > 32 { return; }
        let be = choose(2) == 1;
        let cfg = Cfg { st: if k == K_SAMPLE { [S_CALLCHAIN | S_RAW, S_BRANCH | S_AUX, S_STACK_USER | S_REGS_USER, S_READ | S_AUX][choose(4)] } else { S_ID }, rf: if k == 7 { R_ID } else { R_GROUP }, id_all: true, ru: 3, ..Default::default() };
        let mut w = W::new(be, 100);
        let at = w.header(type_of(k, &DIMS), any_misc(k));
        w.bytes(&syms8(n));
        w.finish(at);
        w.u64(SENTINEL);
        // a RAW part whose size is not that of the kernel leaves the following arrays unaligned
        let src = match choose(3) { 0 => Src { kind: 2, n: 5, hint: false }, 1 => Src { kind: 2, n: 64, hint: true }, _ => Src { kind: 3, n: 9, hint: false } };
        let a = drive(&w.b, Src::SLICE, be, &cfg, One);
        let b = drive(&w.b, src, be, &cfg, One);
        check(flat_same(&a, &b), "an arbitrary record has the same outcome in chunks");
        cover("garbage");
    }
}
