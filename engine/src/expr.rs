//! Hash-consed bit-vector expressions with eager simplification.
//! Widths are limited to 128 bits (wider values raise an "unsupported" error).
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum V {
    C(u128, u16),
    S(u32, u16),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var, // a = C(id, 32)
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Extract, // lo in n.lo
    Concat,  // a = hi, b = lo
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub lo: u16,
    pub a: V,
    pub b: V,
    pub c: V,
}

pub const KIND_UNDEF: u32 = 0x8000_0000;
pub const KIND_FROZEN: u32 = 0x4000_0000;

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, u32>,
    vars: Vec<Option<Rc<Vec<u32>>>>,
    topzero: Vec<u16>,  // number of known-zero top bits
    extracts: HashMap<(u32, u16, u16), V>,
    leafcount: Vec<u8>, // number of const leaves of an Ite tree (0 = not a const-ite tree)
}

thread_local! {
    pub static POOL: RefCell<Pool> = RefCell::new(Pool{nodes:vec![],map:HashMap::new(),vars:vec![],topzero:vec![],extracts:HashMap::new(),leafcount:vec![]});
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub struct Unsupported(pub String);
pub fn unsupported(s: String) -> ! {
    std::panic::panic_any(Unsupported(s))
}

const Z: V = V::C(0, 0);

fn intern(op: Op, w: u16, lo: u16, a: V, b: V, c: V) -> V {
    if w > 128 || w == 0 {
        unsupported(format!("bit-vector width {}", w));
    }
    let n = Node { op, w, lo, a, b, c };
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(&i) = p.map.get(&n) {
            return V::S(i, w);
        }
        let i = p.nodes.len() as u32;
        let lc = if op == Op::Ite {
            let f = |v: V, p: &Pool| match v {
                V::C(..) => 1u32,
                V::S(i, _) => p.leafcount[i as usize] as u32,
            };
            let x = f(b, &p);
            let y = f(c, &p);
            if x == 0 || y == 0 || x + y > 24 {
                0
            } else {
                (x + y) as u8
            }
        } else {
            0
        };
        let tz = top_zero_of(&p, &n);
        p.topzero.push(tz);
        p.nodes.push(n);
        p.vars.push(None);
        p.leafcount.push(lc);
        p.map.insert(n, i);
        V::S(i, w)
    })
}

pub fn node(i: u32) -> Node {
    POOL.with(|p| p.borrow().nodes[i as usize])
}
fn leaves(v: V) -> u8 {
    match v {
        V::C(..) => 1,
        V::S(i, _) => POOL.with(|p| p.borrow().leafcount[i as usize]),
    }
}
pub fn pool_len() -> usize {
    POOL.with(|p| p.borrow().nodes.len())
}

impl V {
    pub fn w(self) -> u16 {
        match self {
            V::C(_, w) | V::S(_, w) => w,
        }
    }
    pub fn c(v: u128, w: u16) -> V {
        V::C(v & mask(w), w)
    }
    pub fn b(x: bool) -> V {
        V::C(x as u128, 1)
    }
    pub fn konst(self) -> Option<u128> {
        match self {
            V::C(x, _) => Some(x),
            _ => None,
        }
    }
    pub fn is_true(self) -> bool {
        self == V::C(1, 1)
    }
    pub fn is_false(self) -> bool {
        self == V::C(0, 1)
    }
    fn n(self) -> Option<Node> {
        match self {
            V::S(i, _) => Some(node(i)),
            _ => None,
        }
    }
    fn is0(self) -> bool {
        matches!(self, V::C(0, _))
    }
    fn ones(self) -> bool {
        matches!(self, V::C(x,w) if x==mask(w))
    }
}

pub fn var(id: u32, w: u16) -> V {
    intern(Op::Var, w, 0, V::C(id as u128, 32), Z, Z)
}

pub fn vars_of(v: V) -> Rc<Vec<u32>> {
    match v {
        V::C(..) => Rc::new(vec![]),
        V::S(i, _) => {
            if let Some(x) = POOL.with(|p| p.borrow().vars[i as usize].clone()) {
                return x;
            }
            // iterative post-order to avoid deep recursion
            let mut stack = vec![i];
            while let Some(&t) = stack.last() {
                if POOL.with(|p| p.borrow().vars[t as usize].is_some()) {
                    stack.pop();
                    continue;
                }
                let n = node(t);
                if n.op == Op::Var {
                    let V::C(id, _) = n.a else { unreachable!() };
                    POOL.with(|p| p.borrow_mut().vars[t as usize] = Some(Rc::new(vec![id as u32])));
                    stack.pop();
                    continue;
                }
                let mut ready = true;
                for ch in [n.a, n.b, n.c] {
                    if let V::S(j, _) = ch {
                        if POOL.with(|p| p.borrow().vars[j as usize].is_none()) {
                            stack.push(j);
                            ready = false;
                        }
                    }
                }
                if ready {
                    let mut acc: Option<Rc<Vec<u32>>> = None;
                    for ch in [n.a, n.b, n.c] {
                        if let V::S(j, _) = ch {
                            let s = POOL.with(|p| p.borrow().vars[j as usize].clone().unwrap());
                            acc = Some(match acc {
                                None => s,
                                Some(a) => {
                                    if Rc::ptr_eq(&a, &s) || *a == *s {
                                        a
                                    } else {
                                        let mut m: Vec<u32> = a.iter().chain(s.iter()).copied().collect();
                                        m.sort_unstable();
                                        m.dedup();
                                        if m.len() == a.len() {
                                            a
                                        } else if m.len() == s.len() {
                                            s
                                        } else {
                                            Rc::new(m)
                                        }
                                    }
                                }
                            });
                        }
                    }
                    let acc = acc.unwrap_or_else(|| Rc::new(vec![]));
                    POOL.with(|p| p.borrow_mut().vars[t as usize] = Some(acc));
                    stack.pop();
                }
            }
            POOL.with(|p| p.borrow().vars[i as usize].clone().unwrap())
        }
    }
}

pub fn has_undef(v: V) -> bool {
    match v {
        V::C(..) => false,
        _ => vars_of(v).iter().any(|x| x & KIND_UNDEF != 0),
    }
}

fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}
pub fn to_signed(v: u128, w: u16) -> i128 {
    sx(v, w)
}

fn cbin(op: Op, a: u128, b: u128, w: u16) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                return None;
            }
            (sx(a, w).wrapping_div(sx(b, w))) as u128 & m
        }
        Op::SRem => {
            if b == 0 {
                return None;
            }
            (sx(a, w).wrapping_rem(sx(b, w))) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u16 };
            (sx(a, w) >> s) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        _ => return None,
    })
}

/// hi→lo pieces
fn pieces(v: V, out: &mut Vec<V>) {
    let mut v = v;
    loop {
        match v.n() {
            Some(n) if n.op == Op::Concat => {
                pieces(n.a, out);
                v = n.b;
            }
            _ => {
                out.push(v);
                return;
            }
        }
    }
}

fn from_pieces(ps: Vec<V>) -> V {
    // merge adjacent
    let mut out: Vec<V> = Vec::with_capacity(ps.len());
    for p in ps {
        if let Some(&last) = out.last() {
            match (last, p) {
                (V::C(a, wa), V::C(b, wb)) if wa + wb <= 128 => {
                    *out.last_mut().unwrap() = V::C(a << wb | b, wa + wb);
                    continue;
                }
                (V::S(..), V::S(..)) => {
                    let (src1, lo1, w1) = match last.n() {
                        Some(n) if n.op == Op::Extract => (n.a, n.lo, n.w),
                        _ => (last, 0, last.w()),
                    };
                    let (src2, lo2, w2) = match p.n() {
                        Some(n) if n.op == Op::Extract => (n.a, n.lo, n.w),
                        _ => (p, 0, p.w()),
                    };
                    if src1 == src2 && lo1 == lo2 + w2 {
                        *out.last_mut().unwrap() = extract(src1, lo2, w1 + w2);
                        continue;
                    }
                }
                _ => {}
            }
        }
        out.push(p);
    }
    let mut acc = out.pop().unwrap();
    while let Some(h) = out.pop() {
        acc = intern(Op::Concat, h.w() + acc.w(), 0, h, acc, Z);
    }
    acc
}

pub fn concat(hi: V, lo: V) -> V {
    let mut ps = vec![];
    pieces(hi, &mut ps);
    pieces(lo, &mut ps);
    from_pieces(ps)
}

pub fn concat_all(ps: Vec<V>) -> V {
    let mut o = Vec::with_capacity(ps.len());
    for p in ps {
        pieces(p, &mut o);
    }
    from_pieces(o)
}

pub fn extract(v: V, lo: u16, w: u16) -> V {
    if lo == 0 && w == v.w() {
        return v;
    }
    debug_assert!(lo + w <= v.w());
    match v {
        V::C(x, _) => V::C((x >> lo) & mask(w), w),
        V::S(i, _) => {
            // shared subterms: every one is rewritten once
            if let Some(r) = POOL.with(|p| p.borrow().extracts.get(&(i, lo, w)).copied()) {
                return r;
            }
            let r = extract_new(v, lo, w);
            POOL.with(|p| p.borrow_mut().extracts.insert((i, lo, w), r));
            r
        }
    }
}

fn extract_new(v: V, lo: u16, w: u16) -> V {
    match v {
        V::C(..) => unreachable!(),
        V::S(_, vw) => {
            let n = v.n().unwrap();
            match n.op {
                Op::Extract => extract(n.a, n.lo + lo, w),
                Op::Concat => {
                    let mut ps = vec![];
                    pieces(v, &mut ps);
                    let mut out = vec![];
                    let mut top = vw; // bit above current piece
                    for p in ps {
                        let pl = top - p.w();
                        // piece covers [pl, top)
                        let s = lo.max(pl);
                        let e = (lo + w).min(top);
                        if s < e {
                            out.push(extract(p, s - pl, e - s));
                        }
                        top = pl;
                    }
                    let mut o2 = vec![];
                    for p in out {
                        pieces(p, &mut o2);
                    }
                    from_pieces(o2)
                }
                Op::Ite if leaves(v) > 0 => ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w)),
                Op::Ite if is_splittable(n.b) && is_splittable(n.c) => {
                    ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w))
                }
                Op::And | Op::Or | Op::Xor if is_splittable(n.a) || is_splittable(n.b) => {
                    bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w))
                }
                Op::SExt => {
                    let sw = n.a.w();
                    if lo + w <= sw {
                        extract(n.a, lo, w)
                    } else if lo < sw {
                        sext(extract(n.a, lo, sw - lo), w)
                    } else {
                        sext(extract(n.a, sw - 1, 1), w)
                    }
                }
                Op::Add | Op::Sub | Op::Mul if lo == 0 && (n.b.konst().is_some() || is_splittable(n.a)) => {
                    bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w))
                }
                _ => intern(Op::Extract, w, lo, v, Z, Z),
            }
        }
    }
}

fn is_splittable(v: V) -> bool {
    match v {
        V::C(..) => true,
        _ => matches!(v.n().unwrap().op, Op::Concat | Op::Extract | Op::Var),
    }
}

pub fn zext(v: V, w: u16) -> V {
    if v.w() == w {
        return v;
    }
    if let V::C(x, _) = v {
        return V::C(x, w);
    }
    if leaves(v) > 0 {
        let n = v.n().unwrap();
        return ite(n.a, zext(n.b, w), zext(n.c, w));
    }
    concat(V::C(0, w - v.w()), v)
}

pub fn sext(v: V, w: u16) -> V {
    let vw = v.w();
    if vw == w {
        return v;
    }
    if let V::C(x, _) = v {
        return V::c(sx(x, vw) as u128, w);
    }
    if leaves(v) > 0 {
        let n = v.n().unwrap();
        return ite(n.a, sext(n.b, w), sext(n.c, w));
    }
    if top_zero(v) > 0 {
        return zext(v, w);
    }
    let n = v.n().unwrap();
    if n.op == Op::SExt {
        return intern(Op::SExt, w, 0, n.a, Z, Z);
    }
    intern(Op::SExt, w, 0, v, Z, Z)
}

/// number of known-zero top bits
fn top_zero(v: V) -> u16 {
    POOL.with(|p| top_zero_in(&p.borrow(), v))
}
fn top_zero_in(p: &Pool, v: V) -> u16 {
    match v {
        V::C(x, w) => w - (128 - x.leading_zeros() as u16),
        V::S(i, _) => p.topzero[i as usize],
    }
}
/// the same for a new node
fn top_zero_of(p: &Pool, n: &Node) -> u16 {
    let t = |v: V| top_zero_in(p, v);
    match n.op {
        Op::Concat => {
            let h = t(n.a);
            if h == n.a.w() {
                h + t(n.b)
            } else {
                h
            }
        }
        Op::Ite => t(n.b).min(t(n.c)),
        Op::LShr => t(n.a),
        Op::And => t(n.a).max(t(n.b)),
        Op::UDiv => t(n.a),
        Op::URem => t(n.b),
        Op::Or | Op::Xor => t(n.a).min(t(n.b)),
        Op::Add => t(n.a).min(t(n.b)).saturating_sub(1),
        _ => 0,
    }
}

pub fn not(v: V) -> V {
    bin(Op::Xor, v, V::c(u128::MAX, v.w()))
}

pub fn and1(a: V, b: V) -> V {
    bin(Op::And, a, b)
}
pub fn or1(a: V, b: V) -> V {
    bin(Op::Or, a, b)
}

pub fn ite(c: V, a: V, b: V) -> V {
    if a == b {
        return a;
    }
    match c {
        V::C(1, _) => return a,
        V::C(_, _) => return b,
        _ => {}
    }
    if let Some(n) = c.n() {
        if n.op == Op::Xor && n.b == V::C(1, 1) {
            return ite(n.a, b, a);
        }
    }
    if a.w() == 1 {
        match (a, b) {
            (V::C(1, _), V::C(0, _)) => return c,
            (V::C(0, _), V::C(1, _)) => return not(c),
            (V::C(1, _), _) => return bin(Op::Or, c, b),
            (V::C(0, _), _) => return bin(Op::And, not(c), b),
            (_, V::C(0, _)) => return bin(Op::And, c, a),
            (_, V::C(1, _)) => return bin(Op::Or, not(c), a),
            _ => {}
        }
    }
    // nested same-condition
    if let Some(n) = a.n() {
        if n.op == Op::Ite && n.a == c {
            return ite(c, n.b, b);
        }
    }
    if let Some(n) = b.n() {
        if n.op == Op::Ite && n.a == c {
            return ite(c, a, n.c);
        }
    }
    intern(Op::Ite, a.w(), 0, c, a, b)
}

/// split a and b at common piece boundaries, hi→lo
fn zip_pieces(a: V, b: V) -> Vec<(V, V)> {
    let mut pa = vec![];
    let mut pb = vec![];
    pieces(a, &mut pa);
    pieces(b, &mut pb);
    pa.reverse();
    pb.reverse(); // now lo→hi; pop takes hi
    let mut out = vec![];
    while let (Some(x), Some(y)) = (pa.pop(), pb.pop()) {
        let (wx, wy) = (x.w(), y.w());
        if wx == wy {
            out.push((x, y));
        } else if wx > wy {
            out.push((extract(x, wx - wy, wy), y));
            pa.push(extract(x, 0, wx - wy));
        } else {
            out.push((x, extract(y, wy - wx, wx)));
            pb.push(extract(y, 0, wy - wx));
        }
    }
    out
}

fn runs(x: u128, w: u16) -> u32 {
    ((x ^ (x << 1)) & mask(w)).count_ones() + 1
}

fn mask_pieces(x: u128, w: u16) -> Vec<(bool, u16, u16)> {
    // (bit, lo, width) hi→lo
    let mut out = vec![];
    let mut i = 0;
    while i < w {
        let b = x >> i & 1;
        let mut j = i;
        while j < w && (x >> j & 1) == b {
            j += 1;
        }
        out.push((b == 1, i, j - i));
        i = j;
    }
    out.reverse();
    out
}

fn is_concat(v: V) -> bool {
    matches!(v.n(), Some(n) if n.op==Op::Concat)
}

pub fn bin(op: Op, a: V, b: V) -> V {
    let w = a.w();
    debug_assert_eq!(w, b.w(), "{:?}", op);
    if let (V::C(x, _), V::C(y, _)) = (a, b) {
        if let Some(r) = cbin(op, x, y, w) {
            let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
            return V::C(r, rw);
        }
    }
    // commutative ordering: constants to the right, otherwise by id
    let (a, b) = match op {
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => match (a, b) {
            (V::C(..), V::S(..)) => (b, a),
            (V::S(i, _), V::S(j, _)) if i > j => (b, a),
            _ => (a, b),
        },
        _ => (a, b),
    };
    // push through constant ite trees
    if leaves(a) > 1 && b.konst().is_some() {
        let n = a.n().unwrap();
        return ite(n.a, bin(op, n.b, b), bin(op, n.c, b));
    }
    if leaves(b) > 1 && a.konst().is_some() {
        let n = b.n().unwrap();
        return ite(n.a, bin(op, a, n.b), bin(op, a, n.c));
    }
    match op {
        Op::Add => {
            if b.is0() {
                return a;
            }
            if w == 1 {
                return bin(Op::Xor, a, b);
            }
            if let V::C(y, _) = b {
                if let Some(n) = a.n() {
                    if n.op == Op::Add {
                        if let V::C(x, _) = n.b {
                            return bin(Op::Add, n.a, V::c(x.wrapping_add(y), w));
                        }
                    }
                }
            } else {
                // (x + c) + y  => (x + y) + c
                if let Some(n) = a.n() {
                    if n.op == Op::Add {
                        if let V::C(..) = n.b {
                            return bin(Op::Add, bin(Op::Add, n.a, b), n.b);
                        }
                    }
                    if n.op == Op::Sub && n.b == b {
                        return n.a;
                    }
                }
                if let Some(n) = b.n() {
                    if n.op == Op::Add {
                        if let V::C(..) = n.b {
                            return bin(Op::Add, bin(Op::Add, a, n.a), n.b);
                        }
                    }
                    if n.op == Op::Sub && n.b == a {
                        return n.a;
                    }
                }
                // disjoint support => or
                if is_concat(a) && is_concat(b) {
                    let z = zip_pieces(a, b);
                    if z.iter().all(|(x, y)| x.is0() || y.is0()) {
                        return bin(Op::Or, a, b);
                    }
                }
            }
        }
        Op::Sub => {
            if b.is0() {
                return a;
            }
            if a == b {
                return V::c(0, w);
            }
            if w == 1 {
                return bin(Op::Xor, a, b);
            }
            if let V::C(y, _) = b {
                return bin(Op::Add, a, V::c(y.wrapping_neg(), w));
            }
            if let Some(n) = a.n() {
                if n.op == Op::Add {
                    if n.a == b {
                        return n.b;
                    }
                    if n.b == b {
                        return n.a;
                    }
                    if let V::C(..) = n.b {
                        return bin(Op::Add, bin(Op::Sub, n.a, b), n.b);
                    }
                }
            }
            if let Some(n) = b.n() {
                if n.op == Op::Add {
                    if n.a == a {
                        return bin(Op::Sub, V::c(0, w), n.b);
                    }
                    if n.b == a {
                        return bin(Op::Sub, V::c(0, w), n.a);
                    }
                    if let V::C(y, _) = n.b {
                        return bin(Op::Add, bin(Op::Sub, a, n.a), V::c(y.wrapping_neg(), w));
                    }
                }
                if n.op == Op::Sub && n.a == a {
                    return n.b;
                }
            }
        }
        Op::Mul => {
            if w == 1 {
                return bin(Op::And, a, b);
            }
            if let V::C(y, _) = b {
                if y == 0 {
                    return b;
                }
                if y.is_power_of_two() {
                    return bin(Op::Shl, a, V::c(y.trailing_zeros() as u128, w));
                }
            }
        }
        Op::UDiv => {
            if let V::C(y, _) = b {
                if y.is_power_of_two() {
                    return bin(Op::LShr, a, V::c(y.trailing_zeros() as u128, w));
                }
            }
        }
        Op::URem => {
            if let V::C(y, _) = b {
                if y.is_power_of_two() {
                    return bin(Op::And, a, V::c(y - 1, w));
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if b.is0() {
                return b;
            }
            if b.ones() {
                return a;
            }
            if w == 1 {
                // x & !x
                if bin(Op::Xor, a, V::C(1, 1)) == b {
                    return V::C(0, 1);
                }
            } else if let V::C(y, _) = b {
                if runs(y, w) <= 9 || is_concat(a) {
                    let mut ps = vec![];
                    for (bit, lo, pw) in mask_pieces(y, w) {
                        if bit {
                            pieces(extract(a, lo, pw), &mut ps);
                        } else {
                            ps.push(V::c(0, pw));
                        }
                    }
                    return from_pieces(ps);
                }
            } else if is_concat(a) || is_concat(b) {
                let z = zip_pieces(a, b);
                if z.iter().any(|(x, y)| x.konst().is_some() || y.konst().is_some()) {
                    let mut ps = vec![];
                    for (x, y) in z {
                        pieces(bin(Op::And, x, y), &mut ps);
                    }
                    return from_pieces(ps);
                }
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if b.is0() {
                return a;
            }
            if b.ones() {
                return b;
            }
            if w == 1 {
                if bin(Op::Xor, a, V::C(1, 1)) == b {
                    return V::C(1, 1);
                }
            } else if let V::C(y, _) = b {
                if runs(y, w) <= 9 || is_concat(a) {
                    let mut ps = vec![];
                    for (bit, lo, pw) in mask_pieces(y, w) {
                        if bit {
                            ps.push(V::c(u128::MAX, pw));
                        } else {
                            pieces(extract(a, lo, pw), &mut ps);
                        }
                    }
                    return from_pieces(ps);
                }
            } else if is_concat(a) || is_concat(b) {
                let z = zip_pieces(a, b);
                if z.iter().any(|(x, y)| x.konst().is_some() || y.konst().is_some()) {
                    let mut ps = vec![];
                    for (x, y) in z {
                        pieces(bin(Op::Or, x, y), &mut ps);
                    }
                    return from_pieces(ps);
                }
            }
        }
        Op::Xor => {
            if a == b {
                return V::c(0, w);
            }
            if b.is0() {
                return a;
            }
            if let V::C(y, _) = b {
                if let Some(n) = a.n() {
                    if n.op == Op::Xor {
                        if let V::C(x, _) = n.b {
                            return bin(Op::Xor, n.a, V::c(x ^ y, w));
                        }
                    }
                }
                if w > 1 && is_concat(a) {
                    let mut ps = vec![];
                    for (x, y) in zip_pieces(a, b) {
                        pieces(bin(Op::Xor, x, y), &mut ps);
                    }
                    return from_pieces(ps);
                }
            } else if w > 1 && is_concat(a) && is_concat(b) {
                let z = zip_pieces(a, b);
                if z.iter().any(|(x, y)| x.konst().is_some() || y.konst().is_some()) {
                    let mut ps = vec![];
                    for (x, y) in z {
                        pieces(bin(Op::Xor, x, y), &mut ps);
                    }
                    return from_pieces(ps);
                }
            }
        }
        Op::Shl => {
            if let V::C(y, _) = b {
                if y == 0 {
                    return a;
                }
                if y >= w as u128 {
                    return V::c(0, w);
                }
                let s = y as u16;
                return concat(extract(a, 0, w - s), V::c(0, s));
            }
            if a.is0() {
                return a;
            }
        }
        Op::LShr => {
            if let V::C(y, _) = b {
                if y == 0 {
                    return a;
                }
                if y >= w as u128 {
                    return V::c(0, w);
                }
                let s = y as u16;
                return zext(extract(a, s, w - s), w);
            }
            if a.is0() {
                return a;
            }
        }
        Op::AShr => {
            if let V::C(y, _) = b {
                if y == 0 {
                    return a;
                }
                let s = (y.min(w as u128 - 1)) as u16;
                return sext(extract(a, s, w - s), w);
            }
        }
        Op::Eq => {
            if a == b {
                return V::b(true);
            }
            if w == 1 {
                return not(bin(Op::Xor, a, b));
            }
            if is_concat(a) || is_concat(b) {
                let z = zip_pieces(a, b);
                if b.konst().is_some() || z.iter().any(|(x, y)| (x.konst().is_some() && y.konst().is_some()) || x == y) {
                    // constant mismatch first
                    for (x, y) in &z {
                        if let (V::C(p, _), V::C(q, _)) = (x, y) {
                            if p != q {
                                return V::b(false);
                            }
                        }
                    }
                    let mut acc = V::b(true);
                    for (x, y) in z {
                        acc = bin(Op::And, acc, bin(Op::Eq, x, y));
                    }
                    return acc;
                }
            }
            if let Some(n) = a.n() {
                if let V::C(y, _) = b {
                    match n.op {
                        Op::Add => {
                            if let V::C(x, _) = n.b {
                                return bin(Op::Eq, n.a, V::c(y.wrapping_sub(x), w));
                            }
                        }
                        Op::Xor => {
                            if let V::C(x, _) = n.b {
                                return bin(Op::Eq, n.a, V::c(x ^ y, w));
                            }
                        }
                        Op::Sub if y == 0 => return bin(Op::Eq, n.a, n.b),
                        Op::Ite => {
                            if let V::C(..) = n.b {
                                return ite(n.a, bin(Op::Eq, n.b, b), bin(Op::Eq, n.c, b));
                            }
                            if let V::C(..) = n.c {
                                return ite(n.a, bin(Op::Eq, n.b, b), bin(Op::Eq, n.c, b));
                            }
                        }
                        Op::SExt => {
                            let sw = n.a.w();
                            let lo = V::c(y, sw);
                            if sext(lo, w) == b {
                                return bin(Op::Eq, n.a, lo);
                            } else {
                                return V::b(false);
                            }
                        }
                        _ => {
                            let tz = top_zero(a);
                            if tz > 0 && tz < w && (y >> (w - tz)) != 0 {
                                return V::b(false);
                            }
                        }
                    }
                } else if let Some(m) = b.n() {
                    if n.op == Op::Add && m.op == Op::Add {
                        if n.a == m.a {
                            return bin(Op::Eq, n.b, m.b);
                        }
                    }
                    if n.op == Op::Add && n.a == b {
                        return bin(Op::Eq, n.b, V::c(0, w));
                    }
                    if m.op == Op::Add && m.a == a {
                        return bin(Op::Eq, m.b, V::c(0, w));
                    }
                }
            }
        }
        Op::Ult => {
            if a == b || b.is0() {
                return V::b(false);
            }
            if w == 1 {
                return bin(Op::And, not(a), b);
            }
            if a.ones() {
                return V::b(false);
            }
            if a.is0() {
                return not(bin(Op::Eq, b, V::c(0, w)));
            }
            if b == V::C(1, w) {
                return bin(Op::Eq, a, V::c(0, w));
            }
            let t = top_zero(a).min(top_zero(b));
            if t > 0 && t < w {
                return bin(Op::Ult, extract(a, 0, w - t), extract(b, 0, w - t));
            }
            if let V::C(y, _) = b {
                let ta = top_zero(a);
                if ta > 0 && (y >> (w - ta)) != 0 {
                    return V::b(true);
                }
                if y == mask(w) {
                    return not(bin(Op::Eq, a, b));
                }
            }
            if let V::C(x, _) = a {
                let tb = top_zero(b);
                if tb > 0 && (x >> (w - tb)) != 0 {
                    return V::b(false);
                }
            }
            // x < 2^k  => top bits zero
            if let V::C(y, _) = b {
                if y.is_power_of_two() && is_splittable(a) {
                    let k = y.trailing_zeros() as u16;
                    return bin(Op::Eq, extract(a, k, w - k), V::c(0, w - k));
                }
            }
            if let V::C(x, _) = a {
                let x1 = x + 1;
                if x1.is_power_of_two() && is_splittable(b) {
                    let k = x1.trailing_zeros() as u16;
                    if k < w {
                        return not(bin(Op::Eq, extract(b, k, w - k), V::c(0, w - k)));
                    }
                }
            }
            // equal leading pieces
            if is_concat(a) && (is_concat(b) || b.konst().is_some()) || is_concat(b) && a.konst().is_some() {
                let mut pa = vec![];
                let mut pb = vec![];
                for (x, y) in zip_pieces(a, b) {
                    pa.push(x);
                    pb.push(y);
                }
                let mut k = 0;
                while k < pa.len() && pa[k] == pb[k] {
                    k += 1;
                }
                if k > 0 {
                    return bin(Op::Ult, from_pieces(pa[k..].to_vec()), from_pieces(pb[k..].to_vec()));
                }
            }
        }
        Op::Slt => {
            if a == b {
                return V::b(false);
            }
            if w == 1 {
                return bin(Op::And, a, not(b));
            }
            if top_zero(a) > 0 && top_zero(b) > 0 {
                return bin(Op::Ult, a, b);
            }
            if b.is0() {
                return extract(a, w - 1, 1);
            }
            if a == V::c(u128::MAX, w) {
                // -1 < b  => b >= 0
                return not(extract(b, w - 1, 1));
            }
        }
        _ => {}
    }
    let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
    intern(op, rw, 0, a, b, Z)
}

pub fn eq(a: V, b: V) -> V {
    bin(Op::Eq, a, b)
}
pub fn ult(a: V, b: V) -> V {
    bin(Op::Ult, a, b)
}

/// A model: values of input bytes plus undef/frozen variables.
#[derive(Default, Debug)]
pub struct Model {
    pub vals: HashMap<u32, u128>,
    memo: RefCell<HashMap<u32, u128>>,
}
impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Model {
        Model { vals, memo: Default::default() }
    }
    pub fn eval(&self, v: V) -> u128 {
        match v {
            V::C(x, _) => x,
            V::S(i, _) => {
                if let Some(&x) = self.memo.borrow().get(&i) {
                    return x;
                }
                let mut stack = vec![i];
                while let Some(&t) = stack.last() {
                    if self.memo.borrow().contains_key(&t) {
                        stack.pop();
                        continue;
                    }
                    let n = node(t);
                    if n.op == Op::Var {
                        let V::C(id, _) = n.a else { unreachable!() };
                        let x = self.vals.get(&(id as u32)).copied().unwrap_or(0) & mask(n.w);
                        self.memo.borrow_mut().insert(t, x);
                        stack.pop();
                        continue;
                    }
                    let mut ready = true;
                    for ch in [n.a, n.b, n.c] {
                        if let V::S(j, _) = ch {
                            if !self.memo.borrow().contains_key(&j) {
                                stack.push(j);
                                ready = false;
                            }
                        }
                    }
                    if !ready {
                        continue;
                    }
                    let g = |v: V| match v {
                        V::C(x, _) => x,
                        V::S(j, _) => self.memo.borrow()[&j],
                    };
                    let r = match n.op {
                        Op::Ite => {
                            if g(n.a) == 1 {
                                g(n.b)
                            } else {
                                g(n.c)
                            }
                        }
                        Op::Extract => (g(n.a) >> n.lo) & mask(n.w),
                        Op::Concat => {
                            let lw = n.b.w();
                            (if lw >= 128 { 0 } else { g(n.a) << lw }) | g(n.b)
                        }
                        Op::SExt => sx(g(n.a), n.a.w()) as u128 & mask(n.w),
                        op => {
                            let (x, y) = (g(n.a), g(n.b));
                            let w = n.a.w();
                            match cbin(op, x, y, w) {
                                Some(r) => r,
                                None => match op {
                                    // SMT-LIB division-by-zero semantics
                                    Op::SDiv => {
                                        if sx(x, w) < 0 {
                                            1
                                        } else {
                                            mask(w)
                                        }
                                    }
                                    Op::SRem => x,
                                    _ => unreachable!(),
                                },
                            }
                        }
                    };
                    self.memo.borrow_mut().insert(t, r);
                    stack.pop();
                }
                self.memo.borrow()[&i]
            }
        }
    }
}

/// SMT-LIB text of an expression DAG as nested lets is avoided; we emit define-fun per node.
pub fn smtlib(constraints: &[V]) -> String {
    use std::fmt::Write;
    let mut s = String::from("(set-logic QF_BV)\n");
    let mut seen: HashMap<u32, ()> = HashMap::new();
    fn r(v: V) -> String {
        match v {
            V::C(x, w) => {
                let mut t = String::from("#b");
                for i in (0..w).rev() {
                    t.push(if x >> i & 1 == 1 { '1' } else { '0' });
                }
                t
            }
            V::S(i, _) => format!("n{}", i),
        }
    }
    fn emit(v: V, s: &mut String, seen: &mut HashMap<u32, ()>) {
        let V::S(root, _) = v else { return };
        let mut stack = vec![root];
        while let Some(&i) = stack.last() {
            if seen.contains_key(&i) {
                stack.pop();
                continue;
            }
            let n = node(i);
            if n.op == Op::Var {
                let _ = writeln!(s, "(declare-const n{} (_ BitVec {}))", i, n.w);
                seen.insert(i, ());
                stack.pop();
                continue;
            }
            let mut ready = true;
            for ch in [n.a, n.b, n.c] {
                if let V::S(j, _) = ch {
                    if !seen.contains_key(&j) {
                        stack.push(j);
                        ready = false;
                    }
                }
            }
            if !ready {
                continue;
            }
            let (a, b, c) = (r(n.a), r(n.b), r(n.c));
            let body = match n.op {
                Op::Add => format!("(bvadd {} {})", a, b),
                Op::Sub => format!("(bvsub {} {})", a, b),
                Op::Mul => format!("(bvmul {} {})", a, b),
                Op::UDiv => format!("(bvudiv {} {})", a, b),
                Op::URem => format!("(bvurem {} {})", a, b),
                Op::SDiv => format!("(bvsdiv {} {})", a, b),
                Op::SRem => format!("(bvsrem {} {})", a, b),
                Op::And => format!("(bvand {} {})", a, b),
                Op::Or => format!("(bvor {} {})", a, b),
                Op::Xor => format!("(bvxor {} {})", a, b),
                Op::Shl => format!("(bvshl {} {})", a, b),
                Op::LShr => format!("(bvlshr {} {})", a, b),
                Op::AShr => format!("(bvashr {} {})", a, b),
                Op::Eq => format!("(ite (= {} {}) #b1 #b0)", a, b),
                Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", a, b),
                Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", a, b),
                Op::Ite => format!("(ite (= {} #b1) {} {})", a, b, c),
                Op::Extract => format!("((_ extract {} {}) {})", n.lo + n.w - 1, n.lo, a),
                Op::Concat => format!("(concat {} {})", a, b),
                Op::SExt => format!("((_ sign_extend {}) {})", n.w - n.a.w(), a),
                Op::Var => unreachable!(),
            };
            let _ = writeln!(s, "(define-fun n{} () (_ BitVec {}) {})", i, n.w, body);
            seen.insert(i, ());
            stack.pop();
        }
    }
    for &c in constraints {
        emit(c, &mut s, &mut seen);
    }
    for &c in constraints {
        let _ = writeln!(s, "(assert (= {} #b1))", r(c));
    }
    s.push_str("(check-sat)\n");
    s
}
