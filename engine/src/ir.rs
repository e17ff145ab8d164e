//! Lazy parser for textual LLVM IR (as emitted by rustc, opaque pointers).
use crate::expr::{unsupported, V};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = Rc<Ty>;
#[derive(Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Array(u64, T),
    Struct(Vec<T>, bool),
    Vector(u64, T),
    Other,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => {
                let bits = n * match &**t {
                    Ty::Int(w) => *w as u64,
                    t => t.size() * 8,
                };
                ((bits + 7) / 8).next_power_of_two()
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                unsupported("field index".into())
            }
            Ty::Array(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.size() * i as u64,
            _ => unsupported("field_off on scalar".into()),
        }
    }
    pub fn elem(&self, i: usize) -> T {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => t.clone(),
            _ => unsupported("elem of scalar".into()),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..))
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => unsupported(format!("bits of {:?}", self)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(V),
    A(Rc<Vec<Val>>),
    U,
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(Rc<str>),
    Dyn(Opd),
}

#[derive(Debug)]
pub enum Inst {
    Bin(u32, BinOp, T, Opd, Opd),
    ICmp(u32, Pred, T, Opd, Opd),
    Cast(u32, Cast, T, Opd, T),
    Select(u32, T, Opd, T, Opd, Opd),
    Alloca(u32, T, Opd, u64),
    Load(u32, T, Opd, u64, Option<Vec<(u128, u128)>>, bool),
    Store(T, Opd, Opd, u64),
    Gep(u32, Opd, i64, Vec<(i64, Opd, u16)>),
    Call(Option<u32>, T, Callee, Vec<(T, Opd)>, Option<u32>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(T, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(T, Opd)>),
    Unreachable,
    Resume,
    LandingPad(u32),
    ExtractValue(u32, T, Opd, Vec<usize>),
    InsertValue(u32, T, Opd, Opd, Vec<usize>),
    ExtractElement(u32, T, Opd, Opd),
    InsertElement(u32, T, Opd, Opd, Opd),
    Shuffle(u32, T, Opd, Opd, Vec<i64>),
    AtomicRmw(u32, String, T, Opd, Opd),
    CmpXchg(u32, T, Opd, Opd, Opd),
    Freeze(u32, T, Opd),
    Nop,
    Bad(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, T, Vec<(Opd, u32)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub ours: bool, // belongs to the crate under test
    pub ret: T,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: Rc<str>,
    pub line: (usize, usize),
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    text: Rc<str>,
    pub func_at: HashMap<String, (usize, usize)>,
    pub declared: HashMap<String, ()>,
    globals: HashMap<String, usize>,
    pub glist: Vec<Global>,
    meta: HashMap<u32, (usize, usize)>,
    named_ty: RefCell<HashMap<String, T>>,
    named_ty_line: HashMap<String, (usize, usize)>,
    funcs: RefCell<HashMap<String, Rc<Func>>>,
    pub fn_ids: RefCell<Vec<Rc<str>>>,
    fn_id_of: RefCell<HashMap<String, u32>>,
    pub aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x4000_0000; // object ids >= FN_BASE denote functions
pub const OBJ_OFF: u64 = 0x1000;

pub fn obj_addr(id: u64) -> u64 {
    (id << 32) + OBJ_OFF
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    W(&'a str),      // word / number / keyword
    L(&'a str),      // %local
    G(&'a str),      // @global
    M(&'a str),      // !metadata
    S(&'a str),      // "string"
    CS(&'a str),     // c"string"
    P(char),
    Attr(&'a str), // #12
}

fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (st, en);
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    st = i + 2;
                    en = j;
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    st = i + 1;
                    en = j;
                    i = j;
                }
                out.push(if c == b'%' { Tok::L(&s[st..en]) } else { Tok::G(&s[st..en]) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::M(&s[i + 1..j]));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Attr(&s[i + 1..j]));
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::S(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::CS(&s[i + 2..j]));
                i = j + 1;
            }
            _ if idc(c) || c == b'+' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                // "..." varargs also lands here
                out.push(Tok::W(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

struct Ps<'a, 'm> {
    t: Vec<Tok<'a>>,
    i: usize,
    m: &'m Module,
    regs: Option<&'m RefCell<HashMap<String, u32>>>,
}

fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "token" | "x86_fp80" | "fp128" | "opaque")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_num(w: &str) -> bool {
    let x = w.strip_prefix('-').unwrap_or(w);
    !x.is_empty() && x.as_bytes()[0].is_ascii_digit()
}
fn is_operand_word(w: &str) -> bool {
    is_num(w)
        || matches!(
            w,
            "null"
                | "true"
                | "false"
                | "undef"
                | "poison"
                | "zeroinitializer"
                | "none"
                | "getelementptr"
                | "inttoptr"
                | "ptrtoint"
                | "ptrtoaddr"
                | "bitcast"
                | "trunc"
                | "sub"
                | "add"
                | "xor"
                | "splat"
                | "addrspacecast"
                | "blockaddress"
                | "dso_local_equivalent"
        )
}

impl<'a, 'm> Ps<'a, 'm> {
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.t.get(self.i).cloned().unwrap_or(Tok::P('\0'));
        self.i += 1;
        t
    }
    fn p(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            unsupported(format!("IR parse: expected {:?} got {:?} near {:?}", c, t, &self.t[self.i.saturating_sub(6)..(self.i + 4).min(self.t.len())]));
        }
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_w(&self, s: &str) -> bool {
        self.peek() == Some(&Tok::W(s))
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.is_w(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::P('\0') => unsupported("paren".into()),
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => is_ty_word(w),
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::L(_)) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> T {
        match self.next() {
            Tok::W("void") => Rc::new(Ty::Void),
            Tok::W("ptr") => {
                if self.is_w("addrspace") {
                    self.i += 1;
                    self.skip_parens();
                }
                Rc::new(Ty::Ptr)
            }
            Tok::W("float") => Rc::new(Ty::Float(32)),
            Tok::W("double") => Rc::new(Ty::Float(64)),
            Tok::W("half") => Rc::new(Ty::Float(16)),
            Tok::W("fp128") => Rc::new(Ty::Float(128)),
            Tok::W("metadata") | Tok::W("label") | Tok::W("token") | Tok::W("opaque") => Rc::new(Ty::Other),
            Tok::W(w) if is_ty_word(w) => Rc::new(Ty::Int(w[1..].parse().unwrap_or_else(|_| unsupported(format!("type {}", w))))),
            Tok::P('[') => {
                let n = self.num_u64();
                self.next(); // x
                let t = self.ty();
                self.p(']');
                Rc::new(Ty::Array(n, t))
            }
            Tok::P('{') => {
                let mut f = vec![];
                while !self.is_p('}') {
                    f.push(self.ty());
                    if self.is_p(',') {
                        self.i += 1;
                    }
                }
                self.p('}');
                Rc::new(Ty::Struct(f, false))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let mut f = vec![];
                    while !self.is_p('}') {
                        f.push(self.ty());
                        if self.is_p(',') {
                            self.i += 1;
                        }
                    }
                    self.p('}');
                    self.p('>');
                    Rc::new(Ty::Struct(f, true))
                } else {
                    let n = self.num_u64();
                    self.next();
                    let t = self.ty();
                    self.p('>');
                    Rc::new(Ty::Vector(n, t))
                }
            }
            Tok::L(n) => self.m.named_type(n),
            t => unsupported(format!("IR type {:?} near {:?}", t, &self.t[self.i.saturating_sub(8)..(self.i + 4).min(self.t.len())])),
        }
    }
    fn num_u64(&mut self) -> u64 {
        match self.next() {
            Tok::W(w) => w.parse().unwrap_or_else(|_| unsupported(format!("number {:?}", w))),
            t => unsupported(format!("number {:?}", t)),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) if !is_operand_word(w) => {
                    let is_align = *w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    } else if is_align {
                        self.i += 1;
                    }
                }
                Some(Tok::S(_)) => {
                    self.i += 1;
                    if self.is_p('=') {
                        self.i += 2;
                    }
                }
                Some(Tok::Attr(_)) => self.i += 1,
                _ => return,
            }
        }
    }
    fn reg(&self, n: &str) -> u32 {
        let mut r = self.regs.unwrap().borrow_mut();
        let l = r.len() as u32;
        if let Some(&x) = r.get(n) {
            return x;
        }
        r.insert(n.to_string(), l);
        l
    }
    fn opd(&mut self, ty: &T) -> Opd {
        if let Some(Tok::L(n)) = self.peek() {
            let n = *n;
            self.i += 1;
            return Opd::Reg(self.reg(n));
        }
        Opd::K(self.konst(ty))
    }
    fn kint(&mut self) -> u64 {
        // type + constant, must be a concrete integer
        let t = self.ty();
        self.skip_attrs();
        match self.konst(&t) {
            Val::I(V::C(x, _)) => x as u64,
            v => unsupported(format!("constexpr operand {:?}", v)),
        }
    }
    fn konst(&mut self, ty: &T) -> Val {
        match self.next() {
            Tok::W("null") => Val::I(V::C(0, 64)),
            Tok::W("true") => Val::I(V::C(1, 1)),
            Tok::W("false") => Val::I(V::C(0, 1)),
            Tok::W("undef") | Tok::W("poison") => Val::U,
            Tok::W("none") => Val::U,
            Tok::W("zeroinitializer") => zero(ty),
            Tok::W("splat") => {
                self.p('(');
                let et = self.ty();
                let v = self.konst(&et);
                self.p(')');
                Val::A(Rc::new(vec![v; ty.count()]))
            }
            Tok::W("inttoptr") | Tok::W("ptrtoint") | Tok::W("ptrtoaddr") | Tok::W("bitcast") | Tok::W("trunc") | Tok::W("addrspacecast") => {
                self.p('(');
                let t = self.ty();
                let v = self.konst(&t);
                self.next(); // to
                let to = self.ty();
                self.p(')');
                match v {
                    Val::I(V::C(x, _)) if !to.is_agg() => Val::I(V::c(x, to.bits())),
                    v => v,
                }
            }
            Tok::W(op @ ("sub" | "add" | "xor")) => {
                while let Some(Tok::W(_)) = self.peek() {
                    self.i += 1;
                }
                self.p('(');
                let t = self.ty();
                let a = self.konst(&t);
                self.p(',');
                let t2 = self.ty();
                let b = self.konst(&t2);
                self.p(')');
                match (a, b) {
                    (Val::I(V::C(x, w)), Val::I(V::C(y, _))) => Val::I(V::c(
                        match op {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            _ => x ^ y,
                        },
                        w,
                    )),
                    _ => unsupported("constexpr arithmetic".into()),
                }
            }
            Tok::W("getelementptr") => {
                while let Some(Tok::W(_)) = self.peek() {
                    self.i += 1;
                    if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(Tok::W("inrange"))) {
                        self.skip_parens();
                    }
                }
                self.p('(');
                let et = self.ty();
                self.p(',');
                let bt = self.ty();
                let Val::I(V::C(base, _)) = self.konst(&bt) else { unsupported("gep base".into()) };
                let mut idx = vec![];
                while self.is_p(',') {
                    self.i += 1;
                    let t = self.ty();
                    let v = self.konst(&t);
                    let Val::I(V::C(x, w)) = v else { unsupported("gep idx".into()) };
                    idx.push(crate::expr::to_signed(x, w) as i64);
                }
                self.p(')');
                let mut off = 0i64;
                let mut cur = et;
                for (k, i) in idx.iter().enumerate() {
                    if k == 0 {
                        off += cur.size() as i64 * i;
                    } else {
                        match &*cur {
                            Ty::Struct(..) => off += cur.field_off(*i as usize) as i64,
                            Ty::Array(_, t) | Ty::Vector(_, t) => off += t.size() as i64 * i,
                            _ => unsupported("gep into scalar".into()),
                        }
                        let e = cur.elem((*i).max(0) as usize);
                        cur = e;
                    }
                }
                Val::I(V::c((base as u64).wrapping_add(off as u64) as u128, 64))
            }
            Tok::W(w) if is_num(w) => match &**ty {
                Ty::Int(bits) => {
                    let neg = w.starts_with('-');
                    let x: u128 = w.trim_start_matches('-').parse().unwrap_or_else(|_| unsupported(format!("const {} : i{}", w, bits)));
                    Val::I(V::c(if neg { x.wrapping_neg() } else { x }, *bits))
                }
                Ty::Float(64) => {
                    if let Some(h) = w.strip_prefix("0x") {
                        Val::I(V::c(u64::from_str_radix(h, 16).unwrap() as u128, 64))
                    } else {
                        Val::I(V::c(w.parse::<f64>().unwrap().to_bits() as u128, 64))
                    }
                }
                Ty::Float(32) => {
                    let d = if let Some(h) = w.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        w.parse::<f64>().unwrap()
                    };
                    Val::I(V::c((d as f32).to_bits() as u128, 32))
                }
                t => unsupported(format!("constant {} of type {:?}", w, t)),
            },
            Tok::G(n) => Val::I(V::C(self.m.addr_of(n) as u128, 64)),
            Tok::CS(s) => Val::A(Rc::new(unescape(s).into_iter().map(|b| Val::I(V::C(b as u128, 8))).collect())),
            Tok::P(o @ ('{' | '[' | '<')) => {
                let mut fs = vec![];
                let packed = o == '<' && self.is_p('{');
                if packed {
                    self.i += 1;
                }
                let close = if packed {
                    '}'
                } else {
                    match o {
                        '{' => '}',
                        '[' => ']',
                        _ => '>',
                    }
                };
                while !self.is_p(close) {
                    let t = self.ty();
                    fs.push(self.konst(&t));
                    if self.is_p(',') {
                        self.i += 1;
                    }
                }
                self.p(close);
                if packed {
                    self.p('>');
                }
                Val::A(Rc::new(fs))
            }
            Tok::M(_) => Val::U,
            t => unsupported(format!("IR constant {:?} near {:?}", t, &self.t[self.i.saturating_sub(8)..(self.i + 4).min(self.t.len())])),
        }
    }
}

pub fn zero(ty: &T) -> Val {
    match &**ty {
        Ty::Int(_) | Ty::Ptr | Ty::Float(_) => Val::I(V::C(0, ty.bits())),
        Ty::Array(n, t) | Ty::Vector(n, t) => Val::A(Rc::new(vec![zero(t); *n as usize])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero).collect())),
        _ => Val::U,
    }
}

fn name_of(s: &str) -> (&str, usize) {
    // s begins at '@' ; returns name and index after it
    let b = s.as_bytes();
    if b[1] == b'"' {
        let e = s[2..].find('"').unwrap() + 2;
        (&s[2..e], e + 1)
    } else {
        let mut j = 1;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) {
            j += 1;
        }
        (&s[1..j], j)
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: Rc<str> = std::fs::read_to_string(path).expect("read .ll").into();
        let mut m = Module {
            text: text.clone(),
            func_at: HashMap::new(),
            declared: HashMap::new(),
            globals: HashMap::new(),
            glist: vec![],
            meta: HashMap::new(),
            named_ty: Default::default(),
            named_ty_line: HashMap::new(),
            funcs: Default::default(),
            fn_ids: Default::default(),
            fn_id_of: Default::default(),
            aliases: HashMap::new(),
        };
        let mut pos = 0;
        let mut cur: Option<(String, usize)> = None;
        for line in text.split_inclusive('\n') {
            let st = pos;
            pos += line.len();
            if cur.is_some() {
                if line.starts_with('}') {
                    let (n, s) = cur.take().unwrap();
                    m.func_at.insert(n, (s, pos));
                }
                continue;
            }
            if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let (n, _) = name_of(&line[at..]);
                cur = Some((n.to_string(), st));
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let (n, _) = name_of(&line[at..]);
                m.declared.insert(n.to_string(), ());
            } else if line.starts_with('@') {
                let (n, e) = name_of(line);
                let rest = &line[e..];
                let head: Vec<&str> = rest.split_whitespace().take(12).collect();
                if head.contains(&"alias") {
                    let last = rest.rfind('@').unwrap();
                    let (t, _) = name_of(&rest[last..]);
                    m.aliases.insert(n.to_string(), t.to_string());
                    continue;
                }
                let mut constant = false;
                for w in &head {
                    if *w == "constant" {
                        constant = true;
                        break;
                    }
                    if *w == "global" {
                        break;
                    }
                }
                let external = head.iter().take(4).any(|w| *w == "external" || *w == "extern_weak");
                m.globals.insert(n.to_string(), m.glist.len());
                m.glist.push(Global { name: n.into(), line: (st + e, pos), constant, external });
            } else if line.starts_with('!') {
                let b = line.as_bytes();
                if b.len() > 1 && b[1].is_ascii_digit() {
                    if let Some(eqp) = line.find(" = !{i") {
                        if let Ok(n) = line[1..eqp].parse::<u32>() {
                            m.meta.insert(n, (st + eqp + 4, pos));
                        }
                    }
                }
            } else if line.starts_with('%') {
                if let Some(e) = line.find(" = type ") {
                    let n = line[1..e].trim_matches('"').to_string();
                    m.named_ty_line.insert(n, (st + e + 8, pos));
                }
            }
        }
        m
    }
    fn named_type(&self, n: &str) -> T {
        if let Some(t) = self.named_ty.borrow().get(n) {
            return t.clone();
        }
        let (s, e) = *self.named_ty_line.get(n).unwrap_or_else(|| unsupported(format!("named type %{}", n)));
        let mut p = Ps { t: lex(&self.text[s..e]), i: 0, m: self, regs: None };
        let t = p.ty();
        self.named_ty.borrow_mut().insert(n.to_string(), t.clone());
        t
    }
    /// Address of a global or function. Global k has object id k+1.
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(a) = self.aliases.get(n) {
            return self.addr_of(a);
        }
        if let Some(&g) = self.globals.get(n) {
            return obj_addr(g as u64 + 1);
        }
        if let Some(&i) = self.fn_id_of.borrow().get(n) {
            return obj_addr(FN_BASE + i as u64);
        }
        let i = self.fn_ids.borrow().len() as u32;
        self.fn_ids.borrow_mut().push(n.into());
        self.fn_id_of.borrow_mut().insert(n.to_string(), i);
        obj_addr(FN_BASE + i as u64)
    }
    pub fn fn_by_addr(&self, a: u64) -> Option<Rc<str>> {
        let id = a >> 32;
        if id >= FN_BASE && a & 0xffff_ffff == OBJ_OFF {
            self.fn_ids.borrow().get((id - FN_BASE) as usize).cloned()
        } else {
            None
        }
    }
    /// (type, initializer, align)
    pub fn global_init(&self, g: usize) -> (T, Option<Val>, u64) {
        let (s, e) = self.glist[g].line;
        let mut p = Ps { t: lex(&self.text[s..e]), i: 0, m: self, regs: None };
        loop {
            match p.next() {
                Tok::W("constant") | Tok::W("global") => break,
                Tok::W(_) => {
                    if p.is_p('(') {
                        p.skip_parens();
                    }
                }
                Tok::P('=') => {}
                Tok::P('\0') => unsupported(format!("global {}", self.glist[g].name)),
                _ => {}
            }
        }
        let t = p.ty();
        let init = if self.glist[g].external { None } else { Some(p.konst(&t)) };
        let mut align = t.align();
        while let Some(tok) = p.t.get(p.i) {
            if *tok == Tok::W("align") {
                if let Some(Tok::W(n)) = p.t.get(p.i + 1) {
                    align = n.parse().unwrap_or(align);
                }
            }
            p.i += 1;
        }
        (t, init, align)
    }
    fn range_meta(&self, n: u32) -> Option<Vec<(u128, u128)>> {
        let (s, e) = *self.meta.get(&n)?;
        let mut p = Ps { t: lex(&self.text[s..e]), i: 0, m: self, regs: None };
        p.p('{');
        let mut v = vec![];
        while !p.is_p('}') {
            let t = p.ty();
            if !matches!(&*t, Ty::Int(_)) {
                return None;
            }
            match p.konst(&t) {
                Val::I(V::C(x, _)) => v.push(x),
                _ => return None,
            }
            if p.is_p(',') {
                p.i += 1;
            }
        }
        Some(v.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect())
    }
    pub fn func(&self, name: &str) -> Option<Rc<Func>> {
        if let Some(a) = self.aliases.get(name) {
            return self.func(a);
        }
        if let Some(f) = self.funcs.borrow().get(name) {
            return Some(f.clone());
        }
        let (s, e) = *self.func_at.get(name)?;
        let f = Rc::new(self.parse_func(name, &self.text[s..e]));
        self.funcs.borrow_mut().insert(name.to_string(), f.clone());
        Some(f)
    }
    fn parse_func(&self, name: &str, text: &str) -> Func {
        let mut lines: Vec<String> = vec![];
        for l in text.lines() {
            if l.is_empty() || l.trim_start().starts_with("#dbg_") || l.trim_start().starts_with(';') {
                continue;
            }
            let cont = l.starts_with("   ") || l.trim_start().starts_with(']');
            if cont && !lines.is_empty() {
                let x = lines.last_mut().unwrap();
                x.push(' ');
                x.push_str(l.trim_start());
            } else {
                lines.push(l.to_string());
            }
        }
        let regs = RefCell::new(HashMap::new());
        let regs_ref: &RefCell<HashMap<String, u32>> = unsafe { &*(&regs as *const _) };
        // header
        let mut params = vec![];
        let mut unnamed = 0;
        let ret;
        {
            let mut p = Ps { t: lex(&lines[0]), i: 1, m: self, regs: Some(regs_ref) };
            while !p.at_type() {
                p.i += 1;
                if p.is_p('(') {
                    p.skip_parens();
                }
            }
            ret = p.ty();
            while !matches!(p.peek(), Some(Tok::G(_))) {
                p.i += 1;
            }
            p.i += 1;
            p.p('(');
            while !p.is_p(')') {
                if let Some(Tok::W("...")) = p.peek() {
                    p.i += 1;
                    continue;
                }
                p.ty();
                p.skip_attrs();
                match p.next() {
                    Tok::L(n) => {
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(p.reg(n))
                    }
                    t => unsupported(format!("param {:?} of {}", t, name)),
                }
                if p.is_p(',') {
                    p.i += 1;
                }
            }
        }
        // block labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut bodies: Vec<Vec<&str>> = vec![];
        for l in &lines[1..] {
            if l.starts_with('}') {
                break;
            }
            if !l.starts_with(' ') {
                let lab = if let Some(r) = l.strip_prefix('"') { &r[..r.find('"').unwrap()] } else { &l[..l.find(':').unwrap()] };
                labels.insert(lab.to_string(), bodies.len() as u32);
                bodies.push(vec![]);
            } else {
                if bodies.is_empty() {
                    labels.insert(format!("{}", unnamed), 0);
                    bodies.push(vec![]);
                }
                bodies.last_mut().unwrap().push(l);
            }
        }
        let mut blocks = vec![];
        for b in &bodies {
            let mut blk = Block { phis: vec![], insts: vec![] };
            for l in b {
                let mut p = Ps { t: lex(l), i: 0, m: self, regs: Some(regs_ref) };
                self.parse_inst(&mut p, &labels, &mut blk, l);
            }
            blocks.push(blk);
        }
        let nregs = regs.borrow().len();
        Func { name: name.into(), params, nregs, blocks, ours: name.contains("perf_event_data"), ret }
    }
    fn parse_inst(&self, p: &mut Ps, labels: &HashMap<String, u32>, blk: &mut Block, raw: &str) {
        let mut dst = None;
        if let (Some(Tok::L(n)), Some(Tok::P('='))) = (p.t.get(0), p.t.get(1)) {
            dst = Some(p.reg(n));
            p.i = 2;
        }
        let lab = |p: &mut Ps| -> u32 {
            // "label %x"
            if p.is_w("label") {
                p.i += 1;
            }
            match p.next() {
                Tok::L(n) => *labels.get(n).unwrap_or_else(|| unsupported(format!("label {}", n))),
                t => unsupported(format!("label {:?}", t)),
            }
        };
        let mut op = match p.next() {
            Tok::W(w) => w,
            t => unsupported(format!("IR instruction {:?}: {}", t, raw)),
        };
        while matches!(op, "tail" | "musttail" | "notail") {
            op = match p.next() {
                Tok::W(w) => w,
                _ => unsupported(raw.into()),
            };
        }
        let d = dst.unwrap_or(u32::MAX);
        let skip_flags = |p: &mut Ps| {
            while let Some(Tok::W(w)) = p.peek() {
                if matches!(*w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "samesign" | "nusw" | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "reassoc" | "afn") {
                    p.i += 1;
                } else if *w == "inrange" {
                    p.i += 1;
                    p.skip_parens();
                } else {
                    break;
                }
            }
        };
        let binop = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(b) = binop {
            skip_flags(p);
            let t = p.ty();
            let x = p.opd(&t);
            p.p(',');
            let y = p.opd(&t);
            blk.insts.push(Inst::Bin(d, b, t, x, y));
            return;
        }
        let cast = match op {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr),
            "bitcast" | "addrspacecast" => Some(Cast::BitCast),
            _ => None,
        };
        if let Some(c) = cast {
            skip_flags(p);
            let t = p.ty();
            let x = p.opd(&t);
            p.next(); // to
            let to = p.ty();
            blk.insts.push(Inst::Cast(d, c, t, x, to));
            return;
        }
        let inst = match op {
            "icmp" => {
                skip_flags(p);
                let pr = match p.next() {
                    Tok::W("eq") => Pred::Eq,
                    Tok::W("ne") => Pred::Ne,
                    Tok::W("ugt") => Pred::Ugt,
                    Tok::W("uge") => Pred::Uge,
                    Tok::W("ult") => Pred::Ult,
                    Tok::W("ule") => Pred::Ule,
                    Tok::W("sgt") => Pred::Sgt,
                    Tok::W("sge") => Pred::Sge,
                    Tok::W("slt") => Pred::Slt,
                    Tok::W("sle") => Pred::Sle,
                    t => unsupported(format!("icmp {:?}", t)),
                };
                let t = p.ty();
                let x = p.opd(&t);
                p.p(',');
                let y = p.opd(&t);
                Inst::ICmp(d, pr, t, x, y)
            }
            "select" => {
                skip_flags(p);
                let ct = p.ty();
                let c = p.opd(&ct);
                p.p(',');
                let t = p.ty();
                let x = p.opd(&t);
                p.p(',');
                let t2 = p.ty();
                let y = p.opd(&t2);
                Inst::Select(d, ct, c, t, x, y)
            }
            "phi" => {
                skip_flags(p);
                let t = p.ty();
                let mut v = vec![];
                loop {
                    p.p('[');
                    let x = p.opd(&t);
                    p.p(',');
                    let l = lab(p);
                    p.p(']');
                    v.push((x, l));
                    if p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::P('['))) {
                        p.i += 1;
                    } else {
                        break;
                    }
                }
                blk.phis.push((d, t, v));
                return;
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = p.ty();
                let mut n = Opd::K(Val::I(V::C(1, 64)));
                let mut al = t.align();
                while p.is_p(',') {
                    p.i += 1;
                    if p.is_w("align") {
                        p.i += 1;
                        al = p.num_u64();
                    } else if matches!(p.peek(), Some(Tok::M(_))) {
                        break;
                    } else if p.is_w("addrspace") {
                        p.i += 1;
                        p.skip_parens();
                    } else {
                        let ct = p.ty();
                        n = p.opd(&ct);
                    }
                }
                Inst::Alloca(d, t, n, al)
            }
            "load" => {
                skip_flags(p);
                let t = p.ty();
                p.p(',');
                let pt = p.ty();
                let x = p.opd(&pt);
                let mut al = 1;
                let mut range = None;
                let mut noundef = false;
                while let Some(tok) = p.t.get(p.i).cloned() {
                    match tok {
                        Tok::W("align") => {
                            if let Some(Tok::W(n)) = p.t.get(p.i + 1) {
                                al = n.parse().unwrap();
                            }
                        }
                        Tok::M("range") => {
                            if let Some(Tok::M(n)) = p.t.get(p.i + 1) {
                                if let Ok(n) = n.parse() {
                                    range = self.range_meta(n);
                                }
                            }
                        }
                        Tok::M("noundef") => noundef = true,
                        _ => {}
                    }
                    p.i += 1;
                }
                Inst::Load(d, t, x, al, range, noundef)
            }
            "store" => {
                skip_flags(p);
                let t = p.ty();
                let v = p.opd(&t);
                p.p(',');
                let pt = p.ty();
                let x = p.opd(&pt);
                let mut al = 1;
                while let Some(tok) = p.t.get(p.i) {
                    if *tok == Tok::W("align") {
                        if let Some(Tok::W(n)) = p.t.get(p.i + 1) {
                            al = n.parse().unwrap();
                        }
                    }
                    p.i += 1;
                }
                Inst::Store(t, v, x, al)
            }
            "getelementptr" => {
                skip_flags(p);
                let et = p.ty();
                p.p(',');
                let bt = p.ty();
                if bt.is_agg() {
                    unsupported("vector gep".into());
                }
                let base = p.opd(&bt);
                let mut off = 0i64;
                let mut dynidx = vec![];
                let mut cur = et;
                let mut k = 0;
                while p.is_p(',') {
                    p.i += 1;
                    if matches!(p.peek(), Some(Tok::M(_))) {
                        break;
                    }
                    let t = p.ty();
                    let x = p.opd(&t);
                    let scale;
                    if k == 0 {
                        scale = cur.size() as i64;
                    } else if let Ty::Struct(..) = &*cur {
                        let Opd::K(Val::I(V::C(i, _))) = x else { unsupported("gep struct idx".into()) };
                        off = off.wrapping_add(cur.field_off(i as usize) as i64);
                        let e = cur.elem(i as usize);
                        cur = e;
                        k += 1;
                        continue;
                    } else {
                        let e = cur.elem(0);
                        cur = e;
                        scale = cur.size() as i64;
                    }
                    match x {
                        Opd::K(Val::I(V::C(i, w))) => off = off.wrapping_add((crate::expr::to_signed(i, w) as i64).wrapping_mul(scale)),
                        Opd::K(_) => unsupported("gep idx const".into()),
                        x => dynidx.push((scale, x, t.bits())),
                    }
                    k += 1;
                }
                Inst::Gep(d, base, off, dynidx)
            }
            "call" | "invoke" => {
                // [cc] [ret attrs] ty callee(args)
                loop {
                    if p.at_type() {
                        break;
                    }
                    p.i += 1;
                    if p.is_p('(') {
                        p.skip_parens();
                    } else if p.t.get(p.i - 1) == Some(&Tok::W("align")) {
                        p.i += 1;
                    }
                    if p.i > p.t.len() {
                        unsupported(raw.into());
                    }
                }
                let rt = p.ty();
                if p.is_p('(') {
                    p.skip_parens();
                }
                let callee = match p.next() {
                    Tok::G(n) => Callee::Name(n.into()),
                    Tok::L(n) => Callee::Dyn(Opd::Reg(p.reg(n))),
                    Tok::W("asm") => {
                        // empty inline asm (compiler barriers) has no effect
                        let mut strs = vec![];
                        while let Some(t) = p.peek() {
                            match t {
                                Tok::W(_) => {
                                    p.i += 1;
                                }
                                Tok::S(s) => {
                                    strs.push(s.to_string());
                                    p.i += 1;
                                    if p.is_p(',') {
                                        p.i += 1;
                                    } else {
                                        break;
                                    }
                                }
                                _ => break,
                            }
                        }
                        if strs.first().map(|s| s.is_empty()) == Some(true) {
                            blk.insts.push(Inst::Nop);
                        } else {
                            blk.insts.push(Inst::Bad(format!("inline asm: {}", raw.trim())));
                        }
                        return;
                    }
                    t => unsupported(format!("callee {:?}: {}", t, raw)),
                };
                p.p('(');
                let mut args = vec![];
                while !p.is_p(')') {
                    let t = p.ty();
                    if let Ty::Other = &*t {
                        // metadata argument
                        let mut dpt = 0;
                        while let Some(tk) = p.peek() {
                            match tk {
                                Tok::P('(') | Tok::P('{') => dpt += 1,
                                Tok::P(')') | Tok::P('}') if dpt > 0 => dpt -= 1,
                                Tok::P(',') | Tok::P(')') if dpt == 0 => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push((t, Opd::K(Val::U)));
                    } else {
                        p.skip_attrs();
                        let x = p.opd(&t);
                        args.push((t, x));
                    }
                    if p.is_p(',') {
                        p.i += 1;
                    }
                }
                p.p(')');
                let mut normal = None;
                if op == "invoke" {
                    while !p.is_w("to") {
                        p.i += 1;
                        if p.i > p.t.len() {
                            unsupported(raw.into());
                        }
                    }
                    p.i += 1;
                    normal = Some(lab(p));
                }
                Inst::Call(dst, rt, callee, args, normal)
            }
            "br" => {
                if p.is_w("label") {
                    Inst::Br(lab(p))
                } else {
                    let t = p.ty();
                    let c = p.opd(&t);
                    p.p(',');
                    let a = lab(p);
                    p.p(',');
                    let b = lab(p);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = p.ty();
                let x = p.opd(&t);
                p.p(',');
                let df = lab(p);
                p.p('[');
                let mut cs = vec![];
                while !p.is_p(']') {
                    let ct = p.ty();
                    let Val::I(V::C(k, _)) = p.konst(&ct) else { unsupported("switch case".into()) };
                    p.p(',');
                    let l = lab(p);
                    cs.push((k, l));
                }
                Inst::Switch(t, x, df, cs)
            }
            "ret" => {
                let t = p.ty();
                if let Ty::Void = &*t {
                    Inst::Ret(None)
                } else {
                    let x = p.opd(&t);
                    Inst::Ret(Some((t, x)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Resume,
            "landingpad" => Inst::LandingPad(d),
            "extractvalue" => {
                let t = p.ty();
                let x = p.opd(&t);
                let mut ix = vec![];
                while p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::W(_))) {
                    p.i += 1;
                    ix.push(p.num_u64() as usize);
                }
                Inst::ExtractValue(d, t, x, ix)
            }
            "insertvalue" => {
                let t = p.ty();
                let x = p.opd(&t);
                p.p(',');
                let t2 = p.ty();
                let y = p.opd(&t2);
                let mut ix = vec![];
                while p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::W(_))) {
                    p.i += 1;
                    ix.push(p.num_u64() as usize);
                }
                Inst::InsertValue(d, t, x, y, ix)
            }
            "extractelement" => {
                let t = p.ty();
                let x = p.opd(&t);
                p.p(',');
                let it = p.ty();
                let i = p.opd(&it);
                Inst::ExtractElement(d, t, x, i)
            }
            "insertelement" => {
                let t = p.ty();
                let x = p.opd(&t);
                p.p(',');
                let et = p.ty();
                let e = p.opd(&et);
                p.p(',');
                let it = p.ty();
                let i = p.opd(&it);
                Inst::InsertElement(d, t, x, e, i)
            }
            "shufflevector" => {
                let t = p.ty();
                let x = p.opd(&t);
                p.p(',');
                let t2 = p.ty();
                let y = p.opd(&t2);
                p.p(',');
                let mt = p.ty();
                let m = p.konst(&mt);
                let n = mt.count();
                let mk: Vec<i64> = match m {
                    Val::A(v) => v
                        .iter()
                        .map(|e| match e {
                            Val::I(V::C(x, _)) => *x as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => vec![-1; n],
                };
                Inst::Shuffle(d, t, x, y, mk)
            }
            "atomicrmw" => {
                skip_flags(p);
                let Tok::W(o) = p.next() else { unsupported(raw.into()) };
                let pt = p.ty();
                let ptr = p.opd(&pt);
                p.p(',');
                let t = p.ty();
                let v = p.opd(&t);
                Inst::AtomicRmw(d, o.to_string(), t, ptr, v)
            }
            "cmpxchg" => {
                p.eat_w("weak");
                skip_flags(p);
                let pt = p.ty();
                let ptr = p.opd(&pt);
                p.p(',');
                let t = p.ty();
                let c = p.opd(&t);
                p.p(',');
                let t2 = p.ty();
                let n = p.opd(&t2);
                Inst::CmpXchg(d, t, ptr, c, n)
            }
            "freeze" => {
                let t = p.ty();
                let x = p.opd(&t);
                Inst::Freeze(d, t, x)
            }
            "fence" => Inst::Nop,
            _ => Inst::Bad(raw.trim().to_string()),
        };
        blk.insts.push(inst);
    }
}
