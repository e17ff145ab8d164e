//! Path-exploring symbolic executor over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Const,
    Global,
    Stack,
    Heap,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub alive: bool,
    bytes: Vec<u8>,
    mask: Vec<u8>, // 0 undef, 1 concrete, 2 symbolic
    sym: Vec<u32>,
    /// Allocation of symbolic size: `size` is only its upper bound.
    ssize: Option<V>,
}
impl Obj {
    fn new(size: u64, align: u64, kind: Kind) -> Obj {
        Obj { size, align, kind, alive: true, bytes: vec![0; size as usize], mask: vec![0; size as usize], sym: vec![], ssize: None }
    }
    fn set(&mut self, o: usize, v: Option<V>) {
        match v {
            None => self.mask[o] = 0,
            Some(V::C(x, _)) => {
                self.bytes[o] = x as u8;
                self.mask[o] = 1;
            }
            Some(V::S(i, _)) => {
                if self.sym.is_empty() {
                    self.sym = vec![0; self.size as usize];
                }
                self.sym[o] = i;
                self.mask[o] = 2;
            }
        }
    }
    fn get(&self, o: usize) -> Option<V> {
        match self.mask[o] {
            0 => None,
            1 => Some(V::C(self.bytes[o] as u128, 8)),
            _ => Some(V::S(self.sym[o], 8)),
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    block: u32,
    ip: usize,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    ret: Option<u32>,
    normal: Option<u32>,
}

const CH: usize = 32;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    objs: Vec<Rc<Chunk>>, // dynamic objects, id = nglobals + index
    nobj: u64,
    gmut: HashMap<u64, Rc<Obj>>,
    pc: Vec<V>,
    pcset: HashSet<u32>,
    /// nodes whose value is implied by the path condition
    known: Rc<HashMap<u32, V>>,
    model: Rc<Model>,
    ninput: u32,
    nundef: u32,
    steps: u64,
    alloc_limit: u64,
    heap_live: u64,
    heap_bytes: u64,
    heap_peak: u64,
    heap_max: u64,
    notes: Vec<Rc<str>>,
    depth: u32,
    /// hash of the check/cover labels passed so far; the native replay computes the same
    trace: u64,
}

pub enum Stop {
    Done,
    Infeasible,
    Viol(String, String),
    Err(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
    pub notes: Vec<String>,
}

pub struct Config {
    pub param: u64,
    pub max_steps: u64,
    pub max_paths: u64,
    pub time_limit_s: f64,
    pub max_viol: usize,
    /// labels of known findings: recorded once, they do not count as violations
    pub known: Vec<String>,
    pub concrete: Option<Vec<u8>>,
    pub max_samples: usize,
}

fn fnv(mut h: u64, s: &[u8]) -> u64 {
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    (h ^ 0xff).wrapping_mul(0x100000001b3)
}

pub struct Engine {
    pub m: Module,
    pub s: Solver,
    pub cfg: Config,
    globals: HashMap<u64, Rc<Obj>>,
    nglob: u64,
    work: Vec<State>,
    pub viols: Vec<Violation>,
    pub errors: Vec<String>,
    pub paths: u64,
    pub forks: u64,
    pub instrs: u64,
    pub our_instrs: u64,
    pub checks: BTreeMap<String, [u64; 4]>, // label -> trivially true, solver-proved, violated, concrete
    pub covers: BTreeMap<String, u64>,
    pub func_hits: HashMap<Rc<str>, u64>,
    pub samples: Vec<(Vec<u8>, u64)>,
    t0: Instant,
    pub outputs: Vec<String>,
    viol_model: Option<Rc<Model>>,
}

enum Flow {
    Next,
    Jumped,
    Fork(Vec<State>), // replaces current state; all re-queued
}

/// Record what a path constraint says about the value of sub-expressions.
fn learn(st: &mut State, c: V) {
    let k = Rc::make_mut(&mut st.known);
    let V::S(i, _) = c else { return };
    k.insert(i, V::C(1, 1));
    if let V::S(j, _) = not(c) {
        k.insert(j, V::C(0, 1));
    }
    let n = node(i);
    if n.op == Op::Eq {
        match (n.a, n.b) {
            (V::S(j, _), V::C(..)) => {
                k.insert(j, n.b);
            }
            (V::C(..), V::S(j, _)) => {
                k.insert(j, n.a);
            }
            _ => {}
        }
    }
}
/// One-level rewriting with the facts of the path condition.
fn shallow(st: &State, mut v: V) -> V {
    while let V::S(i, _) = v {
        if let Some(k) = st.known.get(&i) {
            return *k;
        }
        let n = node(i);
        if n.op == Op::Ite {
            if let V::S(c, _) = n.a {
                match st.known.get(&c) {
                    Some(V::C(1, _)) => v = n.b,
                    Some(V::C(..)) => v = n.c,
                    _ => break,
                }
                continue;
            }
        }
        break;
    }
    v
}
/// Rewrite v with the facts of the path condition (equivalent to v under the path condition).
fn simp(st: &State, v: V) -> V {
    if st.known.is_empty() {
        return v;
    }
    fn go(k: &HashMap<u32, V>, v: V, memo: &mut HashMap<u32, V>) -> V {
        let V::S(i, _) = v else { return v };
        if let Some(x) = k.get(&i) {
            return *x;
        }
        if let Some(x) = memo.get(&i) {
            return *x;
        }
        let n = node(i);
        let r = match n.op {
            Op::Var => v,
            Op::Extract => {
                let a = go(k, n.a, memo);
                if a == n.a { v } else { extract(a, n.lo, n.w) }
            }
            Op::Concat => {
                let (a, b) = (go(k, n.a, memo), go(k, n.b, memo));
                if a == n.a && b == n.b { v } else { concat(a, b) }
            }
            Op::SExt => {
                let a = go(k, n.a, memo);
                if a == n.a { v } else { sext(a, n.w) }
            }
            Op::Ite => {
                let a = go(k, n.a, memo);
                match a {
                    V::C(1, _) => go(k, n.b, memo),
                    V::C(..) => go(k, n.c, memo),
                    _ => {
                        let (b, c) = (go(k, n.b, memo), go(k, n.c, memo));
                        if a == n.a && b == n.b && c == n.c { v } else { ite(a, b, c) }
                    }
                }
            }
            op => {
                let (a, b) = (go(k, n.a, memo), go(k, n.b, memo));
                if a == n.a && b == n.b { v } else { bin(op, a, b) }
            }
        };
        memo.insert(i, r);
        r
    }
    let mut memo = HashMap::new();
    go(&st.known, v, &mut memo)
}

fn sv(v: V) -> Val {
    Val::I(v)
}

impl Engine {
    pub fn new(m: Module, cfg: Config, timeout_ms: u32) -> Engine {
        let nglob = m.glist.len() as u64 + 1;
        Engine {
            m,
            s: Solver::new(timeout_ms),
            cfg,
            globals: HashMap::new(),
            nglob,
            work: vec![],
            viols: vec![],
            errors: vec![],
            paths: 0,
            forks: 0,
            instrs: 0,
            our_instrs: 0,
            checks: BTreeMap::new(),
            covers: BTreeMap::new(),
            func_hits: HashMap::new(),
            samples: vec![],
            t0: Instant::now(),
            outputs: vec![],
            viol_model: None,
        }
    }

    // ---------------------------------------------------------------- memory
    fn gobj(&mut self, id: u64) -> Rc<Obj> {
        if let Some(o) = self.globals.get(&id) {
            return o.clone();
        }
        let (t, init, align) = self.m.global_init(id as usize - 1);
        let g = self.m.glist[id as usize - 1].clone();
        let mut o = Obj::new(t.size(), align.max(1), if g.constant { Kind::Const } else { Kind::Global });
        match init {
            Some(v) => write_val(&mut o, 0, &t, &v, &mut |_w| None),
            None => {
                // external data symbol: contents unknown (left undefined)
            }
        }
        let o = Rc::new(o);
        self.globals.insert(id, o.clone());
        o
    }
    fn obj(&mut self, st: &State, id: u64) -> Option<Rc<Obj>> {
        if id == 0 {
            return None;
        }
        if id < self.nglob {
            if let Some(o) = st.gmut.get(&id) {
                return Some(o.clone());
            }
            return Some(self.gobj(id));
        }
        if id >= FN_BASE {
            return None;
        }
        let k = (id - self.nglob) as usize;
        if k as u64 >= st.nobj {
            return None;
        }
        st.objs[k / CH][k % CH].clone()
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u64) -> &'a mut Obj {
        if id < self.nglob {
            if !st.gmut.contains_key(&id) {
                let o = self.gobj(id);
                st.gmut.insert(id, o);
            }
            return Rc::make_mut(st.gmut.get_mut(&id).unwrap());
        }
        let k = (id - self.nglob) as usize;
        let ch = Rc::make_mut(&mut st.objs[k / CH]);
        Rc::make_mut(ch[k % CH].as_mut().unwrap())
    }
    fn new_obj(&mut self, st: &mut State, o: Obj) -> u64 {
        let k = st.nobj as usize;
        st.nobj += 1;
        if k % CH == 0 {
            st.objs.push(Rc::new(std::array::from_fn(|_| None)));
        }
        Rc::make_mut(st.objs.last_mut().unwrap())[k % CH] = Some(Rc::new(o));
        self.nglob + k as u64
    }
    /// Validate a concrete access; returns (object id, offset).
    fn access(&mut self, st: &State, addr: u64, n: u64, align: u64, write: bool) -> R<(u64, u64)> {
        let id = addr >> 32;
        let what = if write { "write" } else { "read" };
        let Some(o) = self.obj(st, id) else {
            return Err(Stop::Viol("memory".into(), format!("{} of {} bytes through an invalid pointer {:#x}", what, n, addr)));
        };
        let off = (addr & 0xffff_ffff).wrapping_sub(OBJ_OFF);
        if !o.alive {
            return Err(Stop::Viol("memory".into(), format!("use after free: {} of {} bytes", what, n)));
        }
        if off > o.size || n > o.size - off {
            return Err(Stop::Viol(
                "memory".into(),
                format!("out-of-bounds {} of {} bytes at offset {} of an object of {} bytes", what, n, off as i64, o.size),
            ));
        }
        if let Some(z) = o.ssize {
            let short = ult(z, V::C((off + n) as u128, 64));
            if let Some(m) = self.feasible(st, short)? {
                self.viol_model = Some(m);
                return Err(Stop::Viol("memory".into(), format!("out-of-bounds {} of {} bytes at offset {} of an object of variable size", what, n, off)));
            }
        }
        if write && o.kind == Kind::Const {
            return Err(Stop::Viol("memory".into(), "write to constant memory".into()));
        }
        if align > 1 {
            // The object's base address is only known to be aligned to its declared alignment,
            // but the allocator model always places objects on 4096-byte boundaries.
            if addr % align != 0 {
                return Err(Stop::Viol("memory".into(), format!("misaligned {} (align {}) at offset {}", what, align, off)));
            }
        }
        Ok((id, off))
    }
    fn undef(&mut self, st: &mut State, w: u16) -> V {
        let id = KIND_UNDEF | (w as u32) << 22 | (st.nundef & 0x3f_ffff);
        st.nundef += 1;
        var(id, w)
    }
    fn frozen(&mut self, st: &mut State, w: u16) -> V {
        let id = KIND_FROZEN | (w as u32) << 22 | (st.nundef & 0x3f_ffff);
        st.nundef += 1;
        var(id, w)
    }
    fn read_scalar(&mut self, st: &mut State, o: &Obj, off: u64, w: u16) -> Val {
        let n = (w as usize + 7) / 8;
        let off = off as usize;
        let m = &o.mask[off..off + n];
        if m.iter().all(|&x| x == 1) {
            let mut x = 0u128;
            for i in (0..n).rev() {
                x = x << 8 | o.bytes[off + i] as u128;
            }
            return sv(V::c(x, w));
        }
        if m.iter().all(|&x| x == 0) {
            return Val::U;
        }
        let mut ps = Vec::with_capacity(n);
        for i in (0..n).rev() {
            ps.push(match o.get(off + i) {
                Some(v) => v,
                None => self.undef(st, 8),
            });
        }
        let v = concat_all(ps);
        sv(if v.w() > w { extract(v, 0, w) } else { v })
    }
    fn read_val(&mut self, st: &mut State, o: &Obj, off: u64, t: &T) -> Val {
        match &**t {
            Ty::Vector(n, e) => {
                let mut v = vec![];
                if e.bits() % 8 != 0 {
                    let total = (*n as u16) * e.bits();
                    let x = self.read_scalar(st, o, off, (total + 7) / 8 * 8);
                    let x = self.to_v(st, &x, (total + 7) / 8 * 8);
                    for i in 0..*n as u16 {
                        v.push(sv(extract(x, i * e.bits(), e.bits())));
                    }
                } else {
                    for i in 0..*n {
                        v.push(self.read_scalar(st, o, off + i * e.size(), e.bits()));
                    }
                }
                Val::A(Rc::new(v))
            }
            Ty::Array(..) | Ty::Struct(..) => {
                let mut v = vec![];
                for i in 0..t.count() {
                    v.push(self.read_val(st, o, off + t.field_off(i), &t.elem(i)));
                }
                Val::A(Rc::new(v))
            }
            _ => self.read_scalar(st, o, off, t.bits()),
        }
    }
    fn to_v(&mut self, st: &mut State, v: &Val, w: u16) -> V {
        match v {
            Val::I(v) => shallow(st, *v),
            Val::U => self.undef(st, w),
            Val::A(_) => unsupported("aggregate used as scalar".into()),
        }
    }

    // ---------------------------------------------------------------- solver
    fn slice(&self, st: &State, roots: &[V]) -> Vec<V> {
        let mut vars: HashSet<u32> = HashSet::new();
        for r in roots {
            vars.extend(vars_of(*r).iter());
        }
        let mut taken = vec![false; st.pc.len()];
        let mut out = vec![];
        let sets: Vec<Rc<Vec<u32>>> = st.pc.iter().map(|c| vars_of(*c)).collect();
        loop {
            let mut ch = false;
            for (i, s) in sets.iter().enumerate() {
                if !taken[i] && s.iter().any(|v| vars.contains(v)) {
                    taken[i] = true;
                    out.push(st.pc[i]);
                    for v in s.iter() {
                        if vars.insert(*v) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// Is pc ∧ c satisfiable? Returns a full model for the state if so.
    fn feasible(&mut self, st: &State, c: V) -> R<Option<Rc<Model>>> {
        let c = simp(st, c);
        if c.is_false() {
            return Ok(None);
        }
        if c.is_true() {
            return Ok(Some(st.model.clone()));
        }
        let V::S(i, _) = c else { unreachable!() };
        if st.pcset.contains(&i) {
            return Ok(Some(st.model.clone()));
        }
        if let V::S(j, _) = not(c) {
            if st.pcset.contains(&j) {
                return Ok(None);
            }
        }
        if st.model.eval(c) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let mut cs = self.slice(st, &[c]);
        cs.push(c);
        match self.s.check(&cs) {
            Err(Unknown) => Err(Stop::Err("solver returned unknown (timeout)".into())),
            Ok(Sat::Unsat) => Ok(None),
            Ok(Sat::Sat(m)) => {
                // merge with the state's model for the independent variables
                let mut vals = st.model.vals.clone();
                for (k, v) in m.vals.iter() {
                    vals.insert(*k, *v);
                }
                Ok(Some(Rc::new(Model::new(vals))))
            }
        }
    }
    fn add(&mut self, st: &mut State, c: V, model: Rc<Model>) {
        if c.is_true() {
            return;
        }
        // split conjunctions so that slicing works well
        let mut stack = vec![c];
        while let Some(c) = stack.pop() {
            if let V::S(i, _) = c {
                let n = node(i);
                if n.op == Op::And {
                    stack.push(n.a);
                    stack.push(n.b);
                    continue;
                }
                // !(a | b) => !a & !b
                if n.op == Op::Xor && n.b == V::C(1, 1) {
                    if let V::S(j, _) = n.a {
                        let k = node(j);
                        if k.op == Op::Or {
                            stack.push(not(k.a));
                            stack.push(not(k.b));
                            continue;
                        }
                    }
                }
                if st.pcset.insert(i) {
                    st.pc.push(c);
                    learn(st, c);
                }
            }
        }
        st.model = model;
    }
    /// Does the value of v depend on undefined bits under the path condition?
    fn depends_on_undef(&mut self, st: &mut State, v: V) -> R<bool> {
        if !has_undef(v) {
            return Ok(false);
        }
        // rename undef variables in v and ask for a difference
        let mut memo = HashMap::new();
        let v2 = self.rename_undef(st, v, &mut memo, false);
        let d = not(eq(v, v2));
        Ok(self.feasible(st, d)?.is_some())
    }
    fn rename_undef(&mut self, st: &mut State, v: V, memo: &mut HashMap<V, V>, freeze: bool) -> V {
        if !has_undef(v) {
            return v;
        }
        if let Some(x) = memo.get(&v) {
            return *x;
        }
        let V::S(i, w) = v else { return v };
        let n = node(i);
        let r = match n.op {
            Op::Var => {
                if freeze {
                    self.frozen(st, w)
                } else {
                    self.undef(st, w)
                }
            }
            Op::Extract => {
                let a = self.rename_undef(st, n.a, memo, freeze);
                extract(a, n.lo, n.w)
            }
            Op::Concat => {
                let a = self.rename_undef(st, n.a, memo, freeze);
                let b = self.rename_undef(st, n.b, memo, freeze);
                concat(a, b)
            }
            Op::SExt => {
                let a = self.rename_undef(st, n.a, memo, freeze);
                sext(a, n.w)
            }
            Op::Ite => {
                let a = self.rename_undef(st, n.a, memo, freeze);
                let b = self.rename_undef(st, n.b, memo, freeze);
                let c = self.rename_undef(st, n.c, memo, freeze);
                ite(a, b, c)
            }
            op => {
                let a = self.rename_undef(st, n.a, memo, freeze);
                let b = self.rename_undef(st, n.b, memo, freeze);
                bin(op, a, b)
            }
        };
        memo.insert(v, r);
        r
    }

    fn fork_on(&mut self, st: &mut State, c: V) -> R<(Option<State>, bool)> {
        // returns (other-side state, truth taken by st)
        let c = simp(st, c);
        if let Some(k) = c.konst() {
            return Ok((None, k == 1));
        }
        let t = st.model.eval(c) == 1;
        let cur = if t { c } else { not(c) };
        let oth = not(cur);
        let V::S(i, _) = cur else { unreachable!() };
        if st.pcset.contains(&i) {
            return Ok((None, t));
        }
        let m = self.feasible(st, oth)?;
        let other = match m {
            Some(m) => {
                self.forks += 1;
                let mut o = st.clone();
                o.depth += 1;
                self.add(&mut o, oth, m);
                Some(o)
            }
            None => None,
        };
        let m = st.model.clone();
        self.add(st, cur, m);
        Ok((other, t))
    }
    /// Make v concrete. If several values are possible, the state with v != k is queued and
    /// re-executes the current instruction.
    fn concretize(&mut self, st: &mut State, v: V) -> R<u128> {
        let v = simp(st, v);
        if let V::C(x, _) = v {
            return Ok(x);
        }
        if has_undef(v) && self.depends_on_undef(st, v)? {
            return Err(Stop::Viol("uninit".into(), "address or size depends on uninitialised memory".into()));
        }
        let k = st.model.eval(v);
        let c = eq(v, V::C(k, v.w()));
        if c.is_true() {
            return Ok(k);
        }
        let (other, _) = self.fork_on(st, c)?;
        if let Some(o) = other {
            self.work.push(o);
        }
        Ok(k)
    }

    // ---------------------------------------------------------------- running
    fn input_of(&self, st: &State, m: &Model) -> Vec<u8> {
        (0..st.ninput).map(|i| m.vals.get(&i).copied().unwrap_or(0) as u8).collect()
    }
    /// An input of this path whose unconstrained bytes are arbitrary, for validation against a
    /// native run.
    fn sample_of(&self, st: &State) -> Vec<u8> {
        let mut v = self.input_of(st, &st.model);
        let mut fixed: HashSet<u32> = HashSet::new();
        for c in &st.pc {
            fixed.extend(vars_of(*c).iter().copied());
        }
        let mut h = 0x9E3779B97F4A7C15u64 ^ self.paths;
        for i in 0..v.len() {
            h = (h ^ i as u64).wrapping_mul(0xBF58476D1CE4E5B9);
            h ^= h >> 29;
            if !fixed.contains(&(i as u32)) {
                v[i] = (h >> 16) as u8;
            }
        }
        v
    }
    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| f.f.name.to_string()).collect()
    }
    fn report(&mut self, st: &State, kind: String, msg: String, m: Rc<Model>) {
        let stack = self.stack_names(st);
        let key = |v: &Violation| (v.kind.clone(), v.msg.clone(), v.stack.first().cloned());
        let v = Violation { kind, msg, input: self.input_of(st, &m), stack, notes: st.notes.iter().map(|s| s.to_string()).collect() };
        let same = self.viols.iter().filter(|x| key(x) == key(&v)).count();
        if same < 2 {
            self.viols.push(v);
        }
    }
    pub fn run(&mut self, entry: &str) {
        let f = match self.m.func(entry) {
            Some(f) => f,
            None => {
                self.errors.push(format!("entry function {} not found", entry));
                return;
            }
        };
        let st = State {
            frames: vec![Rc::new(Frame { regs: vec![Val::U; f.nregs], f, block: 0, ip: 0, allocas: vec![], ret: None, normal: None })],
            objs: vec![],
            nobj: 0,
            gmut: HashMap::new(),
            pc: vec![],
            pcset: HashSet::new(),
            known: Rc::new(HashMap::new()),
            model: Rc::new(Model::default()),
            ninput: 0,
            nundef: 0,
            steps: 0,
            alloc_limit: 1 << 24,
            heap_live: 0,
            heap_bytes: 0,
            heap_peak: 0,
            heap_max: 0,
            notes: vec![],
            depth: 0,
            trace: 0xcbf29ce484222325,
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.paths >= self.cfg.max_paths {
                self.errors.push(format!("path limit {} reached", self.cfg.max_paths));
                return;
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.time_limit_s {
                self.errors.push(format!("time limit {} s reached with {} states pending", self.cfg.time_limit_s, self.work.len() + 1));
                return;
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run_path(&mut st)));
            match r {
                Ok(Stop::Done) => {
                    self.paths += 1;
                    if self.samples.len() < 4 || (self.samples.len() < self.cfg.max_samples && (self.paths % 97 == 0 || (self.paths & (self.paths - 1)) == 0)) {
                        let s = self.sample_of(&st);
                        self.samples.push((s, st.trace));
                    }
                }
                Ok(Stop::Infeasible) => {}
                Ok(Stop::Viol(k, m)) => {
                    self.paths += 1;
                    let model = self.viol_model.take().unwrap_or_else(|| st.model.clone());
                    self.report(&st, k, m, model);
                    if self.unknown_viols() >= self.cfg.max_viol {
                        return;
                    }
                }
                Ok(Stop::Err(e)) => {
                    self.paths += 1;
                    let s = self.stack_names(&st);
                    self.errors.push(format!("{} (in {:?})", e, &s[..s.len().min(4)]));
                    if self.errors.len() > 5 {
                        return;
                    }
                }
                Err(p) => {
                    let s = self.stack_names(&st);
                    let msg = match p.downcast::<Unsupported>() {
                        Ok(u) => u.0,
                        Err(p) => {
                            if let Some(s) = p.downcast_ref::<String>() {
                                s.clone()
                            } else if let Some(s) = p.downcast_ref::<&str>() {
                                s.to_string()
                            } else {
                                "panic".into()
                            }
                        }
                    };
                    self.errors.push(format!("engine: {} (in {:?})", msg, &s[..s.len().min(4)]));
                    if self.errors.len() > 5 {
                        return;
                    }
                }
            }
        }
    }

    fn unknown_viols(&self) -> usize {
        self.viols.iter().filter(|v| !self.cfg.known.contains(&v.msg)).count()
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.time_limit_s {
                return Stop::Err(format!("time limit {} s reached", self.cfg.time_limit_s));
            }
            match self.step(st) {
                Ok(Flow::Next) => {
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                }
                Ok(Flow::Jumped) => {}
                Ok(Flow::Fork(v)) => {
                    for s in v {
                        self.work.push(s);
                    }
                    return Stop::Infeasible;
                }
                Err(s) => return s,
            }
        }
    }

    fn jump(&mut self, st: &mut State, target: u32) -> R<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let from = fr.block;
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, _t, inc) in &b.phis {
                let (o, _) = inc.iter().find(|(_, l)| *l == from).unwrap_or_else(|| unsupported("phi without incoming edge".into()));
                let v = match o {
                    Opd::Reg(r) => fr.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = target;
        fr.ip = 0;
        Ok(())
    }

    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn getv(&mut self, st: &mut State, o: &Opd, w: u16) -> V {
        let v = self.get(st, o);
        self.to_v(st, &v, w)
    }
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v;
    }
    fn lanes(&mut self, v: Val, n: usize) -> Vec<Val> {
        match v {
            Val::A(a) => (*a).clone(),
            Val::U => vec![Val::U; n],
            Val::I(_) => unsupported("scalar used as vector".into()),
        }
    }

    fn bin_s(&mut self, st: &mut State, op: BinOp, a: V, b: V) -> R<V> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
        };
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            let z = eq(b, V::c(0, b.w()));
            if let Some(m) = self.feasible(st, z)? {
                st.model = m;
                return Err(Stop::Viol("ub".into(), "division by zero".into()));
            }
        }
        Ok(bin(o, a, b))
    }
    fn icmp_s(&mut self, p: Pred, a: V, b: V) -> V {
        match p {
            Pred::Eq => eq(a, b),
            Pred::Ne => not(eq(a, b)),
            Pred::Ult => ult(a, b),
            Pred::Ugt => ult(b, a),
            Pred::Ule => not(ult(b, a)),
            Pred::Uge => not(ult(a, b)),
            Pred::Slt => bin(Op::Slt, a, b),
            Pred::Sgt => bin(Op::Slt, b, a),
            Pred::Sle => not(bin(Op::Slt, b, a)),
            Pred::Sge => not(bin(Op::Slt, a, b)),
        }
    }
    fn sel(&mut self, st: &mut State, c: V, a: &Val, b: &Val, t: &T) -> Val {
        match c {
            V::C(1, _) => return a.clone(),
            V::C(..) => return b.clone(),
            _ => {}
        }
        if a == b {
            return a.clone();
        }
        if t.is_agg() {
            let n = t.count();
            let (x, y) = (self.lanes(a.clone(), n), self.lanes(b.clone(), n));
            let mut o = vec![];
            for i in 0..n {
                o.push(self.sel(st, c, &x[i], &y[i], &t.elem(i)));
            }
            return Val::A(Rc::new(o));
        }
        let w = t.bits();
        let x = self.to_v(st, a, w);
        let y = self.to_v(st, b, w);
        sv(ite(c, x, y))
    }

    fn branch_cond(&mut self, st: &mut State, c: &Val) -> R<V> {
        match c {
            Val::U => Err(Stop::Viol("uninit".into(), "branch on uninitialised memory".into())),
            Val::I(v) => {
                let v = simp(st, *v);
                if has_undef(v) && self.depends_on_undef(st, v)? {
                    return Err(Stop::Viol("uninit".into(), "branch on uninitialised memory".into()));
                }
                Ok(v)
            }
            _ => unsupported("branch on aggregate".into()),
        }
    }

    /// Load through a possibly symbolic address.
    fn load(&mut self, st: &mut State, addr: V, t: &T, align: u64) -> R<Val> {
        match addr {
            V::C(a, _) => {
                let n = t.store_size();
                if n == 0 {
                    return Ok(Val::A(Rc::new(vec![])));
                }
                let (id, off) = self.access(st, a as u64, n, align, false)?;
                let o = self.obj(st, id).unwrap();
                Ok(self.read_val(st, &o, off, t))
            }
            V::S(i, _) => {
                let n = node(i);
                if n.op == Op::Ite && !t.is_agg() {
                    // both arms must be valid under their condition; only merge if both constant
                    if n.b.konst().is_some() && n.c.konst().is_some() {
                        let ok = |s: &mut Self, st: &State, v: V| s.access(st, v.konst().unwrap() as u64, t.store_size(), align, false).is_ok();
                        if ok(self, st, n.b) && ok(self, st, n.c) {
                            let x = self.load(st, n.b, t, align)?;
                            let y = self.load(st, n.c, t, align)?;
                            return Ok(self.sel(st, n.a, &x, &y, t));
                        }
                    }
                }
                // base + symbolic offset into a small object: build an ITE over all offsets
                if !t.is_agg() {
                    if let Some(v) = self.table_load(st, addr, t, align)? {
                        return Ok(v);
                    }
                }
                let a = self.concretize(st, addr)?;
                self.load(st, V::C(a, 64), t, align)
            }
        }
    }
    fn table_load(&mut self, st: &mut State, addr: V, t: &T, align: u64) -> R<Option<Val>> {
        let a0 = st.model.eval(addr) as u64;
        let id = a0 >> 32;
        let Some(o) = self.obj(st, id) else { return Ok(None) };
        if !o.alive {
            return Ok(None);
        }
        let sz = t.store_size();
        if o.size > 4096 || o.size < sz || id >= self.nglob {
            return Ok(None);
        }
        // in-bounds for every value?
        let lo = obj_addr(id);
        let hi = lo + o.size - sz;
        let inb = and1(not(ult(addr, V::C(lo as u128, 64))), not(ult(V::C(hi as u128, 64), addr)));
        if let Some(m) = self.feasible(st, not(inb))? {
            // other objects or out of bounds: let concretisation split it
            let _ = m;
            return Ok(None);
        }
        let mut step = 1;
        if align > 1 {
            let mis = not(eq(extract(addr, 0, align.trailing_zeros() as u16), V::c(0, align.trailing_zeros() as u16)));
            if self.feasible(st, mis)?.is_some() {
                return Ok(None);
            }
            step = align;
        }
        // offset expression
        let off = bin(Op::Sub, addr, V::C(lo as u128, 64));
        let cnt = (o.size - sz) / step + 1;
        if cnt > 512 {
            return Ok(None);
        }
        let mut acc: Option<V> = None;
        let w = t.bits();
        for k in (0..cnt).rev() {
            let v = self.read_scalar(st, &o, k * step, w);
            let v = match v {
                Val::I(v) => v,
                _ => return Ok(None),
            };
            acc = Some(match acc {
                None => v,
                Some(r) => ite(eq(off, V::C((k * step) as u128, 64)), v, r),
            });
        }
        Ok(acc.map(sv))
    }
    fn store(&mut self, st: &mut State, addr: V, t: &T, v: &Val, align: u64) -> R<()> {
        let a = self.concretize(st, addr)? as u64;
        let n = t.store_size();
        if n == 0 {
            return Ok(());
        }
        let (id, off) = self.access(st, a, n, align, true)?;
        let v = v.clone();
        let o = self.obj_mut(st, id);
        write_val(o, off, t, &v, &mut |_| None);
        Ok(())
    }

    fn mem_copy(&mut self, st: &mut State, d: u64, s: u64, n: u64, overlap_ok: bool) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, so) = self.access(st, s, n, 1, false)?;
        let (did, dof) = self.access(st, d, n, 1, true)?;
        if !overlap_ok && sid == did && so != dof && so < dof + n && dof < so + n {
            return Err(Stop::Viol("memory".into(), "overlapping copy_nonoverlapping".into()));
        }
        let src = self.obj(st, sid).unwrap();
        let (so, dof, n) = (so as usize, dof as usize, n as usize);
        let dst = self.obj_mut(st, did);
        dst.bytes[dof..dof + n].copy_from_slice(&src.bytes[so..so + n]);
        dst.mask[dof..dof + n].copy_from_slice(&src.mask[so..so + n]);
        if !src.sym.is_empty() {
            if dst.sym.is_empty() {
                dst.sym = vec![0; dst.size as usize];
            }
            dst.sym[dof..dof + n].copy_from_slice(&src.sym[so..so + n]);
        }
        Ok(())
    }

    fn heap_alloc(&mut self, st: &mut State, size: V, align: u64, zero: bool) -> R<u64> {
        let lim = st.alloc_limit;
        let over = ult(V::C(lim as u128, 64), size);
        if let Some(m) = self.feasible(st, over)? {
            st.model = m;
            let k = st.model.eval(size);
            let _ = k;
            return Err(Stop::Viol("alloc".into(), format!("allocation request larger than {} bytes", lim)));
        }
        let size = simp(st, size);
        let mut ssize = None;
        let n = match size {
            V::C(x, _) => x as u64,
            _ => match self.alloc_bound(st, size)? {
                Some(n) => {
                    ssize = Some(size);
                    n
                }
                None => self.concretize(st, size)? as u64,
            },
        };
        let mut o = Obj::new(n, align, Kind::Heap);
        o.ssize = ssize;
        if zero {
            o.mask.iter_mut().for_each(|m| *m = 1);
        }
        let id = self.new_obj(st, o);
        st.heap_live += 1;
        st.heap_bytes += n;
        st.heap_peak = st.heap_peak.max(st.heap_bytes);
        st.heap_max = st.heap_max.max(n);
        Ok(obj_addr(id))
    }
    /// Upper bound of an allocation size with many possible values; None: make it concrete.
    fn alloc_bound(&mut self, st: &mut State, size: V) -> R<Option<u64>> {
        if has_undef(size) {
            return Ok(None);
        }
        let over = |k: u64| ult(V::C(k as u128, 64), size);
        if self.feasible(st, over(96))?.is_none() || self.feasible(st, over(1 << 17))?.is_some() {
            return Ok(None);
        }
        let (mut lo, mut hi) = (97u64, 1u64 << 17);
        while lo < hi {
            let mid = (lo + hi) / 2;
            if self.feasible(st, over(mid))?.is_some() {
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        Ok(Some(lo))
    }
    fn heap_free(&mut self, st: &mut State, p: u64, layout: Option<(V, u64)>) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = p >> 32;
        let Some(o) = self.obj(st, id) else {
            return Err(Stop::Viol("memory".into(), format!("free of an invalid pointer {:#x}", p)));
        };
        if !o.alive {
            return Err(Stop::Viol("memory".into(), "double free".into()));
        }
        if o.kind != Kind::Heap || p != obj_addr(id) {
            return Err(Stop::Viol("memory".into(), "free of a pointer that was not allocated".into()));
        }
        if let Some((s, a)) = layout {
            let ne = not(eq(s, o.ssize.unwrap_or(V::C(o.size as u128, 64))));
            let m = if a != o.align { Some(st.model.clone()) } else { self.feasible(st, ne)? };
            if let Some(m) = m {
                let s = m.eval(s);
                self.viol_model = Some(m);
                return Err(Stop::Viol("memory".into(), format!("dealloc with layout ({}, {}) of an allocation with layout ({}, {})", s, a, o.size, o.align)));
            }
        }
        st.heap_live -= 1;
        st.heap_bytes -= o.size;
        let k = (id - self.nglob) as usize;
        let dead = Obj { size: o.size, align: o.align, kind: o.kind, alive: false, bytes: vec![], mask: vec![], sym: vec![], ssize: None };
        Rc::make_mut(&mut st.objs[k / CH])[k % CH] = Some(Rc::new(dead));
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<Flow> {
        st.steps += 1;
        self.instrs += 1;
        if st.steps > self.cfg.max_steps {
            return Err(Stop::Viol("hang".into(), format!("more than {} instructions on one path", self.cfg.max_steps)));
        }
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        if f.ours {
            self.our_instrs += 1;
        }
        let inst = &f.blocks[fr.block as usize].insts[fr.ip];
        match inst {
            Inst::Nop => Ok(Flow::Next),
            Inst::Bad(s) => Err(Stop::Err(format!("unsupported instruction: {}", s))),
            Inst::Bin(d, op, t, a, b) => {
                if let Ty::Vector(n, e) = &**t {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let (x, y) = (self.lanes(x, *n as usize), self.lanes(y, *n as usize));
                    let mut o = vec![];
                    for i in 0..*n as usize {
                        let p = self.to_v(st, &x[i], e.bits());
                        let q = self.to_v(st, &y[i], e.bits());
                        o.push(sv(self.bin_s(st, *op, p, q)?));
                    }
                    self.set(st, *d, Val::A(Rc::new(o)));
                } else {
                    let w = t.bits();
                    let x = self.getv(st, a, w);
                    let y = self.getv(st, b, w);
                    let r = self.bin_s(st, *op, x, y)?;
                    self.set(st, *d, sv(r));
                }
                Ok(Flow::Next)
            }
            Inst::ICmp(d, p, t, a, b) => {
                if let Ty::Vector(n, e) = &**t {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let (x, y) = (self.lanes(x, *n as usize), self.lanes(y, *n as usize));
                    let mut o = vec![];
                    for i in 0..*n as usize {
                        let u = self.to_v(st, &x[i], e.bits());
                        let v = self.to_v(st, &y[i], e.bits());
                        o.push(sv(self.icmp_s(*p, u, v)));
                    }
                    self.set(st, *d, Val::A(Rc::new(o)));
                } else {
                    let w = t.bits();
                    let x = self.getv(st, a, w);
                    let y = self.getv(st, b, w);
                    let r = self.icmp_s(*p, x, y);
                    self.set(st, *d, sv(r));
                }
                Ok(Flow::Next)
            }
            Inst::Cast(d, k, t, a, to) => {
                let v = self.get(st, a);
                let r = self.cast(st, *k, t, v, to);
                self.set(st, *d, r);
                Ok(Flow::Next)
            }
            Inst::Select(d, ct, c, t, a, b) => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if let Ty::Vector(n, _) = &**ct {
                    let n = *n as usize;
                    let (cl, xl, yl) = (self.lanes(cv, n), self.lanes(x, n), self.lanes(y, n));
                    let mut o = vec![];
                    for i in 0..n {
                        let c = self.to_v(st, &cl[i], 1);
                        o.push(self.sel(st, c, &xl[i], &yl[i], &t.elem(i)));
                    }
                    Val::A(Rc::new(o))
                } else {
                    let c = self.to_v(st, &cv, 1);
                    self.sel(st, c, &x, &y, t)
                };
                self.set(st, *d, r);
                Ok(Flow::Next)
            }
            Inst::Alloca(d, t, n, al) => {
                let n = self.getv(st, n, 64);
                let n = self.concretize(st, n)? as u64;
                let id = self.new_obj(st, Obj::new(t.size() * n, *al, Kind::Stack));
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(id);
                self.set(st, *d, sv(V::C(obj_addr(id) as u128, 64)));
                Ok(Flow::Next)
            }
            Inst::Load(d, t, p, al, range, noundef) => {
                let a = self.getv(st, p, 64);
                let v = self.load(st, a, t, *al)?;
                if *noundef {
                    match &v {
                        Val::U => return Err(Stop::Viol("uninit".into(), "read of uninitialised memory".into())),
                        Val::I(x) => {
                            if has_undef(*x) && self.depends_on_undef(st, *x)? {
                                return Err(Stop::Viol("uninit".into(), "read of uninitialised memory".into()));
                            }
                        }
                        _ => {}
                    }
                }
                // without !noundef an out-of-range value is poison, which matters only if used:
                // the value loaded is a valid refinement of it
                if let (Some(r), Val::I(x), true) = (range, &v, *noundef) {
                    let w = x.w();
                    let mut ok = V::b(false);
                    for (lo, hi) in r {
                        let (lo, hi) = (V::c(*lo, w), V::c(*hi, w));
                        let ge = not(ult(*x, lo));
                        let lt = ult(*x, hi);
                        let wrap = lo.konst().unwrap() >= hi.konst().unwrap();
                        let inr = if wrap { or1(ge, lt) } else { and1(ge, lt) };
                        ok = or1(ok, inr);
                    }
                    if !ok.is_true() {
                        if let Some(m) = self.feasible(st, not(ok))? {
                            st.model = m;
                            return Err(Stop::Viol("ub".into(), "loaded value is not valid for its type".into()));
                        }
                    }
                }
                self.set(st, *d, v);
                Ok(Flow::Next)
            }
            Inst::Store(t, v, p, al) => {
                let a = self.getv(st, p, 64);
                let x = self.get(st, v);
                self.store(st, a, t, &x, *al)?;
                Ok(Flow::Next)
            }
            Inst::Gep(d, b, off, idx) => {
                let mut a = self.getv(st, b, 64);
                if *off != 0 {
                    a = bin(Op::Add, a, V::c(*off as i128 as u128, 64));
                }
                for (sc, i, w) in idx {
                    let v = self.getv(st, i, *w);
                    let v = if *w < 64 {
                        sext(v, 64)
                    } else if *w > 64 {
                        extract(v, 0, 64)
                    } else {
                        v
                    };
                    let v = bin(Op::Mul, v, V::c(*sc as i128 as u128, 64));
                    a = bin(Op::Add, a, v);
                }
                self.set(st, *d, sv(a));
                Ok(Flow::Next)
            }
            Inst::Br(l) => {
                self.jump(st, *l)?;
                Ok(Flow::Jumped)
            }
            Inst::CondBr(c, a, b) => {
                let cv = self.get(st, c);
                let c = self.branch_cond(st, &cv)?;
                match c {
                    V::C(x, _) => self.jump(st, if x == 1 { *a } else { *b })?,
                    _ => {
                        let (other, t) = self.fork_on(st, c)?;
                        if let Some(mut o) = other {
                            self.jump(&mut o, if t { *b } else { *a })?;
                            self.work.push(o);
                        }
                        self.jump(st, if t { *a } else { *b })?;
                    }
                }
                Ok(Flow::Jumped)
            }
            Inst::Switch(t, x, df, cs) => {
                let xv = self.get(st, x);
                let v = match xv {
                    Val::U => return Err(Stop::Viol("uninit".into(), "switch on uninitialised memory".into())),
                    _ => self.branch_cond(st, &xv)?,
                };
                let w = t.bits();
                if let V::C(k, _) = v {
                    let l = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*df);
                    self.jump(st, l)?;
                    return Ok(Flow::Jumped);
                }
                // group by target
                let mut by: BTreeMap<u32, V> = BTreeMap::new();
                let mut any = V::b(false);
                for (k, l) in cs {
                    let e = eq(v, V::c(*k, w));
                    any = or1(any, e);
                    if l != df {
                        let x = by.entry(*l).or_insert(V::b(false));
                        *x = or1(*x, e);
                    }
                }
                let mut not_def = V::b(false);
                for c in by.values() {
                    not_def = or1(not_def, *c);
                }
                by.insert(*df, not(not_def));
                let mut outs = vec![];
                for (l, c) in by {
                    if let Some(m) = self.feasible(st, c)? {
                        let mut o = st.clone();
                        self.add(&mut o, c, m);
                        outs.push((l, o));
                    }
                }
                if outs.is_empty() {
                    return Err(Stop::Err("switch with no feasible successor".into()));
                }
                self.forks += outs.len() as u64 - 1;
                let mut v = vec![];
                for (l, mut o) in outs {
                    self.jump(&mut o, l)?;
                    v.push(o);
                }
                let first = v.pop().unwrap();
                for o in v {
                    self.work.push(o);
                }
                *st = first;
                Ok(Flow::Jumped)
            }
            Inst::Ret(v) => {
                let val = v.as_ref().map(|(_, o)| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                for id in &fr.allocas {
                    let k = (*id - self.nglob) as usize;
                    let ch = Rc::make_mut(&mut st.objs[k / CH]);
                    let o = ch[k % CH].as_ref().unwrap();
                    let dead = Obj { size: o.size, align: o.align, kind: o.kind, alive: false, bytes: vec![], mask: vec![], sym: vec![], ssize: None };
                    ch[k % CH] = Some(Rc::new(dead));
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.ret, val) {
                    self.set(st, d, v);
                }
                self.after_call(st, fr.normal)
            }
            Inst::Unreachable => Err(Stop::Viol("ub".into(), "entered code the compiler assumed unreachable".into())),
            Inst::Resume | Inst::LandingPad(_) => Err(Stop::Err("unwinding reached".into())),
            Inst::ExtractValue(d, t, x, ix) => {
                let mut v = self.get(st, x);
                let mut ty = t.clone();
                for i in ix {
                    v = match v {
                        Val::A(a) => a[*i].clone(),
                        Val::U => Val::U,
                        _ => unsupported("extractvalue of scalar".into()),
                    };
                    ty = ty.elem(*i);
                }
                self.set(st, *d, v);
                Ok(Flow::Next)
            }
            Inst::InsertValue(d, t, x, y, ix) => {
                let v = self.get(st, x);
                let y = self.get(st, y);
                fn ins(v: Val, t: &T, y: Val, ix: &[usize]) -> Val {
                    if ix.is_empty() {
                        return y;
                    }
                    let mut a = match v {
                        Val::A(a) => (*a).clone(),
                        _ => vec![Val::U; t.count()],
                    };
                    let old = std::mem::replace(&mut a[ix[0]], Val::U);
                    a[ix[0]] = ins(old, &t.elem(ix[0]), y, &ix[1..]);
                    Val::A(Rc::new(a))
                }
                let r = ins(v, t, y, ix);
                self.set(st, *d, r);
                Ok(Flow::Next)
            }
            Inst::ExtractElement(d, t, x, i) => {
                let v = self.get(st, x);
                let l = self.lanes(v, t.count());
                let i = self.getv(st, i, 64);
                let i = self.concretize(st, i)? as usize;
                self.set(st, *d, l[i].clone());
                Ok(Flow::Next)
            }
            Inst::InsertElement(d, t, x, e, i) => {
                let v = self.get(st, x);
                let mut l = self.lanes(v, t.count());
                let e = self.get(st, e);
                let i = self.getv(st, i, 64);
                let i = self.concretize(st, i)? as usize;
                l[i] = e;
                self.set(st, *d, Val::A(Rc::new(l)));
                Ok(Flow::Next)
            }
            Inst::Shuffle(d, t, x, y, m) => {
                let n = t.count();
                let (a, b) = (self.get(st, x), self.get(st, y));
                let (a, b) = (self.lanes(a, n), self.lanes(b, n));
                let o: Vec<Val> = m
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            Val::U
                        } else if (k as usize) < n {
                            a[k as usize].clone()
                        } else {
                            b[k as usize - n].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, Val::A(Rc::new(o)));
                Ok(Flow::Next)
            }
            Inst::AtomicRmw(d, o, t, p, v) => {
                let a = self.getv(st, p, 64);
                let old = self.load(st, a, t, t.align())?;
                let x = self.to_v(st, &old, t.bits());
                let y = self.getv(st, v, t.bits());
                let r = match o.as_str() {
                    "add" => bin(Op::Add, x, y),
                    "sub" => bin(Op::Sub, x, y),
                    "and" => bin(Op::And, x, y),
                    "or" => bin(Op::Or, x, y),
                    "xor" => bin(Op::Xor, x, y),
                    "xchg" => y,
                    _ => return Err(Stop::Err(format!("atomicrmw {}", o))),
                };
                self.store(st, a, t, &sv(r), t.align())?;
                self.set(st, *d, sv(x));
                Ok(Flow::Next)
            }
            Inst::CmpXchg(d, t, p, c, n) => {
                let a = self.getv(st, p, 64);
                let old = self.load(st, a, t, t.align())?;
                let x = self.to_v(st, &old, t.bits());
                let cv = self.getv(st, c, t.bits());
                let nv = self.getv(st, n, t.bits());
                let e = eq(x, cv);
                let r = ite(e, nv, x);
                self.store(st, a, t, &sv(r), t.align())?;
                self.set(st, *d, Val::A(Rc::new(vec![sv(x), sv(e)])));
                Ok(Flow::Next)
            }
            Inst::Freeze(d, t, x) => {
                let v = self.get(st, x);
                let r = self.freeze(st, &v, t);
                self.set(st, *d, r);
                Ok(Flow::Next)
            }
            Inst::Call(d, rt, callee, args, normal) => {
                let name: Rc<str> = match callee {
                    Callee::Name(n) => n.clone(),
                    Callee::Dyn(o) => {
                        let a = self.getv(st, o, 64);
                        let a = self.concretize(st, a)? as u64;
                        match self.m.fn_by_addr(a) {
                            Some(n) => n,
                            None => return Err(Stop::Viol("memory".into(), format!("indirect call through an invalid pointer {:#x}", a))),
                        }
                    }
                };
                self.call(st, *d, rt, &name, args, *normal)
            }
        }
    }
    fn after_call(&mut self, st: &mut State, normal: Option<u32>) -> R<Flow> {
        match normal {
            Some(l) => {
                self.jump(st, l)?;
                Ok(Flow::Jumped)
            }
            None => {
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                Ok(Flow::Jumped)
            }
        }
    }
    fn freeze(&mut self, st: &mut State, v: &Val, t: &T) -> Val {
        if t.is_agg() {
            let n = t.count();
            let l = self.lanes(v.clone(), n);
            let mut o = vec![];
            for i in 0..n {
                o.push(self.freeze(st, &l[i], &t.elem(i)));
            }
            return Val::A(Rc::new(o));
        }
        match v {
            Val::U => sv(self.frozen(st, t.bits())),
            Val::I(x) if has_undef(*x) => {
                let mut memo = HashMap::new();
                sv(self.rename_undef(st, *x, &mut memo, true))
            }
            v => v.clone(),
        }
    }
    fn cast(&mut self, st: &mut State, k: Cast, t: &T, v: Val, to: &T) -> Val {
        if k == Cast::BitCast {
            if !t.is_agg() && !to.is_agg() {
                return v;
            }
            // vector <-> int via bits
            let flat = if let Ty::Vector(n, e) = &**t {
                let l = self.lanes(v, *n as usize);
                let mut ps = vec![];
                for x in l.iter().rev() {
                    ps.push(self.to_v(st, x, e.bits()));
                }
                concat_all(ps)
            } else {
                self.to_v(st, &v, t.bits())
            };
            return if let Ty::Vector(n, e) = &**to {
                let w = e.bits();
                Val::A(Rc::new((0..*n as u16).map(|i| sv(extract(flat, i * w, w))).collect()))
            } else {
                sv(flat)
            };
        }
        if let (Ty::Vector(n, e), Ty::Vector(_, te)) = (&**t, &**to) {
            let l = self.lanes(v, *n as usize);
            let mut o = vec![];
            for x in l {
                o.push(self.cast(st, k, e, x, te));
            }
            return Val::A(Rc::new(o));
        }
        if let Val::U = v {
            if matches!(k, Cast::Trunc | Cast::PtrToInt | Cast::IntToPtr) {
                return Val::U;
            }
        }
        let x = self.to_v(st, &v, t.bits());
        let w = to.bits();
        sv(match k {
            Cast::SExt => sext(x, w),
            _ => {
                if w < x.w() {
                    extract(x, 0, w)
                } else {
                    zext(x, w)
                }
            }
        })
    }

    // ---------------------------------------------------------------- calls
    fn read_str(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let (id, off) = self.access(st, p, n, 1, false)?;
        let o = self.obj(st, id).unwrap();
        Ok(String::from_utf8_lossy(&o.bytes[off as usize..(off + n) as usize]).to_string())
    }
    fn location(&mut self, st: &mut State, v: &Val) -> Option<String> {
        let Val::I(V::C(a, 64)) = v else { return None };
        let id = (*a as u64) >> 32;
        if id == 0 || id >= self.nglob {
            return None;
        }
        let o = self.obj(st, id)?;
        if o.size != 24 || o.mask.iter().any(|m| *m != 1) {
            return None;
        }
        let q = |i: usize, n: usize| (0..n).rev().fold(0u64, |x, k| x << 8 | o.bytes[i + k] as u64);
        let (p, n, line, col) = (q(0, 8), q(8, 8), q(16, 4), q(20, 4));
        if n > 4096 {
            return None;
        }
        let s = self.read_str(st, p, n).ok()?;
        Some(format!("{}:{}:{}", s, line, col))
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, rt: &T, name: &Rc<str>, args: &[(T, Opd)], normal: Option<u32>) -> R<Flow> {
        let av: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
        macro_rules! arg {
            ($i:expr) => {{
                let w = args[$i].0.bits();
                self.to_v(st, &av[$i], w)
            }};
        }
        macro_rules! conc {
            ($i:expr) => {{
                let v = arg!($i);
                self.concretize(st, v)? as u64
            }};
        }
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                if let Some(d) = d {
                    self.set(st, d, v);
                }
                return self.after_call(st, normal);
            }};
        }
        let n: &str = name;
        // --- LLVM intrinsics
        if let Some(i) = n.strip_prefix("llvm.") {
            let base = i;
            if base.starts_with("lifetime.start") || base.starts_with("lifetime.end") {
                let p = &av[av.len() - 1];
                if let Val::I(V::C(a, _)) = p {
                    let id = *a as u64 >> 32;
                    if let Some(o) = self.obj(st, id) {
                        if o.alive && o.kind == Kind::Stack && *a as u64 == obj_addr(id) {
                            let o = self.obj_mut(st, id);
                            o.mask.iter_mut().for_each(|m| *m = 0);
                        }
                    }
                }
                return self.after_call(st, normal);
            }
            if base.starts_with("experimental.noalias")
                || base.starts_with("dbg.")
                || base.starts_with("invariant.")
                || base.starts_with("prefetch")
                || base.starts_with("donothing")
                || base.starts_with("pseudoprobe")
                || base.starts_with("sideeffect")
            {
                return self.after_call(st, normal);
            }
            if base.starts_with("assume") {
                let c = self.to_v(st, &av[0], 1);
                if !c.is_true() {
                    if let Some(m) = self.feasible(st, not(c))? {
                        st.model = m;
                        return Err(Stop::Viol("ub".into(), "compiler assumption violated".into()));
                    }
                }
                return self.after_call(st, normal);
            }
            if base.starts_with("memcpy") || base.starts_with("memmove") {
                let nn = conc!(2);
                let dd = conc!(0);
                let ss = conc!(1);
                self.mem_copy(st, dd, ss, nn, base.starts_with("memmove"))?;
                return self.after_call(st, normal);
            }
            if base.starts_with("memset") {
                let nn = conc!(2);
                let dd = conc!(0);
                let v = av[1].clone();
                if nn > 0 {
                    let (id, off) = self.access(st, dd, nn, 1, true)?;
                    let v = match v {
                        Val::I(v) => Some(v),
                        _ => None,
                    };
                    let o = self.obj_mut(st, id);
                    for k in 0..nn {
                        o.set((off + k) as usize, v);
                    }
                }
                return self.after_call(st, normal);
            }
            if base.starts_with("threadlocal.address") {
                ret!(av[0].clone());
            }
            if base.starts_with("expect") || base.starts_with("launder") || base.starts_with("strip") || base.starts_with("ssa.copy") {
                ret!(av[0].clone());
            }
            if base.starts_with("is.constant") {
                ret!(sv(V::b(false)));
            }
            if base.starts_with("objectsize") {
                ret!(sv(V::c(u128::MAX, rt.bits())));
            }
            if base.starts_with("trap") || base.starts_with("ubsantrap") || base.starts_with("debugtrap") {
                return Err(Stop::Viol("panic".into(), "abort (trap)".into()));
            }
            // elementwise integer intrinsics
            let vecn = if let Ty::Vector(k, _) = &**rt { Some(*k as usize) } else { None };
            if base.starts_with("vector.reduce.") {
                let (k, e) = match &*args[args.len() - 1].0 {
                    Ty::Vector(k, e) => (*k as usize, e.clone()),
                    _ => unsupported(n.to_string()),
                };
                let l = self.lanes(av[av.len() - 1].clone(), k);
                let mut acc: Option<V> = None;
                for x in &l {
                    let x = self.to_v(st, x, e.bits());
                    acc = Some(match acc {
                        None => x,
                        Some(a) => {
                            let kind = &base["vector.reduce.".len()..];
                            if kind.starts_with("or") {
                                bin(Op::Or, a, x)
                            } else if kind.starts_with("and") {
                                bin(Op::And, a, x)
                            } else if kind.starts_with("add") {
                                bin(Op::Add, a, x)
                            } else if kind.starts_with("xor") {
                                bin(Op::Xor, a, x)
                            } else if kind.starts_with("mul") {
                                bin(Op::Mul, a, x)
                            } else if kind.starts_with("umax") {
                                ite(ult(a, x), x, a)
                            } else if kind.starts_with("umin") {
                                ite(ult(a, x), a, x)
                            } else {
                                return Err(Stop::Err(format!("intrinsic {}", n)));
                            }
                        }
                    });
                }
                ret!(sv(acc.unwrap()));
            }
            if let Some(k) = vecn {
                let mut outs = vec![];
                let lanes: Vec<Vec<Val>> = av
                    .iter()
                    .zip(args)
                    .map(|(v, (t, _))| if t.is_agg() { self.lanes(v.clone(), k) } else { vec![v.clone(); k] })
                    .collect();
                for i in 0..k {
                    let mut vs = vec![];
                    for (j, l) in lanes.iter().enumerate() {
                        let t = &args[j].0;
                        let w = if t.is_agg() { t.elem(0).bits() } else { t.bits() };
                        vs.push(self.to_v(st, &l[i], w));
                    }
                    match self.int_intrinsic(base, &vs, rt.elem(0).bits()) {
                        Some(v) => outs.push(sv(v)),
                        None => return Err(Stop::Err(format!("unsupported intrinsic {}", n))),
                    }
                }
                ret!(Val::A(Rc::new(outs)));
            }
            let mut vs = vec![];
            for (j, (t, _)) in args.iter().enumerate() {
                if t.is_agg() {
                    return Err(Stop::Err(format!("unsupported intrinsic {}", n)));
                }
                let w = t.bits();
                vs.push(self.to_v(st, &av[j], w));
            }
            if base.contains(".with.overflow") {
                let (r, o) = self.overflow(base, vs[0], vs[1]);
                ret!(Val::A(Rc::new(vec![sv(r), sv(o)])));
            }
            match self.int_intrinsic(base, &vs, if let Ty::Void = **rt { 1 } else { rt.bits() }) {
                Some(v) => ret!(sv(v)),
                None => return Err(Stop::Err(format!("unsupported intrinsic {}", n))),
            }
        }
        // --- harness interface
        if n.starts_with("vp_") {
            match n {
                "vp_sym" => {
                    let p = conc!(0);
                    let k = conc!(1);
                    if k > 0 {
                        let (id, off) = self.access(st, p, k, 1, true)?;
                        let base = st.ninput;
                        let conc_in = self.cfg.concrete.clone();
                        let o = self.obj_mut(st, id);
                        for i in 0..k {
                            let v = match &conc_in {
                                Some(c) => V::C(c.get((base as u64 + i) as usize).copied().unwrap_or(0) as u128, 8),
                                None => var(base + i as u32, 8),
                            };
                            o.set((off + i) as usize, Some(v));
                        }
                        st.ninput += k as u32;
                    }
                    return self.after_call(st, normal);
                }
                "vp_choose" => {
                    // 0 <= result < n (n <= 256), each alternative explored as its own path
                    let k = conc!(0);
                    if k == 0 || k > 256 {
                        return Err(Stop::Err("vp_choose bound".into()));
                    }
                    let id = st.ninput;
                    if let Some(c) = &self.cfg.concrete {
                        let x = c.get(id as usize).copied().unwrap_or(0) as u64;
                        st.ninput += 1;
                        ret!(sv(V::C((x % k) as u128, 64)));
                    }
                    st.ninput += 1;
                    let v = var(id, 8);
                    let mut outs = vec![];
                    for i in (0..k).rev() {
                        let mut o = st.clone();
                        let mut vals = o.model.vals.clone();
                        vals.insert(id, i as u128);
                        self.add(&mut o, eq(v, V::C(i as u128, 8)), Rc::new(Model::new(vals)));
                        if let Some(d) = d {
                            self.set(&mut o, d, sv(V::C(i as u128, 64)));
                        }
                        match self.after_call(&mut o, normal)? {
                            _ => {}
                        }
                        outs.push(o);
                    }
                    self.forks += k - 1;
                    return Ok(Flow::Fork(outs));
                }
                "vp_assume" => {
                    let c = arg!(0);
                    let c = if c.w() > 1 { not(eq(c, V::c(0, c.w()))) } else { c };
                    match self.feasible(st, c)? {
                        Some(m) => self.add(st, c, m),
                        None => return Err(Stop::Infeasible),
                    }
                    return self.after_call(st, normal);
                }
                "vp_check" => {
                    let c = arg!(0);
                    let c = if c.w() > 1 { not(eq(c, V::c(0, c.w()))) } else { c };
                    let p = conc!(1);
                    let l = conc!(2);
                    let label = self.read_str(st, p, l)?;
                    st.trace = fnv(st.trace, label.as_bytes());
                    let concrete_c = c.konst().is_some();
                    let ent = self.checks.entry(label.clone()).or_insert([0; 4]);
                    if c.is_true() {
                        ent[0] += 1;
                    } else {
                        if has_undef(c) && self.depends_on_undef(st, c)? {
                            return Err(Stop::Viol("uninit".into(), format!("check '{}' depends on uninitialised memory", label)));
                        }
                        match self.feasible(st, not(c))? {
                            None => {
                                self.checks.get_mut(&label).unwrap()[1] += 1;
                                let m = st.model.clone();
                                self.add(st, c, m);
                            }
                            Some(m) => {
                                let e = self.checks.get_mut(&label).unwrap();
                                e[2] += 1;
                                if concrete_c {
                                    e[3] += 1;
                                }
                                if !(self.cfg.known.contains(&label) && self.viols.iter().any(|v| v.msg == label)) {
                                    self.report(st, "check".into(), label, m);
                                }
                                if self.unknown_viols() >= self.cfg.max_viol {
                                    self.work.clear();
                                    return Err(Stop::Infeasible);
                                }
                                match self.feasible(st, c)? {
                                    Some(m) => self.add(st, c, m),
                                    None => return Err(Stop::Infeasible),
                                }
                            }
                        }
                    }
                    return self.after_call(st, normal);
                }
                "vp_cover" => {
                    let p = conc!(0);
                    let l = conc!(1);
                    let label = self.read_str(st, p, l)?;
                    st.trace = fnv(st.trace, label.as_bytes());
                    *self.covers.entry(label).or_insert(0) += 1;
                    return self.after_call(st, normal);
                }
                "vp_note" => {
                    let p = conc!(0);
                    let l = conc!(1);
                    let label = self.read_str(st, p, l)?;
                    st.notes.push(label.into());
                    return self.after_call(st, normal);
                }
                "vp_param" => ret!(sv(V::C(self.cfg.param as u128, 64))),
                "vp_alloc_limit" => {
                    let v = arg!(0);
                    st.alloc_limit = self.concretize(st, v)? as u64;
                    return self.after_call(st, normal);
                }
                "vp_heap_live" => ret!(sv(V::C(st.heap_live as u128, 64))),
                "vp_heap_peak" => ret!(sv(V::C(st.heap_peak as u128, 64))),
                "vp_heap_max" => ret!(sv(V::C(st.heap_max as u128, 64))),
                "vp_heap_reset" => {
                    st.heap_peak = st.heap_bytes;
                    st.heap_max = 0;
                    return self.after_call(st, normal);
                }
                "vp_concretize" => {
                    let v = arg!(0);
                    let x = self.concretize(st, v)?;
                    ret!(sv(V::C(x, v.w())));
                }
                "vp_out" => {
                    // concrete-mode differential output
                    let v = arg!(0);
                    let x = st.model.eval(v);
                    self.outputs.push(format!("{}", x));
                    return self.after_call(st, normal);
                }
                _ => return Err(Stop::Err(format!("unknown harness intrinsic {}", n))),
            }
        }
        // --- panics
        if n.contains("4core9panicking") {
            let loc = av.iter().rev().find_map(|v| self.location(st, v)).unwrap_or_else(|| "?".into());
            let short = n.rsplit("9panicking").next().unwrap_or("").trim_end_matches(|c: char| !c.is_alphanumeric()).to_string();
            return Err(Stop::Viol("panic".into(), format!("panic at {} ({})", loc, short)));
        }
        if n.contains("18handle_alloc_error") || n.contains("17capacity_overflow") || n.contains("7raw_vec12handle_error") {
            return Err(Stop::Viol("panic".into(), format!("allocation failure path reached ({})", n)));
        }
        if n.contains("3std9panicking") || n == "abort" || n.contains("3std7process5abort") {
            return Err(Stop::Viol("panic".into(), format!("abort ({})", n)));
        }
        // --- allocator
        if n.contains("___rustc") || n.starts_with("__rust_") || n.starts_with("__rdl_") {
            if n.ends_with("___rust_no_alloc_shim_is_unstable_v2") || n.contains("no_alloc_shim_is_unstable") {
                return self.after_call(st, normal);
            }
            if n.ends_with("__rust_alloc") || n.ends_with("__rdl_alloc") || n.ends_with("__rust_alloc_zeroed") || n.ends_with("__rdl_alloc_zeroed") {
                let al = conc!(1);
                let sz = arg!(0);
                let a = self.heap_alloc(st, sz, al, n.ends_with("zeroed"))?;
                ret!(sv(V::C(a as u128, 64)));
            }
            if n.ends_with("__rust_dealloc") || n.ends_with("__rdl_dealloc") {
                let p = conc!(0);
                let sz = arg!(1);
                let al = conc!(2);
                self.heap_free(st, p, Some((sz, al)))?;
                return self.after_call(st, normal);
            }
            if n.ends_with("__rust_realloc") || n.ends_with("__rdl_realloc") {
                let p = conc!(0);
                let osz = arg!(1);
                let al = conc!(2);
                let nsz = arg!(3);
                let nsz = {
                    let lim = st.alloc_limit;
                    let over = ult(V::C(lim as u128, 64), nsz);
                    if let Some(m) = self.feasible(st, over)? {
                        st.model = m;
                        return Err(Stop::Viol("alloc".into(), format!("allocation request larger than {} bytes", lim)));
                    }
                    self.concretize(st, nsz)? as u64
                };
                let n = match simp(st, osz) {
                    V::C(x, _) => (x as u64).min(nsz),
                    o => {
                        if self.feasible(st, ult(o, V::C(nsz as u128, 64)))?.is_none() {
                            nsz
                        } else {
                            (self.concretize(st, o)? as u64).min(nsz)
                        }
                    }
                };
                let a = self.heap_alloc(st, V::C(nsz as u128, 64), al, false)?;
                self.mem_copy(st, a, p, n, false)?;
                self.heap_free(st, p, Some((osz, al)))?;
                ret!(sv(V::C(a as u128, 64)));
            }
        }
        match n {
            "malloc" => {
                let sz = arg!(0);
                let a = self.heap_alloc(st, sz, 16, false)?;
                ret!(sv(V::C(a as u128, 64)));
            }
            "calloc" => {
                let a = arg!(0);
                let b = arg!(1);
                let sz = bin(Op::Mul, a, b);
                let a = self.heap_alloc(st, sz, 16, true)?;
                ret!(sv(V::C(a as u128, 64)));
            }
            "free" => {
                let p = conc!(0);
                self.heap_free(st, p, None)?;
                return self.after_call(st, normal);
            }
            "bcmp" | "memcmp" => {
                let nn = conc!(2);
                let pa = conc!(0);
                let pb = conc!(1);
                if nn == 0 {
                    ret!(sv(V::C(0, 32)));
                }
                let (ia, oa) = self.access(st, pa, nn, 1, false)?;
                let (ib, ob) = self.access(st, pb, nn, 1, false)?;
                let a = self.obj(st, ia).unwrap();
                let b = self.obj(st, ib).unwrap();
                let mut r = V::C(0, 32);
                let mut alleq = V::b(true);
                for k in (0..nn).rev() {
                    let x = a.get((oa + k) as usize);
                    let y = b.get((ob + k) as usize);
                    let (Some(x), Some(y)) = (x, y) else {
                        return Err(Stop::Viol("uninit".into(), "comparison of uninitialised memory".into()));
                    };
                    let e = eq(x, y);
                    if n == "bcmp" {
                        alleq = and1(e, alleq);
                    } else {
                        r = ite(e, r, ite(ult(x, y), V::c(u128::MAX, 32), V::C(1, 32)));
                    }
                }
                if n == "bcmp" {
                    r = ite(alleq, V::C(0, 32), V::C(1, 32));
                }
                ret!(sv(r));
            }
            "memcpy" | "memmove" => {
                let nn = conc!(2);
                let dd = conc!(0);
                let ss = conc!(1);
                self.mem_copy(st, dd, ss, nn, n == "memmove")?;
                ret!(av[0].clone());
            }
            _ => {}
        }
        // --- ordinary function
        let Some(f) = self.m.func(name) else {
            return Err(Stop::Err(format!("call to external function {}", n)));
        };
        if st.frames.len() > 400 {
            return Err(Stop::Viol("hang".into(), "call depth exceeds 400 frames".into()));
        }
        *self.func_hits.entry(f.name.clone()).or_insert(0) += 1;
        let mut regs = vec![Val::U; f.nregs];
        for (i, p) in f.params.iter().enumerate() {
            if i < av.len() {
                regs[*p as usize] = av[i].clone();
            }
        }
        st.frames.push(Rc::new(Frame { f, block: 0, ip: 0, regs, allocas: vec![], ret: d, normal }));
        Ok(Flow::Jumped)
    }

    fn overflow(&mut self, base: &str, a: V, b: V) -> (V, V) {
        let w = a.w();
        if base.starts_with("uadd") {
            let r = bin(Op::Add, a, b);
            // carry out: r < a  (use the constant side when there is one)
            if let V::C(k, _) = b {
                return (r, ult(V::c(mask(w) - k, w), a));
            }
            (r, ult(r, a))
        } else if base.starts_with("usub") {
            (bin(Op::Sub, a, b), ult(a, b))
        } else if base.starts_with("umul") {
            let r = bin(Op::Mul, a, b);
            let (a, b) = if a.konst().is_some() { (b, a) } else { (a, b) };
            if let V::C(k, _) = b {
                if k == 0 {
                    return (r, V::b(false));
                }
                return (r, ult(V::c(mask(w) / k, w), a));
            }
            if w > 64 {
                unsupported("umul.with.overflow wider than 64".into());
            }
            let x = bin(Op::Mul, zext(a, w * 2), zext(b, w * 2));
            (r, not(eq(extract(x, w, w), V::c(0, w))))
        } else {
            if w > 64 {
                unsupported("signed overflow wider than 64".into());
            }
            let (x, y) = (sext(a, w * 2), sext(b, w * 2));
            let op = if base.starts_with("sadd") {
                Op::Add
            } else if base.starts_with("ssub") {
                Op::Sub
            } else {
                Op::Mul
            };
            let wide = bin(op, x, y);
            let r = bin(op, a, b);
            (r, not(eq(sext(r, w * 2), wide)))
        }
    }
    fn int_intrinsic(&mut self, base: &str, v: &[V], rw: u16) -> Option<V> {
        let w = v.first().map(|x| x.w()).unwrap_or(0);
        Some(if base.starts_with("umax") {
            ite(ult(v[0], v[1]), v[1], v[0])
        } else if base.starts_with("umin") {
            ite(ult(v[0], v[1]), v[0], v[1])
        } else if base.starts_with("smax") {
            ite(bin(Op::Slt, v[0], v[1]), v[1], v[0])
        } else if base.starts_with("smin") {
            ite(bin(Op::Slt, v[0], v[1]), v[0], v[1])
        } else if base.starts_with("abs") {
            ite(bin(Op::Slt, v[0], V::c(0, w)), bin(Op::Sub, V::c(0, w), v[0]), v[0])
        } else if base.starts_with("usub.sat") {
            ite(ult(v[0], v[1]), V::c(0, w), bin(Op::Sub, v[0], v[1]))
        } else if base.starts_with("uadd.sat") {
            let (r, o) = self.overflow("uadd", v[0], v[1]);
            ite(o, V::c(u128::MAX, w), r)
        } else if base.starts_with("bswap") {
            let n = w / 8;
            concat_all((0..n).map(|i| extract(v[0], i * 8, 8)).collect())
        } else if base.starts_with("bitreverse") {
            concat_all((0..w).map(|i| extract(v[0], i, 1)).collect())
        } else if base.starts_with("fshl") || base.starts_with("fshr") {
            let V::C(s, _) = v[2] else {
                if w > 64 {
                    return None;
                }
                let sh = bin(Op::URem, v[2], V::c(w as u128, w));
                let cat = concat(v[0], v[1]);
                return Some(if base.starts_with("fshl") {
                    extract(bin(Op::Shl, cat, zext(sh, 2 * w)), w, w)
                } else {
                    extract(bin(Op::LShr, cat, zext(sh, 2 * w)), 0, w)
                });
            };
            let s = (s % w as u128) as u16;
            if base.starts_with("fshl") {
                if s == 0 {
                    v[0]
                } else {
                    concat(extract(v[0], 0, w - s), extract(v[1], w - s, s))
                }
            } else if s == 0 {
                v[1]
            } else {
                concat(extract(v[0], 0, s), extract(v[1], s, w - s))
            }
        } else if base.starts_with("ctpop") {
            let mut acc = V::c(0, w);
            for i in 0..w {
                acc = bin(Op::Add, acc, zext_or(extract(v[0], i, 1), w));
            }
            acc
        } else if base.starts_with("cttz") {
            let mut acc = V::c(w as u128, w);
            for i in (0..w).rev() {
                acc = ite(eq(extract(v[0], i, 1), V::C(1, 1)), V::c(i as u128, w), acc);
            }
            acc
        } else if base.starts_with("ctlz") {
            let mut acc = V::c(w as u128, w);
            for i in 0..w {
                acc = ite(eq(extract(v[0], i, 1), V::C(1, 1)), V::c((w - 1 - i) as u128, w), acc);
            }
            acc
        } else if base.starts_with("ucmp") {
            ite(ult(v[0], v[1]), V::c(u128::MAX, rw), ite(eq(v[0], v[1]), V::c(0, rw), V::c(1, rw)))
        } else if base.starts_with("scmp") {
            ite(bin(Op::Slt, v[0], v[1]), V::c(u128::MAX, rw), ite(eq(v[0], v[1]), V::c(0, rw), V::c(1, rw)))
        } else if base.starts_with("ptrmask") {
            bin(Op::And, v[0], v[1])
        } else {
            return None;
        })
    }
}

fn zext_or(v: V, w: u16) -> V {
    if v.w() >= w {
        v
    } else {
        zext(v, w)
    }
}

fn write_val(o: &mut Obj, off: u64, t: &T, v: &Val, und: &mut dyn FnMut(u16) -> Option<V>) {
    match (&**t, v) {
        (Ty::Vector(n, e), _) if e.bits() % 8 != 0 => {
            let total = (*n as u16) * e.bits();
            let Val::A(a) = v else { unsupported("store of undef bit vector".into()) };
            let mut ps = vec![];
            for x in a.iter().rev() {
                match x {
                    Val::I(x) => ps.push(*x),
                    _ => unsupported("store of undef bit lane".into()),
                }
            }
            let x = concat_all(ps);
            let nb = (total + 7) / 8;
            let x = zext(x, nb * 8);
            for i in 0..nb {
                o.set((off + i as u64) as usize, Some(extract(x, i * 8, 8)));
            }
        }
        (Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..), Val::A(a)) => {
            for i in 0..t.count() {
                write_val(o, off + t.field_off(i), &t.elem(i), &a[i], und);
            }
        }
        (Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..), Val::U) => {
            for k in 0..t.size() {
                o.set((off + k) as usize, None);
            }
        }
        (_, Val::U) => {
            for k in 0..t.store_size() {
                o.set((off + k) as usize, None);
            }
        }
        (_, Val::I(x)) => {
            let n = t.store_size() as u16;
            let x = if x.w() < n * 8 { zext(*x, n * 8) } else { *x };
            for i in 0..n {
                o.set((off + i as u64) as usize, Some(extract(x, i * 8, 8)));
            }
        }
        _ => unsupported("store type mismatch".into()),
    }
}
