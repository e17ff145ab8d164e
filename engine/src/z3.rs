//! Minimal libz3 C FFI and a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_unsat_core(c: P, s: P) -> P;
    fn Z3_ast_vector_inc_ref(c: P, v: P);
    fn Z3_ast_vector_dec_ref(c: P, v: P);
    fn Z3_ast_vector_size(c: P, v: P) -> c_uint;
    fn Z3_ast_vector_get(c: P, v: P, i: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
}

pub enum Sat {
    Sat(Rc<Model>),
    Unsat,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub core_hits: u64,
    pub trivial: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
}

pub struct Solver {
    c: P,
    simple: P,
    bv: HashMap<u32, P>,
    bl: HashMap<u32, P>,
    cache: HashMap<Vec<V>, Option<Rc<Model>>>,
    /// Literals that stand for constraints in the incremental solver.
    lits: HashMap<u32, P>,
    of_lit: HashMap<P, u32>,
    /// Unsatisfiable sets of constraints, by their largest member.
    cores: HashMap<u32, Vec<Box<[u32]>>>,
    since: u64,
    /// Constraints over a single input byte, as the set of values that satisfy them.
    narrow: HashMap<u32, Option<P>>,
    tables: HashMap<u32, Vec<Model>>,
    tabled: usize,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub reset_every: u64,
    pub dump: Option<(String, u64, u64)>, // dir, every, written
}

pub struct Unknown;

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let t = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), t.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let simple = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, simple);
            let s = Solver {
                c,
                simple,
                bv: HashMap::new(),
                bl: HashMap::new(),
                cache: HashMap::new(),
                lits: HashMap::new(),
                of_lit: HashMap::new(),
                cores: HashMap::new(),
                since: 0,
                narrow: HashMap::new(),
                tables: HashMap::new(),
                tabled: 0,
                stats: Stats::default(),
                timeout_ms,
                reset_every: std::env::var("VPR").ok().and_then(|x| x.parse().ok()).unwrap_or(60),
                dump: None,
            };
            s.set_timeout(simple, 2000.min(timeout_ms));
            s
        }
    }
    unsafe fn set_timeout(&self, s: P, ms: u32) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
        let k = CString::new("random_seed").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 1);
        Z3_solver_set_params(self.c, s, p);
    }
    unsafe fn num(&mut self, x: u128, w: u16) -> P {
        let so = bvsort(self.c, w as c_uint);
        let r = if x <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.c, x as u64, so)
        } else {
            let s = CString::new(x.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), so)
        };
        Z3_inc_ref(self.c, r);
        r
    }
    fn build(&mut self, root: V) {
        let V::S(root, _) = root else { return };
        let mut st = vec![root];
        while let Some(&i) = st.last() {
            let n = node(i);
            let done = if n.w == 1 { self.bl.contains_key(&i) } else { self.bv.contains_key(&i) };
            if done {
                st.pop();
                continue;
            }
            let mut ready = true;
            if n.op != Op::Var {
                for ch in [n.a, n.b, n.c] {
                    if let V::S(j, w) = ch {
                        let d = if w == 1 { self.bl.contains_key(&j) } else { self.bv.contains_key(&j) };
                        if !d {
                            st.push(j);
                            ready = false;
                        }
                    }
                }
            }
            if !ready {
                continue;
            }
            unsafe {
                let c = self.c;
                if n.w == 1 {
                    let r = match n.op {
                        Op::Var => {
                            let V::C(id, _) = n.a else { unreachable!() };
                            let so = bvsort(c, 1);
                            let v = Z3_mk_const(c, varsym(c, id as u32), so);
                            Z3_inc_ref(c, v);
                            let one = self.num(1, 1);
                            Z3_mk_eq(c, v, one)
                        }
                        Op::Eq => {
                            if n.a.w() == 1 {
                                let (a, b) = (self.gb(n.a), self.gb(n.b));
                                Z3_mk_eq(c, a, b)
                            } else {
                                let (a, b) = (self.gv(n.a), self.gv(n.b));
                                Z3_mk_eq(c, a, b)
                            }
                        }
                        Op::Ult => {
                            let (a, b) = (self.gv(n.a), self.gv(n.b));
                            Z3_mk_bvult(c, a, b)
                        }
                        Op::Slt => {
                            let (a, b) = (self.gv(n.a), self.gv(n.b));
                            Z3_mk_bvslt(c, a, b)
                        }
                        Op::And => {
                            let v = [self.gb(n.a), self.gb(n.b)];
                            Z3_mk_and(c, 2, v.as_ptr())
                        }
                        Op::Or => {
                            let v = [self.gb(n.a), self.gb(n.b)];
                            Z3_mk_or(c, 2, v.as_ptr())
                        }
                        Op::Xor => {
                            if n.b == V::C(1, 1) {
                                let a = self.gb(n.a);
                                Z3_mk_not(c, a)
                            } else {
                                let (a, b) = (self.gb(n.a), self.gb(n.b));
                                Z3_mk_xor(c, a, b)
                            }
                        }
                        Op::Ite => {
                            let (a, b, d) = (self.gb(n.a), self.gb(n.b), self.gb(n.c));
                            Z3_mk_ite(c, a, b, d)
                        }
                        Op::Extract => {
                            let a = self.gv(n.a);
                            let e = Z3_mk_extract(c, n.lo as u32, n.lo as u32, a);
                            Z3_inc_ref(c, e);
                            let one = self.num(1, 1);
                            Z3_mk_eq(c, e, one)
                        }
                        _ => unsupported(format!("1-bit op {:?}", n.op)),
                    };
                    Z3_inc_ref(c, r);
                    self.bl.insert(i, r);
                } else {
                    let r = match n.op {
                        Op::Var => {
                            let V::C(id, _) = n.a else { unreachable!() };
                            let so = bvsort(c, n.w as c_uint);
                            Z3_mk_const(c, varsym(c, id as u32), so)
                        }
                        Op::Ite => {
                            let (a, b, d) = (self.gb(n.a), self.gv(n.b), self.gv(n.c));
                            Z3_mk_ite(c, a, b, d)
                        }
                        Op::Extract => {
                            let a = self.gv(n.a);
                            Z3_mk_extract(c, (n.lo + n.w - 1) as u32, n.lo as u32, a)
                        }
                        Op::SExt => {
                            let a = self.gv(n.a);
                            Z3_mk_sign_ext(c, (n.w - n.a.w()) as u32, a)
                        }
                        op => {
                            let (a, b) = (self.gv(n.a), self.gv(n.b));
                            match op {
                                Op::Add => Z3_mk_bvadd(c, a, b),
                                Op::Sub => Z3_mk_bvsub(c, a, b),
                                Op::Mul => Z3_mk_bvmul(c, a, b),
                                Op::UDiv => Z3_mk_bvudiv(c, a, b),
                                Op::URem => Z3_mk_bvurem(c, a, b),
                                Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                                Op::SRem => Z3_mk_bvsrem(c, a, b),
                                Op::And => Z3_mk_bvand(c, a, b),
                                Op::Or => Z3_mk_bvor(c, a, b),
                                Op::Xor => Z3_mk_bvxor(c, a, b),
                                Op::Shl => Z3_mk_bvshl(c, a, b),
                                Op::LShr => Z3_mk_bvlshr(c, a, b),
                                Op::AShr => Z3_mk_bvashr(c, a, b),
                                Op::Concat => Z3_mk_concat(c, a, b),
                                _ => unreachable!(),
                            }
                        }
                    };
                    if r.is_null() || Z3_get_error_code(c) != 0 {
                        unsupported(format!("z3 error {} building {:?}", Z3_get_error_code(c), n.op));
                    }
                    Z3_inc_ref(c, r);
                    self.bv.insert(i, r);
                }
            }
            st.pop();
        }
    }
    unsafe fn gb(&mut self, v: V) -> P {
        match v {
            V::C(1, _) => {
                let r = Z3_mk_true(self.c);
                Z3_inc_ref(self.c, r);
                r
            }
            V::C(..) => {
                let r = Z3_mk_false(self.c);
                Z3_inc_ref(self.c, r);
                r
            }
            V::S(i, _) => self.bl[&i],
        }
    }
    unsafe fn gv(&mut self, v: V) -> P {
        match v {
            V::C(x, w) => self.num(x, w),
            V::S(i, w) => {
                if w == 1 {
                    let b = self.bl[&i];
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    let r = Z3_mk_ite(self.c, b, one, zero);
                    Z3_inc_ref(self.c, r);
                    r
                } else {
                    self.bv[&i]
                }
            }
        }
    }

    /// A constraint that depends on one input byte only, rewritten for the solver as the intervals
    /// of that byte's values which satisfy it.
    fn narrowed(&mut self, k: V) -> Option<P> {
        let V::S(i, _) = k else { return None };
        if let Some(p) = self.narrow.get(&i) {
            return *p;
        }
        let vs = vars_of(k);
        if vs.len() != 1 || var_width(vs[0]) != 8 {
            return None;
        }
        let id = vs[0];
        if self.tabled > 400 {
            self.tables.clear();
            self.tabled = 0;
        }
        self.tabled += 1;
        let t = self.tables.entry(id).or_insert_with(|| (0..256u128).map(|x| Model::new(HashMap::from([(id, x)]))).collect());
        let set: Vec<bool> = t.iter().map(|m| m.eval(k) == 1).collect();
        if (1..256).filter(|&x| set[x] != set[x - 1]).count() > 40 {
            // too ragged to be any simpler
            self.narrow.insert(i, None);
            return None;
        }
        let p = unsafe {
            let c = self.c;
            let so = bvsort(c, 8);
            let v = Z3_mk_const(c, varsym(c, id), so);
            Z3_inc_ref(c, v);
            let mut parts: Vec<P> = vec![];
            let mut x = 0usize;
            while x < 256 {
                if !set[x] {
                    x += 1;
                    continue;
                }
                let lo = x;
                while x < 256 && set[x] {
                    x += 1;
                }
                let (l, h) = (self.num(lo as u128, 8), self.num(x as u128 - 1, 8));
                let r = if lo + 1 == x {
                    Z3_mk_eq(c, v, l)
                } else {
                    let a = Z3_mk_bvult(c, v, l);
                    Z3_inc_ref(c, a);
                    let b = Z3_mk_bvult(c, h, v);
                    Z3_inc_ref(c, b);
                    let o = Z3_mk_or(c, 2, [a, b].as_ptr());
                    Z3_inc_ref(c, o);
                    Z3_mk_not(c, o)
                };
                Z3_inc_ref(c, r);
                parts.push(r);
            }
            let r = if parts.is_empty() { Z3_mk_false(c) } else { Z3_mk_or(c, parts.len() as c_uint, parts.as_ptr()) };
            Z3_inc_ref(c, r);
            r
        };
        self.narrow.insert(i, Some(p));
        Some(p)
    }

    /// Decide satisfiability of the conjunction (all constraints are 1-bit).
    pub fn check(&mut self, cs: &[V]) -> Result<Sat, Unknown> {
        let mut key: Vec<V> = Vec::with_capacity(cs.len());
        for &c in cs {
            if c.is_false() {
                self.stats.trivial += 1;
                return Ok(Sat::Unsat);
            }
            if !c.is_true() {
                key.push(c);
            }
        }
        key.sort_unstable_by_key(|v| match v {
            V::S(i, _) => *i,
            _ => 0,
        });
        key.dedup();
        if key.is_empty() {
            self.stats.trivial += 1;
            return Ok(Sat::Sat(Rc::new(Model::default())));
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return Ok(match r {
                Some(m) => Sat::Sat(m.clone()),
                None => Sat::Unsat,
            });
        }
        let ids: Vec<u32> = key.iter().map(|v| if let V::S(i, _) = v { *i } else { unreachable!() }).collect();
        for (n, i) in ids.iter().enumerate() {
            if let Some(cs) = self.cores.get(i) {
                if cs.iter().any(|c| c.iter().all(|j| ids[..=n].binary_search(j).is_ok())) {
                    self.stats.core_hits += 1;
                    return Ok(Sat::Unsat);
                }
            }
        }
        let mut asserts: Vec<P> = Vec::with_capacity(key.len());
        for &c in &key {
            let p = match self.narrowed(c) {
                Some(p) => p,
                None => {
                    self.build(c);
                    unsafe { self.gb(c) }
                }
            };
            asserts.push(p);
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        let r = unsafe {
            let c = self.c;
            self.since += 1;
            if self.since > self.reset_every {
                self.since = 0;
                self.lits.clear();
                self.of_lit.clear();
                Z3_solver_dec_ref(c, self.simple);
                self.simple = Z3_mk_simple_solver(c);
                Z3_solver_inc_ref(c, self.simple);
                self.set_timeout(self.simple, 2000.min(self.timeout_ms));
            }
            let mut assume: Vec<P> = Vec::with_capacity(ids.len());
            for (n, &i) in ids.iter().enumerate() {
                if let Some(&l) = self.lits.get(&i) {
                    assume.push(l);
                    continue;
                }
                let name = CString::new(format!("p{}", i)).unwrap();
                let l = Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), Z3_mk_bool_sort(c));
                Z3_inc_ref(c, l);
                let imp = Z3_mk_implies(c, l, asserts[n]);
                Z3_inc_ref(c, imp);
                Z3_solver_assert(c, self.simple, imp);
                self.lits.insert(i, l);
                self.of_lit.insert(l, i);
                assume.push(l);
            }
            let r = Z3_solver_check_assumptions(c, self.simple, assume.len() as c_uint, assume.as_ptr());
            let res = if r == 1 {
                Some(Some(self.model(self.simple, &key)))
            } else if r == -1 {
                let v = Z3_solver_get_unsat_core(c, self.simple);
                Z3_ast_vector_inc_ref(c, v);
                let mut core: Vec<u32> = vec![];
                for n in 0..Z3_ast_vector_size(c, v) {
                    let l = Z3_ast_vector_get(c, v, n);
                    match self.of_lit.get(&l) {
                        Some(&i) => core.push(i),
                        None => unsupported("unsat core with an unknown literal".into()),
                    }
                }
                Z3_ast_vector_dec_ref(c, v);
                core.sort_unstable();
                if let Some(&m) = core.last() {
                    self.cores.entry(m).or_default().push(core.into_boxed_slice());
                }
                Some(None)
            } else {
                None
            };
            match res {
                Some(x) => Some(x),
                None => {
                    // fall back to the QF_BV tactic
                    let ln = CString::new("QF_BV").unwrap();
                    let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, ln.as_ptr()));
                    Z3_solver_inc_ref(c, s);
                    self.set_timeout(s, self.timeout_ms);
                    for &b in &asserts {
                        Z3_solver_assert(c, s, b);
                    }
                    let r = Z3_solver_check(c, s);
                    let out = if r == 1 {
                        Some(Some(self.model(s, &key)))
                    } else if r == -1 {
                        Some(None)
                    } else {
                        None
                    };
                    Z3_solver_dec_ref(c, s);
                    out
                }
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.solver_s += dt;
        if dt > self.stats.max_query_s {
            self.stats.max_query_s = dt;
        }
        match r {
            None => Err(Unknown),
            Some(None) => {
                self.stats.unsat += 1;
                if let Some((dir, every, cnt)) = &mut self.dump {
                    if self.stats.unsat % *every == 1 || *every == 1 {
                        let _ = std::fs::write(format!("{}/q{}.unsat.smt2", dir, cnt), smtlib(&key));
                        *cnt += 1;
                    }
                }
                self.cache.insert(key, None);
                Ok(Sat::Unsat)
            }
            Some(Some(m)) => {
                self.stats.sat += 1;
                // soundness cross-check of the model against our own evaluator
                for &k in &key {
                    if m.eval(k) != 1 {
                        unsupported("z3 model does not satisfy the query under the evaluator".into());
                    }
                }
                let m = Rc::new(m);
                self.cache.insert(key, Some(m.clone()));
                Ok(Sat::Sat(m))
            }
        }
    }
    unsafe fn model(&mut self, s: P, key: &[V]) -> Model {
        let c = self.c;
        let m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        let mut vals = HashMap::new();
        let mut ids: Vec<u32> = vec![];
        for &k in key {
            ids.extend(vars_of(k).iter());
        }
        ids.sort_unstable();
        ids.dedup();
        for id in ids {
            let w = var_width(id);
            let so = bvsort(c, w as c_uint);
            let v = Z3_mk_const(c, varsym(c, id), so);
            Z3_inc_ref(c, v);
            let mut out: P = std::ptr::null_mut();
            if !Z3_model_eval(c, m, v, true, &mut out) {
                unsupported("z3 model eval failed".into());
            }
            Z3_inc_ref(c, out);
            let st = CStr::from_ptr(Z3_get_numeral_string(c, out)).to_string_lossy().to_string();
            vals.insert(id, st.parse::<u128>().unwrap_or(0));
        }
        Z3_model_dec_ref(c, m);
        Model::new(vals)
    }
}

/// Input variables are bytes; undef/frozen variable ids carry their width in bits 22..30.
pub fn var_width(id: u32) -> u16 {
    if id & (KIND_UNDEF | KIND_FROZEN) == 0 {
        return 8;
    }
    (id >> 22 & 0xff) as u16
}
unsafe fn bvsort(c: P, w: c_uint) -> P {
    let s = Z3_mk_bv_sort(c, w);
    Z3_inc_ref(c, s);
    s
}
unsafe fn varsym(c: P, id: u32) -> P {
    let s = CString::new(format!("v{}", id)).unwrap();
    Z3_mk_string_symbol(c, s.as_ptr())
}
