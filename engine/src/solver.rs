//! z3 through its C API: one query = one sliced set of constraints.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_s: f64,
    pub max_s: f64,
    pub smt_dumped: u64,
}

pub struct Solver {
    c: P,
    asts: HashMap<E, P>,
    asts_abs: HashMap<E, P>,
    hard: HashMap<E, Rc<Vec<E>>>,
    abstracting: bool,
    n_asts: usize,
    cache: HashMap<Vec<E>, Res>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub dump_dir: Option<String>,
    /// values tried first for the factors of products
    pub hint: Option<Rc<Model>>,
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string();
        eprintln!("z3 error {}: {}", e, m);
        std::process::abort();
    }
}

/// product of two unknowns, quotient of an unknown
fn is_hard(e: E) -> bool {
    match node(e) {
        Node::Bin(Op::Mul, a, b) => as_const(a).is_none() && as_const(b).is_none(),
        Node::Bin(Op::Udiv, _, b) | Node::Bin(Op::Urem, _, b) => match as_const(b) {
            Some(c) => !c.is_power_of_two() && width(b) > 24,
            None => true,
        },
        _ => false,
    }
}
/// upper bound on the number of significant bits
fn bits(e: E) -> u16 {
    match node(e) {
        Node::Const(_, v) => 128 - v.leading_zeros() as u16,
        Node::Zext(_, x) => bits(x),
        Node::Concat(h, l) => match as_const(h) {
            Some(0) => bits(l),
            _ => width(e),
        },
        Node::Ite(_, a, b) => bits(a).max(bits(b)),
        _ => width(e),
    }
}
/// e = a*b + k with a product that does not overflow
fn mul_plus(e: E) -> Option<(E, E, u128)> {
    match node(e) {
        Node::Bin(Op::Mul, a, b) if bits(a) + bits(b) <= width(e) => Some((a, b, 0)),
        Node::Zext(_, x) => mul_plus(x).filter(|r| r.2 == 0),
        Node::Bin(Op::Add, x, y) => {
            let (x, k) = match (as_const(x), as_const(y)) {
                (Some(k), _) => (y, k),
                (_, Some(k)) => (x, k),
                _ => return None,
            };
            let (a, b, k0) = mul_plus(x)?;
            if bits(a) + bits(b) >= width(e) || k0 != 0 || 128 - k.leading_zeros() as u16 >= width(e) {
                return None;
            }
            Some((a, b, k))
        }
        _ => None,
    }
}
fn kids(e: E) -> Vec<E> {
    match node(e) {
        Node::Const(..) | Node::Var(..) => vec![],
        Node::Not(a) | Node::Extract(_, _, a) | Node::Zext(_, a) | Node::Sext(_, a) => vec![a],
        Node::Bin(_, a, b) | Node::Concat(a, b) => vec![a, b],
        Node::Ite(a, b, c) => vec![a, b, c],
    }
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Solver {
    fn mkctx() -> P {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            c
        }
    }
    pub fn new() -> Solver {
        Solver {
            c: Self::mkctx(),
            asts: HashMap::new(),
            asts_abs: HashMap::new(),
            hard: HashMap::new(),
            abstracting: false,
            n_asts: 0,
            cache: HashMap::new(),
            stats: Stats::default(),
            timeout_ms: 60_000,
            dump_dir: None,
            hint: None,
        }
    }
    fn ast(&mut self, e: E) -> P {
        let seen = if self.abstracting { self.asts_abs.get(&e) } else { self.asts.get(&e) };
        if let Some(a) = seen {
            return *a;
        }
        let c = self.c;
        let w = width(e);
        if self.abstracting && is_hard(e) {
            let r = unsafe { Z3_mk_const(c, Z3_mk_int_symbol(c, (1 << 28) + e.0 as c_int), Z3_mk_bv_sort(c, w as c_uint)) };
            self.asts_abs.insert(e, r);
            return r;
        }
        unsafe {
            let r = match node(e) {
                Node::Const(1, v) => {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Const(w, v) => {
                    let s = CString::new(v.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w as c_uint))
                }
                Node::Var(w, id) => {
                    let so = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w as c_uint) };
                    Z3_mk_const(c, Z3_mk_int_symbol(c, id as c_int), so)
                }
                Node::Not(a) => {
                    let x = self.ast(a);
                    if w == 1 {
                        Z3_mk_not(c, x)
                    } else {
                        Z3_mk_bvnot(c, x)
                    }
                }
                Node::Bin(op, a, b) => {
                    let x = self.ast(a);
                    let y = self.ast(b);
                    let b1 = width(a) == 1;
                    match op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::And if b1 => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        Op::Or if b1 => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        Op::Xor if b1 => Z3_mk_xor(c, x, y),
                        _ if b1 => {
                            // go through one-bit vectors
                            let x = self.b2v(x);
                            let y = self.b2v(y);
                            let r = Self::bvop(c, op, x, y);
                            if matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                                r
                            } else {
                                self.v2b(r)
                            }
                        }
                        _ => Self::bvop(c, op, x, y),
                    }
                }
                Node::Ite(k, a, b) => {
                    let k = self.ast(k);
                    let x = self.ast(a);
                    let y = self.ast(b);
                    Z3_mk_ite(c, k, x, y)
                }
                Node::Extract(h, l, a) => {
                    let x = self.ast(a);
                    let r = Z3_mk_extract(c, h as c_uint, l as c_uint, x);
                    if w == 1 {
                        self.v2b(r)
                    } else {
                        r
                    }
                }
                Node::Concat(a, b) => {
                    let mut x = self.ast(a);
                    let mut y = self.ast(b);
                    if width(a) == 1 {
                        x = self.b2v(x);
                    }
                    if width(b) == 1 {
                        y = self.b2v(y);
                    }
                    Z3_mk_concat(c, x, y)
                }
                Node::Zext(w, a) => {
                    let mut x = self.ast(a);
                    if width(a) == 1 {
                        x = self.b2v(x);
                    }
                    Z3_mk_zero_ext(c, (w - width(a)) as c_uint, x)
                }
                Node::Sext(w, a) => {
                    let mut x = self.ast(a);
                    if width(a) == 1 {
                        x = self.b2v(x);
                    }
                    Z3_mk_sign_ext(c, (w - width(a)) as c_uint, x)
                }
            };
            let _ = Z3_inc_ref as *const ();
            if self.abstracting {
                self.asts_abs.insert(e, r);
            } else {
                self.asts.insert(e, r);
            }
            self.n_asts += 1;
            r
        }
    }
    unsafe fn bvop(c: P, op: Op, x: P, y: P) -> P {
        match op {
            Op::Add => Z3_mk_bvadd(c, x, y),
            Op::Sub => Z3_mk_bvsub(c, x, y),
            Op::Mul => Z3_mk_bvmul(c, x, y),
            Op::Udiv => Z3_mk_bvudiv(c, x, y),
            Op::Urem => Z3_mk_bvurem(c, x, y),
            Op::And => Z3_mk_bvand(c, x, y),
            Op::Or => Z3_mk_bvor(c, x, y),
            Op::Xor => Z3_mk_bvxor(c, x, y),
            Op::Shl => Z3_mk_bvshl(c, x, y),
            Op::Lshr => Z3_mk_bvlshr(c, x, y),
            Op::Ashr => Z3_mk_bvashr(c, x, y),
            Op::Eq => Z3_mk_eq(c, x, y),
            Op::Ult => Z3_mk_bvult(c, x, y),
            Op::Ule => Z3_mk_bvule(c, x, y),
            Op::Slt => Z3_mk_bvslt(c, x, y),
            Op::Sle => Z3_mk_bvsle(c, x, y),
        }
    }
    unsafe fn b2v(&self, x: P) -> P {
        let c = self.c;
        let so = Z3_mk_bv_sort(c, 1);
        let one = CString::new("1").unwrap();
        let zero = CString::new("0").unwrap();
        Z3_mk_ite(c, x, Z3_mk_numeral(c, one.as_ptr(), so), Z3_mk_numeral(c, zero.as_ptr(), so))
    }
    unsafe fn v2b(&self, x: P) -> P {
        let c = self.c;
        let one = CString::new("1").unwrap();
        Z3_mk_eq(c, x, Z3_mk_numeral(c, one.as_ptr(), Z3_mk_bv_sort(c, 1)))
    }

    /// constraints reachable from `seed` through shared variables
    pub fn slice(constraints: &[E], seed: E) -> Vec<E> {
        let mut vars: std::collections::HashSet<u32> = vars_of(seed).iter().cloned().collect();
        let mut used = vec![false; constraints.len()];
        let mut out = vec![seed];
        loop {
            let mut changed = false;
            for (i, c) in constraints.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = vars_of(*c);
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(*c);
                    for v in vs.iter() {
                        vars.insert(*v);
                    }
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        out
    }

    /// satisfiability of constraints ∧ extra; the model covers only the variables in the slice
    pub fn check(&mut self, constraints: &[E], extra: E) -> Res {
        if is_false(extra) {
            return Res::Unsat;
        }
        let mut q = Self::slice(constraints, extra);
        q.sort();
        q.dedup();
        q.retain(|e| !is_true(*e));
        if q.iter().any(|e| is_false(*e)) {
            return Res::Unsat;
        }
        self.check_raw(q)
    }
    pub fn check_all(&mut self, constraints: &[E]) -> Res {
        let mut q = constraints.to_vec();
        q.sort();
        q.dedup();
        q.retain(|e| !is_true(*e));
        if q.iter().any(|e| is_false(*e)) {
            return Res::Unsat;
        }
        self.check_raw(q)
    }
    fn hard_nodes(&mut self, e: E) -> Rc<Vec<E>> {
        if let Some(v) = self.hard.get(&e) {
            return v.clone();
        }
        let mut v: Vec<E> = vec![];
        for k in kids(e) {
            v.extend(self.hard_nodes(k).iter());
        }
        if is_hard(e) {
            v.push(e);
        }
        v.sort();
        v.dedup();
        let v = Rc::new(v);
        self.hard.insert(e, v.clone());
        v
    }
    fn run(&mut self, q: &[E], timeout: u32, want_model: bool) -> Res {
        let t = Instant::now();
        let c = self.c;
        let mut vars: Vec<u32> = vec![];
        for e in q {
            vars.extend_from_slice(&vars_of(*e));
        }
        vars.sort();
        vars.dedup();
        unsafe {
            let logic = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, logic.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout);
            Z3_solver_set_params(c, s, p);
            for e in q {
                let a = self.ast(*e);
                Z3_solver_assert(c, s, a);
            }
            let r = Z3_solver_check(c, s);
            let res = match r {
                1 if !want_model => Res::Sat(Rc::new(Model::new())),
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    let mut model = Model::new();
                    for v in &vars {
                        let w = A.with(|a| a.borrow().vars[*v as usize].1);
                        let ve = {
                            let so = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w as c_uint) };
                            Z3_mk_const(c, Z3_mk_int_symbol(c, *v as c_int), so)
                        };
                        let mut out: P = std::ptr::null_mut();
                        if !Z3_model_eval(c, m, ve, true, &mut out) {
                            panic!("model_eval");
                        }
                        let val = if w == 1 {
                            (Z3_get_bool_value(c, out) == 1) as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(c, out)).to_str().unwrap().parse::<u128>().unwrap()
                        };
                        model.insert(*v, val);
                    }
                    Res::Sat(Rc::new(model))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if let Some(d) = &self.dump_dir {
                if t.elapsed().as_secs_f64() > 2.0 && self.stats.smt_dumped < 400 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
                    let f = format!("{}/q{:05}.{}.smt2", d, self.stats.smt_dumped, match res {
                        Res::Sat(_) => "sat",
                        Res::Unsat => "unsat",
                        Res::Unknown => "unknown",
                    });
                    std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", txt)).ok();
                    self.stats.smt_dumped += 1;
                }
            }
            Z3_solver_dec_ref(c, s);
            res
        }
    }
    fn check_raw(&mut self, q: Vec<E>) -> Res {
        if let Some(r) = self.cache.get(&q) {
            self.stats.cached += 1;
            return r.clone();
        }
        if self.n_asts > 400_000 {
            // drop everything z3 holds and start over
            unsafe { Z3_del_context(self.c) };
            self.c = Self::mkctx();
            self.asts.clear();
            self.asts_abs.clear();
            self.n_asts = 0;
        }
        let t = Instant::now();
        let mut hard: Vec<E> = vec![];
        for e in &q {
            hard.extend(self.hard_nodes(*e).iter());
        }
        hard.sort();
        hard.dedup();
        let mut res = None;
        if !hard.is_empty() {
            // 1. products and quotients as arbitrary values: a refutation stays valid
            self.abstracting = true;
            let mut qa = vec![];
            for h in &hard {
                if let Node::Bin(Op::Udiv, x, y) = node(*h) {
                    if as_const(y).map(|c| c > 1).unwrap_or(false) {
                        qa.push(or(eq(x, konst(width(x), 0)), ult(*h, x)));
                        qa.push(ule(*h, x));
                        let c = as_const(y).unwrap();
                        qa.push(ule(*h, konst(width(x), mask(width(x)) / c)));
                        // (a*b + k)/c <= a when b <= c and k < c (nothing overflows)
                        if let Some((a, b, k)) = mul_plus(x) {
                            let w = width(x);
                            if k < c && bits(a) + bits(b) < w.min(127) && c < 1 << 32 {
                                let (aw, bw) = (resize(w, a), resize(w, b));
                                qa.push(implies(ule(bw, konst(w, c)), ule(*h, aw)));
                                qa.push(implies(ule(aw, konst(w, c)), ule(*h, bw)));
                            }
                        }
                    }
                }
                if let Node::Bin(Op::Mul, x, y) = node(*h) {
                    let w = width(x);
                    for (a, b) in [(x, y), (y, x)] {
                        if bits(a) + bits(b) <= w {
                            qa.push(implies(not(eq(b, konst(w, 0))), ule(a, *h)));
                            qa.push(implies(eq(b, konst(w, 0)), eq(*h, konst(w, 0))));
                        }
                    }
                }
            }
            // equal operands give equal results
            for (i, g) in hard.iter().enumerate() {
                for h in &hard[..i] {
                    if let (Node::Bin(o1, a, b), Node::Bin(o2, x, y)) = (node(*g), node(*h)) {
                        if o1 != o2 {
                            continue;
                        }
                        let w = width(a).max(width(x));
                        if width(a) != width(x) && !(o1 == Op::Udiv || (bits(a) + bits(b) <= width(a) && bits(x) + bits(y) <= width(x))) {
                            continue;
                        }
                        let r = |e: E| resize(w, e);
                        let same = eq(r(*g), r(*h));
                        qa.push(implies(and(eq(r(a), r(x)), eq(r(b), r(y))), same));
                        if o1 == Op::Mul {
                            qa.push(implies(and(eq(r(a), r(y)), eq(r(b), r(x))), same));
                        }
                    }
                }
            }
            qa.extend(&q);
            let r = self.run(&qa, self.timeout_ms, false);
            self.abstracting = false;
            if std::env::var("SLOW").is_ok() && !matches!(r, Res::Unsat) {
                eprintln!("abstraction gave {:?} after {:.1}", matches!(r, Res::Sat(_)), t.elapsed().as_secs_f64());
                for h in &hard {
                    eprintln!("   {}", show(*h, 6));
                }
            }
            if matches!(r, Res::Unsat) {
                res = Some(r);
            }
            // 2. a model with small factors is a model
            if res.is_none() {
                let mut fs: Vec<u32> = vec![];
                for h in &hard {
                    fs.extend_from_slice(&vars_of(*h));
                }
                fs.sort();
                fs.dedup();
                for bits in [0u16, 12, 28] {
                    let mut qs = q.clone();
                    if bits == 0 {
                        let h = match &self.hint {
                            Some(h) => h.clone(),
                            None => continue,
                        };
                        for v in &fs {
                            let w = A.with(|a| a.borrow().vars[*v as usize].1);
                            if let Some(x) = h.get(v) {
                                qs.push(eq(var_by_id(*v, w), konst(w, *x)));
                            }
                        }
                    }
                    for v in &fs {
                        let w = A.with(|a| a.borrow().vars[*v as usize].1);
                        if bits > 0 && w > bits {
                            let e = var_by_id(*v, w);
                            qs.push(eq(extract(w - 1, bits, e), konst(w - bits, 0)));
                        }
                    }
                    let r = self.run(&qs, 2000, true);
                    if matches!(r, Res::Sat(_)) {
                        res = Some(r);
                        break;
                    }
                }
            }
        }
        let res = match res {
            Some(r) => r,
            None => self.run(&q, self.timeout_ms, true),
        };
        if let Res::Sat(m) = &res {
            // the translation and the evaluator must agree
            for e in &q {
                if eval(m, *e) != 1 {
                    panic!("z3 model does not satisfy {:?} in the evaluator", e);
                }
            }
        }
        let dt = t.elapsed().as_secs_f64();
        if std::env::var("SLOW").is_ok() && dt > 0.2 {
            eprintln!("slow {:.2}s hard {} {}", dt, hard.len(), match res { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
        }
        self.stats.queries += 1;
        self.stats.time_s += dt;
        if dt > self.stats.max_s {
            self.stats.max_s = dt;
        }
        match res {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(q, res.clone());
        res
    }
}
