//! SMT back end: translation of terms to Z3 (C API), slicing, lazy congruence for uninterpreted
//! functions, query cache.
use crate::term::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

pub type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    pub fn Z3_mk_config() -> P;
    pub fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    pub fn Z3_mk_context(c: P) -> P;
    pub fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    pub fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    pub fn Z3_mk_bool_sort(c: P) -> P;
    pub fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    pub fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    pub fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    pub fn Z3_mk_true(c: P) -> P;
    pub fn Z3_mk_false(c: P) -> P;
    pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_not(c: P, a: P) -> P;
    pub fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    pub fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    pub fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    pub fn Z3_solver_inc_ref(c: P, s: P);
    pub fn Z3_solver_dec_ref(c: P, s: P);
    pub fn Z3_solver_assert(c: P, s: P, a: P);
    pub fn Z3_solver_check(c: P, s: P) -> c_int;
    pub fn Z3_solver_get_model(c: P, s: P) -> P;
    pub fn Z3_solver_set_params(c: P, s: P, p: P);
    pub fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    pub fn Z3_model_inc_ref(c: P, m: P);
    pub fn Z3_model_dec_ref(c: P, m: P);
    pub fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    pub fn Z3_get_bool_value(c: P, a: P) -> c_int;
    pub fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    pub fn Z3_mk_params(c: P) -> P;
    pub fn Z3_params_inc_ref(c: P, p: P);
    pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    pub fn Z3_get_full_version() -> *const c_char;
    pub fn Z3_mk_int_sort(c: P) -> P;
    pub fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_le(c: P, a: P, b: P) -> P;
}

pub fn z3_version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone)]
pub struct Model {
    pub vals: Rc<HashMap<u32, u128>>,
    cache: Rc<RefCell<HashMap<T, u128>>>,
}

impl Model {
    pub fn new() -> Model {
        Model { vals: Rc::new(HashMap::new()), cache: Rc::new(RefCell::new(HashMap::new())) }
    }
    pub fn with(&self, upd: &HashMap<u32, u128>) -> Model {
        let mut v = (*self.vals).clone();
        for (k, x) in upd {
            v.insert(*k, *x);
        }
        Model { vals: Rc::new(v), cache: Rc::new(RefCell::new(HashMap::new())) }
    }
    pub fn eval(&self, t: T) -> u128 {
        let n = tm().n(t);
        if n.op == Op::Const {
            return n.imm;
        }
        if let Some(v) = self.cache.borrow().get(&t) {
            return *v;
        }
        let v = match n.op {
            Op::Const => n.imm,
            Op::Var => self.var(n.imm as u32),
            Op::Ite => {
                if self.eval(n.a) != 0 {
                    self.eval(n.b)
                } else {
                    self.eval(n.c)
                }
            }
            Op::ZExt => self.eval(n.a),
            Op::SExt => (sx(self.eval(n.a), tm().w(n.a)) as u128) & mask(n.w),
            Op::Extract => (self.eval(n.a) >> n.imm) & mask(n.w),
            Op::Concat => (self.eval(n.a) << tm().w(n.b)) | self.eval(n.b),
            op => {
                let w = tm().w(n.a);
                let a = self.eval(n.a);
                let b = self.eval(n.b);
                fold(op, w, a, b)
            }
        };
        self.cache.borrow_mut().insert(t, v);
        v
    }
    pub fn byte(&self, b: &B) -> u8 {
        match b {
            B::C(v) => *v,
            B::S(t, k) => (self.eval(*t) >> (8 * *k as u32)) as u8,
        }
    }
    pub fn app_args(&self, app: u32) -> Vec<u8> {
        let a = tm().apps[app as usize].args.clone();
        a.iter().map(|b| self.byte(b)).collect()
    }
    fn var(&self, v: u32) -> u128 {
        let info = tm().vars[v as usize].clone();
        match info.kind {
            VarKind::Isqrt { arg } => isqrt(self.eval(arg)),
            _ if self.vals.contains_key(&v) => self.vals[&v],
            VarKind::Plain => {
                if info.lo <= 0 {
                    0
                } else {
                    info.lo
                }
            }
            VarKind::Uf { app, chunk } => {
                let ap = tm().apps[app as usize].clone();
                let args = self.app_args(app);
                let out = uf_default(&tm().tags[ap.tag as usize].clone(), &args, ap.out_len);
                let s = chunk as usize * 8;
                let e = (s + 8).min(out.len());
                let mut v = 0u128;
                for i in (s..e).rev() {
                    v = (v << 8) | out[i] as u128;
                }
                v & mask(info.w)
            }
        }
    }
}

pub enum R {
    Sat(HashMap<u32, u128>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    bvc: HashMap<T, P>,
    boolc: HashMap<T, P>,
    sorts: HashMap<u16, P>,
    qfbv: P,
    pub queries: u64,
    pub cache_hits: u64,
    pub unknowns: u64,
    pub time: f64,
    pub max_query: f64,
    pub last_unknown: String,
    cache: HashMap<Vec<T>, Option<Rc<HashMap<u32, u128>>>>,
    recent: Vec<Rc<HashMap<u32, u128>>>,
    pub dump: Option<String>,
    lia: Option<crate::lia::Lia>,
    qflia: P,
    qfnia: P,
    pub int_queries: u64,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let qfbv = Z3_mk_string_symbol(ctx, l.as_ptr());
            Solver {
                ctx,
                bvc: HashMap::new(),
                boolc: HashMap::new(),
                sorts: HashMap::new(),
                qfbv,
                queries: 0,
                cache_hits: 0,
                unknowns: 0,
                time: 0.0,
                max_query: 0.0,
                last_unknown: String::new(),
                cache: HashMap::new(),
                recent: vec![],
                dump: std::env::var("SYM_DUMP").ok(),
                lia: None,
                qflia: Z3_mk_string_symbol(ctx, c"QF_LIA".as_ptr()),
                qfnia: Z3_mk_string_symbol(ctx, c"QF_NIA".as_ptr()),
                int_queries: 0,
            }
        }
    }
    fn sort(&mut self, w: u16) -> P {
        let c = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) })
    }
    fn konst(&mut self, v: u128, w: u16) -> P {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let n = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, n.as_ptr(), s)
            }
        }
    }
    fn boolz(&mut self, t: T) -> P {
        if let Some(p) = self.boolc.get(&t) {
            return *p;
        }
        let n = tm().n(t);
        assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.imm != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, n.imm as c_int);
                    Z3_mk_const(c, s, Z3_mk_bool_sort(c))
                }
                Op::Eq => {
                    if tm().w(n.a) == 1 {
                        let (a, b) = (self.boolz(n.a), self.boolz(n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.bvz(n.a), self.bvz(n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.bvz(n.a), self.bvz(n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And => {
                    let v = [self.boolz(n.a), self.boolz(n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.boolz(n.a), self.boolz(n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor | Op::Add | Op::Sub => {
                    let a = self.boolz(n.a);
                    if tm().cv(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.boolz(n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Mul => {
                    let v = [self.boolz(n.a), self.boolz(n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Ite => {
                    let (a, x, y) = (self.boolz(n.a), self.boolz(n.b), self.boolz(n.c));
                    Z3_mk_ite(c, a, x, y)
                }
                _ => {
                    let b = self.bvz(t);
                    let one = self.konst(1, 1);
                    Z3_mk_eq(c, b, one)
                }
            }
        };
        self.boolc.insert(t, r);
        r
    }
    fn bvz(&mut self, t: T) -> P {
        if let Some(p) = self.bvc.get(&t) {
            return *p;
        }
        let n = tm().n(t);
        let c = self.ctx;
        let r = unsafe {
            if n.w == 1 && !matches!(n.op, Op::Extract | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr) {
                let b = self.boolz(t);
                let one = self.konst(1, 1);
                let zero = self.konst(0, 1);
                Z3_mk_ite(c, b, one, zero)
            } else {
                match n.op {
                    Op::Const => self.konst(n.imm, n.w),
                    Op::Var => {
                        let s = Z3_mk_int_symbol(c, n.imm as c_int);
                        let so = self.sort(n.w);
                        Z3_mk_const(c, s, so)
                    }
                    Op::Ite => {
                        let (a, x, y) = (self.boolz(n.a), self.bvz(n.b), self.bvz(n.c));
                        Z3_mk_ite(c, a, x, y)
                    }
                    Op::ZExt => {
                        let a = self.bvz(n.a);
                        Z3_mk_zero_ext(c, (n.w - tm().w(n.a)) as c_uint, a)
                    }
                    Op::SExt => {
                        let a = self.bvz(n.a);
                        Z3_mk_sign_ext(c, (n.w - tm().w(n.a)) as c_uint, a)
                    }
                    Op::Extract => {
                        let a = self.bvz(n.a);
                        let lo = n.imm as c_uint;
                        Z3_mk_extract(c, lo + n.w as c_uint - 1, lo, a)
                    }
                    _ => {
                        let (a, b) = (self.bvz(n.a), self.bvz(n.b));
                        match n.op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Concat => Z3_mk_concat(c, a, b),
                            _ => panic!("bvz {:?}", n.op),
                        }
                    }
                }
            }
        };
        self.bvc.insert(t, r);
        r
    }

    /// Conjuncts of `pc` that (transitively) share variables with `goal`.
    pub fn slice(&self, pc: &[T], goal: &[T]) -> Vec<T> {
        let mut vars: HashSet<u32> = HashSet::new();
        for g in goal {
            vars.extend(tm().vars_of(*g).iter());
        }
        let sets: Vec<Rc<Vec<u32>>> = pc.iter().map(|t| tm().vars_of(*t)).collect();
        let mut inn = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !inn[i] && sets[i].iter().any(|v| vars.contains(v)) {
                    inn[i] = true;
                    ch = true;
                    vars.extend(sets[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        (0..pc.len()).filter(|i| inn[*i]).map(|i| pc[i]).collect()
    }

    /// Is `pc ∧ goal` satisfiable?  Only the slice of `pc` connected to `goal` is sent.
    pub fn check(&mut self, pc: &[T], goal: &[T], ms: u32) -> R {
        let mut q = self.slice(pc, goal);
        q.extend_from_slice(goal);
        self.check_all(q, ms)
    }
    pub fn check_all(&mut self, mut q: Vec<T>, ms: u32) -> R {
        q.sort_unstable();
        q.dedup();
        if q.iter().any(|t| tm().cv(*t) == Some(0)) {
            return R::Unsat;
        }
        q.retain(|t| tm().cv(*t).is_none());
        if q.is_empty() {
            return R::Sat(HashMap::new());
        }
        if let Some(r) = self.cache.get(&q) {
            self.cache_hits += 1;
            return match r {
                None => R::Unsat,
                Some(m) => R::Sat((**m).clone()),
            };
        }
        let t0 = Instant::now();
        let r = self.solve(&q, ms);
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_query {
            self.max_query = dt;
        }
        if dt > 0.5 && std::env::var("SYM_VERBOSE").is_ok() {
            eprintln!("slow query {dt:.1}s: {}", tm().show(*q.last().unwrap(), 6));
        }
        self.queries += 1;
        match &r {
            R::Sat(m) => {
                let m = Rc::new(m.clone());
                self.recent.push(m.clone());
                self.cache.insert(q, Some(m));
            }
            R::Unsat => {
                self.cache.insert(q, None);
            }
            R::Unknown => {
                self.unknowns += 1;
                self.last_unknown = tm().show(*q.last().unwrap(), 5);
            }
        }
        r
    }
    /// Arithmetic goes to the integer view first, everything else (and the rest) is bit-blasted.
    fn solve(&mut self, q: &[T], ms: u32) -> R {
        if !crate::lia::hard(q) {
            return self.solve_bv(q, ms);
        }
        let first = 500.min(ms);
        self.int_queries += 1;
        match self.solve_int(q, first) {
            R::Unknown => {}
            r => return r,
        }
        match self.solve_bv(q, first) {
            R::Unknown => {}
            r => return r,
        }
        if ms <= first {
            return R::Unknown;
        }
        match self.solve_int(q, (ms / 2).min(30000)) {
            R::Unknown => {}
            r => return r,
        }
        self.solve_bv(q, ms)
    }
    fn solve_int(&mut self, q: &[T], ms: u32) -> R {
        unsafe {
            let c = self.ctx;
            let mut lia = self.lia.take().unwrap_or_else(|| crate::lia::Lia::new(c));
            let mut all: Vec<T> = q.to_vec();
            let mut vars: HashSet<u32> = HashSet::new();
            for t in q {
                vars.extend(tm().vars_of(*t).iter().filter(|v| **v < (1 << 30)));
            }
            let mut vlist: Vec<u32> = vars.iter().copied().collect();
            vlist.sort_unstable();
            let mut apps: Vec<u32> = vec![];
            for v in &vlist {
                let info = tm().vars[*v as usize].clone();
                match info.kind {
                    VarKind::Plain => {}
                    VarKind::Uf { app, .. } => {
                        if !apps.contains(&app) {
                            apps.push(app)
                        }
                    }
                    VarKind::Isqrt { arg } => {
                        let t = self.var_term(*v, info.w);
                        let (c1, c2) = isqrt_def(t, arg);
                        all.push(c1);
                        all.push(c2);
                    }
                }
            }
            let bs: Vec<P> = all.iter().map(|t| lia.boolz(c, *t)).collect();
            let mut seen = HashSet::new();
            let (sides, nl) = lia.sides(&all, &mut seen);
            let s = Z3_mk_solver_for_logic(c, if nl { self.qfnia } else { self.qflia });
            Z3_solver_inc_ref(c, s);
            let prm = Z3_mk_params(c);
            Z3_params_inc_ref(c, prm);
            let ks = Z3_mk_string_symbol(c, c"timeout".as_ptr());
            Z3_params_set_uint(c, prm, ks, ms);
            Z3_solver_set_params(c, s, prm);
            for b in sides.iter().chain(&bs) {
                Z3_solver_assert(c, s, *b);
            }
            let mut rounds = 0;
            let res = loop {
                let r = Z3_solver_check(c, s);
                if r == -1 {
                    break R::Unsat;
                }
                if r == 0 {
                    if let Some(d) = &self.dump {
                        let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                        let _ = std::fs::write(format!("{d}.int.{}.{}.smt2", std::process::id(), self.queries), txt + "\n(check-sat)\n");
                    }
                    break R::Unknown;
                }
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut vals = HashMap::new();
                for v in &vlist {
                    let info = tm().vars[*v as usize].clone();
                    if let VarKind::Isqrt { .. } = info.kind {
                        continue;
                    }
                    let t = self.var_term(*v, info.w);
                    let mut out: P = std::ptr::null_mut();
                    let x = if info.w == 1 {
                        let z = lia.boolz(c, t);
                        Z3_model_eval(c, m, z, true, &mut out);
                        (Z3_get_bool_value(c, out) == 1) as u128
                    } else {
                        let z = lia.intz(c, t);
                        Z3_model_eval(c, m, z, true, &mut out);
                        let n = CStr::from_ptr(Z3_get_numeral_string(c, out)).to_string_lossy();
                        n.parse::<u128>().unwrap_or(info.lo)
                    };
                    vals.insert(*v, x.clamp(info.lo, info.hi));
                }
                Z3_model_dec_ref(c, m);
                let model = Model::new().with(&vals);
                let holds = q.iter().all(|t| model.eval(*t) != 0);
                let lemmas = if apps.is_empty() { vec![] } else { self.congruence(&apps, &vals) };
                if lemmas.is_empty() {
                    break if holds { R::Sat(vals) } else { R::Unknown };
                }
                for l in &lemmas {
                    let z = lia.boolz(c, *l);
                    let (sd, _) = lia.sides(&[*l], &mut seen);
                    for b in sd {
                        Z3_solver_assert(c, s, b);
                    }
                    Z3_solver_assert(c, s, z);
                }
                rounds += 1;
                if rounds > 100 {
                    break R::Unknown;
                }
            };
            Z3_solver_dec_ref(c, s);
            self.lia = Some(lia);
            res
        }
    }
    fn solve_bv(&mut self, q: &[T], ms: u32) -> R {
        unsafe {
            let c = self.ctx;
            let s = Z3_mk_solver_for_logic(c, self.qfbv);
            Z3_solver_inc_ref(c, s);
            let prm = Z3_mk_params(c);
            Z3_params_inc_ref(c, prm);
            let k = CString::new("timeout").unwrap();
            let ks = Z3_mk_string_symbol(c, k.as_ptr());
            Z3_params_set_uint(c, prm, ks, ms);
            Z3_solver_set_params(c, s, prm);
            let mut vars: HashSet<u32> = HashSet::new();
            for t in q {
                let b = self.boolz(*t);
                Z3_solver_assert(c, s, b);
                for v in tm().vars_of(*t).iter() {
                    if *v < (1 << 30) {
                        vars.insert(*v);
                    }
                }
            }
            // intrinsic constraints of the variables
            let mut apps: Vec<u32> = vec![];
            let mut vlist: Vec<u32> = vars.iter().copied().collect();
            vlist.sort_unstable();
            for v in &vlist {
                let info = tm().vars[*v as usize].clone();
                let t = self.var_term(*v, info.w);
                match info.kind {
                    VarKind::Plain => {
                        if info.w > 1 && info.lo > 0 {
                            let (z, k) = (self.bvz(t), self.konst(info.lo, info.w));
                            Z3_solver_assert(c, s, Z3_mk_bvule(c, k, z));
                        }
                        if info.w > 1 && info.hi < mask(info.w) {
                            let (z, k) = (self.bvz(t), self.konst(info.hi, info.w));
                            Z3_solver_assert(c, s, Z3_mk_bvule(c, z, k));
                        }
                    }
                    VarKind::Uf { app, .. } => {
                        if !apps.contains(&app) {
                            apps.push(app)
                        }
                    }
                    VarKind::Isqrt { arg } => {
                        let (c1, c2) = isqrt_def(t, arg);
                        let (z1, z2) = (self.boolz(c1), self.boolz(c2));
                        Z3_solver_assert(c, s, z1);
                        Z3_solver_assert(c, s, z2);
                    }
                }
            }
            let mut rounds = 0;
            let res = loop {
                let r = Z3_solver_check(c, s);
                if r == -1 {
                    break R::Unsat;
                }
                if r == 0 {
                    if let Some(d) = &self.dump {
                        let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                        let _ = std::fs::write(format!("{d}.{}.{}.smt2", std::process::id(), self.queries), txt + "\n(check-sat)\n");
                    }
                    break R::Unknown;
                }
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut vals = HashMap::new();
                for v in &vlist {
                    let w = tm().vars[*v as usize].w;
                    if let VarKind::Isqrt { .. } = tm().vars[*v as usize].kind {
                        continue;
                    }
                    let t = self.var_term(*v, w);
                    vals.insert(*v, self.model_val(m, t, w));
                }
                Z3_model_dec_ref(c, m);
                if apps.is_empty() {
                    break R::Sat(vals);
                }
                // every chunk of every application present gets a value
                let lemmas = self.congruence(&apps, &vals);
                if lemmas.is_empty() {
                    break R::Sat(vals);
                }
                for l in lemmas {
                    let z = self.boolz(l);
                    Z3_solver_assert(c, s, z);
                }
                rounds += 1;
                if rounds > 400 {
                    break R::Unknown;
                }
            };
            Z3_solver_dec_ref(c, s);
            res
        }
    }
    unsafe fn model_val(&mut self, m: P, t: T, w: u16) -> u128 {
        let c = self.ctx;
        let mut out: P = std::ptr::null_mut();
        let z = if w == 1 { self.boolz(t) } else { self.bvz(t) };
        Z3_model_eval(c, m, z, true, &mut out);
        if w == 1 {
            (Z3_get_bool_value(c, out) == 1) as u128
        } else {
            let s = CStr::from_ptr(Z3_get_numeral_string(c, out)).to_string_lossy();
            s.parse().unwrap_or_else(|_| panic!("numeral {s}"))
        }
    }
    fn var_term(&self, v: u32, w: u16) -> T {
        let _ = w;
        tm().var_node(v)
    }
    /// Violated congruence (and, for SHA-256, injectivity) instances.
    fn congruence(&mut self, apps: &[u32], vals: &HashMap<u32, u128>) -> Vec<T> {
        let m = Model::new().with(vals);
        let info: Vec<(u32, u32, usize, Vec<u8>, Vec<u128>)> = apps
            .iter()
            .map(|a| {
                let ap = tm().apps[*a as usize].clone();
                let args = m.app_args(*a);
                let outs = ap.outs.iter().map(|t| m.eval(*t)).collect();
                (*a, ap.tag, ap.out_len, args, outs)
            })
            .collect();
        let mut lem = vec![];
        for i in 0..info.len() {
            let (ai, ti, li, xi, oi) = &info[i];
            let sha = tm().tags[*ti as usize] == "sha256";
            // against the concretely evaluated applications
            if let Some(o) = tm().folded.get(&(*ti, xi.clone())) {
                let o = o.clone();
                let ap = tm().apps[*ai as usize].clone();
                let mut same = true;
                for (k, t) in ap.outs.iter().enumerate() {
                    let v = chunk_val(&o, k);
                    if m.eval(*t) != v & mask(tm().w(*t)) {
                        same = false;
                    }
                }
                if !same {
                    let mut ante = tm().tt();
                    for (k, g) in ap.groups.iter().enumerate() {
                        let v = chunk_val(xi, k);
                        let w = tm().w(*g);
                        let kc = tm().c(v, w);
                        let e = tm().eq(*g, kc);
                        ante = tm().and1(ante, e);
                    }
                    let mut cons = tm().tt();
                    for (k, t) in ap.outs.iter().enumerate() {
                        let w = tm().w(*t);
                        let kc = tm().c(chunk_val(&o, k), w);
                        let e = tm().eq(*t, kc);
                        cons = tm().and1(cons, e);
                    }
                    let na = tm().not(ante);
                    lem.push(tm().or1(na, cons));
                }
            }
            if sha {
                // no collision with a concretely evaluated digest
                let mut o = vec![];
                for (k, v) in oi.iter().enumerate() {
                    let nb = (*li - 8 * k).min(8);
                    o.extend_from_slice(&v.to_le_bytes()[..nb]);
                }
                if let Some(pre) = tm().folded_rev.get(&o).cloned() {
                    if pre != *xi {
                        let ap = tm().apps[*ai as usize].clone();
                        let mut outs_eq = tm().tt();
                        for (k, t) in ap.outs.iter().enumerate() {
                            let w = tm().w(*t);
                            let kc = tm().c(chunk_val(&o, k), w);
                            let e = tm().eq(*t, kc);
                            outs_eq = tm().and1(outs_eq, e);
                        }
                        let mut args_eq = tm().tt();
                        if pre.len() != ap.args.len() {
                            args_eq = tm().ff();
                        } else {
                            for (k, g) in ap.groups.iter().enumerate() {
                                let w = tm().w(*g);
                                let kc = tm().c(chunk_val(&pre, k), w);
                                let e = tm().eq(*g, kc);
                                args_eq = tm().and1(args_eq, e);
                            }
                        }
                        let no = tm().not(outs_eq);
                        lem.push(tm().or1(no, args_eq));
                    }
                }
            }
            for j in 0..i {
                let (aj, tj, lj, xj, oj) = &info[j];
                if ti != tj || li != lj {
                    continue;
                }
                let viol = (xi == xj && oi != oj) || (sha && oi == oj && xi != xj);
                if !viol {
                    continue;
                }
                let (pa, pb) = (tm().apps[*ai as usize].clone(), tm().apps[*aj as usize].clone());
                let mut outs_eq = tm().tt();
                for (x, y) in pa.outs.iter().zip(pb.outs.iter()) {
                    let e = tm().eq(*x, *y);
                    outs_eq = tm().and1(outs_eq, e);
                }
                let mut args_eq = tm().tt();
                if pa.args.len() != pb.args.len() {
                    args_eq = tm().ff();
                } else {
                    for (x, y) in pa.groups.iter().zip(pb.groups.iter()) {
                        let e = tm().eq(*x, *y);
                        args_eq = tm().and1(args_eq, e);
                    }
                }
                if sha {
                    lem.push(tm().eq(outs_eq, args_eq));
                } else {
                    let na = tm().not(args_eq);
                    lem.push(tm().or1(na, outs_eq));
                }
            }
        }
        lem
    }
}

/// little-endian value of the `k`-th group of 8 bytes
pub fn chunk_val(b: &[u8], k: usize) -> u128 {
    let s = k * 8;
    let e = (s + 8).min(b.len());
    let mut v = 0u128;
    for i in (s..e).rev() {
        v = (v << 8) | b[i] as u128;
    }
    v
}

/// r² ≤ x < (r+1)²
fn isqrt_def(t: T, arg: T) -> (T, T) {
    let aw = tm().w(arg) + 4;
    let a = tm().zext(arg, aw);
    let r = tm().zext(t, aw);
    let one = tm().c(1, aw);
    let r1 = tm().bin(Op::Add, r, one);
    let sq = tm().bin(Op::Mul, r, r);
    let sq1 = tm().bin(Op::Mul, r1, r1);
    (tm().bin(Op::Ule, sq, a), tm().bin(Op::Ult, a, sq1))
}
