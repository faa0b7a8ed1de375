//! Integer view of bit-vector queries: sums, products by constants and divisions by constants
//! become linear integer arithmetic (quotients and remainders are fresh integers), which decides
//! arithmetic that bit-blasting cannot.  Operations without an exact integer form become fresh
//! integers with their interval, so "unsat" is sound; a model counts only after it has been
//! evaluated on the original terms.
use crate::solver::*;
use crate::term::*;
use std::collections::HashMap;

pub struct Lia {
    ints: HashMap<T, P>,
    bools: HashMap<T, P>,
    /// constraints that define the fresh integers a node uses
    side: HashMap<T, Vec<P>>,
    divs: HashMap<(T, T), (P, P, Vec<P>)>,
    int: P,
    fresh: u32,
    pub nonlinear: bool,
}

fn pow2(k: u16) -> u128 {
    1u128 << k
}

impl Lia {
    pub fn new(c: P) -> Lia {
        Lia {
            ints: HashMap::new(),
            bools: HashMap::new(),
            side: HashMap::new(),
            divs: HashMap::new(),
            int: unsafe { Z3_mk_int_sort(c) },
            fresh: 0,
            nonlinear: false,
        }
    }
    fn num(&self, c: P, v: u128) -> P {
        unsafe {
            let n = std::ffi::CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(c, n.as_ptr(), self.int)
        }
    }
    fn big(&self, c: P, w: u16) -> P {
        // 2^w
        unsafe {
            let n = std::ffi::CString::new(if w < 128 { pow2(w).to_string() } else { "340282366920938463463374607431768211456".into() }).unwrap();
            Z3_mk_numeral(c, n.as_ptr(), self.int)
        }
    }
    fn add(&self, c: P, a: P, b: P) -> P {
        unsafe { Z3_mk_add(c, 2, [a, b].as_ptr()) }
    }
    fn sub(&self, c: P, a: P, b: P) -> P {
        unsafe { Z3_mk_sub(c, 2, [a, b].as_ptr()) }
    }
    fn mul(&self, c: P, a: P, b: P) -> P {
        unsafe { Z3_mk_mul(c, 2, [a, b].as_ptr()) }
    }
    fn var(&mut self, c: P, name: &str) -> P {
        unsafe {
            let n = std::ffi::CString::new(name).unwrap();
            let s = Z3_mk_string_symbol(c, n.as_ptr());
            Z3_mk_const(c, s, self.int)
        }
    }
    fn new_var(&mut self, c: P) -> P {
        self.fresh += 1;
        let n = format!("k{}", self.fresh);
        self.var(c, &n)
    }
    fn within(&self, c: P, x: P, lo: u128, hi: u128, out: &mut Vec<P>) {
        unsafe {
            out.push(Z3_mk_le(c, self.num(c, lo), x));
            out.push(Z3_mk_le(c, x, self.num(c, hi)));
        }
    }
    /// Quotient and remainder of `x` (not negative) by the constant `k`.
    fn div_const(&mut self, c: P, x: P, xhi: u128, k: u128, out: &mut Vec<P>) -> (P, P) {
        let (q, r) = (self.new_var(c), self.new_var(c));
        self.within(c, q, 0, xhi / k, out);
        self.within(c, r, 0, k - 1, out);
        let kk = self.num(c, k);
        let p = self.mul(c, kk, q);
        let s = self.add(c, p, r);
        unsafe { out.push(Z3_mk_eq(c, x, s)) };
        (q, r)
    }
    /// `x` modulo 2^w, for an `x` that is at most `times` * 2^w.
    fn wrap(&mut self, c: P, x: P, w: u16, out: &mut Vec<P>) -> P {
        let (q, r) = (self.new_var(c), self.new_var(c));
        unsafe {
            let zero = self.num(c, 0);
            let m = self.big(c, w);
            out.push(Z3_mk_le(c, zero, q));
            out.push(Z3_mk_le(c, zero, r));
            out.push(Z3_mk_lt(c, r, m));
            let p = self.mul(c, m, q);
            let s = self.add(c, p, r);
            out.push(Z3_mk_eq(c, x, s));
        }
        r
    }
    fn divide(&mut self, c: P, a: T, b: T) -> (P, P, Vec<P>) {
        if let Some(x) = self.divs.get(&(a, b)) {
            return x.clone();
        }
        let mut out = vec![];
        let x = self.intz(c, a);
        let ahi = tm().hi[a as usize];
        let r = if let Some(k) = tm().cv(b) {
            assert!(k > 0);
            self.div_const(c, x, ahi, k, &mut out)
        } else {
            self.nonlinear = true;
            let y = self.intz(c, b);
            let (q, r) = (self.new_var(c), self.new_var(c));
            self.within(c, q, 0, ahi, &mut out);
            self.within(c, r, 0, ahi, &mut out);
            unsafe {
                let p = self.mul(c, y, q);
                let s = self.add(c, p, r);
                let e = Z3_mk_eq(c, x, s);
                let l = Z3_mk_lt(c, r, y);
                let zero = self.num(c, 0);
                let z = Z3_mk_eq(c, y, zero);
                let both = Z3_mk_and(c, 2, [e, l].as_ptr());
                out.push(Z3_mk_or(c, 2, [z, both].as_ptr()));
            }
            (q, r)
        };
        self.divs.insert((a, b), (r.0, r.1, out.clone()));
        (r.0, r.1, out)
    }
    fn signed(&self, c: P, x: P, t: T) -> P {
        let w = tm().w(t);
        if tm().hi[t as usize] < pow2(w - 1) {
            return x;
        }
        unsafe {
            let half = self.big(c, w - 1);
            let full = self.big(c, w);
            let neg = self.sub(c, x, full);
            Z3_mk_ite(c, Z3_mk_lt(c, x, half), x, neg)
        }
    }
    pub fn boolz(&mut self, c: P, t: T) -> P {
        if let Some(p) = self.bools.get(&t) {
            return *p;
        }
        let n = tm().n(t);
        assert_eq!(n.w, 1);
        let mut side = vec![];
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.imm != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Var => {
                    let s = std::ffi::CString::new(format!("b{}", n.imm)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bool_sort(c))
                }
                Op::Eq if tm().w(n.a) > 1 => {
                    let (a, b) = (self.intz(c, n.a), self.intz(c, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq => {
                    let (a, b) = (self.boolz(c, n.a), self.boolz(c, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult | Op::Ule => {
                    let (a, b) = (self.intz(c, n.a), self.intz(c, n.b));
                    if n.op == Op::Ult {
                        Z3_mk_lt(c, a, b)
                    } else {
                        Z3_mk_le(c, a, b)
                    }
                }
                Op::Slt | Op::Sle if tm().w(n.a) > 1 => {
                    let (a, b) = (self.intz(c, n.a), self.intz(c, n.b));
                    let (a, b) = (self.signed(c, a, n.a), self.signed(c, b, n.b));
                    if n.op == Op::Slt {
                        Z3_mk_lt(c, a, b)
                    } else {
                        Z3_mk_le(c, a, b)
                    }
                }
                Op::And | Op::Mul => {
                    let v = [self.boolz(c, n.a), self.boolz(c, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.boolz(c, n.a), self.boolz(c, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor | Op::Add | Op::Sub => {
                    let a = self.boolz(c, n.a);
                    if tm().cv(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.boolz(c, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (a, x, y) = (self.boolz(c, n.a), self.boolz(c, n.b), self.boolz(c, n.c));
                    Z3_mk_ite(c, a, x, y)
                }
                Op::Extract => {
                    let v = if is_hash(n.a) {
                        self.hash_slice(c, n.a, n.imm as u16, 1, &mut side)
                    } else {
                        let x = self.intz(c, n.a);
                        let hi = tm().hi[n.a as usize];
                        self.slice(c, x, hi, n.imm as u16, 1, &mut side)
                    };
                    let one = self.num(c, 1);
                    Z3_mk_eq(c, v, one)
                }
                _ => {
                    let s = std::ffi::CString::new(format!("ab{t}")).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bool_sort(c))
                }
            }
        };
        self.bools.insert(t, r);
        if !side.is_empty() {
            self.side.entry(t).or_default().extend(side);
        }
        r
    }
    fn hash_byte(&mut self, c: P, var: u128, i: u16, out: &mut Vec<P>) -> P {
        let v = self.var(c, &format!("v{var}_{i}"));
        self.within(c, v, 0, 255, out);
        v
    }
    /// Bits lo..lo+w of a part of a hash, which is held byte by byte.
    fn hash_slice(&mut self, c: P, t: T, lo: u16, w: u16, out: &mut Vec<P>) -> P {
        let var = tm().n(t).imm;
        let (first, last) = (lo / 8, (lo + w - 1) / 8);
        let mut v = self.num(c, 0);
        for i in (first..=last).rev() {
            let b = self.hash_byte(c, var, i, out);
            let k = self.num(c, 256);
            let p = self.mul(c, k, v);
            v = self.add(c, p, b);
        }
        let hi = mask(8 * (last - first + 1));
        self.slice(c, v, hi, lo - 8 * first, w, out)
    }
    /// Bits lo..lo+w of x.
    fn slice(&mut self, c: P, x: P, hi: u128, lo: u16, w: u16, out: &mut Vec<P>) -> P {
        let (mut x, mut hi) = (x, hi);
        if lo > 0 {
            let (q, _) = self.div_const(c, x, hi, pow2(lo), out);
            x = q;
            hi >>= lo;
        }
        if hi > mask(w) {
            let (_, r) = self.div_const(c, x, hi, pow2(w), out);
            x = r;
        }
        x
    }
    pub fn intz(&mut self, c: P, t: T) -> P {
        if let Some(p) = self.ints.get(&t) {
            return *p;
        }
        let n = tm().n(t);
        let w = n.w;
        let m = mask(w);
        let lo = |t: T| tm().lo[t as usize];
        let hi = |t: T| tm().hi[t as usize];
        let mut side = vec![];
        let abs = |s: &mut Lia, side: &mut Vec<P>| {
            let v = s.var(c, &format!("a{t}"));
            s.within(c, v, lo(t), hi(t), side);
            v
        };
        let r = if w == 1 {
            let b = self.boolz(c, t);
            unsafe { Z3_mk_ite(c, b, self.num(c, 1), self.num(c, 0)) }
        } else {
            match n.op {
                Op::Const => self.num(c, n.imm),
                Op::Var if w > 8 && is_hash(t) => {
                    let mut v = self.num(c, 0);
                    for i in (0..w / 8).rev() {
                        let b = self.hash_byte(c, n.imm, i, &mut side);
                        let k = self.num(c, 256);
                        let p = self.mul(c, k, v);
                        v = self.add(c, p, b);
                    }
                    v
                }
                Op::Var => {
                    let v = self.var(c, &format!("v{}", n.imm));
                    self.within(c, v, lo(t), hi(t), &mut side);
                    v
                }
                Op::Ite => {
                    let (a, x, y) = (self.boolz(c, n.a), self.intz(c, n.b), self.intz(c, n.c));
                    unsafe { Z3_mk_ite(c, a, x, y) }
                }
                Op::ZExt => self.intz(c, n.a),
                Op::SExt if tm().w(n.a) > 1 => {
                    let x = self.intz(c, n.a);
                    let iw = tm().w(n.a);
                    if hi(n.a) < pow2(iw - 1) {
                        x
                    } else {
                        unsafe {
                            let half = self.big(c, iw - 1);
                            let up = self.num(c, m - mask(iw));
                            let y = self.add(c, x, up);
                            Z3_mk_ite(c, Z3_mk_lt(c, x, half), x, y)
                        }
                    }
                }
                Op::Extract if is_hash(n.a) => self.hash_slice(c, n.a, n.imm as u16, w, &mut side),
                Op::Extract => {
                    let x = self.intz(c, n.a);
                    self.slice(c, x, hi(n.a), n.imm as u16, w, &mut side)
                }
                Op::Concat => {
                    let (a, b) = (self.intz(c, n.a), self.intz(c, n.b));
                    let k = self.big(c, tm().w(n.b));
                    let p = self.mul(c, k, a);
                    self.add(c, p, b)
                }
                Op::Add => {
                    let (a, b) = (self.intz(c, n.a), self.intz(c, n.b));
                    let s = self.add(c, a, b);
                    match hi(n.a).checked_add(hi(n.b)) {
                        Some(x) if x <= m => s,
                        _ => unsafe {
                            let full = self.big(c, w);
                            let d = self.sub(c, s, full);
                            let certain = lo(n.a).checked_add(lo(n.b)).map_or(true, |x| w < 128 && x > m);
                            if certain {
                                d
                            } else {
                                Z3_mk_ite(c, Z3_mk_lt(c, s, full), s, d)
                            }
                        },
                    }
                }
                Op::Sub => {
                    let (a, b) = (self.intz(c, n.a), self.intz(c, n.b));
                    let d = self.sub(c, a, b);
                    if lo(n.a) >= hi(n.b) {
                        d
                    } else {
                        unsafe {
                            let full = self.big(c, w);
                            let u = self.add(c, d, full);
                            Z3_mk_ite(c, Z3_mk_lt(c, a, b), u, d)
                        }
                    }
                }
                Op::Mul => {
                    let (a, b) = (self.intz(c, n.a), self.intz(c, n.b));
                    if tm().cv(n.a).is_none() && tm().cv(n.b).is_none() {
                        self.nonlinear = true;
                    }
                    let p = self.mul(c, a, b);
                    match hi(n.a).checked_mul(hi(n.b)) {
                        Some(x) if x <= m => p,
                        _ => self.wrap(c, p, w, &mut side),
                    }
                }
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem
                    if tm().cv(n.b) != Some(0)
                        && (matches!(n.op, Op::UDiv | Op::URem) || (hi(n.a) < pow2(w - 1) && hi(n.b) < pow2(w - 1) && lo(n.b) > 0)) =>
                {
                    let (q, r, s) = self.divide(c, n.a, n.b);
                    side.extend(s);
                    let quot = matches!(n.op, Op::UDiv | Op::SDiv);
                    let v = if quot { q } else { r };
                    if lo(n.b) > 0 {
                        v
                    } else {
                        let y = self.intz(c, n.b);
                        let z = if quot { self.num(c, m) } else { self.intz(c, n.a) };
                        unsafe { Z3_mk_ite(c, Z3_mk_eq(c, y, self.num(c, 0)), z, v) }
                    }
                }
                Op::And => match tm().cv(n.b) {
                    Some(k) if k & (k + 1) == 0 && k != m => {
                        let x = self.intz(c, n.a);
                        if hi(n.a) <= k {
                            x
                        } else {
                            self.div_const(c, x, hi(n.a), k + 1, &mut side).1
                        }
                    }
                    Some(k) if (m ^ k) & ((m ^ k) + 1) == 0 && k != 0 => {
                        let x = self.intz(c, n.a);
                        let (_, r) = self.div_const(c, x, hi(n.a), (m ^ k) + 1, &mut side);
                        self.sub(c, x, r)
                    }
                    Some(k) if k.is_power_of_two() => {
                        let x = self.intz(c, n.a);
                        let b = self.slice(c, x, hi(n.a), k.trailing_zeros() as u16, 1, &mut side);
                        let kk = self.num(c, k);
                        self.mul(c, kk, b)
                    }
                    _ => abs(self, &mut side),
                },
                Op::Xor if tm().cv(n.b) == Some(m) => {
                    let x = self.intz(c, n.a);
                    let k = self.num(c, m);
                    self.sub(c, k, x)
                }
                Op::Or => {
                    // disjoint bits: a sum
                    let tz = |t: T| -> u128 {
                        let k = tm().n(t);
                        match k.op {
                            Op::Shl => tm().cv(k.b).unwrap_or(0),
                            Op::Const => k.imm.trailing_zeros() as u128,
                            Op::Concat if tm().cv(k.b) == Some(0) => tm().w(k.b) as u128,
                            _ => 0,
                        }
                    };
                    let dis = |a: T, b: T| tz(a) > 0 && tz(a) < 128 && hi(b) < pow2(tz(a) as u16);
                    if dis(n.a, n.b) || dis(n.b, n.a) {
                        let (a, b) = (self.intz(c, n.a), self.intz(c, n.b));
                        self.add(c, a, b)
                    } else {
                        abs(self, &mut side)
                    }
                }
                Op::Shl if tm().cv(n.b).map_or(false, |k| k < w as u128) => {
                    let k = tm().cv(n.b).unwrap() as u16;
                    let x = self.intz(c, n.a);
                    let kk = self.big(c, k);
                    let p = self.mul(c, kk, x);
                    if hi(n.a) <= m >> k {
                        p
                    } else {
                        self.wrap(c, p, w, &mut side)
                    }
                }
                Op::LShr | Op::AShr
                    if tm().cv(n.b).map_or(false, |k| k < w as u128) && (n.op == Op::LShr || hi(n.a) < pow2(w - 1)) =>
                {
                    let k = tm().cv(n.b).unwrap() as u16;
                    let x = self.intz(c, n.a);
                    if k == 0 {
                        x
                    } else {
                        self.div_const(c, x, hi(n.a), pow2(k), &mut side).0
                    }
                }
                _ => abs(self, &mut side),
            }
        };
        self.ints.insert(t, r);
        if !side.is_empty() {
            self.side.entry(t).or_default().extend(side);
        }
        r
    }
    /// The defining constraints of everything below `roots`; None when the products of unknowns
    /// are not wanted and one is present.
    pub fn sides(&self, roots: &[T], seen: &mut std::collections::HashSet<T>) -> (Vec<P>, bool) {
        let mut out = vec![];
        let mut nl = false;
        let mut st: Vec<T> = roots.to_vec();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if !self.ints.contains_key(&t) && !self.bools.contains_key(&t) {
                continue;
            }
            if let Some(s) = self.side.get(&t) {
                out.extend(s.iter().copied());
            }
            let n = tm().n(t);
            match n.op {
                Op::Const | Op::Var => {}
                Op::Ite => st.extend([n.a, n.b, n.c]),
                Op::ZExt | Op::SExt | Op::Extract => st.push(n.a),
                _ => {
                    if n.w > 1
                        && (n.op == Op::Mul || ((n.op == Op::UDiv || n.op == Op::URem) && tm().cv(n.b).is_none()))
                        && tm().cv(n.a).is_none()
                        && tm().cv(n.b).is_none()
                    {
                        nl = true;
                    }
                    st.extend([n.a, n.b]);
                }
            }
        }
        (out, nl)
    }
}

/// Is there arithmetic below these terms that bit-blasting tends not to survive?
pub fn hard(q: &[T]) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut st = q.to_vec();
    while let Some(t) = st.pop() {
        if !seen.insert(t) {
            continue;
        }
        let n = tm().n(t);
        match n.op {
            Op::Const | Op::Var => {}
            Op::Ite => st.extend([n.a, n.b, n.c]),
            Op::ZExt | Op::SExt | Op::Extract => st.push(n.a),
            Op::Mul | Op::UDiv | Op::URem if n.w > 12 && !(n.op != Op::Mul && tm().cv(n.b).map_or(false, |k| k.is_power_of_two())) => {
                return true
            }
            _ => st.extend([n.a, n.b]),
        }
    }
    false
}

/// Whether the term is a part of the output of an uninterpreted function.
fn is_hash(t: T) -> bool {
    let n = tm().n(t);
    n.op == Op::Var && n.w > 8 && n.w % 8 == 0 && matches!(tm().vars[n.imm as usize].kind, crate::term::VarKind::Uf { .. })
}
