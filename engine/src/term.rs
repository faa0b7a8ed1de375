//! Hash-consed bit-vector terms (width <= 128) with rewriting and unsigned interval analysis.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    pub imm: u128,
}

#[derive(Clone, Debug)]
pub enum VarKind {
    Plain,
    /// chunk `k` (8 bytes each, the last may be shorter) of the output of application `app`
    Uf { app: u32, chunk: u32 },
    /// integer square root of a term
    Isqrt { arg: T },
}
#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
    pub kind: VarKind,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    C(u8),
    S(T, u8),
}

#[derive(Clone, Debug)]
pub struct App {
    pub tag: u32,
    pub args: Rc<Vec<B>>,
    pub groups: Rc<Vec<T>>,
    pub out_len: usize,
    pub outs: Vec<T>, // chunk terms
}

pub struct Tm {
    pub nodes: Vec<Node>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    map: HashMap<Node, T>,
    pub vars: Vec<VarInfo>,
    varset: HashMap<T, Rc<Vec<u32>>>,
    pub apps: Vec<App>,
    app_map: HashMap<(u32, Rc<Vec<B>>, usize, bool), u32>,
    pub tags: Vec<String>,
    pub isqrt_map: HashMap<T, T>,
    /// concretely evaluated applications
    pub folded: HashMap<(u32, Vec<u8>), Vec<u8>>,
    pub folded_rev: HashMap<Vec<u8>, Vec<u8>>,
    var_nodes: Vec<T>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}
fn bits_for(v: u128) -> u16 {
    (128 - v.leading_zeros()) as u16
}

static mut TM: *mut Tm = std::ptr::null_mut();
#[inline]
pub fn tm() -> &'static mut Tm {
    unsafe {
        if TM.is_null() {
            TM = Box::into_raw(Box::new(Tm::new()));
        }
        &mut *TM
    }
}

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w);
            (if b >= w as u128 { x >> 127 } else { x >> b }) as u128
        }
        Op::Eq => return (a == b) as u128,
        Op::Ult => return (a < b) as u128,
        Op::Ule => return (a <= b) as u128,
        Op::Slt => return (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => return (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }) & m
}

impl Tm {
    fn new() -> Tm {
        Tm {
            nodes: vec![],
            lo: vec![],
            hi: vec![],
            map: HashMap::new(),
            vars: vec![],
            varset: HashMap::new(),
            apps: vec![],
            app_map: HashMap::new(),
            tags: vec![],
            isqrt_map: HashMap::new(),
            folded: HashMap::new(),
            folded_rev: HashMap::new(),
            var_nodes: vec![],
        }
    }
    #[inline]
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u16 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn cv(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.imm)
        } else {
            None
        }
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let (lo, hi) = self.interval(&n);
        if lo == hi && n.op != Op::Const && n.op != Op::Var {
            return self.c(lo, n.w);
        }
        let id = self.nodes.len() as T;
        self.nodes.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.map.insert(n, id);
        id
    }
    fn interval(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let l = |t: T| self.lo[t as usize];
        let h = |t: T| self.hi[t as usize];
        match n.op {
            Op::Const => (n.imm, n.imm),
            Op::Var => {
                let v = &self.vars[n.imm as usize];
                (v.lo, v.hi)
            }
            Op::Add => match h(n.a).checked_add(h(n.b)) {
                Some(s) if s <= m => (l(n.a) + l(n.b), s),
                _ => {
                    // adding a "negative" constant that never underflows
                    if let (Some(k), true) = (self.cv(n.b), n.w < 128) {
                        let neg = (m - k) + 1;
                        if l(n.a) >= neg && neg <= m {
                            return (l(n.a) - neg, h(n.a) - neg);
                        }
                    }
                    (0, m)
                }
            },
            Op::Sub => {
                if l(n.a) >= h(n.b) {
                    (l(n.a) - h(n.b), h(n.a) - l(n.b))
                } else {
                    (0, m)
                }
            }
            Op::Mul => match h(n.a).checked_mul(h(n.b)) {
                Some(s) if s <= m => (l(n.a) * l(n.b), s),
                _ => (0, m),
            },
            Op::UDiv => {
                if l(n.b) > 0 {
                    (l(n.a) / h(n.b), h(n.a) / l(n.b))
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                if l(n.b) > 0 {
                    (0, h(n.a).min(h(n.b) - 1))
                } else {
                    (0, h(n.a).max(h(n.b)))
                }
            }
            Op::And => (0, h(n.a).min(h(n.b))),
            Op::Or => {
                let b = bits_for(h(n.a) | h(n.b));
                (l(n.a).max(l(n.b)), mask(b))
            }
            Op::Xor => {
                let b = bits_for(h(n.a) | h(n.b));
                (0, mask(b))
            }
            Op::LShr => match self.cv(n.b) {
                Some(k) if k < n.w as u128 => (l(n.a) >> k, h(n.a) >> k),
                _ => (0, h(n.a)),
            },
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => (0, 1),
            Op::Ite => (l(n.b).min(l(n.c)), h(n.b).max(h(n.c))),
            Op::ZExt => (l(n.a), h(n.a)),
            Op::Extract => {
                let lo = n.imm as u32;
                let (al, ah) = (l(n.a), h(n.a));
                let (sl, sh) = (al >> lo, ah >> lo);
                let top = lo + n.w as u32;
                if sh <= m {
                    (sl, sh)
                } else if top < 128 && al >> top == ah >> top {
                    (sl & m, sh & m)
                } else {
                    (0, m)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                ((l(n.a) << lw) | l(n.b), (h(n.a) << lw) | h(n.b))
            }
            _ => (0, m),
        }
    }
    pub fn c(&mut self, v: u128, w: u16) -> T {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, imm: v & mask(w) })
    }
    pub fn tt(&mut self) -> T {
        self.c(1, 1)
    }
    pub fn ff(&mut self) -> T {
        self.c(0, 1)
    }
    pub fn new_var(&mut self, info: VarInfo) -> T {
        let id = self.vars.len();
        let w = info.w;
        self.vars.push(info);
        let t = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, imm: id as u128 });
        self.var_nodes.push(t);
        t
    }
    pub fn var_node(&self, v: u32) -> T {
        self.var_nodes[v as usize]
    }
    fn n2(&mut self, op: Op, w: u16, a: T, b: T) -> T {
        self.mk(Node { op, w, a, b, c: 0, imm: 0 })
    }
    /// number of distinct leaves when the term is a tree of `ite`s over constants
    fn const_tree(&self, t: T, budget: &mut i32) -> bool {
        *budget -= 1;
        if *budget < 0 {
            return false;
        }
        let n = self.n(t);
        match n.op {
            Op::Const => true,
            Op::Ite => self.const_tree(n.b, budget) && self.const_tree(n.c, budget),
            _ => false,
        }
    }
    fn is_const_ite(&self, t: T) -> bool {
        if self.n(t).op != Op::Ite {
            return false;
        }
        let mut b = 24;
        self.const_tree(t, &mut b)
    }
    pub fn const_leaves(&self, t: T, out: &mut Vec<u128>) -> bool {
        let n = self.n(t);
        match n.op {
            Op::Const => {
                if !out.contains(&n.imm) {
                    out.push(n.imm);
                }
                out.len() <= 256
            }
            Op::Ite => self.const_leaves(n.b, out) && self.const_leaves(n.c, out),
            _ => false,
        }
    }
    fn map_tree(&mut self, t: T, f: &mut dyn FnMut(&mut Tm, T) -> T) -> T {
        let n = self.n(t);
        if n.op == Op::Ite {
            let x = self.map_tree(n.b, f);
            let y = self.map_tree(n.c, f);
            self.ite(n.a, x, y)
        } else {
            f(self, t)
        }
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    pub fn and1(&mut self, a: T, b: T) -> T {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: T, b: T) -> T {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.bin(Op::Eq, a, b)
    }
    fn is_not(&self, t: T) -> Option<T> {
        let n = self.n(t);
        if n.op == Op::Xor && self.cv(n.b) == Some(mask(n.w)) {
            Some(n.a)
        } else {
            None
        }
    }
    fn rw(&self, op: Op, a: T) -> u16 {
        match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => self.w(a),
        }
    }
    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if w != self.w(b) {
            panic!("width mismatch in {:?}: {} vs {}", op, w, self.w(b));
        }
        let rw = self.rw(op, a);
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let v = fold(op, w, x, y);
            return self.c(v, rw);
        }
        // commutative: constant to the right, otherwise ordered
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let ca = self.cv(a);
        let cb = self.cv(b);
        // push through small constant trees
        if cb.is_some() && self.is_const_ite(a) {
            return self.map_tree(a, &mut |s, l| s.bin(op, l, b));
        }
        if ca.is_some() && self.is_const_ite(b) {
            return self.map_tree(b, &mut |s, l| s.bin(op, a, l));
        }
        let (la, ha, lb, hb) =
            (self.lo[a as usize], self.hi[a as usize], self.lo[b as usize], self.hi[b as usize]);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                let na = self.n(a);
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.c(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                }
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                let nb = self.n(b);
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
                // pull constants outward: (x + k) + y -> (x + y) + k
                if na.op == Op::Add && self.cv(na.b).is_some() {
                    let s = self.bin(Op::Add, na.a, b);
                    return self.bin(Op::Add, s, na.b);
                }
                if nb.op == Op::Add && self.cv(nb.b).is_some() {
                    let s = self.bin(Op::Add, a, nb.a);
                    return self.bin(Op::Add, s, nb.b);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                // zext-free canonical disjoint sums
                if let Some(t) = self.try_disjoint(a, b) {
                    return t;
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = cb {
                    let kk = self.c((!k).wrapping_add(1), w);
                    return self.bin(Op::Add, a, kk);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                let na = self.n(a);
                let nb = self.n(b);
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
                if nb.op == Op::Add && self.cv(nb.b).is_some() {
                    // a - (x + k) -> (a - x) - k
                    let s = self.bin(Op::Sub, a, nb.a);
                    return self.bin(Op::Sub, s, nb.b);
                }
                if na.op == Op::Add && self.cv(na.b).is_some() {
                    let s = self.bin(Op::Sub, na.a, b);
                    return self.bin(Op::Add, s, na.b);
                }
                if nb.op == Op::Sub && nb.a == a {
                    return nb.b;
                }
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                    let na = self.n(a);
                    if na.op == Op::Mul {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.c(k.wrapping_mul(k2), w);
                            return self.bin(Op::Mul, na.a, kk);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
                if let Some(p) = ha.checked_mul(hb) {
                    if let Some(t) = self.narrow(op, w, a, b, bits_for(p).max(1)) {
                        return t;
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    // (x * k) / k and (x * (k*j)) / k without wrap-around
                    let na = self.n(a);
                    if na.op == Op::Mul {
                        if let Some(k2) = self.cv(na.b) {
                            if k != 0 && k2 % k == 0 {
                                if let Some(p) = self.hi[na.a as usize].checked_mul(k2) {
                                    if p <= m {
                                        let kk = self.c(k2 / k, w);
                                        return self.bin(Op::Mul, na.a, kk);
                                    }
                                }
                            }
                        }
                    }
                }
                if ca == Some(0) && lb > 0 {
                    return a;
                }
                if ha < lb {
                    return self.c(0, w);
                }
                if a == b && la > 0 {
                    return self.c(1, w);
                }
                if let Some(t) = self.narrow(op, w, a, b, bits_for(ha | hb).max(1)) {
                    return t;
                }
            }
            Op::URem => {
                if cb == Some(1) {
                    return self.c(0, w);
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let mm = self.c(k - 1, w);
                        return self.bin(Op::And, a, mm);
                    }
                }
                if ha < lb {
                    return a;
                }
                if a == b && la > 0 {
                    return self.c(0, w);
                }
                if let Some(t) = self.narrow(op, w, a, b, bits_for(ha | hb).max(1)) {
                    return t;
                }
            }
            Op::SDiv | Op::SRem => {
                let half = 1u128 << (w - 1);
                if ha < half && hb < half {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // low mask
                    if (k + 1).is_power_of_two() {
                        let nb = bits_for(k);
                        if ha <= k {
                            return a;
                        }
                        let e = self.extract(a, 0, nb);
                        return self.zext(e, w);
                    }
                    // contiguous mask k = ((1<<n)-1) << s
                    let s = k.trailing_zeros() as u16;
                    let r = k >> s;
                    if (r + 1).is_power_of_two() {
                        let nb = bits_for(r);
                        let e = self.extract(a, s, nb);
                        let z = self.c(0, s);
                        let cc = self.concat(e, z);
                        return self.zext(cc, w);
                    }
                    let na = self.n(a);
                    if na.op == Op::And {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.c(k & k2, w);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.c(k, iw);
                        let r = self.bin(Op::And, na.a, kk);
                        return self.zext(r, w);
                    }
                }
                if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                    return self.c(0, w);
                }
                if w == 1 {
                    // absorption: a & (a & x), a & (a | x)
                    for (x, y) in [(a, b), (b, a)] {
                        let ny = self.n(y);
                        if ny.op == Op::And && (ny.a == x || ny.b == x) {
                            return y;
                        }
                        if ny.op == Op::Or && (ny.a == x || ny.b == x) {
                            return x;
                        }
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                    return self.c(m, w);
                }
                if let Some(t) = self.try_disjoint(a, b) {
                    return t;
                }
                if w == 1 {
                    for (x, y) in [(a, b), (b, a)] {
                        let ny = self.n(y);
                        if ny.op == Op::Or && (ny.a == x || ny.b == x) {
                            return y;
                        }
                        if ny.op == Op::And && (ny.a == x || ny.b == x) {
                            return x;
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let na = self.n(a);
                    if na.op == Op::Xor {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.c(k ^ k2, w);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if w == 1 {
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                    if na.op == Op::ZExt && w > 1 && k <= mask(self.w(na.a)) {
                        let kk = self.c(k, self.w(na.a));
                        let x = self.bin(Op::Xor, na.a, kk);
                        return self.zext(x, w);
                    }
                }
                if self.n(a).op == Op::ZExt && self.n(b).op == Op::ZExt {
                    let (x, y) = (self.n(a).a, self.n(b).a);
                    if self.w(x) == self.w(y) {
                        let r = self.bin(Op::Xor, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u16;
                    let e = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(e, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u16;
                    let e = self.extract(a, k, w - k);
                    return self.zext(e, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u16;
                    let e = self.extract(a, k, w - k);
                    return self.sext(e, w);
                }
                if ha < 1u128 << (w - 1) {
                    return self.bin(Op::LShr, a, b);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.tt();
                }
                if ha < lb || hb < la {
                    return self.ff();
                }
                if w == 1 {
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                let na = self.n(a);
                let nb = self.n(b);
                // a single tested bit: (x & (1 << y)) == 0 is the negation of bit y of x
                if cb == Some(0) && na.op == Op::And && self.cv(na.b).is_none() {
                    for (x, sh) in [(na.a, na.b), (na.b, na.a)] {
                        let ns = self.n(sh);
                        if ns.op == Op::Shl && self.cv(ns.a) == Some(1) {
                            let t = self.bin(Op::LShr, x, ns.b);
                            let t = self.extract(t, 0, 1);
                            return self.not(t);
                        }
                    }
                }
                if let Some(k) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.ff();
                            }
                            let kk = self.c(k, iw);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = k & mask(iw);
                            if (sx(t, iw) as u128) & m != k {
                                return self.ff();
                            }
                            let kk = self.c(t, iw);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.cv(na.b) {
                                let kk = self.c(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cv(na.b) {
                                let kk = self.c(k ^ k2, w);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Sub => {
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Or => {
                            if k == 0 {
                                let z = b;
                                let x = self.bin(Op::Eq, na.a, z);
                                let y = self.bin(Op::Eq, na.b, z);
                                return self.bin(Op::And, x, y);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kl = self.c(k, lw);
                            let kh = self.c(k >> lw, hw);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            // one constant arm that decides
                            if let Some(kb) = self.cv(na.b) {
                                if kb != k {
                                    let nc = self.not(na.a);
                                    let e = self.bin(Op::Eq, na.c, b);
                                    return self.bin(Op::And, nc, e);
                                } else {
                                    let e = self.bin(Op::Eq, na.c, b);
                                    return self.bin(Op::Or, na.a, e);
                                }
                            }
                            if let Some(kc) = self.cv(na.c) {
                                if kc != k {
                                    let e = self.bin(Op::Eq, na.b, b);
                                    return self.bin(Op::And, na.a, e);
                                } else {
                                    let nc = self.not(na.a);
                                    let e = self.bin(Op::Eq, na.b, b);
                                    return self.bin(Op::Or, nc, e);
                                }
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (x, y) = (na.a, nb.a);
                        let ww = self.w(x).max(self.w(y));
                        if ww < w {
                            let x = self.zext(x, ww);
                            let y = self.zext(y, ww);
                            return self.bin(Op::Eq, x, y);
                        }
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                    if na.op == Op::Add && nb.op == Op::Add {
                        if na.b == nb.b {
                            return self.bin(Op::Eq, na.a, nb.a);
                        }
                        if na.a == nb.a {
                            return self.bin(Op::Eq, na.b, nb.b);
                        }
                        if na.a == nb.b {
                            return self.bin(Op::Eq, na.b, nb.a);
                        }
                        if na.b == nb.a {
                            return self.bin(Op::Eq, na.a, nb.b);
                        }
                        if self.cv(na.b).is_some() && self.cv(nb.b).is_some() {
                            let d = self.bin(Op::Sub, na.b, nb.b);
                            let l = self.bin(Op::Add, na.a, d);
                            return self.bin(Op::Eq, l, nb.a);
                        }
                    }
                    for (x, y) in [(a, b), (b, a)] {
                        let nx = self.n(x);
                        if nx.op == Op::Add {
                            if nx.a == y {
                                let z = self.c(0, w);
                                return self.bin(Op::Eq, nx.b, z);
                            }
                            if nx.b == y {
                                let z = self.c(0, w);
                                return self.bin(Op::Eq, nx.a, z);
                            }
                        }
                        if nx.op == Op::Ite {
                            if nx.b == y {
                                let e = self.bin(Op::Eq, nx.c, y);
                                return self.bin(Op::Or, nx.a, e);
                            }
                            if nx.c == y {
                                let e = self.bin(Op::Eq, nx.b, y);
                                let nc = self.not(nx.a);
                                return self.bin(Op::Or, nc, e);
                            }
                        }
                    }
                    if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                        let x = self.bin(Op::Eq, na.b, nb.b);
                        let y = self.bin(Op::Eq, na.c, nb.c);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.ff();
                }
                if ha < lb {
                    return self.tt();
                }
                if la >= hb {
                    return self.ff();
                }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(Op::And, na, b);
                }
                if cb == Some(1) {
                    let z = self.c(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if let Some(k) = cb {
                    // ule form for constants
                    let kk = self.c(k - 1, w);
                    return self.bin(Op::Ule, a, kk);
                }
                if ca == Some(0) {
                    let e = self.bin(Op::Eq, b, a);
                    return self.not(e);
                }
                if let Some(k) = ca {
                    let kk = self.c(k + 1, w);
                    return self.bin(Op::Ule, kk, b);
                }
                if let Some(t) = self.cmp_narrow(op, w, a, b) {
                    return t;
                }
                if let Some(t) = self.cmp_addk(op, w, a, b) {
                    return t;
                }
            }
            Op::Ule => {
                if a == b {
                    return self.tt();
                }
                if ha <= lb {
                    return self.tt();
                }
                if la > hb {
                    return self.ff();
                }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(Op::Or, na, b);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return self.bin(Op::Eq, a, b);
                    }
                    let na = self.n(a);
                    if na.op == Op::Concat {
                        // x:low <= k  with constant low bits
                        let lw = self.w(na.b);
                        if let Some(l) = self.cv(na.b) {
                            let (kh, kl) = (k >> lw, k & mask(lw));
                            let hw = self.w(na.a);
                            if l <= kl {
                                let kk = self.c(kh, hw);
                                return self.bin(Op::Ule, na.a, kk);
                            } else {
                                let kk = self.c(kh, hw);
                                return self.bin(Op::Ult, na.a, kk);
                            }
                        }
                        if k & mask(lw) == mask(lw) {
                            let kk = self.c(k >> lw, self.w(na.a));
                            return self.bin(Op::Ule, na.a, kk);
                        }
                    }
                }
                if let Some(k) = ca {
                    let nb = self.n(b);
                    if nb.op == Op::Concat {
                        let lw = self.w(nb.b);
                        if let Some(l) = self.cv(nb.b) {
                            let (kh, kl) = (k >> lw, k & mask(lw));
                            let hw = self.w(nb.a);
                            let kk = self.c(kh, hw);
                            return if kl <= l {
                                self.bin(Op::Ule, kk, nb.a)
                            } else {
                                self.bin(Op::Ult, kk, nb.a)
                            };
                        }
                        if k & mask(lw) == 0 {
                            let kk = self.c(k >> lw, self.w(nb.a));
                            return self.bin(Op::Ule, kk, nb.a);
                        }
                    }
                    if k == 1 {
                        let z = self.c(0, w);
                        let e = self.bin(Op::Eq, b, z);
                        return self.not(e);
                    }
                    if k == m {
                        return self.bin(Op::Eq, b, a);
                    }
                }
                if let Some(t) = self.cmp_narrow(op, w, a, b) {
                    return t;
                }
                if let Some(t) = self.cmp_addk(op, w, a, b) {
                    return t;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return if op == Op::Slt { self.ff() } else { self.tt() };
                }
                let half = 1u128 << (w - 1);
                if ha < half && hb < half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if la >= half && lb >= half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if ha < half && lb >= half {
                    return self.ff();
                }
                if la >= half && hb < half {
                    return self.tt();
                }
                // sign tests
                if op == Op::Slt && cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if op == Op::Sle && ca == Some(0) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if op == Op::Slt && ca == Some(m) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if op == Op::Sle && cb == Some(m) {
                    return self.extract(a, w - 1, 1);
                }
            }
            _ => {}
        }
        self.n2(op, rw, a, b)
    }
    /// x + k <= c  (no wrap-around possible)  ->  x <= c - k
    fn cmp_addk(&mut self, op: Op, w: u16, a: T, b: T) -> Option<T> {
        let m = mask(w);
        let nowrap = |s: &Tm, x: T, k: u128| -> bool {
            s.hi[x as usize].checked_add(k).map_or(false, |v| v <= m)
        };
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Add {
            if let Some(k) = self.cv(na.b) {
                if nowrap(self, na.a, k) {
                    if let Some(c) = self.cv(b) {
                        if c >= k {
                            let kk = self.c(c - k, w);
                            return Some(self.bin(op, na.a, kk));
                        }
                        return Some(self.ff());
                    }
                    if nb.op == Op::Add {
                        if let Some(k2) = self.cv(nb.b) {
                            if nowrap(self, nb.a, k2) {
                                if k >= k2 {
                                    let kk = self.c(k - k2, w);
                                    let x = self.bin(Op::Add, na.a, kk);
                                    return Some(self.bin(op, x, nb.a));
                                } else {
                                    let kk = self.c(k2 - k, w);
                                    let y = self.bin(Op::Add, nb.a, kk);
                                    return Some(self.bin(op, na.a, y));
                                }
                            }
                        }
                    }
                }
            }
        }
        if nb.op == Op::Add {
            if let Some(k) = self.cv(nb.b) {
                if nowrap(self, nb.a, k) {
                    if let Some(c) = self.cv(a) {
                        if c >= k {
                            let kk = self.c(c - k, w);
                            return Some(self.bin(op, kk, nb.a));
                        }
                        return Some(self.tt());
                    }
                }
            }
        }
        None
    }
    fn cmp_narrow(&mut self, op: Op, w: u16, a: T, b: T) -> Option<T> {
        let core = |s: &Tm, t: T| -> Option<u16> {
            let n = s.n(t);
            match n.op {
                Op::ZExt => Some(s.w(n.a)),
                Op::Const => Some(bits_for(n.imm).max(1)),
                _ => None,
            }
        };
        let ww = core(self, a)?.max(core(self, b)?);
        if ww >= w {
            return None;
        }
        let x = self.extract(a, 0, ww);
        let y = self.extract(b, 0, ww);
        Some(self.bin(op, x, y))
    }
    fn narrow(&mut self, op: Op, w: u16, a: T, b: T, bits: u16) -> Option<T> {
        // round up so that equal computations meet in the same shape
        let ww = (bits + 3) / 4 * 4;
        if ww + 4 > w {
            return None;
        }
        let x = self.extract(a, 0, ww);
        let y = self.extract(b, 0, ww);
        let r = self.bin(op, x, y);
        Some(self.zext(r, w))
    }
    /// a | b or a + b where the set bits cannot overlap: concatenate
    fn try_disjoint(&mut self, a: T, b: T) -> Option<T> {
        for (x, y) in [(a, b), (b, a)] {
            let nx = self.n(x);
            let (inner, nx, w) = if nx.op == Op::ZExt {
                (true, self.n(nx.a), nx.w)
            } else {
                (false, nx, nx.w)
            };
            if nx.op == Op::Concat && self.cv(nx.b) == Some(0) {
                let lw = self.w(nx.b);
                if self.hi[y as usize] <= mask(lw) {
                    let l = self.extract(y, 0, lw);
                    let r = self.concat(nx.a, l);
                    return Some(if inner { self.zext(r, w) } else { r });
                }
            }
        }
        None
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.cv(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(x) = self.is_not(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
            if a == c {
                return self.bin(Op::Or, c, b);
            }
            if b == c {
                return self.bin(Op::And, c, a);
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // zext(c) idiom
        if w > 1 {
            if self.cv(a) == Some(1) && self.cv(b) == Some(0) {
                return self.zext(c, w);
            }
            if self.cv(a) == Some(0) && self.cv(b) == Some(1) {
                let n = self.not(c);
                return self.zext(n, w);
            }
        }
        // max/min idioms: ite(a<b, a, b) orderings are left alone
        if nb.op == Op::Ite && nb.b == a {
            let cc = self.bin(Op::Or, c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, imm: 0 })
    }
    pub fn zext(&mut self, a: T, w: u16) -> T {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        assert!(iw < w);
        let n = self.n(a);
        match n.op {
            Op::Const => return self.c(n.imm, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        if self.is_const_ite(a) && iw > 1 {
            return self.map_tree(a, &mut |s, l| s.zext(l, w));
        }
        // zext(extract(x, 0, k)) where x fits in k bits and has the target width
        if n.op == Op::Extract && n.imm == 0 && self.w(n.a) == w && self.hi[n.a as usize] <= mask(iw) {
            return n.a;
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, imm: 0 })
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        if let Some(k) = self.cv(a) {
            return self.c(sx(k, iw) as u128, w);
        }
        if self.hi[a as usize] < 1u128 << (iw - 1) {
            return self.zext(a, w);
        }
        if iw == 1 {
            let x = self.c(mask(w), w);
            let y = self.c(0, w);
            return self.ite(a, x, y);
        }
        if self.is_const_ite(a) {
            return self.map_tree(a, &mut |s, l| s.sext(l, w));
        }
        let n = self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, imm: 0 })
    }
    pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
        let iw = self.w(a);
        if lo == 0 && w == iw {
            return a;
        }
        assert!(lo + w <= iw, "extract {lo}+{w} of {iw}");
        let n = self.n(a);
        match n.op {
            Op::Const => return self.c(n.imm >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.imm as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let xw = self.w(n.a);
                if lo >= xw {
                    return self.c(0, w);
                }
                if lo + w <= xw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, xw - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let xw = self.w(n.a);
                if lo + w <= xw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Ite => {
                if self.is_const_ite(a) {
                    return self.map_tree(a, &mut |s, l| s.extract(l, lo, w));
                }
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        // all remaining bits known zero
        if self.hi[a as usize] >> lo == 0 {
            return self.c(0, w);
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, imm: lo as u128 })
    }
    /// high part `a`, low part `b`
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((x << wb) | y, w);
        }
        if self.cv(a) == Some(0) {
            return self.zext(b, w);
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.imm == nb.imm + wb as u128 {
            return self.extract(na.a, nb.imm as u16, w);
        }
        // concat(extract(x, wb, ..), x) cannot happen; concat(concat(p, q), r): right-associate merges
        if na.op == Op::Concat {
            let nq = self.n(na.b);
            if nq.op == Op::Extract && nb.op == Op::Extract && nq.a == nb.a && nq.imm == nb.imm + wb as u128
            {
                let q = self.concat(na.b, b);
                return self.concat(na.a, q);
            }
            if self.cv(na.b).is_some() && self.cv(b).is_some() {
                let q = self.concat(na.b, b);
                return self.concat(na.a, q);
            }
        }
        if nb.op == Op::Concat {
            // concat(hi, concat(mid, lo)) with adjacent extracts
            let nm = self.n(nb.a);
            if na.op == Op::Extract && nm.op == Op::Extract && na.a == nm.a && na.imm == nm.imm + nm.w as u128 {
                let q = self.concat(a, nb.a);
                return self.concat(q, nb.b);
            }
        }
        if na.op == Op::ZExt {
            let q = self.concat(na.a, b);
            return self.zext(q, w);
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.concat(na.b, nb.b);
            let y = self.concat(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        self.n2(Op::Concat, w, a, b)
    }

    // ------------------------------------------------------------ variables of a term
    /// Sorted set of variable ids; ids >= 1<<30 stand for "some application of tag/len class".
    pub fn vars_of(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(v) = self.varset.get(&t) {
            return v.clone();
        }
        let n = self.n(t);
        let mut out: Vec<u32> = vec![];
        let kids: Vec<T> = match n.op {
            Op::Const => vec![],
            Op::Var => {
                out.push(n.imm as u32);
                match self.vars[n.imm as usize].kind.clone() {
                    VarKind::Plain => vec![],
                    VarKind::Isqrt { arg } => vec![arg],
                    VarKind::Uf { app, .. } => {
                        let ap = &self.apps[app as usize];
                        out.push((1 << 30) + ap.tag * 4096 + (ap.args.len() as u32 & 4095));
                        ap.groups.as_ref().clone()
                    }
                }
            }
            Op::ZExt | Op::SExt | Op::Extract => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        };
        for k in kids {
            let v = self.vars_of(k);
            out.extend(v.iter());
        }
        out.sort_unstable();
        out.dedup();
        let r = Rc::new(out);
        self.varset.insert(t, r.clone());
        r
    }

    // ------------------------------------------------------------ bytes
    pub fn byte_term(&mut self, b: B) -> T {
        match b {
            B::C(v) => self.c(v as u128, 8),
            B::S(t, k) => {
                let w = self.w(t);
                if w < 8 {
                    return self.zext(t, 8);
                }
                self.extract(t, k as u16 * 8, 8)
            }
        }
    }
    /// little-endian assembly of up to 16 bytes
    pub fn assemble(&mut self, bytes: &[B]) -> T {
        let n = bytes.len();
        debug_assert!(n >= 1 && n <= 16);
        if let B::S(t, 0) = bytes[0] {
            if self.w(t) as usize == n * 8
                && bytes.iter().enumerate().all(|(i, b)| *b == B::S(t, i as u8))
            {
                return t;
            }
        }
        let mut i = 0;
        let mut acc: Option<T> = None;
        while i < n {
            let piece = match bytes[i] {
                B::C(_) => {
                    let mut v = 0u128;
                    let s = i;
                    while i < n {
                        if let B::C(x) = bytes[i] {
                            v |= (x as u128) << (8 * (i - s));
                            i += 1;
                        } else {
                            break;
                        }
                    }
                    self.c(v, 8 * (i - s) as u16)
                }
                B::S(t, k) => {
                    let s = i;
                    i += 1;
                    while i < n && bytes[i] == B::S(t, k + (i - s) as u8) {
                        i += 1;
                    }
                    if self.w(t) < 8 {
                        self.zext(t, 8)
                    } else {
                        self.extract(t, k as u16 * 8, 8 * (i - s) as u16)
                    }
                }
            };
            acc = Some(match acc {
                None => piece,
                Some(l) => self.concat(piece, l),
            });
        }
        acc.unwrap()
    }
    pub fn tag(&mut self, s: &str) -> u32 {
        if let Some(i) = self.tags.iter().position(|x| x == s) {
            return i as u32;
        }
        self.tags.push(s.to_string());
        self.tags.len() as u32 - 1
    }
    pub fn app(&mut self, tag: u32, args: Vec<B>, out_len: usize) -> u32 {
        let args = Rc::new(args);
        let key = (tag, args.clone(), out_len, false);
        if let Some(a) = self.app_map.get(&key) {
            return *a;
        }
        let id = self.apps.len() as u32;
        let mut groups = vec![];
        for g in args.chunks(8) {
            groups.push(self.assemble(g));
        }
        self.apps.push(App { tag, args, groups: Rc::new(groups), out_len, outs: vec![] });
        let mut outs = vec![];
        let mut left = out_len;
        let mut chunk = 0;
        while left > 0 {
            let n = left.min(8);
            let w = (n * 8) as u16;
            // single-byte outputs are booleans
            let w = if out_len == 1 { 1 } else { w };
            let name = format!("{}#{}.{}", self.tags[tag as usize], id, chunk);
            let v = self.new_var(VarInfo {
                name,
                w,
                lo: 0,
                hi: mask(w),
                kind: VarKind::Uf { app: id, chunk },
            });
            outs.push(v);
            left -= n;
            chunk += 1;
        }
        self.apps[id as usize].outs = outs;
        self.app_map.insert(key, id);
        id
    }
    pub fn isqrt(&mut self, arg: T) -> T {
        if let Some(v) = self.isqrt_map.get(&arg) {
            return *v;
        }
        let (lo, hi) = (isqrt(self.lo[arg as usize]), isqrt(self.hi[arg as usize]));
        let w = bits_for(hi).max(1);
        let v = self.new_var(VarInfo {
            name: format!("isqrt{}", arg),
            w,
            lo,
            hi,
            kind: VarKind::Isqrt { arg },
        });
        let v = self.zext(v, 64);
        self.isqrt_map.insert(arg, v);
        v
    }
    pub fn show(&self, t: T, depth: usize) -> String {
        let n = self.n(t);
        if depth == 0 {
            return "…".into();
        }
        match n.op {
            Op::Const => format!("{:#x}", n.imm),
            Op::Var => self.vars[n.imm as usize].name.clone(),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.imm, n.w),
            Op::Ite => format!(
                "(ite {} {} {})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

pub fn isqrt(v: u128) -> u128 {
    if v == 0 {
        return 0;
    }
    let mut r = (v as f64).sqrt() as u128;
    while r.checked_mul(r).map_or(true, |q| q > v) {
        r -= 1;
    }
    while (r + 1).checked_mul(r + 1).map_or(false, |q| q <= v) {
        r += 1;
    }
    r
}

// ---------------------------------------------------------------- sha-256 (concrete)
pub fn sha256(data: &[u8]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
        0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
        0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
        0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
        0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
        0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
        0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
        0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut msg = data.to_vec();
    let bitlen = (data.len() as u64) * 8;
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&bitlen.to_be_bytes());
    for chunk in msg.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([chunk[4 * i], chunk[4 * i + 1], chunk[4 * i + 2], chunk[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

/// The remainder of two little-endian numbers of 48 bytes.
fn remainder(args: &[u8]) -> [u8; 32] {
    let mut r = [0u8; 49];
    let m = &args[48..];
    if m.iter().all(|b| *b == 0) {
        return [0; 32];
    }
    for bit in (0..384).rev() {
        let mut carry = args[bit / 8] >> (bit % 8) & 1;
        for b in r.iter_mut() {
            let c = *b >> 7;
            *b = *b << 1 | carry;
            carry = c;
        }
        if r[48] != 0 || r[..48].iter().rev().cmp(m.iter().rev()) != std::cmp::Ordering::Less {
            let mut borrow = 0i16;
            for i in 0..49 {
                let d = r[i] as i16 - if i < 48 { m[i] as i16 } else { 0 } - borrow;
                borrow = (d < 0) as i16;
                r[i] = (d + 256 * borrow) as u8;
            }
        }
    }
    r[..32].try_into().unwrap()
}

/// Value of an uninterpreted function where nothing constrains it: the real SHA-256 for the tag
/// "sha256", the remainder for "mod", otherwise a digest of tag and arguments (one bit for booleans).
pub fn uf_default(tag: &str, args: &[u8], out_len: usize) -> Vec<u8> {
    if tag == "sha256" {
        return sha256(args).to_vec();
    }
    if tag == "mod" && args.len() == 96 && out_len == 32 {
        return remainder(args).to_vec();
    }
    let mut out = vec![];
    let mut ctr = 0u8;
    while out.len() < out_len {
        let mut m = tag.as_bytes().to_vec();
        m.push(0);
        m.push(ctr);
        m.extend_from_slice(args);
        out.extend_from_slice(&sha256(&m));
        ctr += 1;
    }
    out.truncate(out_len);
    if out_len == 1 {
        out[0] &= 1;
    }
    out
}
