//! Symbolic execution of LLVM IR.
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    T(T),
    W(Rc<u128>),
    Agg(Rc<Vec<V>>),
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::C(a), V::C(b)) => a == b,
            (V::T(a), V::T(b)) => a == b,
            (V::W(a), V::W(b)) => a == b,
            (V::Agg(a), V::Agg(b)) => Rc::ptr_eq(a, b) || a == b,
            _ => false,
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: u32,
    pub allocas: Vec<u64>,
    pub ret: Option<u32>,
    pub ret_bb: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub pcset: Rc<HashSet<T>>,
    pub model: Model,
    pub inputs: Vec<T>,
    pub obs: Vec<V>,
    pub known: Rc<HashMap<T, u128>>,
    pub allow_panic: bool,
    pub merge: bool,
    pub covers: Rc<BTreeSet<String>>,
    pub free: Rc<BTreeSet<u32>>,
    pub steps: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stop {
    No,
    Block { depth: usize, bb: u32 },
    Ret { depth: usize },
}

pub enum End {
    /// path is over
    Done,
    /// reached the stop point
    Arrived,
    /// two-way split inside a block: (other side, function, block, depth)
    Split(Box<State>, Rc<Func>, u32, usize),
    /// `other` continues separately
    Fork(Box<State>),
}

pub enum X {
    /// the value of this term has to be made concrete first
    Conc(T),
    /// path ends with an internal error
    Err(String),
    /// path ends normally / silently
    Stop,
    /// memory error of the program under test
    Bad(String),
}
type Res<A> = Result<A, X>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum H {
    Unresolved,
    Body,
    Nop,
    LifetimeEnd,
    Memcpy,
    Memset,
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Ovf(BinOp, bool),
    Sat(BinOp, bool),
    Ucmp,
    Scmp,
    IsConst,
    Ident,
    Expect,
    Trap,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    RAlloc,
    RAllocZ,
    RDealloc,
    RRealloc,
    Bcmp,
    Memcmp,
    Strlen,
    HashKeys,
    Zero,
    ZeroWide,
    Panic,
    SymVar,
    SymRange,
    SymAssume,
    SymCheck,
    SymCover,
    SymAllowPanic,
    SymConcretize,
    SymObserve,
    SymFreeUf,
    SymSame,
    SymUf,
    SymSha,
    SymIsqrt,
    SymDepth,
    SymMerge,
    SymIte,
    VecReduce(BinOp),
    Unknown,
}

pub struct Violation {
    pub msg: String,
    pub inputs: Vec<u64>,
    pub ufs: Vec<(String, Vec<u8>, Vec<u8>)>,
    pub trace: Vec<String>,
}
#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub panics_ok: u64,
    pub assumed_away: u64,
    pub instrs: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fail: u64,
    pub covers: BTreeMap<String, u64>,
    pub checked: BTreeMap<String, u64>,
    pub fns: BTreeSet<String>,
    pub inconclusive: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub witnesses: Vec<(Vec<u64>, Vec<(String, Vec<u8>, Vec<u8>)>, Vec<u64>, Vec<String>)>,
}

pub struct Ex {
    pub m: Module,
    pub s: Solver,
    h: Vec<H>,
    fn_seen: Vec<bool>,
    ginit: Vec<Option<Rc<Obj>>>,
    gid: Vec<u32>,
    first_heap: u64,
    next_id: u64,
    pub st: Stats,
    pub depth: u64,
    pub deadline: Instant,
    /// When the first violation was found, by any process (milliseconds after `t0`, 0: none yet).
    /// Exploration goes on for a while only.
    pub t0: Instant,
    pub found: &'static std::sync::atomic::AtomicU64,
    pub branch_ms: u32,
    pub check_ms: u32,
    pub out_of_time: bool,
    pub viol_seen: HashSet<String>,
    pub tokens: Option<(i32, i32)>,
    pub results_prefix: String,
    pub max_steps: u64,
    pub dbg_fn: BTreeMap<String, u64>,
    pub fork_sites: BTreeMap<String, u64>,
    pub is_child: bool,
    merge_ok: bool,
    sites: bool,
}

#[inline]
fn m64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx64(v: u64, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn top(b: BinOp) -> Op {
    match b {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
    }
}

impl Ex {
    pub fn new(m: Module) -> Ex {
        let n = m.fns.len();
        let ng = m.globals.len();
        let first_heap = m.first_heap_id();
        let mut gid = vec![u32::MAX; first_heap as usize];
        for g in 0..ng {
            gid[(m.global_addr[g] >> 24) as usize] = g as u32;
        }
        Ex {
            m,
            s: Solver::new(),
            h: vec![H::Unresolved; n],
            fn_seen: vec![false; n],
            ginit: vec![None; ng],
            gid,
            first_heap,
            next_id: first_heap,
            st: Stats::default(),
            depth: 0,
            deadline: Instant::now() + std::time::Duration::from_secs(800),
            t0: Instant::now(),
            found: crate::sys::shared_u64(),
            branch_ms: 8000,
            check_ms: 60000,
            out_of_time: false,
            viol_seen: HashSet::new(),
            tokens: None,
            results_prefix: String::new(),
            max_steps: 400_000_000,
            dbg_fn: BTreeMap::new(),
            fork_sites: BTreeMap::new(),
            is_child: false,
            merge_ok: std::env::var("SYM_NOMERGE").is_err(),
            sites: std::env::var("SYM_SITES").is_ok(),
        }
    }
    pub fn start(&mut self, name: &str) -> Option<State> {
        let id = *self.m.fn_idx.get(name)?;
        let f = self.m.body(id)?;
        Some(State {
            frames: vec![Frame {
                regs: vec![V::C(0); f.nregs],
                f,
                bb: 0,
                ip: 0,
                allocas: vec![],
                ret: None,
                ret_bb: None,
            }],
            mem: Mem::new(),
            pc: vec![],
            pcset: Rc::new(HashSet::new()),
            model: Model::new(),
            inputs: vec![],
            obs: vec![],
            known: Rc::new(HashMap::new()),
            allow_panic: false,
            merge: true,
            covers: Rc::new(BTreeSet::new()),
            free: Rc::new(BTreeSet::new()),
            steps: 0,
        })
    }

    // ------------------------------------------------------------ values
    fn term(&self, v: &V, w: u16) -> T {
        match v {
            V::C(x) => tm().c(*x as u128, w),
            V::W(x) => tm().c(**x, w),
            V::T(t) => {
                let tw = tm().w(*t);
                if tw == w {
                    *t
                } else if tw > w {
                    tm().extract(*t, 0, w)
                } else {
                    tm().zext(*t, w)
                }
            }
            V::Agg(_) => panic!("aggregate where a scalar was expected"),
        }
    }
    fn val(&self, t: T) -> V {
        match tm().cv(t) {
            Some(v) => {
                if tm().w(t) > 64 {
                    V::W(Rc::new(v))
                } else {
                    V::C(v as u64)
                }
            }
            None => V::T(t),
        }
    }
    fn kval(&self, v: u128, w: u16) -> V {
        let v = v & mask(w);
        if w > 64 {
            V::W(Rc::new(v))
        } else {
            V::C(v as u64)
        }
    }
    fn cu128(&self, v: &V) -> Option<u128> {
        match v {
            V::C(x) => Some(*x as u128),
            V::W(x) => Some(**x),
            _ => None,
        }
    }
    /// concrete value, or ask for concretisation
    fn conc(&self, st: &State, v: &V) -> Res<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::T(t) => match st.known.get(t) {
                Some(k) => Ok(*k as u64),
                None => Err(X::Conc(*t)),
            },
            V::W(x) => Ok(**x as u64),
            _ => Err(X::Err("aggregate as integer".into())),
        }
    }
    #[inline]
    fn op(&self, fr: &Frame, o: &Opnd) -> V {
        match o {
            Opnd::R(r) => fr.regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }
    fn bin1(&self, op: BinOp, w: u16, a: &V, b: &V) -> Res<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w <= 64 {
                let m = m64(w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            (sx64(x, w) >> y) as u64
                        }
                    }
                    BinOp::UDiv | BinOp::URem => {
                        if y == 0 {
                            return Err(X::Bad("division by zero".into()));
                        }
                        if op == BinOp::UDiv {
                            x / y
                        } else {
                            x % y
                        }
                    }
                    BinOp::SDiv | BinOp::SRem => {
                        if y == 0 {
                            return Err(X::Bad("division by zero".into()));
                        }
                        let (x, y) = (sx64(x, w), sx64(y, w));
                        (if op == BinOp::SDiv { x.wrapping_div(y) } else { x.wrapping_rem(y) }) as u64
                    }
                };
                return Ok(V::C(r & m));
            }
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        Ok(self.val(tm().bin(top(op), x, y)))
    }
    fn icmp1(&self, p: Pred, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx64(x, w) < sx64(y, w),
                Pred::Sle => sx64(x, w) <= sx64(y, w),
                Pred::Sgt => sx64(x, w) > sx64(y, w),
                Pred::Sge => sx64(x, w) >= sx64(y, w),
            };
            return V::C(r as u64);
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let t = match p {
            Pred::Eq => tm().eq(x, y),
            Pred::Ne => {
                let e = tm().eq(x, y);
                tm().not(e)
            }
            Pred::Ult => tm().bin(Op::Ult, x, y),
            Pred::Ule => tm().bin(Op::Ule, x, y),
            Pred::Ugt => tm().bin(Op::Ult, y, x),
            Pred::Uge => tm().bin(Op::Ule, y, x),
            Pred::Slt => tm().bin(Op::Slt, x, y),
            Pred::Sle => tm().bin(Op::Sle, x, y),
            Pred::Sgt => tm().bin(Op::Slt, y, x),
            Pred::Sge => tm().bin(Op::Sle, y, x),
        };
        self.val(t)
    }
    fn lanes(&self, v: &V) -> Rc<Vec<V>> {
        match v {
            V::Agg(a) => a.clone(),
            _ => panic!("vector expected"),
        }
    }
    fn cast1(&self, c: Cast, fw: u16, tw: u16, v: &V) -> V {
        match (c, v) {
            (Cast::Same, _) => v.clone(),
            (Cast::Trunc, V::C(x)) => V::C(x & m64(tw)),
            (Cast::ZExt, V::C(x)) if tw <= 64 => V::C(*x),
            (Cast::SExt, V::C(x)) if tw <= 64 => V::C(sx64(*x, fw) as u64 & m64(tw)),
            _ => {
                let t = self.term(v, fw);
                self.val(match c {
                    Cast::Trunc => tm().extract(t, 0, tw),
                    Cast::ZExt => tm().zext(t, tw),
                    _ => tm().sext(t, tw),
                })
            }
        }
    }
    fn ite_v(&mut self, c: T, ty: TyId, a: &V, b: &V) -> Res<V> {
        if a == b {
            return Ok(a.clone());
        }
        if let (V::Agg(x), V::Agg(y)) = (a, b) {
            let mut out = vec![];
            for i in 0..x.len() {
                let et = self.m.types.elem(ty, i);
                out.push(self.ite_v(c, et, &x[i], &y[i])?);
            }
            return Ok(V::Agg(Rc::new(out)));
        }
        let w = self.m.types.bits(ty);
        let (x, y) = (self.term(a, w), self.term(b, w));
        Ok(self.val(tm().ite(c, x, y)))
    }

    // ------------------------------------------------------------ memory
    fn ginit(&mut self, g: usize) -> Rc<Obj> {
        if let Some(o) = &self.ginit[g] {
            return o.clone();
        }
        let size = self.m.globals[g].size as usize;
        let (ty, init) = self.m.global_init(g);
        let mut o = Obj::new(size, false);
        if let Some(v) = init {
            self.init_bytes(&mut o, 0, ty, &v);
        }
        let o = Rc::new(o);
        self.ginit[g] = Some(o.clone());
        o
    }
    fn init_bytes(&self, o: &mut Obj, off: usize, ty: TyId, v: &V) {
        match v {
            V::Agg(a) => {
                for (i, x) in a.iter().enumerate() {
                    let eo = self.m.types.offset(ty, i) as usize;
                    self.init_bytes(o, off + eo, self.m.types.elem(ty, i), x);
                }
            }
            V::C(x) => {
                let n = ((self.m.types.bits(ty) + 7) / 8) as usize;
                for i in 0..n {
                    o.data[off + i] = (x >> (8 * i)) as u8;
                }
            }
            V::W(x) => {
                let n = ((self.m.types.bits(ty) + 7) / 8) as usize;
                for i in 0..n {
                    o.data[off + i] = (**x >> (8 * i)) as u8;
                }
            }
            V::T(_) => panic!("symbolic initialiser"),
        }
    }
    /// (object id, offset)
    fn locate(&mut self, st: &mut State, addr: u64) -> Option<(u64, usize)> {
        let mut id = addr >> 24;
        let mut off = (addr & 0xff_ffff) as usize;
        if id == 0 || id >= (1 << 36) {
            return None;
        }
        match st.mem.get(id) {
            Slot::Obj(_) => return Some((id, off)),
            Slot::Back(k) => {
                id -= *k as u64;
                off += (*k as usize) << 24;
                return Some((id, off));
            }
            Slot::None => {}
        }
        if id < self.first_heap {
            let mut g = id;
            while self.gid[g as usize] == u32::MAX {
                if g == 0 {
                    return None;
                }
                g -= 1;
                off += 1 << 24;
            }
            let gi = self.gid[g as usize] as usize;
            let o = self.ginit(gi);
            *st.mem.slot_mut(g) = Slot::Obj(o);
            return Some((g, off));
        }
        None
    }
    fn obj<'a>(&self, st: &'a State, id: u64) -> &'a Rc<Obj> {
        match st.mem.get(id) {
            Slot::Obj(o) => o,
            _ => panic!("obj"),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: u64) -> &'a mut Obj {
        match st.mem.slot_mut(id) {
            Slot::Obj(o) => Rc::make_mut(o),
            _ => panic!("obj"),
        }
    }
    fn range(&mut self, st: &mut State, addr: u64, n: usize) -> Res<(u64, usize)> {
        if n == 0 {
            return Ok((0, 0));
        }
        match self.locate(st, addr) {
            Some((id, off)) => {
                let size = self.obj(st, id).data.len();
                if off + n > size {
                    return Err(X::Bad(format!("access of {n} bytes at offset {off} of an object of {size} bytes")));
                }
                Ok((id, off))
            }
            None => Err(X::Bad(format!("access to invalid address {addr:#x}"))),
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> u64 {
        let id = self.next_id;
        let span = size >> 24;
        self.next_id += 1 + span;
        *st.mem.slot_mut(id) = Slot::Obj(Rc::new(Obj::new(size as usize, heap)));
        for k in 1..=span {
            *st.mem.slot_mut(id + k) = Slot::Back(k as u32);
        }
        id << 24
    }
    fn free(&mut self, st: &mut State, addr: u64) -> Res<()> {
        if addr == 0 {
            return Ok(());
        }
        let id = addr >> 24;
        if addr & 0xff_ffff != 0 || id < self.first_heap {
            return Err(X::Bad(format!("free of {addr:#x}")));
        }
        match st.mem.get(id) {
            Slot::Obj(o) => {
                let span = o.data.len() as u64 >> 24;
                for k in 0..=span {
                    *st.mem.slot_mut(id + k) = Slot::None;
                }
                Ok(())
            }
            _ => Err(X::Bad("double free".into())),
        }
    }
    fn read_bytes(&mut self, st: &mut State, addr: u64, n: usize) -> Res<Vec<B>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.range(st, addr, n)?;
        let o = self.obj(st, id);
        Ok((off..off + n).map(|i| o.byte(i)).collect())
    }
    fn write_bytes(&mut self, st: &mut State, addr: u64, b: &[B]) -> Res<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, off) = self.range(st, addr, b.len())?;
        let o = self.obj_mut(st, id);
        for (i, x) in b.iter().enumerate() {
            o.set(off + i, *x);
        }
        Ok(())
    }
    fn load_int(&mut self, st: &mut State, addr: u64, w: u16) -> Res<V> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = self.range(st, addr, n)?;
        let o = self.obj(st, id);
        if n <= 8 && o.conc(off, n) {
            let mut v = 0u64;
            for i in (0..n).rev() {
                v = (v << 8) | o.data[off + i] as u64;
            }
            return Ok(V::C(v & m64(w)));
        }
        let bytes: Vec<B> = (off..off + n).map(|i| o.byte(i)).collect();
        let t = tm().assemble(&bytes);
        let t = if tm().w(t) > w { tm().extract(t, 0, w) } else { t };
        Ok(self.val(t))
    }
    fn load(&mut self, st: &mut State, addr: u64, ty: TyId) -> Res<V> {
        if let Some((n, et)) = self.m.types.is_vec(ty) {
            let ew = self.m.types.bits(et);
            if ew % 8 != 0 {
                let v = self.load_int(st, addr, ew * n as u16)?;
                let mut out = vec![];
                for i in 0..n as u16 {
                    let t = self.term(&v, ew * n as u16);
                    out.push(self.val(tm().extract(t, i * ew, ew)));
                }
                return Ok(V::Agg(Rc::new(out)));
            }
            let mut out = vec![];
            for i in 0..n {
                out.push(self.load_int(st, addr + i * (ew as u64 / 8), ew)?);
            }
            return Ok(V::Agg(Rc::new(out)));
        }
        let cnt = self.m.types.count(ty);
        let is_agg = matches!(self.m.types.tys[ty as usize], Ty::Struct(..) | Ty::Array(..));
        if is_agg {
            let mut out = vec![];
            for i in 0..cnt {
                let o = self.m.types.offset(ty, i);
                let e = self.m.types.elem(ty, i);
                out.push(self.load(st, addr + o, e)?);
            }
            return Ok(V::Agg(Rc::new(out)));
        }
        let w = self.m.types.bits(ty);
        self.load_int(st, addr, w)
    }
    fn store_int(&mut self, st: &mut State, addr: u64, w: u16, v: &V) -> Res<()> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = self.range(st, addr, n)?;
        match v {
            V::C(x) => {
                let o = self.obj_mut(st, id);
                for i in 0..n {
                    o.data[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                }
                if let Some(s) = &mut o.sym {
                    for e in &mut s[off..off + n] {
                        *e = 0;
                    }
                }
            }
            V::W(x) => {
                let o = self.obj_mut(st, id);
                for i in 0..n {
                    o.set(off + i, B::C((**x >> (8 * i)) as u8));
                }
            }
            V::T(_) => {
                let t = self.term(v, (n * 8) as u16);
                let o = self.obj_mut(st, id);
                self_store_term(o, off, t, n);
            }
            V::Agg(_) => return Err(X::Err("aggregate store".into())),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: TyId, v: &V) -> Res<()> {
        if let V::Agg(a) = v {
            if let Some((n, et)) = self.m.types.is_vec(ty) {
                let ew = self.m.types.bits(et);
                if ew % 8 != 0 {
                    let b = self.bits_of_vec(a, ew);
                    return self.store_int(st, addr, ew * n as u16, &b);
                }
                for i in 0..n {
                    self.store_int(st, addr + i * (ew as u64 / 8), ew, &a[i as usize])?;
                }
                return Ok(());
            }
            for (i, x) in a.iter().enumerate() {
                let o = self.m.types.offset(ty, i);
                let e = self.m.types.elem(ty, i);
                self.store(st, addr + o, e, x)?;
            }
            return Ok(());
        }
        let w = self.m.types.bits(ty);
        self.store_int(st, addr, w, v)
    }
    fn bits_of_vec(&self, a: &Rc<Vec<V>>, ew: u16) -> V {
        if a.len() as u16 * ew <= 64 && a.iter().all(|x| matches!(x, V::C(_))) {
            let mut v = 0u64;
            for (i, x) in a.iter().enumerate() {
                if let V::C(x) = x {
                    v |= (x & m64(ew)) << (i as u16 * ew);
                }
            }
            return V::C(v);
        }
        let mut acc = self.term(&a[0], ew);
        for x in &a[1..] {
            let t = self.term(x, ew);
            acc = tm().concat(t, acc);
        }
        self.val(acc)
    }
    /// Possible values of an address term (a superset), or None.
    fn candidates(&mut self, st: &State, t: T) -> Option<Vec<u64>> {
        let mut out = vec![];
        if tm().const_leaves(t, &mut out) {
            return Some(out.into_iter().map(|x| x as u64).collect());
        }
        // decompose base + index * scale over a narrow term
        let mut base = 0u64;
        let mut cur = t;
        let mut scale = 1u64;
        loop {
            let n = tm().n(cur);
            match n.op {
                Op::Add if tm().cv(n.b).is_some() => {
                    base = base.wrapping_add((tm().cv(n.b).unwrap() as u64).wrapping_mul(scale));
                    cur = n.a;
                }
                Op::Mul if tm().cv(n.b).is_some() => {
                    scale = scale.wrapping_mul(tm().cv(n.b).unwrap() as u64);
                    cur = n.a;
                }
                Op::Shl if tm().cv(n.b).is_some() => {
                    scale = scale.wrapping_shl(tm().cv(n.b).unwrap() as u32);
                    cur = n.a;
                }
                Op::ZExt => {
                    // the scaled value must not wrap in the inner width
                    cur = n.a;
                }
                Op::Concat if tm().cv(n.b) == Some(0) => {
                    scale = scale.wrapping_shl(tm().w(n.b) as u32);
                    cur = n.a;
                }
                _ => break,
            }
            // inside a narrower term arithmetic may wrap: only continue when the interval is exact
            let n2 = tm().n(cur);
            if n2.w < 64 && matches!(n2.op, Op::Add | Op::Mul | Op::Shl) {
                let (a, k) = (n2.a, n2.b);
                let full = match (n2.op, tm().cv(k)) {
                    (Op::Add, Some(k)) => tm().hi[a as usize].checked_add(k),
                    (Op::Mul, Some(k)) => tm().hi[a as usize].checked_mul(k),
                    (Op::Shl, Some(k)) if k < 64 => tm().hi[a as usize].checked_shl(k as u32),
                    _ => None,
                };
                if full.map_or(true, |f| f > mask(n2.w)) {
                    break;
                }
            }
        }
        let (lo, hi) = (tm().lo[cur as usize], tm().hi[cur as usize]);
        let mut leaves = vec![];
        if tm().const_leaves(cur, &mut leaves) {
            return Some(leaves.into_iter().map(|x| base.wrapping_add((x as u64).wrapping_mul(scale))).collect());
        }
        if hi - lo < 300 && tm().w(t) == 64 {
            return Some((lo..=hi).map(|x| base.wrapping_add((x as u64).wrapping_mul(scale))).collect());
        }
        // ask the solver
        let mut vals: Vec<u64> = vec![];
        let mut goal: Vec<T> = vec![];
        let w = tm().w(t);
        loop {
            match self.s.check(&st.pc, &goal, self.branch_ms) {
                R::Sat(m) => {
                    let mm = st.model.with(&m);
                    let v = mm.eval(t) as u64;
                    if vals.contains(&v) {
                        return None;
                    }
                    vals.push(v);
                    let k = tm().c(v as u128, w);
                    let e = tm().eq(t, k);
                    goal.push(tm().not(e));
                }
                R::Unsat => {
                    if goal.is_empty() {
                        return None;
                    }
                    return Some(vals);
                }
                R::Unknown => return None,
            }
            if goal.len() == 1 {
                // the first query may not have mentioned t at all
                continue;
            }
            if vals.len() > 128 {
                return None;
            }
        }
    }
    fn sym_load(&mut self, st: &mut State, t: T, ty: TyId) -> Res<V> {
        if let Some(k) = st.known.get(&t) {
            return self.load(st, *k as u64, ty);
        }
        let w = self.m.types.bits(ty);
        let is_ptr = self.m.types.tys[ty as usize] == Ty::Ptr;
        if w == 0 {
            return Err(X::Conc(t));
        }
        let cands = match self.candidates(st, t) {
            Some(c) => c,
            None => return Err(X::Conc(t)),
        };
        let mut acc: Option<T> = None;
        for a in cands {
            let v = match self.load_int(st, a, w) {
                Ok(v) => v,
                Err(_) => continue, // excluded by a bounds check already on the path
            };
            if is_ptr {
                if let V::C(p) = v {
                    if p >> 24 != 0 {
                        return Err(X::Conc(t));
                    }
                }
            }
            let vt = self.term(&v, w);
            acc = Some(match acc {
                None => vt,
                Some(x) => {
                    let k = tm().c(a as u128, 64);
                    let c = tm().eq(t, k);
                    tm().ite(c, vt, x)
                }
            });
        }
        match acc {
            Some(x) => Ok(self.val(x)),
            None => Err(X::Conc(t)),
        }
    }
    fn sym_store(&mut self, st: &mut State, t: T, ty: TyId, v: &V) -> Res<()> {
        if let Some(k) = st.known.get(&t) {
            let k = *k as u64;
            return self.store(st, k, ty, v);
        }
        let w = self.m.types.bits(ty);
        if w == 0 || w % 8 != 0 {
            return Err(X::Conc(t));
        }
        let cands = match self.candidates(st, t) {
            Some(c) => c,
            None => return Err(X::Conc(t)),
        };
        let mut todo = vec![];
        for a in cands {
            match self.load_int(st, a, w) {
                Ok(old) => {
                    if let (V::C(x), V::C(y)) = (&old, v) {
                        if x != y && (x >> 24 != 0 && self.locate(st, *x).is_some() || y >> 24 != 0 && self.locate(st, *y).is_some()) {
                            return Err(X::Conc(t));
                        }
                    }
                    todo.push((a, old))
                }
                Err(_) => continue,
            }
        }
        if todo.is_empty() {
            return Err(X::Conc(t));
        }
        let vt = self.term(v, w);
        for (a, old) in todo {
            let k = tm().c(a as u128, 64);
            let c = tm().eq(t, k);
            let ot = self.term(&old, w);
            let n = tm().ite(c, vt, ot);
            let nv = self.val(n);
            self.store_int(st, a, w, &nv)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ path conditions
    fn add_pc(&mut self, st: &mut State, c: T) {
        if tm().cv(c).is_some() || st.pcset.contains(&c) {
            return;
        }
        // split conjunctions
        let n = tm().n(c);
        if n.op == Op::And {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        st.pc.push(c);
        Rc::make_mut(&mut st.pcset).insert(c);
    }
    /// Some(b) when the condition is implied by membership in the path condition
    fn implied(&self, st: &State, c: T) -> Option<bool> {
        if let Some(v) = tm().cv(c) {
            return Some(v != 0);
        }
        if st.pcset.contains(&c) {
            return Some(true);
        }
        let n = tm().not(c);
        if st.pcset.contains(&n) {
            return Some(false);
        }
        None
    }
    /// Decide a branch: Ok(Some(b)) only b feasible; Ok(None) both, with the model of the side
    /// opposite to the current model.
    fn decide(&mut self, st: &mut State, c: T) -> Res<Result<bool, (bool, Model)>> {
        if let Some(b) = self.implied(st, c) {
            return Ok(Ok(b));
        }
        let cur = st.model.eval(c) != 0;
        let nc = tm().not(c);
        let other = if cur { nc } else { c };
        match self.s.check(&st.pc, &[other], self.branch_ms) {
            R::Unsat => {
                // implied: remember
                Rc::make_mut(&mut st.pcset).insert(if cur { c } else { nc });
                Ok(Ok(cur))
            }
            R::Sat(m) => Ok(Err((cur, st.model.with(&m)))),
            R::Unknown => {
                // cannot exclude the other side: try the full time, else inconclusive
                match self.s.check(&st.pc, &[other], query_ms(self.check_ms, self.found)) {
                    R::Unsat => Ok(Ok(cur)),
                    R::Sat(m) => Ok(Err((cur, st.model.with(&m)))),
                    R::Unknown => Err(X::Err(format!(
                        "solver timeout on a branch: {}",
                        self.s.last_unknown.chars().take(200).collect::<String>()
                    ))),
                }
            }
        }
    }

    // ------------------------------------------------------------ reporting
    pub fn where_am_i(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&f.f.name)).collect()
    }
    fn uf_table(&self, model: &Model) -> Vec<(String, Vec<u8>, Vec<u8>)> {
        let mut out: Vec<(String, Vec<u8>, Vec<u8>)> = vec![];
        let mut seen: HashSet<(u32, Vec<u8>)> = HashSet::new();
        for (id, ap) in tm().apps.clone().iter().enumerate() {
            let assigned = ap.outs.iter().any(|t| {
                let n = tm().n(*t);
                n.op == Op::Var && model.vals.contains_key(&(n.imm as u32))
            });
            if !assigned {
                continue;
            }
            let args = model.app_args(id as u32);
            if !seen.insert((ap.tag, args.clone())) {
                continue;
            }
            let mut o = vec![];
            for (k, t) in ap.outs.iter().enumerate() {
                let nb = (ap.out_len - 8 * k).min(8);
                let v = model.eval(*t);
                o.extend_from_slice(&v.to_le_bytes()[..nb]);
            }
            out.push((tm().tags[ap.tag as usize].clone(), args, o));
        }
        out
    }
    fn input_vals(&self, st: &State, m: &Model) -> Vec<u64> {
        st.inputs.iter().map(|t| m.eval(*t) as u64).collect()
    }
    fn time_is_up(&self) -> bool {
        let f = self.found.load(std::sync::atomic::Ordering::Relaxed);
        Instant::now() > self.deadline || (f != 0 && self.t0.elapsed().as_millis() as u64 > f + 45_000)
    }
    /// Report a violation of the property on the current path (with extra constraint `c`).
    fn violation(&mut self, st: &mut State, extra: Option<T>, msg: String) {
        let key = msg.clone();
        let n = self.viol_seen.iter().filter(|k| k.starts_with(&key)).count();
        if n >= 3 {
            return;
        }
        let mut q: Vec<T> = st.pc.clone();
        q.extend(extra);
        // everything must be consistent at once before it is reported
        match self.s.check_all(q, query_ms(self.check_ms, self.found)) {
            R::Sat(m) => {
                let model = st.model.with(&m);
                let v = Violation {
                    msg: msg.clone(),
                    inputs: self.input_vals(st, &model),
                    ufs: self.uf_table(&model),
                    trace: self.where_am_i(st),
                };
                self.viol_seen.insert(format!("{key}#{n}"));
                if !msg.starts_with("KF") {
                    let now = self.t0.elapsed().as_millis() as u64 + 1;
                    let o = std::sync::atomic::Ordering::Relaxed;
                    let _ = self.found.compare_exchange(0, now, o, o);
                }
                self.st.violations.push(v);
            }
            R::Unsat => {}
            R::Unknown => self.inconc(format!("solver timeout while confirming: {msg}")),
        }
    }
    pub fn inconc(&mut self, m: String) {
        if std::env::var("SYM_VERBOSE").is_ok() {
            eprintln!("inconclusive: {m}");
        }
        *self.st.inconclusive.entry(m).or_insert(0) += 1;
    }
    fn location(&mut self, st: &mut State, args: &[V]) -> String {
        for a in args.iter().rev() {
            if let V::C(p) = a {
                if let Ok((id, off)) = self.range(st, *p, 24) {
                    let o = self.obj(st, id).clone();
                    if !o.conc(off, 24) {
                        continue;
                    }
                    let g = |i: usize, n: usize| {
                        let mut v = 0u64;
                        for k in (0..n).rev() {
                            v = (v << 8) | o.data[off + i + k] as u64;
                        }
                        v
                    };
                    let (sp, sl, line) = (g(0, 8), g(8, 8), g(16, 4));
                    if sl == 0 || sl > 300 {
                        continue;
                    }
                    if let Ok(b) = self.read_bytes(st, sp, sl as usize) {
                        let s: Vec<u8> = b.iter().map(|x| if let B::C(c) = x { *c } else { b'?' }).collect();
                        if let Ok(s) = String::from_utf8(s) {
                            if s.contains(".rs") {
                                return format!("{}:{}", s, line);
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }
    fn cstr(&mut self, st: &mut State, p: u64, n: u64) -> Res<String> {
        let b = self.read_bytes(st, p, n as usize)?;
        let v: Vec<u8> = b.iter().map(|x| if let B::C(c) = x { *c } else { b'?' }).collect();
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    fn finish(&mut self, st: &mut State) {
        self.st.paths += 1;
        let n = self.st.paths;
        if self.st.witnesses.len() < 2 && (n == 1 || n % 17 == 0) {
            if let R::Sat(m) = self.s.check_all(st.pc.clone(), query_ms(self.check_ms, self.found)) {
                let model = st.model.with(&m);
                let obs = st
                    .obs
                    .iter()
                    .map(|v| match v {
                        V::C(x) => *x,
                        V::T(t) => model.eval(*t) as u64,
                        _ => 0,
                    })
                    .collect();
                let w = (
                    self.input_vals(st, &model),
                    self.uf_table(&model),
                    obs,
                    st.covers.iter().cloned().collect(),
                );
                self.st.witnesses.push(w);
            }
        }
    }

    // ------------------------------------------------------------ exploration
    pub fn explore(&mut self, init: State, stop: Stop) -> Vec<State> {
        let mut work = vec![init];
        let mut arrived = vec![];
        while let Some(mut st) = work.pop() {
            loop {
                if self.out_of_time || self.time_is_up() {
                    if !self.out_of_time {
                        self.out_of_time = true;
                        let w = self.where_am_i(&st).join(" < ");
                        self.inconc(format!("time budget exhausted in {w}"));
                    }
                    return arrived;
                }
                match self.run(&mut st, stop) {
                    End::Done => break,
                    End::Arrived => {
                        arrived.push(st);
                        break;
                    }
                    End::Fork(o) => {
                        self.st.forks += 1;
                        if !self.try_process(&mut work, &o, stop) {
                            work.push(*o);
                        }
                    }
                    End::Split(o, func, bb, depth) => {
                        self.st.forks += 1;
                        if self.sites {
                            *self.fork_sites.entry(format!("{} bb{}", demangle(&func.name), bb)).or_insert(0) += 1;
                        }
                        let ip = func.ipdom[bb as usize];
                        let mut mstop = Stop::No;
                        if st.merge && self.merge_ok {
                            if ip == EXIT {
                                if depth > 1 {
                                    mstop = Stop::Ret { depth };
                                }
                            } else if ip != NONE {
                                mstop = Stop::Block { depth, bb: ip };
                            }
                        }
                        if mstop == Stop::No || mstop == stop {
                            if !(mstop == Stop::No && self.try_process(&mut work, &o, stop)) {
                                work.push(*o);
                            }
                            continue;
                        }
                        let mut res = self.explore(st, mstop);
                        let rb = self.explore(*o, mstop);
                        if self.out_of_time {
                            return arrived;
                        }
                        res.extend(rb);
                        let res = self.merge_all(res, mstop);
                        work.extend(res);
                        break;
                    }
                }
            }
        }
        arrived
    }
    /// Hand a state to a forked process when a worker slot is free.
    fn try_process(&mut self, work: &mut Vec<State>, o: &State, stop: Stop) -> bool {
        if stop != Stop::No {
            return false;
        }
        let (rd, _) = match self.tokens {
            Some(t) => t,
            None => return false,
        };
        let mut b = [b't'; 1];
        if !crate::sys::readable(rd) {
            return false;
        }
        let n = unsafe { crate::sys::read(rd, b.as_mut_ptr(), 1) };
        if n != 1 {
            return false;
        }
        let pid = unsafe { crate::sys::fork() };
        if pid == 0 {
            // child: only this state
            self.is_child = true;
            self.st = Stats::default();
            self.s.queries = 0;
            self.s.cache_hits = 0;
            self.s.time = 0.0;
            self.s.max_query = 0.0;
            self.s.unknowns = 0;
            self.fn_seen.iter_mut().for_each(|x| *x = false);
            work.clear();
            let st = o.clone();
            self.explore(st, Stop::No);
            crate::finish_process(self);
        }
        if pid < 0 {
            let (_, wr) = self.tokens.unwrap();
            unsafe { crate::sys::write(wr, b.as_ptr(), 1) };
            return false;
        }
        true
    }

    fn merge_all(&mut self, v: Vec<State>, stop: Stop) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        'next: for s in v {
            for o in out.iter_mut() {
                if let Some(m) = self.merge(o, &s, stop) {
                    *o = m;
                    self.st.merges += 1;
                    continue 'next;
                }
            }
            if !out.is_empty() {
                self.st.merge_fail += 1;
            }
            out.push(s);
        }
        out
    }
    fn ptr_like(&mut self, st: &mut State, v: u64) -> bool {
        v >= FBASE && v < FBASE + (1 << 40) || (v >> 24 != 0 && v >> 24 < self.next_id && !matches!(st.mem.get(v >> 24), Slot::None))
            || (v >> 24 != 0 && v >> 24 < self.first_heap)
    }
    fn merge_val(&mut self, sel: T, a: &mut State, b: &mut State, x: &V, y: &V) -> Option<V> {
        if x == y {
            return Some(x.clone());
        }
        match (x, y) {
            (V::Agg(p), V::Agg(q)) => {
                if p.len() != q.len() {
                    return None;
                }
                let mut out = vec![];
                for i in 0..p.len() {
                    out.push(self.merge_val(sel, a, b, &p[i], &q[i])?);
                }
                Some(V::Agg(Rc::new(out)))
            }
            (V::Agg(_), _) | (_, V::Agg(_)) => None,
            _ => {
                if let V::C(c) = x {
                    if self.ptr_like(a, *c) {
                        return None;
                    }
                }
                if let V::C(c) = y {
                    if self.ptr_like(b, *c) {
                        return None;
                    }
                }
                let w = match (x, y) {
                    (V::T(t), _) => tm().w(*t),
                    (_, V::T(t)) => tm().w(*t),
                    (V::W(_), _) | (_, V::W(_)) => 128,
                    _ => 64,
                };
                let w = if let (V::T(p), V::T(q)) = (x, y) { tm().w(*p).max(tm().w(*q)) } else { w };
                let (p, q) = (self.term(x, w), self.term(y, w));
                Some(self.val(tm().ite(sel, p, q)))
            }
        }
    }
    fn merge(&mut self, a0: &State, b0: &State, _stop: Stop) -> Option<State> {
        if a0.frames.len() != b0.frames.len()
            || a0.inputs.len() != b0.inputs.len()
            || a0.obs.len() != b0.obs.len()
            || a0.allow_panic != b0.allow_panic
            || a0.merge != b0.merge
            || a0.free != b0.free
        {
            return None;
        }
        for (x, y) in a0.inputs.iter().zip(b0.inputs.iter()) {
            if x != y {
                return None;
            }
        }
        for (x, y) in a0.obs.iter().zip(b0.obs.iter()) {
            if x != y {
                return None;
            }
        }
        // common prefix of the path conditions
        let mut k = 0;
        while k < a0.pc.len() && k < b0.pc.len() && a0.pc[k] == b0.pc[k] {
            k += 1;
        }
        let mut ca = tm().tt();
        for t in &a0.pc[k..] {
            ca = tm().and1(ca, *t);
        }
        let mut cb = tm().tt();
        for t in &b0.pc[k..] {
            cb = tm().and1(cb, *t);
        }
        // a selector that separates the two: the first differing conjunct when they are opposite
        let sel = if k < a0.pc.len() && k < b0.pc.len() && {
            let n = tm().not(a0.pc[k]);
            n == b0.pc[k]
        } {
            a0.pc[k]
        } else {
            ca
        };
        let mut a = a0.clone();
        let mut b = b0.clone();
        let nf = a.frames.len();
        for i in 0..nf {
            let (x, y) = (&a0.frames[i], &b0.frames[i]);
            if x.f.id != y.f.id || x.bb != y.bb || x.ip != y.ip || x.allocas != y.allocas {
                return None;
            }
        }
        for i in 0..nf {
            let top = i + 1 == nf;
            let at_block = top && a0.frames[i].ip == 0;
            let f = a0.frames[i].f.clone();
            let live = if at_block { Some(f.live_in[a0.frames[i].bb as usize].clone()) } else { None };
            for r in 0..f.nregs {
                if let Some(l) = &live {
                    if l[r / 64] & (1 << (r % 64)) == 0 {
                        continue;
                    }
                }
                let (x, y) = (&a0.frames[i].regs[r], &b0.frames[i].regs[r]);
                if x != y {
                    let v = self.merge_val(sel, &mut a, &mut b, x, y)?;
                    a.frames[i].regs[r] = v;
                }
            }
        }
        // memory
        let n = a.mem.chunks.len().max(b.mem.chunks.len());
        let mut budget = 4096usize;
        for ci in 0..n {
            let ea = a.mem.chunks.get(ci).cloned().unwrap_or(a.mem.empty.clone());
            let eb = b.mem.chunks.get(ci).cloned().unwrap_or(b.mem.empty.clone());
            if Rc::ptr_eq(&ea, &eb) {
                continue;
            }
            for k in 0..CHUNK {
                let id = (ci * CHUNK + k) as u64;
                match (&ea[k], &eb[k]) {
                    (Slot::None, Slot::None) => {}
                    (Slot::Obj(_), Slot::None) | (Slot::Back(_), _) => {}
                    (Slot::None, x) => *a.mem.slot_mut(id) = x.clone(),
                    (Slot::Obj(x), Slot::Obj(y)) => {
                        if Rc::ptr_eq(x, y) {
                            continue;
                        }
                        if x.data.len() != y.data.len() {
                            return None;
                        }
                        if let Some(o) = self.merge_obj(sel, &mut a, &mut b, x, y, &mut budget)? {
                            *a.mem.slot_mut(id) = Slot::Obj(Rc::new(o));
                        }
                    }
                    _ => return None,
                }
            }
        }
        a.pc.truncate(k);
        let mut set: HashSet<T> = a0.pcset.intersection(&b0.pcset).copied().collect();
        for t in &a.pc {
            set.insert(*t);
        }
        a.pcset = Rc::new(set);
        let disj = tm().or1(ca, cb);
        self.add_pc(&mut a, disj);
        let mut known = (*a0.known).clone();
        known.retain(|k, v| b0.known.get(k) == Some(v));
        a.known = Rc::new(known);
        if a0.covers != b0.covers {
            let u: BTreeSet<String> = a0.covers.intersection(&b0.covers).cloned().collect();
            a.covers = Rc::new(u);
        }
        Some(a)
    }
    fn merge_obj(&mut self, sel: T, a: &mut State, b: &mut State, x: &Obj, y: &Obj, budget: &mut usize) -> Option<Option<Obj>> {
        let n = x.data.len();
        let mut i = 0;
        let mut out: Option<Obj> = None;
        while i < n {
            // skip equal words quickly
            let e = (i + 8).min(n);
            let mut diff = false;
            for k in i..e {
                if x.byte(k) != y.byte(k) {
                    diff = true;
                    break;
                }
            }
            if !diff {
                i = e;
                continue;
            }
            // pointers stay whole
            if e - i == 8 {
                for (s, o) in [(0, x), (1, y)] {
                    if o.conc(i, 8) {
                        let v = u64::from_le_bytes(o.data[i..i + 8].try_into().unwrap());
                        let st: &mut State = if s == 0 { a } else { b };
                        if v >> 24 != 0 && self.ptr_like(st, v) {
                            // a value that merely looks like a pointer is not worth the risk
                            return None;
                        }
                    }
                }
            }
            // runs of differing bytes inside the word, widened to whole terms
            let mut k = i;
            while k < e {
                if x.byte(k) == y.byte(k) {
                    k += 1;
                    continue;
                }
                let mut s = k;
                let mut t = k + 1;
                while t < e && x.byte(t) != y.byte(t) {
                    t += 1;
                }
                // widen
                loop {
                    let mut ch = false;
                    for o in [x, y] {
                        for q in [s, t - 1] {
                            if let B::S(tt, kk) = o.byte(q) {
                                let nb = ((tm().w(tt) + 7) / 8) as usize;
                                if kk as usize <= q {
                                    let st = q - kk as usize;
                                    let whole = st >= i && st + nb <= e && (0..nb).all(|z| o.byte(st + z) == B::S(tt, z as u8));
                                    if whole {
                                        if st < s {
                                            s = st;
                                            ch = true;
                                        }
                                        if st + nb > t {
                                            t = st + nb;
                                            ch = true;
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if !ch {
                        break;
                    }
                }
                if *budget < t - s {
                    return None;
                }
                *budget -= t - s;
                let bx: Vec<B> = (s..t).map(|z| x.byte(z)).collect();
                let by: Vec<B> = (s..t).map(|z| y.byte(z)).collect();
                let (tx, ty) = (tm().assemble(&bx), tm().assemble(&by));
                let r = tm().ite(sel, tx, ty);
                let o = out.get_or_insert_with(|| x.clone());
                self_store_term(o, s, r, t - s);
                k = t;
            }
            i = e;
        }
        Some(out)
    }

    // ------------------------------------------------------------ control flow
    fn goto(&mut self, st: &mut State, bb: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[bb as usize];
        if b.phis.len() == 1 {
            let (d, inc) = &b.phis[0];
            for (p, o) in inc {
                if *p == from {
                    let v = match o {
                        Opnd::R(r) => fr.regs[*r as usize].clone(),
                        Opnd::K(v) => v.clone(),
                    };
                    fr.regs[*d as usize] = v;
                    break;
                }
            }
        } else if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                for (p, o) in inc {
                    if *p == from {
                        let v = match o {
                            Opnd::R(r) => fr.regs[*r as usize].clone(),
                            Opnd::K(v) => v.clone(),
                        };
                        vals.push((*d, v));
                        break;
                    }
                }
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.bb = bb;
        fr.ip = 0;
    }

    fn run(&mut self, st: &mut State, stop: Stop) -> End {
        let mut tick = 0u32;
        loop {
            let depth = st.frames.len();
            match stop {
                Stop::No => {}
                Stop::Block { depth: d, bb } => {
                    if depth < d {
                        return End::Arrived;
                    }
                    if depth == d {
                        let fr = st.frames.last().unwrap();
                        if fr.bb == bb && fr.ip == 0 {
                            return End::Arrived;
                        }
                    }
                }
                Stop::Ret { depth: d } => {
                    if depth < d {
                        return End::Arrived;
                    }
                }
            }
            tick += 1;
            if tick & 0xffff == 0 {
                if self.time_is_up() {
                    self.out_of_time = true;
                    let w = self.where_am_i(st).join(" < ");
                    self.inconc(format!("time budget exhausted in {w}"));
                    return End::Done;
                }
                if st.steps > self.max_steps {
                    let w = self.where_am_i(st).join(" < ");
                    let n = self.st.violations.len();
                    self.violation(st, None, "does not finish".into());
                    if self.st.violations.len() == n {
                        self.inconc(format!("step limit reached in {w}"));
                    }
                    return End::Done;
                }
            }
            self.st.instrs += 1;
            st.steps += 1;
            match self.step(st) {
                Ok(None) => {}
                Ok(Some(e)) => return e,
                Err(X::Stop) => return End::Done,
                Err(X::Err(m)) => {
                    let w = self.where_am_i(st).join(" < ");
                    self.inconc(format!("{m} in {w}"));
                    return End::Done;
                }
                Err(X::Bad(m)) => {
                    let w = self.where_am_i(st).join(" < ");
                    self.inconc(format!("memory error: {m} in {w}"));
                    return End::Done;
                }
                Err(X::Conc(t)) => {
                    let v = st.model.eval(t);
                    let w = tm().w(t);
                    let k = tm().c(v, w);
                    let e = tm().eq(t, k);
                    let ne = tm().not(e);
                    match self.s.check(&st.pc, &[ne], self.branch_ms) {
                        R::Unsat => {
                            Rc::make_mut(&mut st.known).insert(t, v);
                        }
                        R::Sat(m) => {
                            if self.sites {
                                let fr = st.frames.last().unwrap();
                                *self.fork_sites.entry(format!("CONC {} bb{} {}", demangle(&fr.f.name), fr.bb, tm().show(t, 4))).or_insert(0) += 1;
                            }
                            let mut o = st.clone();
                            o.model = st.model.with(&m);
                            self.add_pc(&mut o, ne);
                            self.add_pc(st, e);
                            Rc::make_mut(&mut st.known).insert(t, v);
                            return End::Fork(Box::new(o));
                        }
                        R::Unknown => {
                            self.inconc("solver timeout while concretising".into());
                            return End::Done;
                        }
                    }
                }
            }
        }
    }

    fn step(&mut self, st: &mut State) -> Res<Option<End>> {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let f_rc = f.clone();
        let ins = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        match ins {
            I::Bin { op, ty, d, a, b } => {
                let (x, y) = (
                    match a {
                        Opnd::R(r) => &fr.regs[*r as usize],
                        Opnd::K(v) => v,
                    },
                    match b {
                        Opnd::R(r) => &fr.regs[*r as usize],
                        Opnd::K(v) => v,
                    },
                );
                let v = if let V::Agg(p) = x {
                    let (_, et) = self.m.types.is_vec(*ty).unwrap();
                    let w = self.m.types.bits(et);
                    let q = self.lanes(y);
                    let mut out = vec![];
                    for i in 0..p.len() {
                        out.push(self.bin1(*op, w, &p[i], &q[i])?);
                    }
                    V::Agg(Rc::new(out))
                } else {
                    self.bin1(*op, self.m.types.bits(*ty), x, y)?
                };
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Icmp { p, ty, d, a, b } => {
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                let v = if let V::Agg(l) = &x {
                    let (_, et) = self.m.types.is_vec(*ty).unwrap();
                    let w = self.m.types.bits(et);
                    let q = self.lanes(&y);
                    V::Agg(Rc::new((0..l.len()).map(|i| self.icmp1(*p, w, &l[i], &q[i])).collect()))
                } else {
                    self.icmp1(*p, self.m.types.bits(*ty), &x, &y)
                };
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Cast { c, from, to, d, a } => {
                let x = self.op(fr, a);
                let v = if *c == Cast::Same {
                    x
                } else if let V::Agg(l) = &x {
                    let (_, fe) = self.m.types.is_vec(*from).unwrap();
                    let (_, te) = self.m.types.is_vec(*to).unwrap();
                    let (fw, tw) = (self.m.types.bits(fe), self.m.types.bits(te));
                    V::Agg(Rc::new(l.iter().map(|v| self.cast1(*c, fw, tw, v)).collect()))
                } else {
                    self.cast1(*c, self.m.types.bits(*from), self.m.types.bits(*to), &x)
                };
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Bitcast { from, to, d, a } => {
                let x = self.op(fr, a);
                let bits = match &x {
                    V::Agg(l) => {
                        let (_, fe) = self.m.types.is_vec(*from).unwrap();
                        let ew = self.m.types.bits(fe);
                        self.bits_of_vec(l, ew)
                    }
                    _ => x.clone(),
                };
                let v = if let Some((n, te)) = self.m.types.is_vec(*to) {
                    let ew = self.m.types.bits(te);
                    let t = self.term(&bits, ew * n as u16);
                    V::Agg(Rc::new((0..n as u16).map(|i| self.val(tm().extract(t, i * ew, ew))).collect()))
                } else {
                    bits
                };
                let fr = st.frames.last_mut().unwrap();
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Load { d, ty, p } => {
                let a = self.op(fr, p);
                let v = match a {
                    V::C(x) => self.load(st, x, *ty)?,
                    V::T(t) => self.sym_load(st, t, *ty)?,
                    _ => return Err(X::Err("load address".into())),
                };
                let fr = st.frames.last_mut().unwrap();
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Store { ty, v, p } => {
                let (x, a) = (self.op(fr, v), self.op(fr, p));
                match a {
                    V::C(q) => self.store(st, q, *ty, &x)?,
                    V::T(t) => self.sym_store(st, t, *ty, &x)?,
                    _ => return Err(X::Err("store address".into())),
                }
                st.frames.last_mut().unwrap().ip += 1;
            }
            I::Gep { d, base, off, terms } => {
                let b = self.op(fr, base);
                let mut acc: V = match b {
                    V::C(x) => V::C(x.wrapping_add(*off as u64)),
                    V::T(t) => {
                        let k = tm().c(*off as u64 as u128, 64);
                        self.val(tm().bin(Op::Add, t, k))
                    }
                    _ => return Err(X::Err("gep base".into())),
                };
                for (o, scale, w) in terms {
                    let i = self.op(fr, o);
                    acc = match (&acc, &i) {
                        (V::C(x), V::C(i)) => {
                            V::C(x.wrapping_add((sx64(*i, *w) as u64).wrapping_mul(*scale as u64)))
                        }
                        _ => {
                            let it = self.term(&i, *w);
                            let it = tm().sext(it, 64);
                            let sc = tm().c(*scale as u64 as u128, 64);
                            let m = tm().bin(Op::Mul, it, sc);
                            let at = self.term(&acc, 64);
                            self.val(tm().bin(Op::Add, at, m))
                        }
                    };
                }
                fr.regs[*d as usize] = acc;
                fr.ip += 1;
            }
            I::Alloca { d, size } => {
                let (d, size) = (*d, *size);
                let a = self.alloc(st, size, false);
                let fr = st.frames.last_mut().unwrap();
                fr.regs[d as usize] = V::C(a);
                fr.allocas.push(a >> 24);
                fr.ip += 1;
            }
            I::Select { ty, d, c, cty, a, b } => {
                let cv = self.op(fr, c);
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                let v = match cv {
                    V::C(k) => {
                        if k & 1 != 0 {
                            x
                        } else {
                            y
                        }
                    }
                    V::T(t) => {
                        let t = if tm().w(t) != 1 { tm().extract(t, 0, 1) } else { t };
                        match self.implied(st, t) {
                            Some(true) => x,
                            Some(false) => y,
                            None => self.ite_v(t, *ty, &x, &y)?,
                        }
                    }
                    V::Agg(l) => {
                        let _ = cty;
                        let (p, q) = (self.lanes(&x), self.lanes(&y));
                        let et = self.m.types.elem(*ty, 0);
                        let mut out = vec![];
                        for i in 0..l.len() {
                            out.push(match &l[i] {
                                V::C(k) => {
                                    if k & 1 != 0 {
                                        p[i].clone()
                                    } else {
                                        q[i].clone()
                                    }
                                }
                                V::T(t) => self.ite_v(*t, et, &p[i], &q[i])?,
                                _ => return Err(X::Err("select".into())),
                            });
                        }
                        V::Agg(Rc::new(out))
                    }
                    _ => return Err(X::Err("select condition".into())),
                };
                let fr = st.frames.last_mut().unwrap();
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Br(b) => self.goto(st, *b),
            I::CondBr { c, t, f } => match self.op(fr, c) {
                V::C(k) => self.goto(st, if k & 1 != 0 { *t } else { *f }),
                V::T(x) => {
                    let x = if tm().w(x) != 1 { tm().extract(x, 0, 1) } else { x };
                    match self.decide(st, x)? {
                        Ok(b) => self.goto(st, if b { *t } else { *f }),
                        Err((cur, other)) => {
                            let (bb, depth) = (st.frames.last().unwrap().bb, st.frames.len());
                            let nx = tm().not(x);
                            let mut o = st.clone();
                            o.model = other;
                            // the current state keeps its model
                            self.add_pc(st, if cur { x } else { nx });
                            self.add_pc(&mut o, if cur { nx } else { x });
                            self.goto(st, if cur { *t } else { *f });
                            self.goto(&mut o, if cur { *f } else { *t });
                            return Ok(Some(End::Split(Box::new(o), f_rc, bb, depth)));
                        }
                    }
                }
                _ => return Err(X::Err("branch condition".into())),
            },
            I::Switch { w, v, default, cases } => match self.op(fr, v) {
                V::C(k) => {
                    let tgt = cases.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*default);
                    self.goto(st, tgt);
                }
                V::T(x) => {
                    let x = self.term(&V::T(x), *w);
                    if let Some(k) = st.known.get(&x).copied() {
                        let tgt = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*default);
                        self.goto(st, tgt);
                        return Ok(None);
                    }
                    // group by target; take the first target as a two-way branch
                    let mut targets: Vec<(u32, T)> = vec![];
                    for (k, b) in cases {
                        let kc = tm().c(*k, *w);
                        let e = tm().eq(x, kc);
                        if tm().cv(e) == Some(0) {
                            continue;
                        }
                        match targets.iter_mut().find(|t| t.0 == *b) {
                            Some(t) => t.1 = tm().or1(t.1, e),
                            None => targets.push((*b, e)),
                        }
                    }
                    for (b, c) in targets {
                        if b == *default {
                            continue;
                        }
                        match self.decide(st, c)? {
                            Ok(true) => {
                                self.goto(st, b);
                                return Ok(None);
                            }
                            Ok(false) => continue,
                            Err((cur, other)) => {
                                // fork: this case, or re-execute the switch without it
                                let nc = tm().not(c);
                                let (bb, depth) = (st.frames.last().unwrap().bb, st.frames.len());
                                let mut o = st.clone();
                                o.model = other;
                                if cur {
                                    // current model takes the case
                                    self.add_pc(&mut o, nc);
                                    self.add_pc(st, c);
                                    self.goto(st, b);
                                } else {
                                    self.add_pc(&mut o, c);
                                    self.goto(&mut o, b);
                                    self.add_pc(st, nc);
                                }
                                return Ok(Some(End::Split(Box::new(o), f_rc, bb, depth)));
                            }
                        }
                    }
                    self.goto(st, *default);
                }
                _ => return Err(X::Err("switch".into())),
            },
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.op(fr, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    *st.mem.slot_mut(*a) = Slot::None;
                }
                if st.frames.is_empty() {
                    self.finish(st);
                    return Ok(Some(End::Done));
                }
                let ret = fr.ret;
                let rb = fr.ret_bb;
                let c = st.frames.last_mut().unwrap();
                if let (Some(d), Some(v)) = (ret, v) {
                    c.regs[d as usize] = v;
                }
                match rb {
                    Some(b) => self.goto(st, b),
                    None => c.ip += 1,
                }
            }
            I::Unreachable => return Err(X::Err("unreachable executed".into())),
            I::Extract { d, a, idx } => {
                let mut v = self.op(fr, a);
                for i in idx {
                    v = match &v {
                        V::Agg(l) => l[*i as usize].clone(),
                        _ => return Err(X::Err("extractvalue".into())),
                    };
                }
                fr.regs[*d as usize] = v;
                fr.ip += 1;
            }
            I::Insert { d, a, ty, v, idx } => {
                let agg = self.op(fr, a);
                let x = self.op(fr, v);
                let _ = ty;
                let r = insert(&agg, idx, x);
                fr.regs[*d as usize] = r;
                fr.ip += 1;
            }
            I::ExtractElem { d, a, i } => {
                let l = self.lanes(&self.op(fr, a));
                let i = self.op(fr, i);
                let d = *d;
                let k = self.conc(st, &i)?;
                let fr = st.frames.last_mut().unwrap();
                fr.regs[d as usize] = l[k as usize].clone();
                fr.ip += 1;
            }
            I::InsertElem { d, a, v, i } => {
                let mut l = (*self.lanes(&self.op(fr, a))).clone();
                let x = self.op(fr, v);
                let i = self.op(fr, i);
                let d = *d;
                let k = self.conc(st, &i)?;
                l[k as usize] = x;
                let fr = st.frames.last_mut().unwrap();
                fr.regs[d as usize] = V::Agg(Rc::new(l));
                fr.ip += 1;
            }
            I::Shuffle { d, a, b, mask, n } => {
                let (x, y) = (self.lanes(&self.op(fr, a)), self.lanes(&self.op(fr, b)));
                let mk = self.lanes(&self.op(fr, mask));
                let mut out = vec![];
                for i in 0..*n as usize {
                    let k = match &mk[i] {
                        V::C(k) => *k as usize,
                        _ => 0,
                    };
                    out.push(if k < x.len() { x[k].clone() } else { y[(k - x.len()) % y.len()].clone() });
                }
                fr.regs[*d as usize] = V::Agg(Rc::new(out));
                fr.ip += 1;
            }
            I::Rmw { op, d, ty, p, v } => {
                let (a, x) = (self.op(fr, p), self.op(fr, v));
                let (d, ty) = (*d, *ty);
                let a = self.conc(st, &a)?;
                let w = self.m.types.bits(ty);
                let old = self.load(st, a, ty)?;
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin1(BinOp::Add, w, &old, &x)?,
                    "sub" => self.bin1(BinOp::Sub, w, &old, &x)?,
                    "and" => self.bin1(BinOp::And, w, &old, &x)?,
                    "or" => self.bin1(BinOp::Or, w, &old, &x)?,
                    "xor" => self.bin1(BinOp::Xor, w, &old, &x)?,
                    _ => return Err(X::Err(format!("atomicrmw {op}"))),
                };
                self.store(st, a, ty, &new)?;
                let fr = st.frames.last_mut().unwrap();
                fr.regs[d as usize] = old;
                fr.ip += 1;
            }
            I::CmpXchg { d, ty, p, cmp, new } => {
                let (a, c, n) = (self.op(fr, p), self.op(fr, cmp), self.op(fr, new));
                let (d, ty) = (*d, *ty);
                let a = self.conc(st, &a)?;
                let w = self.m.types.bits(ty);
                let old = self.load(st, a, ty)?;
                let e = self.icmp1(Pred::Eq, w, &old, &c);
                let e = self.conc(st, &e)?;
                if e & 1 != 0 {
                    self.store(st, a, ty, &n)?;
                }
                let fr = st.frames.last_mut().unwrap();
                fr.regs[d as usize] = V::Agg(Rc::new(vec![old, V::C(e & 1)]));
                fr.ip += 1;
            }
            I::Nop => fr.ip += 1,
            I::Unsupported(s) => return Err(X::Err(format!("unsupported instruction: {s}"))),
            I::Call { d, f: callee, args, tys, ret, normal } => {
                let fid = match callee {
                    Callee::Fn(i) => *i,
                    Callee::Asm => {
                        if let Some(d) = d {
                            // optimisation barriers return their argument
                            let v = args.first().map(|a| self.op(fr, a)).unwrap_or(V::C(0));
                            fr.regs[*d as usize] = v;
                        }
                        fr.ip += 1;
                        return Ok(None);
                    }
                    Callee::Ind(o) => {
                        let a = self.op(fr, o);
                        let a = self.conc(st, &a)?;
                        if a < FBASE || (a - FBASE) / 16 >= self.m.fns.len() as u64 {
                            return Err(X::Bad(format!("call through {a:#x}")));
                        }
                        ((a - FBASE) / 16) as u32
                    }
                };
                let fr = st.frames.last().unwrap();
                let argv: Vec<V> = args.iter().map(|a| self.op(fr, a)).collect();
                return self.call(st, fid, argv, tys, *ret, *d, *normal);
            }
        }
        Ok(None)
    }

    fn resolve(&self, fid: u32) -> H {
        let n = self.m.fns[fid as usize].name.as_str();
        let has_body = self.m.fns[fid as usize].line.is_some();
        if let Some(r) = n.strip_prefix("llvm.") {
            let mut it = r.split('.');
            let a = it.next().unwrap_or("");
            let b = it.next().unwrap_or("");
            return match (a, b) {
                ("lifetime", "end") => H::LifetimeEnd,
                ("lifetime", _) | ("assume", _) | ("experimental", _) | ("dbg", _) | ("invariant", _) | ("prefetch", _)
                | ("donothing", _) | ("x86", "sse2") => H::Nop,
                ("memcpy", _) | ("memmove", _) => H::Memcpy,
                ("memset", _) => H::Memset,
                ("umin", _) => H::UMin,
                ("umax", _) => H::UMax,
                ("smin", _) => H::SMin,
                ("smax", _) => H::SMax,
                ("abs", _) => H::Abs,
                ("ctlz", _) => H::Ctlz,
                ("cttz", _) => H::Cttz,
                ("ctpop", _) => H::Ctpop,
                ("bswap", _) => H::Bswap,
                ("bitreverse", _) => H::Bitrev,
                ("fshl", _) => H::Fshl,
                ("fshr", _) => H::Fshr,
                ("uadd", "with") => H::Ovf(BinOp::Add, false),
                ("usub", "with") => H::Ovf(BinOp::Sub, false),
                ("umul", "with") => H::Ovf(BinOp::Mul, false),
                ("sadd", "with") => H::Ovf(BinOp::Add, true),
                ("ssub", "with") => H::Ovf(BinOp::Sub, true),
                ("smul", "with") => H::Ovf(BinOp::Mul, true),
                ("uadd", "sat") => H::Sat(BinOp::Add, false),
                ("usub", "sat") => H::Sat(BinOp::Sub, false),
                ("sadd", "sat") => H::Sat(BinOp::Add, true),
                ("ssub", "sat") => H::Sat(BinOp::Sub, true),
                ("ucmp", _) => H::Ucmp,
                ("scmp", _) => H::Scmp,
                ("is", "constant") => H::IsConst,
                ("threadlocal", _) | ("expect", _) | ("launder", _) | ("strip", _) => {
                    if a == "expect" {
                        H::Expect
                    } else {
                        H::Ident
                    }
                }
                ("trap", _) | ("ubsantrap", _) => H::Trap,
                ("vector", "reduce") => match it.next().unwrap_or("") {
                    "or" => H::VecReduce(BinOp::Or),
                    "and" => H::VecReduce(BinOp::And),
                    "add" => H::VecReduce(BinOp::Add),
                    "xor" => H::VecReduce(BinOp::Xor),
                    "mul" => H::VecReduce(BinOp::Mul),
                    _ => H::Unknown,
                },
                _ => H::Unknown,
            };
        }
        // what the processor offers: nothing (as far as std_detect's callers see)
        if n.contains("std_detect") && n.contains("detect_and_initialize") {
            return H::ZeroWide;
        }
        match n {
            "malloc" => return H::Malloc,
            "calloc" => return H::Calloc,
            "realloc" => return H::Realloc,
            "free" => return H::Free,
            "posix_memalign" => return H::PosixMemalign,
            "bcmp" => return H::Bcmp,
            "memcmp" => return H::Memcmp,
            "memcpy" | "memmove" => return H::Memcpy,
            "memset" => return H::Memset,
            "strlen" => return H::Strlen,
            "abort" | "exit" => return H::Trap,
            "__cxa_thread_atexit_impl" => return H::Zero,
            "__sym_var" => return H::SymVar,
            "__sym_range" => return H::SymRange,
            "__sym_assume" => return H::SymAssume,
            "__sym_check" => return H::SymCheck,
            "__sym_cover" => return H::SymCover,
            "__sym_allow_panic" => return H::SymAllowPanic,
            "__sym_concretize" => return H::SymConcretize,
            "__sym_observe" => return H::SymObserve,
            "__sym_free_uf" => return H::SymFreeUf,
            "__sym_same" => return H::SymSame,
            "__sym_uf" => return H::SymUf,
            "__sym_sha256" => return H::SymSha,
            "__sym_isqrt" => return H::SymIsqrt,
            "__sym_depth" => return H::SymDepth,
            "__sym_merge" => return H::SymMerge,
            "__sym_ite" => return H::SymIte,
            _ => {}
        }
        if n.starts_with("_R") || n.starts_with("_ZN") {
            if n.contains("7___rustc") {
                if n.ends_with("___rust_alloc") {
                    return H::RAlloc;
                }
                if n.ends_with("___rust_alloc_zeroed") {
                    return H::RAllocZ;
                }
                if n.ends_with("___rust_dealloc") {
                    return H::RDealloc;
                }
                if n.ends_with("___rust_realloc") {
                    return H::RRealloc;
                }
                if n.ends_with("___rust_no_alloc_shim_is_unstable_v2") || n.ends_with("___rust_no_alloc_shim_is_unstable") {
                    return H::Nop;
                }
            }
            let early = |s: &str| n.find(s).map_or(false, |i| i < 34);
            if early("4core9panicking") || n.contains("rust_begin_unwind") || early("3std9panicking") && n.contains("begin_panic") {
                return H::Panic;
            }
            if n.contains("hashmap_random_keys") {
                return H::HashKeys;
            }
            if n.contains("3std7process5abort") {
                return H::Trap;
            }
        }
        if has_body {
            H::Body
        } else {
            H::Unknown
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        fid: u32,
        a: Vec<V>,
        tys: &[TyId],
        ret: TyId,
        d: Option<u32>,
        normal: Option<u32>,
    ) -> Res<Option<End>> {
        let mut h = self.h[fid as usize];
        if h == H::Unresolved {
            h = self.resolve(fid);
            self.h[fid as usize] = h;
        }
        if h == H::Body {
            if !self.fn_seen[fid as usize] {
                self.fn_seen[fid as usize] = true;
                let n = &self.m.fns[fid as usize].name;
                if n.contains("ethereum_consensus") || n.contains("beacon_api") {
                    let dn = demangle(n);
                    self.st.fns.insert(dn);
                }
            }
            let f = match self.m.body(fid) {
                Some(f) => f,
                None => return Err(X::Err(format!("no body for {}", self.m.fns[fid as usize].name))),
            };
            if st.frames.len() > 400 {
                return Err(X::Err("call depth".into()));
            }
            let mut regs = vec![V::C(0); f.nregs];
            for (i, (r, _)) in f.params.iter().enumerate() {
                regs[*r as usize] = a[i].clone();
            }
            st.frames.push(Frame { f, regs, bb: 0, ip: 0, allocas: vec![], ret: d, ret_bb: normal });
            return Ok(None);
        }
        let w0 = tys.first().map(|t| self.m.types.bits(*t)).unwrap_or(0);
        let _ = ret;
        let r: V = match h {
            H::Nop => V::C(0),
            H::LifetimeEnd => {
                let p = a.last().unwrap();
                if let V::C(p) = p {
                    if p & 0xff_ffff == 0 && p >> 24 >= self.first_heap {
                        let id = p >> 24;
                        if let Slot::Obj(o) = st.mem.get(id) {
                            let n = o.data.len();
                            *st.mem.slot_mut(id) = Slot::Obj(Rc::new(Obj::new(n, false)));
                        }
                    }
                }
                V::C(0)
            }
            H::Memcpy => {
                let (dst, src) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let n = self.conc(st, &a[2])? as usize;
                if n > 0 && dst != src {
                    let (sid, so) = self.range(st, src, n)?;
                    let (did, doff) = self.range(st, dst, n)?;
                    let s = self.obj(st, sid).clone();
                    let o = self.obj_mut(st, did);
                    o.data[doff..doff + n].copy_from_slice(&s.data[so..so + n]);
                    match (&s.sym, &mut o.sym) {
                        (None, None) => {}
                        (None, Some(y)) => y[doff..doff + n].iter_mut().for_each(|e| *e = 0),
                        (Some(x), y) => {
                            if y.is_some() || x[so..so + n].iter().any(|e| *e != 0) {
                                let len = o.data.len();
                                let y = o.sym.get_or_insert_with(|| vec![0; len]);
                                y[doff..doff + n].copy_from_slice(&x[so..so + n]);
                            }
                        }
                    }
                }
                a[0].clone()
            }
            H::Memset => {
                let dst = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])? as usize;
                if n > 0 {
                    let (did, doff) = self.range(st, dst, n)?;
                    match &a[1] {
                        V::C(b) => {
                            let o = self.obj_mut(st, did);
                            for e in &mut o.data[doff..doff + n] {
                                *e = *b as u8;
                            }
                            if let Some(s) = &mut o.sym {
                                s[doff..doff + n].iter_mut().for_each(|e| *e = 0);
                            }
                        }
                        v => {
                            let t = self.term(v, 8);
                            let o = self.obj_mut(st, did);
                            for i in 0..n {
                                o.set(doff + i, B::S(t, 0));
                            }
                        }
                    }
                }
                a[0].clone()
            }
            H::UMin | H::UMax | H::SMin | H::SMax => {
                if let V::Agg(_) = a[0] {
                    return Err(X::Err("vector min/max".into()));
                }
                let p = match h {
                    H::UMin => Pred::Ule,
                    H::UMax => Pred::Uge,
                    H::SMin => Pred::Sle,
                    _ => Pred::Sge,
                };
                let c = self.icmp1(p, w0, &a[0], &a[1]);
                match c {
                    V::C(1) => a[0].clone(),
                    V::C(_) => a[1].clone(),
                    V::T(t) => match self.implied(st, t) {
                        Some(true) => a[0].clone(),
                        Some(false) => a[1].clone(),
                        None => {
                            let (x, y) = (self.term(&a[0], w0), self.term(&a[1], w0));
                            self.val(tm().ite(t, x, y))
                        }
                    },
                    _ => unreachable!(),
                }
            }
            H::Abs => {
                let x = self.term(&a[0], w0);
                let z = tm().c(0, w0);
                let neg = tm().bin(Op::Sub, z, x);
                let c = tm().bin(Op::Slt, x, z);
                self.val(tm().ite(c, neg, x))
            }
            H::Ctlz | H::Cttz => match self.cu128(&a[0]) {
                Some(x) => {
                    let n = if x == 0 {
                        w0 as u32
                    } else if h == H::Ctlz {
                        x.leading_zeros() - (128 - w0 as u32)
                    } else {
                        x.trailing_zeros()
                    };
                    self.kval(n as u128, w0)
                }
                None => {
                    let x = self.term(&a[0], w0);
                    let mut acc = tm().c(w0 as u128, w0);
                    // the last assignment has the highest priority
                    for i in 0..w0 {
                        let bit = if h == H::Ctlz { i } else { w0 - 1 - i };
                        let b = tm().extract(x, bit, 1);
                        let n = if h == H::Ctlz { w0 - 1 - i } else { w0 - 1 - i };
                        let k = tm().c(n as u128, w0);
                        acc = tm().ite(b, k, acc);
                    }
                    self.val(acc)
                }
            },
            H::Ctpop => match self.cu128(&a[0]) {
                Some(x) => self.kval(x.count_ones() as u128, w0),
                None => {
                    let x = self.term(&a[0], w0);
                    let mut acc = tm().c(0, w0);
                    for i in 0..w0 {
                        let b = tm().extract(x, i, 1);
                        let b = tm().zext(b, w0);
                        acc = tm().bin(Op::Add, acc, b);
                    }
                    self.val(acc)
                }
            },
            H::Bswap => match &a[0] {
                V::C(x) => V::C(x.swap_bytes() >> (64 - w0)),
                V::W(x) => V::W(Rc::new(x.swap_bytes() >> (128 - w0))),
                v => {
                    let t = self.term(v, w0);
                    let n = w0 / 8;
                    let mut acc = tm().extract(t, (n - 1) * 8, 8);
                    for i in (0..n - 1).rev() {
                        let b = tm().extract(t, i * 8, 8);
                        acc = tm().concat(b, acc);
                    }
                    self.val(acc)
                }
            },
            H::Bitrev => match self.cu128(&a[0]) {
                Some(x) => self.kval(x.reverse_bits() >> (128 - w0), w0),
                None => {
                    let t = self.term(&a[0], w0);
                    let mut acc = tm().extract(t, w0 - 1, 1);
                    for i in (0..w0 - 1).rev() {
                        let b = tm().extract(t, i, 1);
                        acc = tm().concat(b, acc);
                    }
                    self.val(acc)
                }
            },
            H::Fshl | H::Fshr => {
                let sh = match &a[2] {
                    V::C(x) => (*x % w0 as u64) as u16,
                    _ => return Err(X::Err("symbolic funnel shift".into())),
                };
                let (x, y) = (self.term(&a[0], w0), self.term(&a[1], w0));
                // left by sh (fshl) / right by sh (fshr)
                let l = if h == H::Fshl { sh } else { (w0 - sh) % w0 };
                let r = if l == 0 {
                    if h == H::Fshl {
                        x
                    } else {
                        y
                    }
                } else {
                    let hi = tm().extract(x, 0, w0 - l);
                    let lo = tm().extract(y, w0 - l, l);
                    tm().concat(hi, lo)
                };
                self.val(r)
            }
            H::Ovf(op, signed) => {
                let (v, o) = self.overflow(op, signed, w0, &a[0], &a[1])?;
                V::Agg(Rc::new(vec![v, o]))
            }
            H::Sat(op, signed) => {
                if signed {
                    return Err(X::Err("signed saturating op".into()));
                }
                let (v, o) = self.overflow(op, false, w0, &a[0], &a[1])?;
                let s = if op == BinOp::Add { self.kval(u128::MAX, w0) } else { V::C(0) };
                match o {
                    V::C(0) => v,
                    V::C(_) => s,
                    V::T(t) => {
                        let (x, y) = (self.term(&s, w0), self.term(&v, w0));
                        self.val(tm().ite(t, x, y))
                    }
                    _ => unreachable!(),
                }
            }
            H::Ucmp | H::Scmp => {
                let p = if h == H::Ucmp { Pred::Ult } else { Pred::Slt };
                let rw = self.m.types.bits(ret);
                let lt = self.icmp1(p, w0, &a[0], &a[1]);
                let eq = self.icmp1(Pred::Eq, w0, &a[0], &a[1]);
                let (l, e) = (self.term(&lt, 1), self.term(&eq, 1));
                let one = tm().c(1, rw);
                let zero = tm().c(0, rw);
                let neg = tm().c(mask(rw), rw);
                let r = tm().ite(e, zero, one);
                self.val(tm().ite(l, neg, r))
            }
            H::IsConst | H::Zero => V::C(0),
            H::ZeroWide => V::W(Rc::new(0)),
            H::Ident | H::Expect => a[0].clone(),
            H::VecReduce(op) => {
                let l = self.lanes(&a[0]);
                let (_, et) = self.m.types.is_vec(tys[0]).unwrap();
                let w = self.m.types.bits(et);
                let mut acc = l[0].clone();
                for x in &l[1..] {
                    acc = self.bin1(op, w, &acc, x)?;
                }
                acc
            }
            H::Trap => {
                return self.panicked(st, "abort", &a);
            }
            H::Panic => {
                let n = demangle(&self.m.fns[fid as usize].name);
                return self.panicked(st, &n, &a);
            }
            H::Malloc => {
                let n = self.conc(st, &a[0])?;
                self.heap(st, n)?
            }
            H::RAlloc | H::RAllocZ => {
                let n = self.conc(st, &a[0])?;
                self.heap(st, n)?
            }
            H::Calloc => {
                let n = self.conc(st, &a[0])?;
                let m = self.conc(st, &a[1])?;
                self.heap(st, n * m)?
            }
            H::PosixMemalign => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                let x = self.heap(st, n)?;
                self.store_int(st, p, 64, &x)?;
                V::C(0)
            }
            H::Free | H::RDealloc => {
                let p = self.conc(st, &a[0])?;
                self.free(st, p)?;
                V::C(0)
            }
            H::Realloc | H::RRealloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, if h == H::Realloc { &a[1] } else { &a[3] })?;
                if n > 1 << 32 {
                    return Err(X::Err(format!("allocation of {n} bytes")));
                }
                if p == 0 {
                    self.heap(st, n)?
                } else {
                    let (id, _) = self.range(st, p, 1)?;
                    let old = self.obj(st, id).clone();
                    let x = self.alloc(st, n, true);
                    let k = old.data.len().min(n as usize);
                    let o = self.obj_mut(st, x >> 24);
                    o.data[..k].copy_from_slice(&old.data[..k]);
                    if let Some(s) = &old.sym {
                        let mut y = vec![0u64; n as usize];
                        y[..k].copy_from_slice(&s[..k]);
                        o.sym = Some(y);
                    }
                    self.free(st, p)?;
                    V::C(x)
                }
            }
            H::Bcmp | H::Memcmp => {
                let n = self.conc(st, &a[2])? as usize;
                if n == 0 {
                    V::C(0)
                } else {
                    let (p, q) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                    self.compare(st, p, q, n, h == H::Memcmp)?
                }
            }
            H::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    match self.load_int(st, p + n, 8)? {
                        V::C(0) => break,
                        V::C(_) => n += 1,
                        _ => return Err(X::Err("symbolic strlen".into())),
                    }
                }
                V::C(n)
            }
            H::HashKeys => V::Agg(Rc::new(vec![V::C(0x0123_4567_89ab_cdef), V::C(0xfedc_ba98_7654_3210)])),
            H::SymVar => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let w = self.conc(st, &a[2])? as u16;
                let name = self.cstr(st, p, n)?;
                let t = tm().new_var(VarInfo { name, w, lo: 0, hi: mask(w), kind: VarKind::Plain });
                let t = tm().zext(t, 64);
                st.inputs.push(t);
                V::T(t)
            }
            H::SymRange => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let lo = self.conc(st, &a[2])?;
                let hi = self.conc(st, &a[3])?;
                if lo > hi {
                    return Err(X::Stop);
                }
                if lo == hi {
                    let t = tm().c(lo as u128, 64);
                    st.inputs.push(t);
                    V::C(lo)
                } else {
                    let name = self.cstr(st, p, n)?;
                    let w = (64 - hi.leading_zeros()) as u16;
                    let t = tm().new_var(VarInfo { name, w, lo: lo as u128, hi: hi as u128, kind: VarKind::Plain });
                    let t = tm().zext(t, 64);
                    st.inputs.push(t);
                    V::T(t)
                }
            }
            H::SymAssume => match self.cond8(&a[0]) {
                V::C(0) => {
                    self.st.assumed_away += 1;
                    return Err(X::Stop);
                }
                V::C(_) => V::C(0),
                V::T(t) => {
                    match self.implied(st, t) {
                        Some(true) => {}
                        Some(false) => {
                            self.st.assumed_away += 1;
                            return Err(X::Stop);
                        }
                        None => {
                            if st.model.eval(t) == 0 {
                                match self.s.check(&st.pc, &[t], query_ms(self.check_ms, self.found)) {
                                    R::Sat(m) => st.model = st.model.with(&m),
                                    R::Unsat => {
                                        self.st.assumed_away += 1;
                                        return Err(X::Stop);
                                    }
                                    R::Unknown => return Err(X::Err("solver timeout in an assumption".into())),
                                }
                            }
                            self.add_pc(st, t);
                        }
                    }
                    V::C(0)
                }
                _ => unreachable!(),
            },
            H::SymCheck => {
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let msg = self.cstr(st, p, n)?;
                self.st.checks += 1;
                *self.st.checked.entry(msg.clone()).or_insert(0) += 1;
                match self.cond8(&a[0]) {
                    V::C(0) => {
                        self.violation(st, None, msg);
                        return Err(X::Stop);
                    }
                    V::C(_) => self.st.checks_trivial += 1,
                    V::T(t) => {
                        if self.implied(st, t) == Some(true) {
                            self.st.checks_trivial += 1;
                        } else {
                            let nt = tm().not(t);
                            match self.s.check(&st.pc, &[nt], query_ms(self.check_ms, self.found)) {
                                R::Unsat => {
                                    Rc::make_mut(&mut st.pcset).insert(t);
                                }
                                R::Sat(m) => {
                                    let keep = st.model.clone();
                                    st.model = st.model.with(&m);
                                    self.violation(st, Some(nt), msg);
                                    st.model = keep;
                                    match self.s.check(&st.pc, &[t], query_ms(self.check_ms, self.found)) {
                                        R::Sat(m) => {
                                            st.model = st.model.with(&m);
                                            self.add_pc(st, t);
                                        }
                                        _ => return Err(X::Stop),
                                    }
                                }
                                R::Unknown => {
                                    self.inconc(format!("solver timeout on check: {msg}"));
                                }
                            }
                        }
                    }
                    _ => unreachable!(),
                }
                V::C(0)
            }
            H::SymCover => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let msg = self.cstr(st, p, n)?;
                if !self.st.covers.contains_key(&msg) {
                    // a witness is only counted when the whole path condition is satisfiable
                    match self.s.check_all(st.pc.clone(), query_ms(self.check_ms, self.found)) {
                        R::Sat(_) => {
                            self.st.covers.insert(msg.clone(), 1);
                        }
                        R::Unsat => return Err(X::Stop),
                        R::Unknown => {}
                    }
                } else {
                    *self.st.covers.get_mut(&msg).unwrap() += 1;
                }
                Rc::make_mut(&mut st.covers).insert(msg);
                V::C(0)
            }
            H::SymAllowPanic => {
                st.allow_panic = self.conc(st, &a[0])? & 1 != 0;
                V::C(0)
            }
            H::SymMerge => {
                st.merge = self.conc(st, &a[0])? & 1 != 0;
                V::C(0)
            }
            H::SymConcretize => V::C(self.conc(st, &a[0])?),
            H::SymObserve => {
                st.obs.push(a[0].clone());
                V::C(0)
            }
            H::SymIte => {
                let c = self.cond8(&a[0]);
                match c {
                    V::C(0) => a[2].clone(),
                    V::C(_) => a[1].clone(),
                    V::T(t) => {
                        let (x, y) = (self.term(&a[1], 64), self.term(&a[2], 64));
                        self.val(tm().ite(t, x, y))
                    }
                    _ => unreachable!(),
                }
            }
            H::SymFreeUf => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let on = self.conc(st, &a[2])? & 1 != 0;
                let tag = self.cstr(st, p, n)?;
                let t = tm().tag(&tag);
                let f = Rc::make_mut(&mut st.free);
                if on {
                    f.insert(t);
                } else {
                    f.remove(&t);
                }
                V::C(0)
            }
            H::SymSame => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])? as usize;
                let (x, y) = (self.read_bytes(st, p, n)?, self.read_bytes(st, q, n)?);
                V::C(x.iter().zip(&y).all(|(x, y)| match (x, y) {
                    (B::C(x), B::C(y)) => x == y,
                    (B::S(x, i), B::S(y, j)) => x == y && i == j,
                    _ => false,
                }) as u64)
            }
            H::SymUf => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let tag = self.cstr(st, p, n)?;
                let dp = self.conc(st, &a[2])?;
                let dn = self.conc(st, &a[3])? as usize;
                let op = self.conc(st, &a[4])?;
                let on = self.conc(st, &a[5])? as usize;
                self.uf(st, &tag, dp, dn, op, on)?;
                V::C(0)
            }
            H::SymSha => {
                let dp = self.conc(st, &a[0])?;
                let dn = self.conc(st, &a[1])? as usize;
                let op = self.conc(st, &a[2])?;
                self.uf(st, "sha256", dp, dn, op, 32)?;
                V::C(0)
            }
            H::SymIsqrt => match &a[0] {
                V::C(x) => V::C(isqrt(*x as u128) as u64),
                v => {
                    let t = self.term(v, 64);
                    V::T(tm().isqrt(t))
                }
            },
            H::SymDepth => V::C(self.depth),
            H::Unknown | H::Body | H::Unresolved => {
                let n = self.m.fns[fid as usize].name.clone();
                if n == "syscall" {
                    return Err(X::Err("system call".into()));
                }
                return Err(X::Err(format!("call of external function {n}")));
            }
        };
        let fr = st.frames.last_mut().unwrap();
        if let Some(d) = d {
            fr.regs[d as usize] = r;
        }
        match normal {
            Some(b) => self.goto(st, b),
            None => fr.ip += 1,
        }
        Ok(None)
    }
    fn heap(&mut self, st: &mut State, n: u64) -> Res<V> {
        if n > 1 << 30 {
            return Err(X::Err(format!("allocation of {n} bytes")));
        }
        Ok(V::C(self.alloc(st, n, true)))
    }
    /// a byte used as a condition: true iff non-zero
    fn cond8(&self, v: &V) -> V {
        match v {
            V::C(x) => V::C((*x & 0xff != 0) as u64),
            v => {
                let t = self.term(v, 8);
                let z = tm().c(0, 8);
                let e = tm().eq(t, z);
                self.val(tm().not(e))
            }
        }
    }
    fn overflow(&mut self, op: BinOp, signed: bool, w: u16, a: &V, b: &V) -> Res<(V, V)> {
        if let (Some(x), Some(y), true) = (self.cu128(a), self.cu128(b), w <= 64) {
            if signed {
                let (x, y) = (sx(x, w), sx(y, w));
                let r = match op {
                    BinOp::Add => x + y,
                    BinOp::Sub => x - y,
                    _ => x * y,
                };
                let v = r as u128 & mask(w);
                return Ok((self.kval(v, w), V::C((sx(v, w) != r) as u64)));
            }
            let (v, o) = match op {
                BinOp::Add => (x + y, x + y > mask(w)),
                BinOp::Sub => (x.wrapping_sub(y), x < y),
                _ => (x * y, x * y > mask(w)),
            };
            return Ok((self.kval(v, w), V::C(o as u64)));
        }
        if let (Some(x), Some(y), false) = (self.cu128(a), self.cu128(b), signed) {
            let (v, o) = match op {
                BinOp::Add => x.overflowing_add(y),
                BinOp::Sub => x.overflowing_sub(y),
                _ => x.overflowing_mul(y),
            };
            return Ok((self.kval(v, w), V::C(o as u64)));
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let v = tm().bin(top(op), x, y);
        let (lx, hx, ly, hy) =
            (tm().lo[x as usize], tm().hi[x as usize], tm().lo[y as usize], tm().hi[y as usize]);
        let m = mask(w);
        if signed {
            if w > 64 {
                return Err(X::Err("wide signed overflow".into()));
            }
            let w2 = if op == BinOp::Mul { 2 * w } else { w + 1 };
            let (xe, ye) = (tm().sext(x, w2), tm().sext(y, w2));
            let full = tm().bin(top(op), xe, ye);
            let back = tm().sext(v, w2);
            let e = tm().eq(full, back);
            let o = tm().not(e);
            return Ok((self.val(v), self.val(o)));
        }
        let o = match op {
            BinOp::Add => {
                if hx.checked_add(hy).map_or(false, |s| s <= m) {
                    tm().ff()
                } else if lx.checked_add(ly).map_or(true, |s| s > m) {
                    tm().tt()
                } else {
                    // carry: x > !y
                    let ny = tm().not(y);
                    tm().bin(Op::Ult, ny, x)
                }
            }
            BinOp::Sub => tm().bin(Op::Ult, x, y),
            _ => {
                if hx.checked_mul(hy).map_or(false, |s| s <= m) {
                    tm().ff()
                } else if lx.checked_mul(ly).map_or(true, |s| s > m) {
                    tm().tt()
                } else if let Some(k) = tm().cv(y).or(tm().cv(x)) {
                    let var = if tm().cv(y).is_some() { x } else { y };
                    let lim = tm().c(m / k, w);
                    tm().bin(Op::Ult, lim, var)
                } else if w <= 64 {
                    let (xe, ye) = (tm().zext(x, 2 * w), tm().zext(y, 2 * w));
                    let full = tm().bin(Op::Mul, xe, ye);
                    let hi = tm().extract(full, w, w);
                    let z = tm().c(0, w);
                    let e = tm().eq(hi, z);
                    tm().not(e)
                } else {
                    return Err(X::Err("wide multiplication overflow".into()));
                }
            }
        };
        Ok((self.val(v), self.val(o)))
    }
    fn compare(&mut self, st: &mut State, p: u64, q: u64, n: usize, order: bool) -> Res<V> {
        let x = self.read_bytes(st, p, n)?;
        let y = self.read_bytes(st, q, n)?;
        // concrete prefix
        let mut i = 0;
        while i < n {
            match (&x[i], &y[i]) {
                (B::C(a), B::C(b)) if a == b => i += 1,
                (B::C(a), B::C(b)) => {
                    return Ok(V::C((if a < b { -1i32 } else { 1 }) as u32 as u64));
                }
                (a, b) if a == b => i += 1,
                _ => break,
            }
        }
        if i == n {
            return Ok(V::C(0));
        }
        if !order {
            // any concrete difference decides
            for k in i..n {
                if let (B::C(a), B::C(b)) = (&x[k], &y[k]) {
                    if a != b {
                        return Ok(V::C(1));
                    }
                }
            }
            let mut eq = tm().tt();
            let mut k = i;
            while k < n {
                let e = (k + 8).min(n);
                let (a, b) = (tm().assemble(&x[k..e]), tm().assemble(&y[k..e]));
                let c = tm().eq(a, b);
                eq = tm().and1(eq, c);
                k = e;
            }
            let ne = tm().not(eq);
            return Ok(self.val(tm().zext(ne, 32)));
        }
        let mut acc = tm().c(0, 32);
        let one = tm().c(1, 32);
        let neg = tm().c(0xffff_ffff, 32);
        let mut groups = vec![];
        let mut k = i;
        while k < n {
            let e = (k + 8).min(n);
            groups.push((k, e));
            k = e;
        }
        for (s, e) in groups.into_iter().rev() {
            let bx: Vec<B> = x[s..e].iter().rev().copied().collect();
            let by: Vec<B> = y[s..e].iter().rev().copied().collect();
            let (a, b) = (tm().assemble(&bx), tm().assemble(&by));
            let eq = tm().eq(a, b);
            let lt = tm().bin(Op::Ult, a, b);
            let r = tm().ite(lt, neg, one);
            acc = tm().ite(eq, acc, r);
        }
        Ok(self.val(acc))
    }
    fn uf(&mut self, st: &mut State, tag: &str, dp: u64, dn: usize, op: u64, on: usize) -> Res<()> {
        let args = self.read_bytes(st, dp, dn)?;
        let t = tm().tag(tag);
        let free = st.free.contains(&t);
        if !free && args.iter().all(|b| matches!(b, B::C(_))) {
            let v: Vec<u8> = args.iter().map(|b| if let B::C(c) = b { *c } else { 0 }).collect();
            let key = (t, v.clone());
            let out = match tm().folded.get(&key) {
                Some(o) => o.clone(),
                None => {
                    let o = uf_default(tag, &v, on);
                    if tag == "sha256" {
                        tm().folded_rev.insert(o.clone(), v);
                    }
                    tm().folded.insert(key, o.clone());
                    o
                }
            };
            let b: Vec<B> = out.into_iter().map(B::C).collect();
            return self.write_bytes(st, op, &b);
        }
        let app = tm().app(t, args, on);
        let outs = tm().apps[app as usize].outs.clone();
        let (id, off) = self.range(st, op, on)?;
        let mut k = 0;
        for o in outs {
            let n = ((tm().w(o) + 7) / 8) as usize;
            let o2 = if tm().w(o) < 8 { tm().zext(o, 8) } else { o };
            let ob = self.obj_mut(st, id);
            self_store_term(ob, off + k, o2, n);
            k += n;
        }
        Ok(())
    }
    fn panicked(&mut self, st: &mut State, name: &str, a: &[V]) -> Res<Option<End>> {
        let loc = self.location(st, a);
        if st.allow_panic {
            self.st.panics_ok += 1;
            self.st.paths += 1;
            return Err(X::Stop);
        }
        let what = name.rsplit("::").next().unwrap_or(name).to_string();
        self.violation(st, None, format!("panic: {what} at {loc}"));
        Err(X::Stop)
    }
}

fn self_store_term(o: &mut Obj, off: usize, t: T, n: usize) {
    let tmr = tm();
    match tmr.cv(t) {
        Some(v) => {
            for i in 0..n {
                o.set(off + i, B::C((v >> (8 * i)) as u8));
            }
        }
        None => {
            let w = tmr.w(t);
            let t = if (w as usize) < n * 8 { tmr.zext(t, (n * 8) as u16) } else { t };
            // split at constant parts so that later byte accesses stay simple
            let nd = tmr.n(t);
            if nd.op == Op::ZExt && tmr.w(nd.a) % 8 == 0 {
                let k = (tmr.w(nd.a) / 8) as usize;
                self_store_term(o, off, nd.a, k);
                for i in k..n {
                    o.set(off + i, B::C(0));
                }
                return;
            }
            if nd.op == Op::Concat && tmr.w(nd.b) % 8 == 0 {
                let k = (tmr.w(nd.b) / 8) as usize;
                self_store_term(o, off, nd.b, k);
                self_store_term(o, off + k, nd.a, n - k);
                return;
            }
            if nd.op == Op::Extract && nd.imm % 8 == 0 && tmr.w(nd.a) <= 128 {
                let base = (nd.imm / 8) as usize;
                for i in 0..n {
                    o.set(off + i, B::S(nd.a, (base + i) as u8));
                }
                return;
            }
            for i in 0..n {
                o.set(off + i, B::S(t, i as u8));
            }
        }
    }
}

fn insert(agg: &V, idx: &[u32], x: V) -> V {
    if idx.is_empty() {
        return x;
    }
    if let V::Agg(l) = agg {
        let mut n = (**l).clone();
        let k = idx[0] as usize;
        n[k] = insert(&n[k], &idx[1..], x);
        return V::Agg(Rc::new(n));
    }
    panic!("insertvalue into a scalar")
}

/// Readable approximation of a v0-mangled name: the identifiers in it.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && !(i > 0 && b[i - 1] == b'_' && false) {
            let mut j = i;
            let mut len = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                len = len * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if len > 0 && len < 100 && j + len <= b.len() {
                let mut k = j;
                if k < b.len() && b[k] == b'_' {
                    k += 1;
                }
                if k + len <= b.len() {
                    let s = &n[k..k + len];
                    if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && s.bytes().any(|c| c.is_ascii_lowercase() || c.is_ascii_uppercase()) {
                        parts.push(s.to_string());
                        i = k + len;
                        continue;
                    }
                }
            }
            i = j;
            continue;
        }
        // crate disambiguators "Cs<base62>_", back references "B<base62>_", "s<base62>_"
        if b[i] == b'B' || b[i] == b's' {
            let mut k = i + 1;
            while k < b.len() && b[k] != b'_' && k < i + 14 {
                k += 1;
            }
            if k < b.len() && b[k] == b'_' {
                i = k;
            }
        }
        i += 1;
    }
    parts.truncate(8);
    parts.join("::")
}

fn query_ms(ms: u32, found: &std::sync::atomic::AtomicU64) -> u32 {
    match found.load(std::sync::atomic::Ordering::Relaxed) {
        0 => ms,
        _ => ms.min(20_000),
    }
}
