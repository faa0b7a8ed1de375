//! Parser for the textual LLVM IR produced by rustc (lazy: function bodies are decoded on first
//! use).
use crate::exec::V;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Struct(Vec<TyId>, bool),
    Array(u64, TyId),
    Vector(u64, TyId),
    Other,
}

pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub size: Vec<u64>,
    pub align: Vec<u64>,
    pub named: HashMap<String, TyId>,
}

impl Types {
    fn new() -> Self {
        Types { tys: vec![], map: HashMap::new(), size: vec![], align: vec![], named: HashMap::new() }
    }
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.map.get(&t) {
            return *i;
        }
        let (s, a) = match &t {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for x in f {
                    let (sz, a) = (self.size[*x as usize], self.align[*x as usize]);
                    if !packed {
                        o = (o + a - 1) / a * a;
                        al = al.max(a);
                    }
                    o += sz;
                }
                if !packed {
                    o = (o + al - 1) / al * al;
                }
                (o, al)
            }
            Ty::Array(n, e) => (n * self.size[*e as usize], self.align[*e as usize]),
            Ty::Vector(n, e) => {
                let bits = match self.tys[*e as usize] {
                    Ty::Int(w) => w as u64 * n,
                    _ => 64 * n,
                };
                let b = (bits + 7) / 8;
                (b, b.next_power_of_two())
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.size.push(s);
        self.align.push(a);
        self.map.insert(t, id);
        id
    }
    pub fn offset(&self, t: TyId, idx: usize) -> u64 {
        match &self.tys[t as usize] {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (i, x) in f.iter().enumerate() {
                    let a = self.align[*x as usize];
                    if !packed {
                        o = (o + a - 1) / a * a;
                    }
                    if i == idx {
                        return o;
                    }
                    o += self.size[*x as usize];
                }
                panic!("offset")
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => self.size[*e as usize] * idx as u64,
            _ => panic!("offset of scalar"),
        }
    }
    pub fn elem(&self, t: TyId, idx: usize) -> TyId {
        match &self.tys[t as usize] {
            Ty::Struct(f, _) => f[idx],
            Ty::Array(_, e) | Ty::Vector(_, e) => *e,
            _ => panic!("elem of scalar"),
        }
    }
    /// bit width of a scalar
    pub fn bits(&self, t: TyId) -> u16 {
        match self.tys[t as usize] {
            Ty::Int(w) => w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn count(&self, t: TyId) -> usize {
        match &self.tys[t as usize] {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_vec(&self, t: TyId) -> Option<(u64, TyId)> {
        match self.tys[t as usize] {
            Ty::Vector(n, e) => Some((n, e)),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Same,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, ty: TyId, d: u32, a: Opnd, b: Opnd },
    Icmp { p: Pred, ty: TyId, d: u32, a: Opnd, b: Opnd },
    Cast { c: Cast, from: TyId, to: TyId, d: u32, a: Opnd },
    Bitcast { from: TyId, to: TyId, d: u32, a: Opnd },
    Load { d: u32, ty: TyId, p: Opnd },
    Store { ty: TyId, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: i64, terms: Vec<(Opnd, i64, u16)> },
    Alloca { d: u32, size: u64 },
    Select { ty: TyId, d: u32, c: Opnd, cty: TyId, a: Opnd, b: Opnd },
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u16, v: Opnd, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    Call { d: Option<u32>, f: Callee, args: Vec<Opnd>, tys: Vec<TyId>, ret: TyId, normal: Option<u32> },
    Extract { d: u32, a: Opnd, idx: Vec<u32> },
    Insert { d: u32, a: Opnd, ty: TyId, v: Opnd, idx: Vec<u32> },
    ExtractElem { d: u32, a: Opnd, i: Opnd },
    InsertElem { d: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, mask: Opnd, n: u64 },
    Rmw { op: String, d: u32, ty: TyId, p: Opnd, v: Opnd },
    CmpXchg { d: u32, ty: TyId, p: Opnd, cmp: Opnd, new: Opnd },
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<I>,
    pub succs: Vec<u32>,
}

pub struct Func {
    pub id: u32,
    pub nregs: usize,
    pub params: Vec<(u32, TyId)>,
    pub blocks: Vec<Block>,
    /// immediate post-dominator of each block (u32::MAX: function exit, u32::MAX-1: none)
    pub ipdom: Vec<u32>,
    pub live_in: Vec<Rc<Vec<u64>>>,
    pub in_loop: Vec<bool>,
    pub name: String,
}

pub struct FnDecl {
    pub name: String,
    pub ret: TyId,
    pub line: Option<usize>,
    pub vararg: bool,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<String>,
    pub size: u64,
    pub constant: bool,
}

pub struct Module {
    pub text: &'static str,
    lines: Vec<(u32, u32)>,
    pub types: Types,
    pub fns: Vec<FnDecl>,
    pub fn_idx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub global_idx: HashMap<String, u32>,
    aliases: HashMap<String, String>,
    pub bodies: Vec<Option<Rc<Func>>>,
    pub global_addr: Vec<u64>,
}

pub const FBASE: u64 = 0x7f00_0000_0000_0000;

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> P<'a> {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("IR parse: expected '{}' at `{}` in `{}`", c as char, self.rest(), String::from_utf8_lossy(self.s));
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 80)]).into_owned()
    }
    fn ident(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$'))
        {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_ident(&mut self) -> &'a str {
        let s = self.i;
        let r = self.ident();
        self.i = s;
        r
    }
    fn eat_kw(&mut self, k: &str) -> bool {
        let s = self.i;
        if self.ident() == k {
            true
        } else {
            self.i = s;
            false
        }
    }
    /// after '%' or '@': name possibly quoted
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let mut out = vec![];
            while self.s[self.i] != b'"' {
                if self.s[self.i] == b'\\' {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                } else {
                    out.push(self.s[self.i]);
                    self.i += 1;
                }
            }
            self.i += 1;
            return String::from_utf8_lossy(&out).into_owned();
        }
        self.ident().to_string()
    }
    fn parens(&mut self) {
        // skip a balanced (...) group
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
}

fn parse_int(s: &str) -> Option<u128> {
    if let Some(r) = s.strip_prefix('-') {
        return r.parse::<u128>().ok().map(|v| v.wrapping_neg());
    }
    s.parse::<u128>().ok()
}

const VALUE_KW: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "c", "getelementptr", "inttoptr",
    "ptrtoint", "ptrtoaddr", "bitcast", "trunc", "zext", "sext", "add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "splat",
    "icmp", "select", "asm", "blockaddress", "dso_local_equivalent", "no_cfi", "addrspacecast",
];

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
            eprintln!("cannot read {path}: {e}");
            std::process::exit(2)
        });
        let text: &'static str = Box::leak(text.into_boxed_str());
        let mut lines = vec![];
        let mut st = 0usize;
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push((st as u32, i as u32));
                st = i + 1;
            }
        }
        let mut m = Module {
            text,
            lines,
            types: Types::new(),
            fns: vec![],
            fn_idx: HashMap::new(),
            globals: vec![],
            global_idx: HashMap::new(),
            aliases: HashMap::new(),
            bodies: vec![],
            global_addr: vec![],
        };
        m.index();
        m
    }
    fn line(&self, i: usize) -> &'static str {
        let (a, b) = self.lines[i];
        &self.text[a as usize..b as usize]
    }
    fn index(&mut self) {
        let n = self.lines.len();
        // named types first
        for i in 0..n {
            let l = self.line(i);
            if l.starts_with('%') && l.contains(" = type ") {
                let (name, def) = l.split_once(" = type ").unwrap();
                let name = name.trim_start_matches('%').trim_matches('"').to_string();
                let mut p = P::new(def);
                let t = self.ty(&mut p);
                self.types.named.insert(name, t);
            }
        }
        let mut i = 0;
        while i < n {
            let l = self.line(i);
            let b = l.as_bytes();
            if b.is_empty() {
                i += 1;
                continue;
            }
            match b[0] {
                b'@' => self.global_line(l),
                b'd' if l.starts_with("define ") => {
                    let mut p = P::new(l);
                    p.ident();
                    let (ret, name) = self.fn_header(&mut p);
                    self.add_fn(name, ret, Some(i), false);
                    while self.line(i) != "}" {
                        i += 1;
                    }
                }
                b'd' if l.starts_with("declare ") => {
                    let mut p = P::new(l);
                    p.ident();
                    let (ret, name) = self.fn_header(&mut p);
                    self.add_fn(name, ret, None, l.contains("...)"));
                }
                _ => {}
            }
            i += 1;
        }
        self.bodies = (0..self.fns.len()).map(|_| None).collect();
        // assign addresses to globals: consecutive object ids starting at 1
        let mut id = 1u64;
        for g in &self.globals {
            self.global_addr.push(id << 24);
            id += 1 + (g.size >> 24);
        }
    }
    pub fn first_heap_id(&self) -> u64 {
        let mut id = 1u64;
        for g in &self.globals {
            id += 1 + (g.size >> 24);
        }
        id
    }
    fn add_fn(&mut self, name: String, ret: TyId, line: Option<usize>, vararg: bool) {
        let id = self.fns.len() as u32;
        self.fn_idx.insert(name.clone(), id);
        self.fns.push(FnDecl { name, ret, line, vararg });
    }
    /// parses up to and including the name; returns (ret type, name)
    fn fn_header(&mut self, p: &mut P) -> (TyId, String) {
        // linkage, attributes … then type
        loop {
            let c = p.peek();
            if c == b'@' {
                panic!("function without type: {}", p.rest());
            }
            if self.at_type(p) {
                break;
            }
            self.skip_attr(p);
        }
        let ret = self.ty(p);
        while p.peek() != b'@' {
            self.skip_attr(p);
        }
        p.expect(b'@');
        let name = p.name();
        (ret, name)
    }
    fn at_type(&self, p: &mut P) -> bool {
        let c = p.peek();
        if matches!(c, b'{' | b'[' | b'<' | b'%') {
            return true;
        }
        let id = p.peek_ident();
        if id == "ptr" || id == "void" || id == "float" || id == "double" || id == "label" || id == "metadata" || id == "half" || id == "token" {
            return true;
        }
        id.len() > 1 && id.as_bytes()[0] == b'i' && id[1..].bytes().all(|c| c.is_ascii_digit())
    }
    fn skip_attr(&mut self, p: &mut P) {
        let c = p.peek();
        if c == b'#' {
            p.i += 1;
            p.ident();
            return;
        }
        if c == b'"' {
            p.i += 1;
            while p.s[p.i] != b'"' {
                p.i += 1;
            }
            p.i += 1;
            if p.eat(b'=') {
                p.i += 1;
                while p.s[p.i] != b'"' {
                    p.i += 1;
                }
                p.i += 1;
            }
            return;
        }
        let id = p.ident();
        if id.is_empty() {
            panic!("IR parse: attribute expected at `{}`", p.rest());
        }
        if p.i < p.s.len() && p.s[p.i] == b'(' {
            p.parens();
        } else if id == "align" || id == "cc" {
            p.ident();
        }
    }
    fn global_line(&mut self, l: &'static str) {
        let mut p = P::new(l);
        p.expect(b'@');
        let name = p.name();
        p.expect(b'=');
        let mut constant = false;
        let mut external = false;
        loop {
            let s = p.i;
            let id = p.ident();
            match id {
                "constant" => {
                    constant = true;
                    break;
                }
                "global" => break,
                "alias" | "ifunc" => {
                    // alias TYPE, ptr @target
                    let t = self.ty(&mut p);
                    let _ = t;
                    p.expect(b',');
                    self.ty(&mut p);
                    p.expect(b'@');
                    let tgt = p.name();
                    self.aliases.insert(name, tgt);
                    return;
                }
                "external" | "extern_weak" => external = true,
                _ => {
                    p.i = s;
                    self.skip_attr(&mut p);
                }
            }
        }
        let ty = self.ty(&mut p);
        let init = if external {
            None
        } else {
            p.ws();
            Some(String::from_utf8_lossy(&p.s[p.i..]).into_owned())
        };
        let size = self.types.size[ty as usize].max(1);
        let size = if external { 8 } else { size };
        let id = self.globals.len() as u32;
        self.global_idx.insert(name.clone(), id);
        self.globals.push(Global { name, ty, init, size, constant });
    }
    fn ty(&mut self, p: &mut P) -> TyId {
        let c = p.peek();
        let t = match c {
            b'{' => {
                p.i += 1;
                let f = self.ty_list(p, b'}');
                Ty::Struct(f, false)
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let f = self.ty_list(p, b'}');
                    p.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n: u64 = p.ident().parse().unwrap();
                    assert_eq!(p.ident(), "x");
                    let e = self.ty(p);
                    p.expect(b'>');
                    Ty::Vector(n, e)
                }
            }
            b'[' => {
                p.i += 1;
                let n: u64 = p.ident().parse().unwrap();
                assert_eq!(p.ident(), "x");
                let e = self.ty(p);
                p.expect(b']');
                Ty::Array(n, e)
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                return *self.types.named.get(&n).unwrap_or_else(|| panic!("unknown type %{n}"));
            }
            _ => {
                let id = p.ident();
                match id {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "half" | "token" | "opaque" => Ty::Other,
                    _ if id.starts_with('i') => Ty::Int(id[1..].parse().unwrap_or_else(|_| panic!("type {id} at {}", p.rest()))),
                    _ => panic!("IR parse: type expected, found `{id}` `{}`", p.rest()),
                }
            }
        };
        self.types.intern(t)
    }
    fn ty_list(&mut self, p: &mut P, end: u8) -> Vec<TyId> {
        let mut out = vec![];
        if p.eat(end) {
            return out;
        }
        loop {
            out.push(self.ty(p));
            if p.eat(end) {
                return out;
            }
            p.expect(b',');
        }
    }
    pub fn zero(&self, ty: TyId) -> V {
        match &self.types.tys[ty as usize] {
            Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
            Ty::Struct(f, _) => V::Agg(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let z = self.zero(*e);
                V::Agg(Rc::new((0..*n).map(|_| z.clone()).collect()))
            }
            _ => V::C(0),
        }
    }
    fn kint(&self, v: u128, ty: TyId) -> V {
        let w = self.types.bits(ty);
        let v = v & crate::term::mask(w);
        if w > 64 {
            V::W(Rc::new(v))
        } else {
            V::C(v as u64)
        }
    }
    pub fn sym_addr(&self, name: &str) -> u64 {
        let name = match self.aliases.get(name) {
            Some(t) => t.as_str(),
            None => name,
        };
        if let Some(g) = self.global_idx.get(name) {
            return self.global_addr[*g as usize];
        }
        if let Some(f) = self.fn_idx.get(name) {
            return FBASE + (*f as u64) * 16;
        }
        panic!("unknown symbol @{name}");
    }
    /// a constant of type `ty`
    fn konst(&mut self, p: &mut P, ty: TyId) -> V {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name();
                return V::C(self.sym_addr(&n));
            }
            b'{' | b'[' | b'<' => {
                let packed = c == b'<' && p.s[p.i + 1] == b'{';
                p.i += 1 + packed as usize;
                let end = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => {
                        if packed {
                            b'}'
                        } else {
                            b'>'
                        }
                    }
                };
                let mut out = vec![];
                if !p.eat(end) {
                    loop {
                        let t = self.ty(p);
                        out.push(self.konst(p, t));
                        if p.eat(end) {
                            break;
                        }
                        p.expect(b',');
                    }
                }
                if packed {
                    p.expect(b'>');
                }
                return V::Agg(Rc::new(out));
            }
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 2;
                let mut out = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' {
                        if p.s[p.i + 1] == b'\\' {
                            out.push(V::C(b'\\' as u64));
                            p.i += 2;
                            continue;
                        }
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        out.push(V::C(u8::from_str_radix(h, 16).unwrap() as u64));
                        p.i += 3;
                    } else {
                        out.push(V::C(p.s[p.i] as u64));
                        p.i += 1;
                    }
                }
                p.i += 1;
                return V::Agg(Rc::new(out));
            }
            b'!' => {
                // metadata
                while p.i < p.s.len() && !matches!(p.s[p.i], b',' | b')') {
                    p.i += 1;
                }
                return V::C(0);
            }
            _ => {}
        }
        let id = p.ident();
        match id {
            "true" => return V::C(1),
            "false" | "null" | "none" => return V::C(0),
            "undef" | "poison" | "zeroinitializer" => return self.zero(ty),
            "splat" => {
                p.expect(b'(');
                let t = self.ty(p);
                let v = self.konst(p, t);
                p.expect(b')');
                let n = self.types.count(ty);
                return V::Agg(Rc::new((0..n).map(|_| v.clone()).collect()));
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                loop {
                    if p.peek() == b'(' {
                        break;
                    }
                    p.ident();
                }
                p.expect(b'(');
                let t = self.ty(p);
                let v = self.konst(p, t);
                assert_eq!(p.ident(), "to");
                let t2 = self.ty(p);
                p.expect(b')');
                let x = match v {
                    V::C(x) => x as u128,
                    V::W(x) => *x,
                    _ => return v,
                };
                let x = if id == "sext" { crate::term::sx(x, self.types.bits(t)) as u128 } else { x };
                return self.kint(x, t2);
            }
            "getelementptr" => {
                while p.peek() != b'(' {
                    p.ident();
                    if p.peek() == b'(' && {
                        // inrange(...) attribute
                        let s = &p.s[..p.i];
                        s.ends_with(b"inrange")
                    } {
                        p.parens();
                    }
                }
                p.expect(b'(');
                let t = self.ty(p);
                p.expect(b',');
                let pt = self.ty(p);
                let base = match self.konst(p, pt) {
                    V::C(x) => x,
                    _ => panic!("gep base"),
                };
                let mut idx = vec![];
                while p.eat(b',') {
                    let it = self.ty(p);
                    if let V::C(x) = self.konst(p, it) {
                        idx.push(crate::term::sx(x as u128, self.types.bits(it)) as i64);
                    }
                }
                p.expect(b')');
                let mut off = idx[0].wrapping_mul(self.types.size[t as usize] as i64);
                let mut cur = t;
                for k in &idx[1..] {
                    if let Ty::Struct(..) = self.types.tys[cur as usize] {
                        off += self.types.offset(cur, *k as usize) as i64;
                        cur = self.types.elem(cur, *k as usize);
                    } else {
                        cur = self.types.elem(cur, 0);
                        off += k.wrapping_mul(self.types.size[cur as usize] as i64);
                    }
                }
                return V::C(base.wrapping_add(off as u64));
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                while p.peek() != b'(' {
                    p.ident();
                }
                p.expect(b'(');
                let t = self.ty(p);
                let a = self.konst(p, t);
                p.expect(b',');
                let t2 = self.ty(p);
                let b = self.konst(p, t2);
                p.expect(b')');
                if let (V::C(a), V::C(b)) = (a, b) {
                    let r = match id {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "shl" => a << b,
                        _ => a >> b,
                    };
                    return self.kint(r as u128, t);
                }
                panic!("const expr");
            }
            "icmp" => {
                let pr = p.ident().to_string();
                p.expect(b'(');
                let t = self.ty(p);
                let a = self.konst(p, t);
                p.expect(b',');
                let t2 = self.ty(p);
                let b = self.konst(p, t2);
                p.expect(b')');
                if let (V::C(a), V::C(b)) = (a, b) {
                    return V::C(match pr.as_str() {
                        "eq" => a == b,
                        "ne" => a != b,
                        "ult" => a < b,
                        "ule" => a <= b,
                        "ugt" => a > b,
                        _ => a >= b,
                    } as u64);
                }
                panic!("const icmp");
            }
            _ => {}
        }
        if let Some(v) = parse_int(id) {
            return self.kint(v, ty);
        }
        if let Some(h) = id.strip_prefix("0x") {
            if let Ok(v) = u64::from_str_radix(h, 16) {
                // floats are printed as doubles
                return match self.types.tys[ty as usize] {
                    Ty::F32 => V::C((f64::from_bits(v) as f32).to_bits() as u64),
                    _ => V::C(v),
                };
            }
        }
        if let Ok(f) = format!("{id}{}", "").parse::<f64>() {
            // the exponent may contain '+', which ident() stops at
            let mut s = f;
            if p.i < p.s.len() && p.s[p.i] == b'+' {
                let st = p.i;
                p.i += 1;
                let e = p.ident();
                s = format!("{id}+{e}").parse().unwrap_or_else(|_| panic!("float at {st}"));
            }
            return match self.types.tys[ty as usize] {
                Ty::F32 => V::C((s as f32).to_bits() as u64),
                _ => V::C(s.to_bits()),
            };
        }
        if id.ends_with('e') && p.i < p.s.len() && p.s[p.i] == b'+' {
            p.i += 1;
            let e = p.ident();
            let f: f64 = format!("{id}+{e}").parse().unwrap();
            return match self.types.tys[ty as usize] {
                Ty::F32 => V::C((f as f32).to_bits() as u64),
                _ => V::C(f.to_bits()),
            };
        }
        panic!("IR parse: constant expected, found `{id}` at `{}`", p.rest());
    }
    pub fn global_init(&mut self, g: usize) -> (TyId, Option<V>) {
        let ty = self.globals[g].ty;
        match self.globals[g].init.clone() {
            None => (ty, None),
            Some(s) => {
                let mut p = P::new(&s);
                let v = self.konst(&mut p, ty);
                (ty, Some(v))
            }
        }
    }

    // ------------------------------------------------------------ function bodies
    pub fn body(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.bodies[id as usize] {
            return Some(f.clone());
        }
        let line = self.fns[id as usize].line?;
        let f = Rc::new(self.decode(id, line));
        self.bodies[id as usize] = Some(f.clone());
        Some(f)
    }
    fn decode(&mut self, id: u32, start: usize) -> Func {
        let mut names: HashMap<String, u32> = HashMap::new();
        let mut nregs = 0u32;
        let mut params = vec![];
        let head = self.line(start);
        let mut p = P::new(head);
        p.ident();
        let (_, fname) = self.fn_header(&mut p);
        p.expect(b'(');
        let mut unnamed = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    p.i += 3;
                    p.expect(b')');
                    break;
                }
                let t = self.ty(&mut p);
                while p.peek() != b'%' && p.peek() != b',' && p.peek() != b')' {
                    self.skip_attr(&mut p);
                }
                if p.eat(b'%') {
                    let n = p.name();
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    names.insert(n, nregs);
                } else {
                    names.insert(unnamed.to_string(), nregs);
                    unnamed += 1;
                }
                params.push((nregs, t));
                nregs += 1;
                if p.eat(b')') {
                    break;
                }
                p.expect(b',');
            }
        }
        // split into blocks
        let mut bnames: HashMap<String, u32> = HashMap::new();
        let mut blocks_src: Vec<Vec<String>> = vec![];
        let mut i = start + 1;
        loop {
            let l = self.line(i);
            i += 1;
            if l == "}" {
                break;
            }
            let b = l.as_bytes();
            if b.is_empty() || b[0] == b';' {
                continue;
            }
            if b[0] != b' ' {
                // label
                let mut p = P::new(l);
                let n = p.name();
                bnames.insert(n, blocks_src.len() as u32);
                blocks_src.push(vec![]);
                continue;
            }
            let t = l.trim_start();
            if t.starts_with(';') || t.starts_with("#dbg") {
                continue;
            }
            if blocks_src.is_empty() {
                bnames.insert(unnamed.to_string(), 0);
                blocks_src.push(vec![]);
            }
            let mut s = t.to_string();
            if t.starts_with("switch ") && !t.trim_end().ends_with(']') {
                loop {
                    let l2 = self.line(i).trim();
                    i += 1;
                    s.push(' ');
                    s.push_str(l2);
                    if l2.starts_with(']') {
                        break;
                    }
                }
            }
            if t.contains("landingpad ") && t.contains(" = landingpad ") {
                while {
                    let n = self.line(i).trim_start();
                    n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter")
                } {
                    i += 1;
                }
            }
            if (t.starts_with("invoke ") || t.contains(" = invoke ")) && !t.contains(" unwind label ") {
                s.push(' ');
                s.push_str(self.line(i).trim());
                i += 1;
            }
            blocks_src.last_mut().unwrap().push(s);
        }
        // register numbering
        for b in &blocks_src {
            for s in b {
                if s.starts_with('%') {
                    let mut p = P::new(s);
                    p.i = 1;
                    let n = p.name();
                    if p.eat(b'=') {
                        names.insert(n, nregs);
                        nregs += 1;
                    }
                }
            }
        }
        let mut blocks = vec![];
        for b in &blocks_src {
            let mut blk = Block { phis: vec![], ins: vec![], succs: vec![] };
            for s in b {
                self.inst(s, &names, &bnames, &mut blk);
            }
            match blk.ins.last() {
                Some(I::Br(x)) => blk.succs.push(*x),
                Some(I::CondBr { t, f, .. }) => {
                    blk.succs.push(*t);
                    blk.succs.push(*f);
                }
                Some(I::Switch { default, cases, .. }) => {
                    blk.succs.push(*default);
                    for c in cases {
                        blk.succs.push(c.1);
                    }
                }
                Some(I::Call { normal: Some(n), .. }) => blk.succs.push(*n),
                _ => {}
            }
            blk.succs.sort_unstable();
            blk.succs.dedup();
            blocks.push(blk);
        }
        let (ipdom, in_loop) = postdom(&blocks);
        let live_in = liveness(&blocks, nregs as usize);
        Func { id, nregs: nregs as usize, params, blocks, ipdom, live_in, in_loop, name: fname }
    }
    fn opnd(&mut self, p: &mut P, ty: TyId, names: &HashMap<String, u32>) -> Opnd {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Opnd::R(*names.get(&n).unwrap_or_else(|| panic!("unknown register %{n}")));
        }
        Opnd::K(self.konst(p, ty))
    }
    fn tv(&mut self, p: &mut P, names: &HashMap<String, u32>) -> (TyId, Opnd) {
        let t = self.ty(p);
        let o = self.opnd(p, t, names);
        (t, o)
    }
    fn label(&mut self, p: &mut P, bn: &HashMap<String, u32>) -> u32 {
        assert_eq!(p.ident(), "label");
        p.expect(b'%');
        let n = p.name();
        *bn.get(&n).unwrap_or_else(|| panic!("unknown block %{n}"))
    }
    fn inst(&mut self, s: &str, names: &HashMap<String, u32>, bn: &HashMap<String, u32>, blk: &mut Block) {
        let mut p = P::new(s);
        let mut d: Option<u32> = None;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            p.expect(b'=');
            d = Some(names[&n]);
        }
        let dd = d.unwrap_or(u32::MAX);
        let mut op = p.ident().to_string();
        while matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = p.ident().to_string();
        }
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
            | "ashr" => {
                while matches!(p.peek_ident(), "nuw" | "nsw" | "exact" | "disjoint") {
                    p.ident();
                }
                let ty = self.ty(&mut p);
                let a = self.opnd(&mut p, ty, names);
                p.expect(b',');
                let b = self.opnd(&mut p, ty, names);
                let bop = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                I::Bin { op: bop, ty, d: dd, a, b }
            }
            "icmp" => {
                let mut pr = p.ident();
                if pr == "samesign" {
                    pr = p.ident();
                }
                let pred = match pr {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => panic!("icmp {pr}"),
                };
                let ty = self.ty(&mut p);
                let a = self.opnd(&mut p, ty, names);
                p.expect(b',');
                let b = self.opnd(&mut p, ty, names);
                I::Icmp { p: pred, ty, d: dd, a, b }
            }
            "trunc" | "zext" | "sext" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "addrspacecast" => {
                while matches!(p.peek_ident(), "nuw" | "nsw" | "nneg") {
                    p.ident();
                }
                let (from, a) = self.tv(&mut p, names);
                assert_eq!(p.ident(), "to");
                let to = self.ty(&mut p);
                if op == "bitcast" {
                    I::Bitcast { from, to, d: dd, a }
                } else {
                    let c = match op.as_str() {
                        "trunc" => Cast::Trunc,
                        "zext" => Cast::ZExt,
                        "sext" => Cast::SExt,
                        _ => {
                            let (x, y) = (self.types.bits(from), self.types.bits(to));
                            if x > y {
                                Cast::Trunc
                            } else if x < y {
                                Cast::ZExt
                            } else {
                                Cast::Same
                            }
                        }
                    };
                    I::Cast { c, from, to, d: dd, a }
                }
            }
            "freeze" => {
                let (from, a) = self.tv(&mut p, names);
                I::Cast { c: Cast::Same, from, to: from, d: dd, a }
            }
            "load" => {
                while matches!(p.peek_ident(), "volatile" | "atomic") {
                    p.ident();
                }
                let ty = self.ty(&mut p);
                p.expect(b',');
                let (_, a) = self.tv(&mut p, names);
                I::Load { d: dd, ty, p: a }
            }
            "store" => {
                while matches!(p.peek_ident(), "volatile" | "atomic") {
                    p.ident();
                }
                let (ty, v) = self.tv(&mut p, names);
                p.expect(b',');
                let (_, a) = self.tv(&mut p, names);
                I::Store { ty, v, p: a }
            }
            "getelementptr" => {
                loop {
                    let k = p.peek_ident();
                    if matches!(k, "inbounds" | "nuw" | "nusw") {
                        p.ident();
                    } else if k == "inrange" {
                        p.ident();
                        p.parens();
                    } else {
                        break;
                    }
                }
                let t = self.ty(&mut p);
                p.expect(b',');
                let (_, base) = self.tv(&mut p, names);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                while p.peek() == b',' {
                    p.i += 1;
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, o) = self.tv(&mut p, names);
                    let scale;
                    if first {
                        scale = self.types.size[t as usize] as i64;
                        first = false;
                    } else if let Ty::Struct(..) = self.types.tys[cur as usize] {
                        if let Opnd::K(V::C(k)) = o {
                            off += self.types.offset(cur, k as usize) as i64;
                            cur = self.types.elem(cur, k as usize);
                            continue;
                        }
                        panic!("struct gep");
                    } else {
                        cur = self.types.elem(cur, 0);
                        scale = self.types.size[cur as usize] as i64;
                    }
                    match o {
                        Opnd::K(V::C(k)) => {
                            off = off.wrapping_add(
                                (crate::term::sx(k as u128, self.types.bits(it)) as i64).wrapping_mul(scale),
                            )
                        }
                        o => terms.push((o, scale, self.types.bits(it))),
                    }
                }
                I::Gep { d: dd, base, off, terms }
            }
            "alloca" => {
                let ty = self.ty(&mut p);
                let mut n = 1;
                if p.eat(b',') && self.at_type(&mut p) {
                    if let (_, Opnd::K(V::C(k))) = self.tv(&mut p, names) {
                        n = k;
                    } else {
                        panic!("dynamic alloca");
                    }
                }
                I::Alloca { d: dd, size: self.types.size[ty as usize] * n }
            }
            "select" => {
                let (cty, c) = self.tv(&mut p, names);
                p.expect(b',');
                let (ty, a) = self.tv(&mut p, names);
                p.expect(b',');
                let (_, b) = self.tv(&mut p, names);
                I::Select { ty, d: dd, c, cty, a, b }
            }
            "phi" => {
                let ty = self.ty(&mut p);
                let mut inc = vec![];
                loop {
                    p.expect(b'[');
                    let v = self.opnd(&mut p, ty, names);
                    p.expect(b',');
                    p.expect(b'%');
                    let n = p.name();
                    let b = *bn.get(&n).unwrap_or_else(|| panic!("phi block %{n}"));
                    p.expect(b']');
                    inc.push((b, v));
                    if p.peek() == b',' {
                        p.i += 1;
                        if p.peek() == b'[' {
                            continue;
                        }
                    }
                    break;
                }
                blk.phis.push((dd, inc));
                return;
            }
            "br" => {
                if p.peek_ident() == "label" {
                    I::Br(self.label(&mut p, bn))
                } else {
                    let (_, c) = self.tv(&mut p, names);
                    p.expect(b',');
                    let t = self.label(&mut p, bn);
                    p.expect(b',');
                    let f = self.label(&mut p, bn);
                    if t == f {
                        I::Br(t)
                    } else {
                        I::CondBr { c, t, f }
                    }
                }
            }
            "switch" => {
                let (ty, v) = self.tv(&mut p, names);
                p.expect(b',');
                let default = self.label(&mut p, bn);
                p.expect(b'[');
                let mut cases = vec![];
                while !p.eat(b']') {
                    let (_, k) = self.tv(&mut p, names);
                    p.expect(b',');
                    let l = self.label(&mut p, bn);
                    let k = match k {
                        Opnd::K(V::C(x)) => x as u128,
                        Opnd::K(V::W(x)) => *x,
                        _ => panic!("switch case"),
                    };
                    cases.push((k, l));
                }
                I::Switch { w: self.types.bits(ty), v, default, cases }
            }
            "ret" => {
                if p.peek_ident() == "void" {
                    I::Ret(None)
                } else {
                    let (_, v) = self.tv(&mut p, names);
                    I::Ret(Some(v))
                }
            }
            "unreachable" | "resume" => I::Unreachable,
            "landingpad" | "fence" => I::Nop,
            "extractvalue" => {
                let (_, a) = self.tv(&mut p, names);
                let mut idx = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.ident().parse().unwrap());
                }
                I::Extract { d: dd, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tv(&mut p, names);
                p.expect(b',');
                let (_, v) = self.tv(&mut p, names);
                let mut idx = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.ident().parse().unwrap());
                }
                I::Insert { d: dd, a, ty, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.tv(&mut p, names);
                p.expect(b',');
                let (_, i) = self.tv(&mut p, names);
                I::ExtractElem { d: dd, a, i }
            }
            "insertelement" => {
                let (_, a) = self.tv(&mut p, names);
                p.expect(b',');
                let (_, v) = self.tv(&mut p, names);
                p.expect(b',');
                let (_, i) = self.tv(&mut p, names);
                I::InsertElem { d: dd, a, v, i }
            }
            "shufflevector" => {
                let (_, a) = self.tv(&mut p, names);
                p.expect(b',');
                let (_, b) = self.tv(&mut p, names);
                p.expect(b',');
                let (mt, mask) = self.tv(&mut p, names);
                I::Shuffle { d: dd, a, b, mask, n: self.types.count(mt) as u64 }
            }
            "atomicrmw" => {
                if p.peek_ident() == "volatile" {
                    p.ident();
                }
                let o = p.ident().to_string();
                let (_, a) = self.tv(&mut p, names);
                p.expect(b',');
                let (ty, v) = self.tv(&mut p, names);
                I::Rmw { op: o, d: dd, ty, p: a, v }
            }
            "cmpxchg" => {
                while matches!(p.peek_ident(), "weak" | "volatile") {
                    p.ident();
                }
                let (_, a) = self.tv(&mut p, names);
                p.expect(b',');
                let (ty, cmp) = self.tv(&mut p, names);
                p.expect(b',');
                let (_, new) = self.tv(&mut p, names);
                I::CmpXchg { d: dd, ty, p: a, cmp, new }
            }
            "call" | "invoke" => {
                while !self.at_type(&mut p) {
                    self.skip_attr(&mut p);
                }
                let ret = self.ty(&mut p);
                // optional function type
                if p.peek() == b'(' {
                    p.parens();
                }
                let callee = match p.peek() {
                    b'@' => {
                        p.i += 1;
                        let n = p.name();
                        let n = self.aliases.get(&n).cloned().unwrap_or(n);
                        match self.fn_idx.get(&n) {
                            Some(f) => Callee::Fn(*f),
                            None => panic!("call of unknown @{n}"),
                        }
                    }
                    b'%' => {
                        p.i += 1;
                        let n = p.name();
                        Callee::Ind(Opnd::R(names[&n]))
                    }
                    _ => {
                        if p.peek_ident() == "asm" {
                            // skip to the argument list: asm [sideeffect ...] "..", ".."(
                            while p.peek() != b'(' {
                                if p.peek() == b'"' {
                                    p.i += 1;
                                    while p.s[p.i] != b'"' {
                                        p.i += 1;
                                    }
                                    p.i += 1;
                                } else if p.peek() == b',' {
                                    p.i += 1;
                                } else {
                                    p.ident();
                                }
                            }
                            Callee::Asm
                        } else {
                            let t = self.types.intern(Ty::Ptr);
                            let k = self.konst(&mut p, t);
                            Callee::Ind(Opnd::K(k))
                        }
                    }
                };
                p.expect(b'(');
                let mut args = vec![];
                let mut tys = vec![];
                if !p.eat(b')') {
                    loop {
                        let t = self.ty(&mut p);
                        // attributes
                        loop {
                            let c = p.peek();
                            if matches!(c, b'%' | b'@' | b'{' | b'[' | b'<' | b'!' | b'-') || c.is_ascii_digit() {
                                break;
                            }
                            let id = p.peek_ident();
                            if VALUE_KW.contains(&id) {
                                break;
                            }
                            self.skip_attr(&mut p);
                        }
                        let o = self.opnd(&mut p, t, names);
                        args.push(o);
                        tys.push(t);
                        if p.eat(b')') {
                            break;
                        }
                        p.expect(b',');
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    let r = &s[p.i..];
                    let k = r.find("to label ").expect("invoke label");
                    let mut q = P::new(r);
                    q.i = k + 3;
                    normal = Some(self.label(&mut q, bn));
                }
                I::Call { d, f: callee, args, tys, ret, normal }
            }
            _ => I::Unsupported(s.to_string()),
        };
        blk.ins.push(ins);
    }
}

pub const EXIT: u32 = u32::MAX;
pub const NONE: u32 = u32::MAX - 1;

/// Immediate post-dominators, ignoring blocks from which no return is reachable.
fn postdom(blocks: &[Block]) -> (Vec<u32>, Vec<bool>) {
    let n = blocks.len();
    let exit = n;
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in blocks.iter().enumerate() {
        for s in &b.succs {
            preds[*s as usize].push(i);
        }
        if let Some(I::Ret(_)) = b.ins.last() {
            preds[exit].push(i);
        }
    }
    // reverse postorder on the reverse graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((b, k)) = stack.pop() {
        if k < preds[b].len() {
            stack.push((b, k + 1));
            let q = preds[b][k];
            if !seen[q] {
                seen[q] = true;
                stack.push((q, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, b) in order.iter().enumerate() {
        num[*b] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &b in order.iter().skip(1) {
            let mut new = usize::MAX;
            let mut ss: Vec<usize> = blocks[b].succs.iter().map(|x| *x as usize).collect();
            if let Some(I::Ret(_)) = blocks[b].ins.last() {
                ss.push(exit);
            }
            for s in ss {
                if num[s] == usize::MAX || idom[s] == usize::MAX {
                    continue;
                }
                new = if new == usize::MAX {
                    s
                } else {
                    let (mut x, mut y) = (new, s);
                    while x != y {
                        while num[x] > num[y] {
                            x = idom[x];
                        }
                        while num[y] > num[x] {
                            y = idom[y];
                        }
                    }
                    x
                };
            }
            if new != idom[b] {
                idom[b] = new;
                changed = true;
            }
        }
    }
    let ip = (0..n)
        .map(|b| {
            if idom[b] == usize::MAX {
                NONE
            } else if idom[b] == exit {
                EXIT
            } else {
                idom[b] as u32
            }
        })
        .collect();
    // blocks on a cycle (simple reachability from successors; functions are small enough)
    let mut in_loop = vec![false; n];
    if n <= 400 {
        for b in 0..n {
            let mut seen = vec![false; n];
            let mut st: Vec<u32> = blocks[b].succs.clone();
            while let Some(x) = st.pop() {
                if x as usize == b {
                    in_loop[b] = true;
                    break;
                }
                if !seen[x as usize] {
                    seen[x as usize] = true;
                    st.extend(blocks[x as usize].succs.iter());
                }
            }
        }
    }
    (ip, in_loop)
}

fn uses(i: &I, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opnd| {
        if let Opnd::R(r) = x {
            f(*r)
        }
    };
    match i {
        I::Bin { a, b, .. } | I::Icmp { a, b, .. } => {
            o(a);
            o(b);
        }
        I::Cast { a, .. } | I::Bitcast { a, .. } => o(a),
        I::Load { p, .. } => o(p),
        I::Store { v, p, .. } => {
            o(v);
            o(p);
        }
        I::Gep { base, terms, .. } => {
            o(base);
            for t in terms {
                o(&t.0);
            }
        }
        I::Select { c, a, b, .. } => {
            o(c);
            o(a);
            o(b);
        }
        I::CondBr { c, .. } => o(c),
        I::Switch { v, .. } => o(v),
        I::Ret(Some(v)) => o(v),
        I::Call { f: cf, args, .. } => {
            if let Callee::Ind(x) = cf {
                o(x);
            }
            for a in args {
                o(a);
            }
        }
        I::Extract { a, .. } => o(a),
        I::Insert { a, v, .. } => {
            o(a);
            o(v);
        }
        I::ExtractElem { a, i, .. } => {
            o(a);
            o(i);
        }
        I::InsertElem { a, v, i, .. } => {
            o(a);
            o(v);
            o(i);
        }
        I::Shuffle { a, b, .. } => {
            o(a);
            o(b);
        }
        I::Rmw { p, v, .. } => {
            o(p);
            o(v);
        }
        I::CmpXchg { p, cmp, new, .. } => {
            o(p);
            o(cmp);
            o(new);
        }
        _ => {}
    }
}
pub fn def(i: &I) -> Option<u32> {
    match i {
        I::Bin { d, .. }
        | I::Icmp { d, .. }
        | I::Cast { d, .. }
        | I::Bitcast { d, .. }
        | I::Load { d, .. }
        | I::Gep { d, .. }
        | I::Alloca { d, .. }
        | I::Select { d, .. }
        | I::Extract { d, .. }
        | I::Insert { d, .. }
        | I::ExtractElem { d, .. }
        | I::InsertElem { d, .. }
        | I::Shuffle { d, .. }
        | I::Rmw { d, .. }
        | I::CmpXchg { d, .. } => Some(*d),
        I::Call { d, .. } => *d,
        _ => None,
    }
}

/// Registers live at the start of each block, after its phis have been evaluated.
fn liveness(blocks: &[Block], nregs: usize) -> Vec<Rc<Vec<u64>>> {
    let nw = (nregs + 63) / 64;
    let n = blocks.len();
    let mut gen = vec![vec![0u64; nw]; n];
    let mut kill = vec![vec![0u64; nw]; n];
    for (b, blk) in blocks.iter().enumerate() {
        for i in &blk.ins {
            let (g, k) = (&mut gen[b], &kill[b]);
            uses(i, &mut |r| {
                let (w, m) = (r as usize / 64, 1u64 << (r % 64));
                if k[w] & m == 0 {
                    g[w] |= m;
                }
            });
            if let Some(d) = def(i) {
                kill[b][d as usize / 64] |= 1 << (d % 64);
            }
        }
    }
    // live at block start after phis
    let mut live = gen.clone();
    let mut changed = true;
    while changed {
        changed = false;
        for b in (0..n).rev() {
            let mut out = vec![0u64; nw];
            for s in &blocks[b].succs {
                let s = *s as usize;
                let mut l = live[s].clone();
                for (d, inc) in &blocks[s].phis {
                    l[*d as usize / 64] &= !(1 << (*d % 64));
                    let _ = inc;
                }
                for (_, inc) in &blocks[s].phis {
                    for (p, o) in inc {
                        if *p as usize == b {
                            if let Opnd::R(r) = o {
                                l[*r as usize / 64] |= 1 << (*r % 64);
                            }
                        }
                    }
                }
                for w in 0..nw {
                    out[w] |= l[w];
                }
            }
            for w in 0..nw {
                let v = gen[b][w] | (out[w] & !kill[b][w]);
                if v != live[b][w] {
                    live[b][w] = v;
                    changed = true;
                }
            }
        }
    }
    live.into_iter().map(Rc::new).collect()
}
