//! Types of the consensus specification as data, with their SSZ encoding, hash tree root and JSON form
//! written down independently of the containers of the crate.
use crate::refs::*;

#[derive(Clone)]
pub enum T {
    Bool,
    U8,
    U64,
    U256,
    Bytes(usize),
    Bits(usize),
    Bitlist(usize),
    ByteList(usize),
    Vector(Box<T>, usize),
    List(Box<T>, usize),
    C(Vec<(&'static str, T)>),
}
#[derive(Clone)]
pub enum V {
    /// the SSZ encoding of anything that is not made of further values
    Leaf(Vec<u8>),
    Seq(Vec<V>),
}
pub use T::*;
pub fn root() -> T {
    Bytes(32)
}
pub fn list(t: T, n: usize) -> T {
    List(Box::new(t), n)
}
pub fn vector(t: T, n: usize) -> T {
    Vector(Box::new(t), n)
}

/// How values are made up: how long lists are, which bytes are symbolic.
pub struct Gen {
    pub len: usize,
    pub symbolic: bool,
    /// numbers stay below ten (their decimal form has one digit)
    pub small: bool,
    /// a list of this many elements more than its limit, for the list reached when the counter is zero
    pub over: Option<usize>,
    n: u8,
    nested: bool,
}
impl Gen {
    pub fn new(len: usize, symbolic: bool, small: bool) -> Self {
        Gen { len, symbolic, small, over: None, n: 0, nested: false }
    }
    fn byte(&mut self) -> u8 {
        self.n = self.n.wrapping_mul(5).wrapping_add(89);
        self.n
    }
    fn leaf(&mut self, n: usize) -> Vec<u8> {
        let mut b: Vec<u8> = (0..n).map(|_| self.byte()).collect();
        if self.symbolic {
            b[0] = sym::any_u8("byte");
            b[n - 1] = sym::any_u8("byte");
        }
        b
    }
    pub fn value(&mut self, t: &T) -> V {
        V::Leaf(match t {
            Bool => vec![if self.symbolic { sym::any_bool("flag") as u8 } else { self.byte() & 1 }],
            U8 => {
                let b = if self.symbolic { sym::any_u8("number") } else { self.byte() };
                if self.small {
                    let b = if self.symbolic { sym::range("digit", 0, 9) as u8 } else { b % 10 };
                    vec![b]
                } else {
                    vec![b]
                }
            }
            U64 => {
                if self.small {
                    let v = if self.symbolic { sym::range("digit", 0, 9) } else { (self.byte() % 10) as u64 };
                    v.to_le_bytes().to_vec()
                } else {
                    self.leaf(8)
                }
            }
            U256 => {
                if self.small {
                    let mut v = vec![0u8; 32];
                    v[0] = self.byte() % 10;
                    v
                } else {
                    self.leaf(32)
                }
            }
            Bytes(n) => self.leaf(*n),
            Bits(n) => {
                let mut b = self.leaf((n + 7) / 8);
                if n % 8 != 0 {
                    let last = b.len() - 1;
                    b[last] &= (1 << (n % 8)) - 1;
                }
                b
            }
            Bitlist(limit) => {
                let n = self.some(*limit, [0, 5, 9]);
                let mut b = self.leaf(n / 8 + 1);
                b[n / 8] = (b[n / 8] & ((1 << (n % 8)) - 1)) | (1 << (n % 8));
                b
            }
            ByteList(limit) => {
                let n = self.some(*limit, [0, 1, 3]);
                if n == 0 {
                    vec![]
                } else {
                    self.leaf(n)
                }
            }
            Vector(t, n) => return V::Seq(self.many(t, *n)),
            List(t, limit) => {
                let n = self.some(*limit, [0, 1, 2]);
                return V::Seq(self.many(t, n));
            }
            C(fields) => return V::Seq(fields.iter().map(|(_, t)| self.value(t)).collect()),
        })
    }
    /// The length of a list: one of three, or more than the limit.
    fn some(&mut self, limit: usize, of: [usize; 3]) -> usize {
        if let Some(k) = self.over {
            if k == 0 {
                self.over = None;
                return limit + 1;
            }
            self.over = Some(k - 1);
        }
        of[self.len].min(limit)
    }
    fn many(&mut self, t: &T, n: usize) -> Vec<V> {
        let (symbolic, nested) = (self.symbolic, self.nested);
        self.nested = true;
        let r = (0..n)
            .map(|i| {
                self.symbolic = symbolic & (i == 0 || i + 1 == n);
                self.value(t)
            })
            .collect();
        self.symbolic = symbolic;
        self.nested = nested;
        r
    }
}

/// How many lists (of any kind, with a limit of at most `max`) there are at the top level and in nested
/// containers outside of lists; their limits in order. Others count as `None`.
pub fn limits(t: &T, out: &mut Vec<usize>) {
    match t {
        Bitlist(n) | ByteList(n) | List(_, n) => out.push(*n),
        C(f) => f.iter().for_each(|(_, t)| limits(t, out)),
        _ => {}
    }
}

pub fn fixed_size(t: &T) -> Option<usize> {
    match t {
        Bool | U8 => Some(1),
        U64 => Some(8),
        U256 => Some(32),
        Bytes(n) => Some(*n),
        Bits(n) => Some((n + 7) / 8),
        Bitlist(_) | ByteList(_) | List(..) => None,
        Vector(t, n) => fixed_size(t).map(|s| s * n),
        C(f) => f.iter().map(|(_, t)| fixed_size(t)).sum(),
    }
}
fn put(parts: &[(bool, Vec<u8>)]) -> Vec<u8> {
    let mut at: usize = parts.iter().map(|(fixed, b)| if *fixed { b.len() } else { 4 }).sum();
    let mut out = vec![];
    for (fixed, b) in parts {
        if *fixed {
            out.extend_from_slice(b);
        } else {
            out.extend_from_slice(&(at as u32).to_le_bytes());
            at += b.len();
        }
    }
    for (fixed, b) in parts {
        if !fixed {
            out.extend_from_slice(b);
        }
    }
    out
}
pub fn ssz(t: &T, v: &V) -> Vec<u8> {
    match (t, v) {
        (_, V::Leaf(b)) => b.clone(),
        (Vector(t, _), V::Seq(s)) | (List(t, _), V::Seq(s)) => {
            let fixed = fixed_size(t).is_some();
            let parts: Vec<_> = s.iter().map(|v| (fixed, ssz(t, v))).collect();
            put(&parts)
        }
        (C(f), V::Seq(s)) => {
            let parts: Vec<_> =
                f.iter().zip(s).map(|((_, t), v)| (fixed_size(t).is_some(), ssz(t, v))).collect();
            put(&parts)
        }
        _ => unreachable!(),
    }
}
fn depth_for(chunks: usize) -> usize {
    let mut d = 0;
    while (1usize << d) < chunks {
        d += 1;
    }
    d
}
fn chunks_of(b: &[u8]) -> Vec<[u8; 32]> {
    b.chunks(32).map(chunk).collect()
}
pub fn htr(t: &T, v: &V) -> [u8; 32] {
    match (t, v) {
        (Bool | U8 | U64 | U256, V::Leaf(b)) => chunk(b),
        (Bytes(n), V::Leaf(b)) => merkle(&chunks_of(b), depth_for((n + 31) / 32)),
        (Bits(n), V::Leaf(b)) => merkle(&chunks_of(b), depth_for((n + 255) / 256)),
        (Bitlist(n), V::Leaf(b)) => {
            // the delimiter is not part of the data
            let last = *b.last().unwrap();
            let mut bits = b.clone();
            let mut top = 0;
            for i in 0..8 {
                if sym::concretize((last >> i != 0) as u64) == 1 {
                    top = i;
                }
            }
            let len = 8 * (b.len() - 1) + top;
            *bits.last_mut().unwrap() &= (1 << top) - 1;
            if top == 0 {
                bits.pop();
            }
            pair(&merkle(&chunks_of(&bits), depth_for((n + 255) / 256)), &num(len as u64))
        }
        (ByteList(n), V::Leaf(b)) => pair(&merkle(&chunks_of(b), depth_for((n + 31) / 32)), &num(b.len() as u64)),
        (Vector(t, n), V::Seq(s)) => merkle(&elements(t, s), depth_for(chunk_count(t, *n))),
        (List(t, n), V::Seq(s)) => pair(&merkle(&elements(t, s), depth_for(chunk_count(t, *n))), &num(s.len() as u64)),
        (C(f), V::Seq(s)) => {
            let roots: Vec<_> = f.iter().zip(s).map(|((_, t), v)| htr(t, v)).collect();
            merkle(&roots, depth_for(roots.len()))
        }
        _ => unreachable!(),
    }
}
fn is_basic(t: &T) -> bool {
    matches!(t, Bool | U8 | U64 | U256)
}
fn chunk_count(t: &T, n: usize) -> usize {
    if is_basic(t) {
        (n * fixed_size(t).unwrap() + 31) / 32
    } else {
        n
    }
}
fn elements(t: &T, s: &[V]) -> Vec<[u8; 32]> {
    if is_basic(t) {
        let mut b = vec![];
        for v in s {
            b.extend(ssz(t, v));
        }
        chunks_of(&b)
    } else {
        s.iter().map(|v| htr(t, v)).collect()
    }
}
fn hex_digit(n: u8) -> u8 {
    sym::ite(n < 10, (b'0' + n) as u64, (b'a'.wrapping_add(n).wrapping_sub(10)) as u64) as u8
}
/// The JSON form of the standard API: quoted decimal numbers, 0x-prefixed bytes.
pub fn json(t: &T, v: &V, out: &mut Vec<u8>) {
    match (t, v) {
        (Bool, V::Leaf(b)) => {
            if b[0] == 1 {
                out.extend_from_slice(b"true")
            } else {
                out.extend_from_slice(b"false")
            }
        }
        // the numbers made up for JSON have one digit
        (U8 | U64 | U256, V::Leaf(b)) => out.extend_from_slice(&[b'"', b'0' + b[0], b'"']),
        (_, V::Leaf(b)) => {
            out.extend_from_slice(b"\"0x");
            for x in b {
                out.push(hex_digit(x >> 4));
                out.push(hex_digit(x & 15));
            }
            out.push(b'"');
        }
        (Vector(t, _), V::Seq(s)) | (List(t, _), V::Seq(s)) => {
            out.push(b'[');
            for (i, v) in s.iter().enumerate() {
                if i > 0 {
                    out.push(b',');
                }
                json(t, v, out);
            }
            out.push(b']');
        }
        (C(f), V::Seq(s)) => {
            out.push(b'{');
            for (i, ((n, t), v)) in f.iter().zip(s).enumerate() {
                if i > 0 {
                    out.push(b',');
                }
                out.push(b'"');
                out.extend_from_slice(n.as_bytes());
                out.extend_from_slice(b"\":");
                json(t, v, out);
            }
            out.push(b'}');
        }
        _ => unreachable!(),
    }
}

/// Does the container `X` have the shape `t`? `len`: how long its lists are.
pub fn same_ssz<X: ssz_rs::prelude::SimpleSerialize>(t: &T) {
    let mut g = Gen::new(sym::pick("lists", 0, 2) as usize, true, false);
    let v = g.value(t);
    let b = ssz(t, &v);
    let x = X::deserialize(&b);
    sym::check(x.is_ok(), "the encoding of the specification is read");
    let mut x = match x {
        Ok(x) => x,
        Err(_) => return,
    };
    let mut out = vec![];
    sym::check(x.serialize(&mut out).is_ok(), "what was read can be written");
    sym::check(sym::eq_bytes(&out, &b), "what is written is the encoding of the specification");
    let r = root_of(&mut x);
    sym::check(sym::eq_bytes(&r, &htr(t, &v)), "the hash tree root of the specification");
    sym::cover("encoded");
    // a fixed size is exact
    if let Some(n) = fixed_size(t) {
        sym::check(X::deserialize(&b[..n - 1]).is_err(), "a byte is missing");
        let mut more = b.clone();
        more.push(0);
        sym::check(X::deserialize(&more).is_err(), "a byte too many");
    }
}
fn root_of<X: ssz_rs::prelude::SimpleSerialize>(x: &mut X) -> [u8; 32] {
    let r = x.hash_tree_root();
    sym::check(r.is_ok(), "a value has a root");
    chunk(r.unwrap().as_ref())
}
/// A list over its limit is not read, one at its limit is, for every limit up to `max`.
pub fn same_limits<X: ssz_rs::prelude::SimpleSerialize>(t: &T, max: usize) {
    let mut ls = vec![];
    limits(t, &mut ls);
    if ls.is_empty() {
        return;
    }
    let k = sym::pick("which list", 0, ls.len() as u64 - 1) as usize;
    if ls[k] > max {
        return;
    }
    let mut g = Gen::new(0, false, false);
    g.over = Some(k);
    let b = ssz(t, &g.value(t));
    sym::check(X::deserialize(&b).is_err(), "a list over its limit is refused");
    sym::cover("limit");
}
pub fn same_json<X: ssz_rs::prelude::SimpleSerialize + serde::Serialize + serde::de::DeserializeOwned>(t: &T) {
    let len = sym::pick("lists", 0, 2) as usize;
    let read = sym::pick_bool("read");
    let mut g = Gen::new(len, !read, true);
    let v = g.value(t);
    let b = ssz(t, &v);
    let x = <X as ssz_rs::prelude::Deserialize>::deserialize(&b).unwrap();
    let mut want = vec![];
    json(t, &v, &mut want);
    if read {
        let y = serde_json::from_slice::<X>(&want);
        sym::check(y.is_ok(), "the JSON of the standard API is read");
        if let Ok(y) = y {
            let mut out = vec![];
            ssz_rs::prelude::Serialize::serialize(&y, &mut out).unwrap();
            sym::check(sym::eq_bytes(&out, &b), "every field is read from its own name");
            sym::cover("read");
        }
    } else {
        let s = serde_json::to_vec(&x).unwrap();
        sym::check(sym::eq_bytes(&s, &want), "the JSON of the standard API is written");
        sym::cover("written");
    }
}

/// One entry per list: every container against its type, its limits and its JSON.
/// `big`: a container too large for everything to be tried.
#[macro_export]
macro_rules! shapes {
    ($name:ident, $max:expr, $large:expr; $($t:ty = $e:expr),* $(,)?) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            use $crate::shapes::*;
            let mut n = 0;
            let mut i = 0;
            $( let _ = stringify!($t); n += 1; )*
            let k = sym::pick("container", 0, n - 1);
            let what = sym::pick("what", 0, 2);
            $( if i == k {
                let t = $e;
                let size = fixed_size(&t).unwrap_or(0).max(least_size(&t));
                match what {
                    0 => same_ssz::<$t>(&t),
                    1 => {
                        if size <= $large {
                            same_json::<$t>(&t)
                        }
                    }
                    _ => same_limits::<$t>(&t, $max),
                }
            }
            i += 1; )*
            let _ = i;
        }
    };
}
/// The size of the encoding when every list is empty.
pub fn least_size(t: &T) -> usize {
    match t {
        Bitlist(_) => 1,
        ByteList(_) | List(..) => 0,
        Vector(t, n) => n * least_size(t),
        C(f) => f.iter().map(|(_, t)| least_size(t) + if fixed_size(t).is_none() { 4 } else { 0 }).sum(),
        t => fixed_size(t).unwrap(),
    }
}

/// The value every container starts from.
pub fn zero(t: &T) -> V {
    V::Leaf(match t {
        Bool | U8 => vec![0],
        U64 => vec![0; 8],
        U256 => vec![0; 32],
        Bytes(n) => vec![0; *n],
        Bits(n) => vec![0; (n + 7) / 8],
        Bitlist(_) => vec![1],
        ByteList(_) => vec![],
        List(..) => return V::Seq(vec![]),
        Vector(t, n) => return V::Seq((0..*n).map(|_| zero(t)).collect()),
        C(f) => return V::Seq(f.iter().map(|(_, t)| zero(t)).collect()),
    })
}
/// The shape of a field of a container.
pub fn field(t: &T, name: &str) -> T {
    match t {
        C(f) => {
            for (n, t) in f {
                if *n == name {
                    return t.clone();
                }
            }
            unreachable!()
        }
        _ => unreachable!(),
    }
}
/// A vector has its length, a list its limit (as far as its root shows it), and the elements their shape.
pub fn same_vector<X: ssz_rs::prelude::SimpleSerialize>(len: usize, first: &mut X, t: &T) {
    match t {
        Vector(e, n) => {
            sym::check(len == *n, "the length of a vector");
            let r = root_of(first);
            sym::check(r == htr(e, &zero(e)), "the elements of a vector");
        }
        _ => unreachable!(),
    }
}
pub fn same_list<X: ssz_rs::prelude::SimpleSerialize>(empty: &mut X, one: &mut X, t: &T) {
    match t {
        List(e, _) => {
            let r = root_of(empty);
            sym::check(r == htr(t, &V::Seq(vec![])), "the root of an empty list");
            let r = root_of(one);
            sym::check(r == htr(t, &V::Seq(vec![zero(e)])), "the root of a list with one element");
        }
        _ => unreachable!(),
    }
}
pub fn same_zero<X: ssz_rs::prelude::SimpleSerialize>(x: &mut X, t: &T) {
    let r = root_of(x);
    sym::check(r == htr(t, &zero(t)), "the root of an empty container");
}
/// The fields of a state against the shape of the specification, one by one.
#[macro_export]
macro_rules! state_fields {
    ($s:ty, $t:expr; $($v:ident)*; $($l:ident)*; $($c:ident)*) => {
        let t = $t;
        let mut s = <$s>::default();
        $( {
            let n = s.$v.len();
            $crate::shapes::same_vector(n, &mut s.$v[0], &$crate::shapes::field(&t, stringify!($v)));
        } )*
        $( {
            let mut one = s.$l.clone();
            one.push(Default::default());
            $crate::shapes::same_list(&mut s.$l, &mut one, &$crate::shapes::field(&t, stringify!($l)));
        } )*
        $( $crate::shapes::same_zero(&mut s.$c, &$crate::shapes::field(&t, stringify!($c))); )*
        sym::cover("state");
    };
}
