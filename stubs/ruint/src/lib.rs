//! Stand-in for `ruint`: fixed-width integers; the remainder is an uninterpreted function.
use core::cmp::Ordering;
extern "C" {
    fn __sym_assume(c: u8);
    fn __sym_var(name: *const u8, len: usize, bits: u32) -> u64;
    fn __sym_same(a: *const u8, b: *const u8, len: usize) -> u8;
    fn __sym_uf(tag: *const u8, tag_len: usize, data: *const u8, len: usize, out: *mut u8, out_len: usize);
}
/// Limbs from the least to the most significant.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Uint<const BITS: usize, const LIMBS: usize>(pub [u64; LIMBS]);
impl<const B: usize, const L: usize> Default for Uint<B, L> {
    fn default() -> Self {
        Self::ZERO
    }
}
impl<const B: usize, const L: usize> Uint<B, L> {
    pub const ZERO: Self = Self([0; L]);
    pub const fn parse(s: &str) -> Self {
        let s = s.as_bytes();
        let mut v = [0u64; L];
        let mut i = 0;
        // the digits end where the suffix `_U…` begins
        while i < s.len() && s[i] != b'U' {
            if s[i] != b'_' {
                let mut carry = (s[i] - b'0') as u128;
                let mut k = 0;
                while k < L {
                    carry += (v[k] as u128) * 10;
                    v[k] = carry as u64;
                    carry >>= 64;
                    k += 1;
                }
            }
            i += 1;
        }
        Self(v)
    }
    pub const ONE: Self = {
        let mut v = [0; L];
        v[0] = 1;
        Self(v)
    };
    pub fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    pub fn to_be_bytes<const N: usize>(&self) -> [u8; N] {
        let mut o = [0; N];
        for i in 0..L {
            o[N - 8 * (i + 1)..N - 8 * i].copy_from_slice(&self.0[i].to_be_bytes());
        }
        o
    }
    pub fn from_be_bytes<const N: usize>(b: [u8; N]) -> Self {
        Self::from_be_slice(&b)
    }
    pub fn from_be_slice(b: &[u8]) -> Self {
        let mut v = [0u64; L];
        assert!(b.len() == 8 * L, "widths agree");
        for i in 0..L {
            let mut w = [0u8; 8];
            w.copy_from_slice(&b[b.len() - 8 * (i + 1)..b.len() - 8 * i]);
            v[i] = u64::from_be_bytes(w);
        }
        Self(v)
    }
}
impl From<Uint<256, 4>> for Uint<384, 6> {
    fn from(v: Uint<256, 4>) -> Self {
        Self([v.0[0], v.0[1], v.0[2], v.0[3], 0, 0])
    }
}
impl<const B: usize, const L: usize> PartialOrd for Uint<B, L> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &Self) -> bool {
        let mut less = false;
        for i in 0..L {
            less = (self.0[i] < o.0[i]) | ((self.0[i] == o.0[i]) & less);
        }
        less
    }
}
impl<const B: usize, const L: usize> Ord for Uint<B, L> {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.lt(o) {
            Ordering::Less
        } else if o.lt(self) {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }
}
impl<const B: usize, const L: usize> core::ops::Rem for Uint<B, L> {
    type Output = Self;
    fn rem(self, m: Self) -> Self {
        let mut d = [0u8; 96];
        for i in 0..L {
            d[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes());
            d[48 + 8 * i..56 + 8 * i].copy_from_slice(&m.0[i].to_le_bytes());
        }
        let mut v = [0u64; L];
        for (i, w) in remainder(&d).chunks(8).enumerate() {
            v[i] = u64::from_le_bytes(w.try_into().unwrap());
        }
        Self(v)
    }
}
impl<const B: usize, const L: usize> core::ops::RemAssign for Uint<B, L> {
    fn rem_assign(&mut self, m: Self) {
        *self = *self % m;
    }
}
/// When set (by a harness) the remainder of each number is any number less than the modulus but
/// not zero (the same one for the same number).
pub static ANY: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);
static SEEN: std::sync::Mutex<Vec<([u8; 96], [u8; 32])>> = std::sync::Mutex::new(Vec::new());
/// Both numbers and the result have their least significant byte first.
pub fn remainder(d: &[u8; 96]) -> [u8; 32] {
    let mut o = [0u8; 32];
    if !ANY.load(core::sync::atomic::Ordering::Relaxed) {
        unsafe { __sym_uf(b"mod".as_ptr(), 3, d.as_ptr(), 96, o.as_mut_ptr(), 32) };
        return o;
    }
    let mut seen = SEEN.lock().unwrap();
    for (e, r) in seen.iter() {
        if unsafe { __sym_same(e.as_ptr(), d.as_ptr(), 96) } != 0 {
            return *r;
        }
    }
    let mut zero = 0;
    for b in o.iter_mut() {
        *b = unsafe { __sym_var(b"remainder".as_ptr(), 9, 8) as u8 };
        zero |= *b;
    }
    let w = |b: &[u8], i: usize| {
        let mut w = [0; 8];
        w.copy_from_slice(&b[8 * i..8 * i + 8]);
        u64::from_le_bytes(w)
    };
    let mut less = false;
    for i in 0..4 {
        let (a, m) = (w(&o, i), w(&d[48..], i));
        less = (a < m) | ((a == m) & less);
    }
    unsafe { __sym_assume((less & (zero != 0)) as u8) };
    seen.push((*d, o));
    o
}
pub mod aliases {
    pub type U256 = super::Uint<256, 4>;
    pub type U384 = super::Uint<384, 6>;
}
#[macro_export]
macro_rules! uint {
    ($l:tt) => {
        $crate::aliases::U256::parse(stringify!($l))
    };
}
