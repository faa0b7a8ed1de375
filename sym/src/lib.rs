//! Harness-side interface to the symbolic executor.  The `__sym_*` functions are intercepted by
//! the executor; with feature `native` they are provided by the replay runtime (native.rs).
#[cfg(feature = "native")]
pub mod native;

extern "C" {
    fn __sym_var(name: *const u8, len: usize, bits: u32) -> u64;
    fn __sym_range(name: *const u8, len: usize, lo: u64, hi: u64) -> u64;
    fn __sym_merge(on: u8);
    fn __sym_ite(c: u8, a: u64, b: u64) -> u64;
    fn __sym_assume(c: u8);
    fn __sym_check(c: u8, msg: *const u8, len: usize);
    fn __sym_cover(msg: *const u8, len: usize);
    fn __sym_allow_panic(on: u8);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_observe(v: u64);
    fn __sym_same(a: *const u8, b: *const u8, len: usize) -> u8;
    fn __sym_free_uf(tag: *const u8, len: usize, on: u8);
    fn __sym_uf(tag: *const u8, tag_len: usize, data: *const u8, len: usize, out: *mut u8, out_len: usize);
    fn __sym_sha256(data: *const u8, len: usize, out: *mut u8);
    fn __sym_isqrt(v: u64) -> u64;
    fn __sym_depth() -> u64;
}

pub fn any_u64(name: &str) -> u64 {
    unsafe { __sym_var(name.as_ptr(), name.len(), 64) }
}
pub fn any_u32(name: &str) -> u32 {
    unsafe { __sym_var(name.as_ptr(), name.len(), 32) as u32 }
}
pub fn any_u16(name: &str) -> u16 {
    unsafe { __sym_var(name.as_ptr(), name.len(), 16) as u16 }
}
pub fn any_u8(name: &str) -> u8 {
    unsafe { __sym_var(name.as_ptr(), name.len(), 8) as u8 }
}
pub fn any_usize(name: &str) -> usize {
    any_u64(name) as usize
}
pub fn any_bool(name: &str) -> bool {
    unsafe { __sym_var(name.as_ptr(), name.len(), 1) != 0 }
}
/// An arbitrary value in `lo..=hi`.
pub fn range(name: &str, lo: u64, hi: u64) -> u64 {
    unsafe { __sym_range(name.as_ptr(), name.len(), lo, hi) }
}
/// Joining of paths at control-flow merge points (on by default).
pub fn merge(on: bool) {
    unsafe { __sym_merge(on as u8) }
}
/// `if c { a } else { b }` without splitting the path.
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { __sym_ite(c as u8, a, b) }
}
/// An arbitrary value in `lo..=hi`, one path per value.
pub fn pick(name: &str, lo: u64, hi: u64) -> u64 {
    concretize(range(name, lo, hi))
}
pub fn pick_bool(name: &str) -> bool {
    pick(name, 0, 1) == 1
}
pub fn any_bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut o = [0u8; N];
    let mut i = 0;
    while i < N {
        if i + 8 <= N {
            o[i..i + 8].copy_from_slice(&any_u64(name).to_le_bytes());
            i += 8;
        } else {
            o[i] = any_u8(name);
            i += 1;
        }
    }
    o
}
pub fn any_vec(name: &str, n: usize) -> Vec<u8> {
    (0..n).map(|_| any_u8(name)).collect()
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c as u8) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { __sym_check(c as u8, msg.as_ptr(), msg.len()) }
}
pub fn cover(msg: &str) {
    unsafe { __sym_cover(msg.as_ptr(), msg.len()) }
}
pub fn allow_panic(on: bool) {
    unsafe { __sym_allow_panic(on as u8) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { __sym_concretize(v) }
}
pub fn observe(v: u64) {
    unsafe { __sym_observe(v) }
}
/// Treat the named uninterpreted function as unconstrained even on concrete arguments.
/// Whether two byte strings are the same terms (not only equal for these inputs).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { __sym_same(a.as_ptr(), b.as_ptr(), a.len()) } != 0
}
pub fn free_uf(tag: &str, on: bool) {
    unsafe { __sym_free_uf(tag.as_ptr(), tag.len(), on as u8) }
}
pub fn uf<const N: usize>(tag: &str, data: &[u8]) -> [u8; N] {
    let mut out = [0u8; N];
    unsafe { __sym_uf(tag.as_ptr(), tag.len(), data.as_ptr(), data.len(), out.as_mut_ptr(), N) };
    out
}
pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut out = [0u8; 32];
    unsafe { __sym_sha256(data.as_ptr(), data.len(), out.as_mut_ptr()) };
    out
}
pub fn isqrt(v: u64) -> u64 {
    unsafe { __sym_isqrt(v) }
}
/// 0 for the quick tier, 1 for the thorough tier.
pub fn thorough() -> bool {
    unsafe { __sym_depth() != 0 }
}
/// Equality without branching on each byte.
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut acc = 0u8;
    for i in 0..a.len() {
        acc |= a[i] ^ b[i];
    }
    acc == 0
}

/// The entry point of native replays for entries written as plain functions.
#[macro_export]
macro_rules! main {
    ($($name:ident = $f:path),* $(,)?) => {
        #[cfg(feature = "native")]
        #[no_mangle]
        pub extern "C" fn main(_argc: i32, _argv: *const *const u8) -> i32 {
            $crate::native::run(&[$((stringify!($name), $f as extern "C" fn())),*])
        }
    };
}
#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $name() $body)*
        #[cfg(feature = "native")]
        #[no_mangle]
        pub extern "C" fn main(_argc: i32, _argv: *const *const u8) -> i32 {
            $crate::native::run(&[$((stringify!($name), $name as extern "C" fn())),*])
        }
    };
}
