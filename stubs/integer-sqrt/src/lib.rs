//! Stand-in for `integer-sqrt`: floor of the square root, computed by the runtime
//! (exact on concrete values, an axiomatised function on symbolic ones).
extern "C" {
    fn __sym_isqrt(v: u64) -> u64;
}
pub trait IntegerSquareRoot: Sized {
    fn integer_sqrt(&self) -> Self;
    fn integer_sqrt_checked(&self) -> Option<Self> {
        Some(self.integer_sqrt())
    }
}
impl IntegerSquareRoot for u64 {
    fn integer_sqrt(&self) -> u64 {
        unsafe { __sym_isqrt(*self) }
    }
}
impl IntegerSquareRoot for usize {
    fn integer_sqrt(&self) -> usize {
        unsafe { __sym_isqrt(*self as u64) as usize }
    }
}
