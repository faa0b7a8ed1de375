//! Stand-in for `rand_core`: the system's randomness is symbolic (or a running number), and what
//! was given is recorded.
use core::sync::atomic::{AtomicU64, AtomicU8, Ordering};
use std::sync::Mutex;
extern "C" {
    fn __sym_var(name: *const u8, name_len: usize, bits: u32) -> u64;
}
/// Which calls, as counted in `GIVEN`, are answered symbolically: one bit each.
pub static SYMBOLIC: AtomicU64 = AtomicU64::new(0);
/// How many bytes of such a call are.
pub static BYTES: AtomicU64 = AtomicU64::new(u64::MAX);
static NEXT: AtomicU8 = AtomicU8::new(1);
pub static GIVEN: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());

#[derive(Debug, Clone)]
pub struct Error;
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("no randomness")
    }
}
impl std::error::Error for Error {}

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>;
}
pub trait CryptoRng {}
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        (**self).fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        (**self).try_fill_bytes(dest)
    }
}
impl<R: CryptoRng + ?Sized> CryptoRng for &mut R {}

#[derive(Clone, Copy, Debug, Default)]
pub struct OsRng;
impl CryptoRng for OsRng {}
impl RngCore for OsRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let mut given = GIVEN.lock().unwrap();
        let symbolic = given.len() < 64 && SYMBOLIC.load(Ordering::Relaxed) >> given.len() & 1 != 0;
        for (i, d) in dest.iter_mut().enumerate() {
            *d = if symbolic && (i as u64) < BYTES.load(Ordering::Relaxed) {
                unsafe { __sym_var(b"random".as_ptr(), 6, 8) as u8 }
            } else {
                NEXT.fetch_add(1, Ordering::Relaxed)
            };
        }
        given.push(dest.to_vec());
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
