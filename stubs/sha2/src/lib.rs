//! Stand-in for `sha2`: buffers the input and asks the runtime for the digest
//! (`__sym_sha256`: an uninterpreted function in the symbolic executor, the real SHA-256 on
//! concrete inputs and in native replay).
extern "C" {
    fn __sym_sha256(data: *const u8, len: usize, out: *mut u8);
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
#[repr(transparent)]
pub struct Output([u8; 32]);
impl core::ops::Deref for Output {
    type Target = [u8; 32];
    fn deref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl core::ops::DerefMut for Output {
    fn deref_mut(&mut self) -> &mut [u8; 32] {
        &mut self.0
    }
}
impl AsRef<[u8]> for Output {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<'a> From<&'a mut [u8]> for &'a mut Output {
    fn from(s: &'a mut [u8]) -> Self {
        assert_eq!(s.len(), 32);
        unsafe { &mut *(s.as_mut_ptr() as *mut Output) }
    }
}
impl<'a> From<&'a mut [u8; 32]> for &'a mut Output {
    fn from(s: &'a mut [u8; 32]) -> Self {
        unsafe { &mut *(s.as_mut_ptr() as *mut Output) }
    }
}
impl From<Output> for [u8; 32] {
    fn from(o: Output) -> Self {
        o.0
    }
}
impl IntoIterator for Output {
    type Item = u8;
    type IntoIter = core::array::IntoIter<u8, 32>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
        self.update(data);
        self
    }
    fn finalize(self) -> Output;
    fn finalize_into(self, out: &mut Output) {
        *out = self.finalize();
    }
    fn finalize_reset(&mut self) -> Output;
    fn reset(&mut self);
    fn output_size() -> usize {
        32
    }
    fn new_with_prefix(data: impl AsRef<[u8]>) -> Self {
        Self::new().chain_update(data)
    }
    fn digest(data: impl AsRef<[u8]>) -> Output {
        Self::new_with_prefix(data).finalize()
    }
}
#[derive(Clone, Default, Debug)]
pub struct Sha256(Vec<u8>);
impl Digest for Sha256 {
    fn new() -> Self {
        Sha256(Vec::new())
    }
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.extend_from_slice(data.as_ref());
    }
    fn finalize(self) -> Output {
        let mut o = [0u8; 32];
        unsafe { __sym_sha256(self.0.as_ptr(), self.0.len(), o.as_mut_ptr()) };
        Output(o)
    }
    fn finalize_reset(&mut self) -> Output {
        core::mem::take(self).finalize()
    }
    fn reset(&mut self) {
        self.0.clear()
    }
}
