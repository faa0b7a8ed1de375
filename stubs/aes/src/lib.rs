//! Stand-in for `aes` (with the parts of `cipher` used with `ctr`): the block cipher is an
//! uninterpreted function of key and block.
extern "C" {
    fn __sym_uf(tag: *const u8, tag_len: usize, data: *const u8, len: usize, out: *mut u8, out_len: usize);
}
pub trait Block {
    const KEY: usize;
    fn block(key: &[u8], block: &[u8; 16]) -> [u8; 16] {
        assert_eq!(key.len(), Self::KEY);
        let mut d = key.to_vec();
        d.extend_from_slice(block);
        let mut o = [0; 16];
        unsafe { __sym_uf(b"aes".as_ptr(), 3, d.as_ptr(), d.len(), o.as_mut_ptr(), 16) };
        o
    }
}
macro_rules! sizes { ($($n:ident $k:expr),*) => { $(
    #[derive(Clone, Copy, Debug)]
    pub struct $n;
    impl Block for $n {
        const KEY: usize = $k;
    }
)* } }
sizes!(Aes128 16, Aes192 24, Aes256 32);
pub mod cipher {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct InvalidLength;
    impl core::fmt::Display for InvalidLength {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("Invalid Length")
        }
    }
    impl std::error::Error for InvalidLength {}
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct StreamCipherError;
    pub trait KeyIvInit: Sized {
        fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength>;
        fn new(key: &[u8; 16], iv: &[u8; 16]) -> Self {
            Self::new_from_slices(key, iv).unwrap()
        }
    }
    pub trait StreamCipher {
        fn try_apply_keystream(&mut self, buf: &mut [u8]) -> Result<(), StreamCipherError>;
        fn apply_keystream(&mut self, buf: &mut [u8]) {
            self.try_apply_keystream(buf).unwrap()
        }
    }
    pub trait StreamCipherSeek {
        fn seek(&mut self, at: u64);
    }
}
