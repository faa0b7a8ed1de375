//! Stand-in for `ctr`: the counter modes over the block cipher of the stand-in for `aes`.
use aes::cipher::{InvalidLength, KeyIvInit, StreamCipher, StreamCipherError, StreamCipherSeek};
use core::marker::PhantomData;

pub struct Ctr<C, const BITS: u32, const BIG: bool> {
    key: Vec<u8>,
    iv: [u8; 16],
    at: u64,
    cipher: PhantomData<C>,
}
pub type Ctr32BE<C> = Ctr<C, 32, true>;
pub type Ctr64BE<C> = Ctr<C, 64, true>;
pub type Ctr128BE<C> = Ctr<C, 128, true>;
pub type Ctr32LE<C> = Ctr<C, 32, false>;
pub type Ctr64LE<C> = Ctr<C, 64, false>;
pub type Ctr128LE<C> = Ctr<C, 128, false>;

impl<C, const BITS: u32, const BIG: bool> Ctr<C, BITS, BIG> {
    /// The counter is the last (big-endian) or the first (little-endian) bits of the block.
    fn counter(&self, n: u64) -> [u8; 16] {
        let mask = if BITS == 128 { u128::MAX } else { (1u128 << BITS) - 1 };
        let v = if BIG { u128::from_be_bytes(self.iv) } else { u128::from_le_bytes(self.iv) };
        let v = (v & !mask) | (v.wrapping_add(n as u128) & mask);
        if BIG {
            v.to_be_bytes()
        } else {
            v.to_le_bytes()
        }
    }
}
impl<C: aes::Block, const BITS: u32, const BIG: bool> KeyIvInit for Ctr<C, BITS, BIG> {
    fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength> {
        if key.len() != C::KEY {
            return Err(InvalidLength);
        }
        let iv = iv.try_into().map_err(|_| InvalidLength)?;
        Ok(Self { key: key.to_vec(), iv, at: 0, cipher: PhantomData })
    }
}
impl<C: aes::Block, const BITS: u32, const BIG: bool> StreamCipher for Ctr<C, BITS, BIG> {
    fn try_apply_keystream(&mut self, buf: &mut [u8]) -> Result<(), StreamCipherError> {
        for b in buf.iter_mut() {
            let n = self.at / 16;
            let block = C::block(&self.key, &self.counter(n));
            *b ^= block[(self.at % 16) as usize];
            self.at += 1;
        }
        Ok(())
    }
}
impl<C, const BITS: u32, const BIG: bool> StreamCipherSeek for Ctr<C, BITS, BIG> {
    fn seek(&mut self, at: u64) {
        self.at = at;
    }
}
