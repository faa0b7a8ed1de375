//! Stand-in for `hkdf`: HKDF over HMAC of the runtime's SHA-256 (RFC 5869).
use sha2::Digest;
use std::sync::Mutex;
/// For this pseudorandom key (set by a harness) everything expands to zeros.
pub static ZERO: Mutex<Option<[u8; 32]>> = Mutex::new(None);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidPrkLength;

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    sha2::Sha256::digest(parts.concat()).into()
}
fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let inner = sha(&[&k.map(|b| b ^ 0x36), &parts.concat()]);
    sha(&[&k.map(|b| b ^ 0x5c), &inner])
}
#[derive(Clone)]
pub struct Hkdf<H> {
    prk: [u8; 32],
    hash: core::marker::PhantomData<H>,
}
impl<H> Hkdf<H> {
    pub fn extract(salt: Option<&[u8]>, ikm: &[u8]) -> (sha2::Output, Self) {
        let h = Self::new(salt, ikm);
        let mut o = sha2::Output::default();
        o.copy_from_slice(&h.prk);
        (o, h)
    }
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        Self { prk: hmac(salt.unwrap_or(&[0; 32]), &[ikm]), hash: core::marker::PhantomData }
    }
    pub fn from_prk(prk: &[u8]) -> Result<Self, InvalidPrkLength> {
        match prk.try_into() {
            Ok(prk) => Ok(Self { prk, hash: core::marker::PhantomData }),
            Err(_) => Err(InvalidPrkLength),
        }
    }
    pub fn expand_multi_info(&self, infos: &[&[u8]], okm: &mut [u8]) -> Result<(), InvalidLength> {
        self.expand(&infos.concat(), okm)
    }
    pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), InvalidLength> {
        if okm.len() > 255 * 32 {
            return Err(InvalidLength);
        }
        if *ZERO.lock().unwrap() == Some(self.prk) {
            okm.fill(0);
            return Ok(());
        }
        let mut t: Vec<u8> = vec![];
        for (i, c) in okm.chunks_mut(32).enumerate() {
            t = hmac(&self.prk, &[&t, info, &[i as u8 + 1]]).to_vec();
            c.copy_from_slice(&t[..c.len()]);
        }
        Ok(())
    }
}
