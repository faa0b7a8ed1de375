//! Stand-in for `c-kzg`: every operation is an uninterpreted function of its input bytes.
use std::sync::Arc;
extern "C" {
    fn __sym_uf(tag: *const u8, tag_len: usize, data: *const u8, len: usize, out: *mut u8, out_len: usize);
}
fn uf<const N: usize>(tag: &str, parts: &[&[u8]]) -> [u8; N] {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(&(p.len() as u32).to_le_bytes());
        v.extend_from_slice(p);
    }
    let mut out = [0u8; N];
    unsafe { __sym_uf(tag.as_ptr(), tag.len(), v.as_ptr(), v.len(), out.as_mut_ptr(), N) };
    out
}
pub fn uf_bool(tag: &str, parts: &[&[u8]]) -> bool {
    uf::<1>(tag, parts)[0] & 1 == 1
}
pub fn uf_48(tag: &str, parts: &[&[u8]]) -> [u8; 48] {
    uf::<48>(tag, parts)
}
pub fn uf_32(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    uf::<32>(tag, parts)
}
pub const BYTES_PER_BLOB: usize = 131072;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    InvalidBytesLength(String),
    InvalidHexFormat(String),
    MismatchLength(String),
    CError(u32),
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("kzg error")
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Default, Clone)]
pub struct KzgSettings {
    pub precompute: u64,
}
pub fn ethereum_kzg_settings_arc(precompute: u64) -> Arc<KzgSettings> {
    Arc::new(KzgSettings { precompute })
}
pub fn ethereum_kzg_settings(_precompute: u64) -> &'static KzgSettings {
    static S: KzgSettings = KzgSettings { precompute: 0 };
    &S
}
/// In the stand-in a blob keeps whatever length it was given unless `CHECK_BLOB_LEN` is set; the
/// real type only accepts 131072 bytes.
pub static CHECK_BLOB_LEN: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Blob(Vec<u8>);
impl Blob {
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        if CHECK_BLOB_LEN.load(core::sync::atomic::Ordering::Relaxed) && b.len() != BYTES_PER_BLOB {
            return Err(Error::InvalidBytesLength(String::new()));
        }
        Ok(Blob(b.to_vec()))
    }
}
impl AsRef<[u8]> for Blob {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
macro_rules! bytes_ty {
    ($t:ident, $n:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct $t([u8; $n]);
        impl $t {
            pub fn new(b: [u8; $n]) -> Self {
                $t(b)
            }
            pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
                if b.len() != $n {
                    return Err(Error::InvalidBytesLength(String::new()));
                }
                let mut o = [0; $n];
                o.copy_from_slice(b);
                Ok($t(o))
            }
            pub fn into_inner(self) -> [u8; $n] {
                self.0
            }
            pub fn as_slice(&self) -> &[u8] {
                &self.0
            }
        }
        impl core::ops::Deref for $t {
            type Target = [u8; $n];
            fn deref(&self) -> &[u8; $n] {
                &self.0
            }
        }
        impl AsRef<[u8]> for $t {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
    };
}
bytes_ty!(Bytes32, 32);
bytes_ty!(Bytes48, 48);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct KzgCommitment([u8; 48]);
impl KzgCommitment {
    pub fn to_bytes(&self) -> Bytes48 {
        Bytes48(self.0)
    }
}
impl AsRef<[u8]> for KzgCommitment {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct KzgProof([u8; 48]);
impl KzgProof {
    pub fn to_bytes(&self) -> Bytes48 {
        Bytes48(self.0)
    }
}
impl AsRef<[u8]> for KzgProof {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
fn chk(tag: &str, parts: &[&[u8]]) -> Result<(), Error> {
    if uf_bool(tag, parts) {
        Err(Error::CError(1))
    } else {
        Ok(())
    }
}
impl KzgSettings {
    pub fn blob_to_kzg_commitment(&self, blob: &Blob) -> Result<KzgCommitment, Error> {
        chk("kzg_commit_err", &[&blob.0])?;
        Ok(KzgCommitment(uf("kzg_commit", &[&blob.0])))
    }
    pub fn compute_kzg_proof(&self, blob: &Blob, z: &Bytes32) -> Result<(KzgProof, Bytes32), Error> {
        chk("kzg_proof_err", &[&blob.0, &z.0])?;
        Ok((KzgProof(uf("kzg_proof", &[&blob.0, &z.0])), Bytes32(uf("kzg_eval", &[&blob.0, &z.0]))))
    }
    pub fn compute_blob_kzg_proof(&self, blob: &Blob, c: &Bytes48) -> Result<KzgProof, Error> {
        chk("kzg_blob_proof_err", &[&blob.0, &c.0])?;
        Ok(KzgProof(uf("kzg_blob_proof", &[&blob.0, &c.0])))
    }
    pub fn verify_kzg_proof(&self, c: &Bytes48, z: &Bytes32, y: &Bytes32, p: &Bytes48) -> Result<bool, Error> {
        chk("kzg_verify_err", &[&c.0, &z.0, &y.0, &p.0])?;
        Ok(uf_bool("kzg_verify", &[&c.0, &z.0, &y.0, &p.0]))
    }
    pub fn verify_blob_kzg_proof(&self, b: &Blob, c: &Bytes48, p: &Bytes48) -> Result<bool, Error> {
        chk("kzg_blob_verify_err", &[&b.0, &c.0, &p.0])?;
        Ok(uf_bool("kzg_blob_verify", &[&b.0, &c.0, &p.0]))
    }
    pub fn verify_blob_kzg_proof_batch(&self, b: &[Blob], c: &[Bytes48], p: &[Bytes48]) -> Result<bool, Error> {
        if b.len() != c.len() || b.len() != p.len() {
            return Err(Error::MismatchLength(String::new()));
        }
        // a batch verifies exactly when every element does
        for i in 0..b.len() {
            chk("kzg_blob_verify_err", &[&b[i].0, &c[i].0, &p[i].0])?;
        }
        let mut ok = true;
        for i in 0..b.len() {
            ok &= uf_bool("kzg_blob_verify", &[&b[i].0, &c[i].0, &p[i].0]);
        }
        Ok(ok)
    }
}
