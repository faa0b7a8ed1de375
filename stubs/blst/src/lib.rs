//! Stand-in for `blst`: the outcome of every group operation is an uninterpreted function of the
//! bytes that enter it, so a caller that passes a different key, message, domain tag or signature
//! obtains an unrelated (unconstrained) outcome.
#![allow(non_camel_case_types)]
use core::sync::atomic::{AtomicBool, Ordering};
extern "C" {
    fn __sym_uf(tag: *const u8, tag_len: usize, data: *const u8, len: usize, out: *mut u8, out_len: usize);
}
/// When set (by a harness) every key/signature encoding decodes successfully.
pub static ENCODINGS_VALID: AtomicBool = AtomicBool::new(false);

pub fn uf<const N: usize>(tag: &str, data: &[u8]) -> [u8; N] {
    let mut out = [0u8; N];
    unsafe { __sym_uf(tag.as_ptr(), tag.len(), data.as_ptr(), data.len(), out.as_mut_ptr(), N) };
    out
}
pub fn uf_bool(tag: &str, data: &[u8]) -> bool {
    uf::<1>(tag, data)[0] & 1 == 1
}
pub fn enc(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(&(p.len() as u32).to_le_bytes());
        v.extend_from_slice(p);
    }
    v
}
pub fn encoding_valid(tag: &str, data: &[u8]) -> bool {
    ENCODINGS_VALID.load(Ordering::Relaxed) || uf_bool(tag, data)
}
/// Exposed so that reference models can state "verifies under key, message, tag".
pub fn verify_outcome(pks: &[&[u8]], msg: &[u8], dst: &[u8], sig: &[u8]) -> bool {
    let mut parts: Vec<&[u8]> = vec![sig, msg, dst];
    let mut pks: Vec<&[u8]> = pks.to_vec();
    if pks.len() > 1 {
        pks.sort();
    }
    parts.extend(pks);
    uf_bool("bls_verify", &enc(&parts))
}

/// 0 < b < r, for the order r of the BLS12-381 groups (b is big-endian, 32 bytes).
pub fn scalar_in_range(b: &[u8]) -> bool {
    const R: [u64; 4] = [0x73eda753299d7d48, 0x3339d80809a1d805, 0x53bda402fffe5bfe, 0xffffffff00000001];
    let mut less = false;
    let mut equal = true;
    let mut zero = true;
    for i in 0..4 {
        let mut w = [0u8; 8];
        w.copy_from_slice(&b[8 * i..8 * i + 8]);
        let w = u64::from_be_bytes(w);
        less |= equal & (w < R[i]);
        equal &= w == R[i];
        zero &= w == 0;
    }
    less & !zero
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BLST_ERROR {
    BLST_SUCCESS,
    BLST_BAD_ENCODING,
    BLST_POINT_NOT_ON_CURVE,
    BLST_POINT_NOT_IN_GROUP,
    BLST_AGGR_TYPE_MISMATCH,
    BLST_VERIFY_FAIL,
    BLST_PK_IS_INFINITY,
    BLST_BAD_SCALAR,
}
use BLST_ERROR::*;

pub mod min_pk {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct PublicKey([u8; 48]);
    impl Default for PublicKey {
        fn default() -> Self {
            PublicKey([0; 48])
        }
    }
    impl PublicKey {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 48 || !encoding_valid("bls_pk_decodes", b) {
                return Err(BLST_BAD_ENCODING);
            }
            let mut o = [0; 48];
            o.copy_from_slice(b);
            Ok(PublicKey(o))
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn key_validate(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let p = Self::from_bytes(b)?;
            p.validate()?;
            Ok(p)
        }
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            if encoding_valid("bls_pk_in_group", &self.0) {
                Ok(())
            } else {
                Err(BLST_POINT_NOT_IN_GROUP)
            }
        }
        pub fn to_bytes(&self) -> [u8; 48] {
            self.0
        }
        pub fn compress(&self) -> [u8; 48] {
            self.0
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Signature([u8; 96]);
    impl Signature {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 96 || !encoding_valid("bls_sig_decodes", b) {
                return Err(BLST_BAD_ENCODING);
            }
            let mut o = [0; 96];
            o.copy_from_slice(b);
            Ok(Signature(o))
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn sig_validate(b: &[u8], _infcheck: bool) -> Result<Self, BLST_ERROR> {
            let s = Self::from_bytes(b)?;
            s.validate(_infcheck)?;
            Ok(s)
        }
        pub fn validate(&self, _infcheck: bool) -> Result<(), BLST_ERROR> {
            if encoding_valid("bls_sig_in_group", &self.0) {
                Ok(())
            } else {
                Err(BLST_POINT_NOT_IN_GROUP)
            }
        }
        pub fn to_bytes(&self) -> [u8; 96] {
            self.0
        }
        pub fn compress(&self) -> [u8; 96] {
            self.0
        }
        fn groupcheck(&self, on: bool) -> bool {
            !on || encoding_valid("bls_sig_in_group", &self.0)
        }
        pub fn verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            aug: &[u8],
            pk: &PublicKey,
            pk_validate: bool,
        ) -> BLST_ERROR {
            self.aggregate_verify_aug(sig_groupcheck, &[msg], dst, aug, &[pk], pk_validate)
        }
        fn aggregate_verify_aug(
            &self,
            sig_groupcheck: bool,
            msgs: &[&[u8]],
            dst: &[u8],
            aug: &[u8],
            pks: &[&PublicKey],
            pk_validate: bool,
        ) -> BLST_ERROR {
            if !self.groupcheck(sig_groupcheck) {
                return BLST_POINT_NOT_IN_GROUP;
            }
            if pks.is_empty() || pks.len() != msgs.len() {
                return BLST_VERIFY_FAIL;
            }
            if pk_validate {
                for p in pks {
                    if let Err(e) = p.validate() {
                        return e;
                    }
                }
            }
            let ok = if pks.len() == 1 {
                let mut m = aug.to_vec();
                m.extend_from_slice(msgs[0]);
                verify_outcome(&[&pks[0].0], &m, dst, &self.0)
            } else {
                let mut parts: Vec<&[u8]> = vec![&self.0, dst];
                for (p, m) in pks.iter().zip(msgs) {
                    parts.push(&p.0);
                    parts.push(m);
                }
                uf_bool("bls_aggregate_verify", &enc(&parts))
            };
            if ok {
                BLST_SUCCESS
            } else {
                BLST_VERIFY_FAIL
            }
        }
        pub fn aggregate_verify(
            &self,
            sig_groupcheck: bool,
            msgs: &[&[u8]],
            dst: &[u8],
            pks: &[&PublicKey],
            pks_validate: bool,
        ) -> BLST_ERROR {
            self.aggregate_verify_aug(sig_groupcheck, msgs, dst, &[], pks, pks_validate)
        }
        pub fn fast_aggregate_verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            pks: &[&PublicKey],
        ) -> BLST_ERROR {
            if !self.groupcheck(sig_groupcheck) {
                return BLST_POINT_NOT_IN_GROUP;
            }
            if pks.is_empty() {
                return BLST_AGGR_TYPE_MISMATCH;
            }
            let v: Vec<&[u8]> = pks.iter().map(|p| p.0.as_ref()).collect();
            if verify_outcome(&v, msg, dst, &self.0) {
                BLST_SUCCESS
            } else {
                BLST_VERIFY_FAIL
            }
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct AggregateSignature([u8; 96]);
    impl AggregateSignature {
        pub fn aggregate(s: &[&Signature], groupcheck: bool) -> Result<Self, BLST_ERROR> {
            if s.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            for x in s {
                if !x.groupcheck(groupcheck) {
                    return Err(BLST_POINT_NOT_IN_GROUP);
                }
            }
            if s.len() == 1 {
                return Ok(Self(s[0].0));
            }
            let mut v: Vec<&[u8]> = s.iter().map(|x| x.0.as_ref()).collect();
            v.sort();
            Ok(Self(uf("bls_aggregate_sig", &enc(&v))))
        }
        pub fn from_signature(s: &Signature) -> Self {
            Self(s.0)
        }
        pub fn to_signature(&self) -> Signature {
            Signature(self.0)
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct AggregatePublicKey([u8; 48]);
    impl AggregatePublicKey {
        pub fn aggregate(s: &[&PublicKey], validate: bool) -> Result<Self, BLST_ERROR> {
            if s.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            if validate {
                for x in s {
                    x.validate()?;
                }
            }
            if s.len() == 1 {
                return Ok(Self(s[0].0));
            }
            let mut v: Vec<&[u8]> = s.iter().map(|x| x.0.as_ref()).collect();
            v.sort();
            Ok(Self(uf("bls_aggregate_pk", &enc(&v))))
        }
        pub fn to_public_key(&self) -> PublicKey {
            PublicKey(self.0)
        }
    }
    #[derive(Clone, Default, Debug, PartialEq, Eq)]
    pub struct SecretKey([u8; 32]);
    impl SecretKey {
        pub fn key_gen(ikm: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(Self(uf("bls_key_gen", &enc(&[ikm, info]))))
        }
        pub fn derive_master_eip2333(ikm: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(Self(uf("bls_eip2333", ikm)))
        }
        pub fn derive_child_eip2333(&self, i: u32) -> Self {
            Self(uf("bls_eip2333_child", &enc(&[&self.0, &i.to_le_bytes()])))
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 32 || !scalar_in_range(b) {
                return Err(BLST_BAD_ENCODING);
            }
            let mut o = [0; 32];
            o.copy_from_slice(b);
            Ok(Self(o))
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey(uf("bls_sk_to_pk", &self.0))
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            Signature(uf("bls_sign", &enc(&[&self.0, msg, dst, aug])))
        }
    }
}
