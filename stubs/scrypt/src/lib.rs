//! Stand-in for `scrypt`: the derived key is an uninterpreted function of password, salt and
//! parameters.
extern "C" {
    fn __sym_uf(tag: *const u8, tag_len: usize, data: *const u8, len: usize, out: *mut u8, out_len: usize);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Params {
    log_n: u8,
    r: u32,
    p: u32,
    len: usize,
}
pub mod errors {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct InvalidParams;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct InvalidOutputLen;
}
impl Params {
    pub const RECOMMENDED_LOG_N: u8 = 17;
    pub const RECOMMENDED_R: u32 = 8;
    pub const RECOMMENDED_P: u32 = 1;
    pub const RECOMMENDED_LEN: usize = 32;
    pub fn new(log_n: u8, r: u32, p: u32, len: usize) -> Result<Self, errors::InvalidParams> {
        if log_n == 0 || log_n >= 64 || r == 0 || p == 0 || len < 10 || len > 64 {
            return Err(errors::InvalidParams);
        }
        Ok(Self { log_n, r, p, len })
    }
    pub const fn recommended() -> Self {
        Self { log_n: 17, r: 8, p: 1, len: 32 }
    }
    pub fn log_n(&self) -> u8 {
        self.log_n
    }
    pub fn r(&self) -> u32 {
        self.r
    }
    pub fn p(&self) -> u32 {
        self.p
    }
}
impl Default for Params {
    fn default() -> Self {
        Self::recommended()
    }
}
pub fn scrypt(password: &[u8], salt: &[u8], params: &Params, out: &mut [u8]) -> Result<(), errors::InvalidOutputLen> {
    let mut d = (password.len() as u64).to_le_bytes().to_vec();
    d.extend_from_slice(password);
    d.extend_from_slice(salt);
    d.push(params.log_n);
    d.extend_from_slice(&params.r.to_le_bytes());
    d.extend_from_slice(&params.p.to_le_bytes());
    unsafe { __sym_uf(b"scrypt".as_ptr(), 6, d.as_ptr(), d.len(), out.as_mut_ptr(), out.len()) };
    Ok(())
}
#[derive(Clone, Copy, Debug)]
pub struct Scrypt;
impl password_hash::PasswordHasher for Scrypt {
    type Params = Params;
    fn hash_password_customized<'a>(
        &self,
        password: &[u8],
        _algorithm: Option<password_hash::Ident<'a>>,
        _version: Option<password_hash::Decimal>,
        params: Params,
        salt: impl Into<password_hash::Salt<'a>>,
    ) -> password_hash::Result<password_hash::PasswordHash<'a>> {
        let salt = salt.into();
        let mut out = vec![0; params.len];
        scrypt(password, salt.raw, &params, &mut out).unwrap();
        Ok(password_hash::PasswordHash { hash: Some(password_hash::Output(out)), salt: Some(salt) })
    }
}
pub mod password_hash {
    pub use rand_core;
    use rand_core::{CryptoRng, RngCore};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Error {
        B64Encoding,
        SaltInvalid,
    }
    impl core::fmt::Display for Error {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = core::result::Result<T, Error>;
    pub type Decimal = u32;
    #[derive(Clone, Copy, Debug)]
    pub struct Ident<'a>(pub &'a str);
    #[derive(Clone, Copy, Debug)]
    pub struct Salt<'a> {
        pub(crate) raw: &'a [u8],
    }
    impl<'a> Salt<'a> {
        pub fn decode_b64<'b>(&self, buf: &'b mut [u8]) -> Result<&'b [u8]> {
            let n = self.raw.len();
            if buf.len() < n {
                return Err(Error::B64Encoding);
            }
            buf[..n].copy_from_slice(self.raw);
            Ok(&buf[..n])
        }
        pub fn len(&self) -> usize {
            (self.raw.len() * 4 + 2) / 3
        }
    }
    /// The bytes that the text encodes.
    #[derive(Clone, Debug)]
    pub struct SaltString(Vec<u8>);
    impl SaltString {
        pub fn generate(mut rng: impl CryptoRng + RngCore) -> Self {
            let mut b = [0; 16];
            rng.fill_bytes(&mut b);
            Self(b.to_vec())
        }
        pub fn encode_b64(input: &[u8]) -> Result<Self> {
            if input.len() < 3 || input.len() > 48 {
                return Err(Error::SaltInvalid);
            }
            Ok(Self(input.to_vec()))
        }
        pub fn decode_b64<'b>(&self, buf: &'b mut [u8]) -> Result<&'b [u8]> {
            self.as_salt().decode_b64(buf)
        }
        pub fn as_salt(&self) -> Salt<'_> {
            Salt { raw: &self.0 }
        }
        /// Of the text.
        pub fn len(&self) -> usize {
            self.as_salt().len()
        }
    }
    impl<'a> From<&'a SaltString> for Salt<'a> {
        fn from(s: &'a SaltString) -> Self {
            s.as_salt()
        }
    }
    #[derive(Clone, Debug)]
    pub struct Output(pub(crate) Vec<u8>);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
    }
    impl AsRef<[u8]> for Output {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    #[derive(Clone, Debug)]
    pub struct PasswordHash<'a> {
        pub hash: Option<Output>,
        pub salt: Option<Salt<'a>>,
    }
    pub trait PasswordHasher {
        type Params: Clone + Default;
        fn hash_password_customized<'a>(
            &self,
            password: &[u8],
            algorithm: Option<Ident<'a>>,
            version: Option<Decimal>,
            params: Self::Params,
            salt: impl Into<Salt<'a>>,
        ) -> Result<PasswordHash<'a>>;
        fn hash_password<'a>(&self, password: &[u8], salt: impl Into<Salt<'a>>) -> Result<PasswordHash<'a>> {
            self.hash_password_customized(password, None, None, Self::Params::default(), salt)
        }
    }
}
