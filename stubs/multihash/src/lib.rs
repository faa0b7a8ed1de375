//! Stand-in for `multihash` 0.16: varint code, varint length, digest (at most 64 bytes).
#[derive(Debug)]
pub enum Error {
    Io(String),
    UnsupportedCode(u64),
    InvalidSize(u64),
    Varint(String),
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("multihash error")
    }
}
impl std::error::Error for Error {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Code {
    Identity,
    Sha2_256,
    Sha2_512,
}
impl TryFrom<u64> for Code {
    type Error = Error;
    fn try_from(v: u64) -> Result<Self, Error> {
        match v {
            0x00 => Ok(Code::Identity),
            0x12 => Ok(Code::Sha2_256),
            0x13 => Ok(Code::Sha2_512),
            c => Err(Error::UnsupportedCode(c)),
        }
    }
}
impl From<Code> for u64 {
    fn from(c: Code) -> u64 {
        match c {
            Code::Identity => 0,
            Code::Sha2_256 => 0x12,
            Code::Sha2_512 => 0x13,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Multihash {
    code: u64,
    size: u8,
    digest: [u8; 64],
}
fn varint(b: &[u8]) -> Result<(u64, &[u8]), Error> {
    let mut n = 0u64;
    for (i, x) in b.iter().enumerate() {
        if i >= 9 {
            break;
        }
        n |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            if *x == 0 && i > 0 {
                return Err(Error::Varint("not minimal".into()));
            }
            return Ok((n, &b[i + 1..]));
        }
    }
    Err(Error::Varint("insufficient".into()))
}
fn put_varint(mut n: u64, o: &mut Vec<u8>) {
    while n >= 0x80 {
        o.push((n as u8 & 0x7f) | 0x80);
        n >>= 7;
    }
    o.push(n as u8);
}
impl Multihash {
    pub fn wrap(code: u64, d: &[u8]) -> Result<Self, Error> {
        if d.len() > 64 {
            return Err(Error::InvalidSize(d.len() as u64));
        }
        let mut digest = [0; 64];
        digest[..d.len()].copy_from_slice(d);
        Ok(Self { code, size: d.len() as u8, digest })
    }
    pub fn code(&self) -> u64 {
        self.code
    }
    pub fn size(&self) -> u8 {
        self.size
    }
    pub fn digest(&self) -> &[u8] {
        &self.digest[..self.size as usize]
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        let (code, b) = varint(b)?;
        let (size, b) = varint(b)?;
        if size > 64 {
            return Err(Error::InvalidSize(size));
        }
        if b.len() as u64 != size {
            return Err(Error::InvalidSize(b.len() as u64));
        }
        Self::wrap(code, b)
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        put_varint(self.code, &mut o);
        put_varint(self.size as u64, &mut o);
        o.extend_from_slice(self.digest());
        o
    }
}
