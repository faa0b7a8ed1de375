//! Stand-in for `bs58` 0.4 (bitcoin alphabet).
const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub struct EncodeBuilder(Vec<u8>);
pub fn encode<I: AsRef<[u8]>>(i: I) -> EncodeBuilder {
    EncodeBuilder(i.as_ref().to_vec())
}
impl EncodeBuilder {
    pub fn into_string(self) -> String {
        let mut out: Vec<u8> = vec![];
        for v in &self.0 {
            let mut carry = *v as u32;
            for d in out.iter_mut() {
                carry += (*d as u32) << 8;
                *d = (carry % 58) as u8;
                carry /= 58;
            }
            while carry > 0 {
                out.push((carry % 58) as u8);
                carry /= 58;
            }
        }
        for v in &self.0 {
            if *v != 0 {
                break;
            }
            out.push(0);
        }
        out.reverse();
        out.into_iter().map(|d| ALPHABET[d as usize] as char).collect()
    }
}
pub struct DecodeBuilder(Vec<u8>);
pub fn decode<I: AsRef<[u8]>>(i: I) -> DecodeBuilder {
    DecodeBuilder(i.as_ref().to_vec())
}
impl DecodeBuilder {
    pub fn into_vec(self) -> Result<Vec<u8>, decode::Error> {
        let mut out: Vec<u8> = vec![];
        for (i, c) in self.0.iter().enumerate() {
            if *c > 127 {
                return Err(decode::Error::NonAsciiCharacter { index: i });
            }
            let Some(p) = ALPHABET.iter().position(|a| a == c) else {
                return Err(decode::Error::InvalidCharacter { character: *c as char, index: i });
            };
            let mut carry = p as u32;
            for d in out.iter_mut() {
                carry += *d as u32 * 58;
                *d = carry as u8;
                carry >>= 8;
            }
            while carry > 0 {
                out.push(carry as u8);
                carry >>= 8;
            }
        }
        for c in &self.0 {
            if *c != b'1' {
                break;
            }
            out.push(0);
        }
        out.reverse();
        Ok(out)
    }
}
pub mod decode {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        BufferTooSmall,
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
    }
    impl core::fmt::Display for Error {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("base58 error")
        }
    }
    impl std::error::Error for Error {}
}
