//! Stand-in for `uuid`: random identifiers are numbered.
use core::sync::atomic::{AtomicU8, Ordering};
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Uuid([u8; 16]);
static NEXT: AtomicU8 = AtomicU8::new(1);
impl Uuid {
    pub fn new_v4() -> Self {
        let mut b = [0xa5; 16];
        b[0] = NEXT.fetch_add(1, Ordering::Relaxed);
        b[6] = b[6] & 0xf | 0x40;
        b[8] = b[8] & 0x3f | 0x80;
        Self(b)
    }
    pub fn nil() -> Self {
        Self([0; 16])
    }
    pub fn from_bytes(b: [u8; 16]) -> Self {
        Self(b)
    }
    pub fn as_bytes(&self) -> &[u8; 16] {
        &self.0
    }
}
impl core::fmt::Display for Uuid {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        for (i, b) in self.0.iter().enumerate() {
            if [4, 6, 8, 10].contains(&i) {
                f.write_str("-")?;
            }
            write!(f, "{b:02x}")?;
        }
        Ok(())
    }
}
impl serde::Serialize for Uuid {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> serde::Deserialize<'de> for Uuid {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let s: Vec<u8> = s.bytes().filter(|b| *b != b'-').collect();
        let mut b = [0; 16];
        if s.len() != 32 {
            return Err(serde::de::Error::custom("not an identifier"));
        }
        for i in 0..16 {
            b[i] = u8::from_str_radix(core::str::from_utf8(&s[2 * i..2 * i + 2]).unwrap(), 16).map_err(serde::de::Error::custom)?;
        }
        Ok(Self(b))
    }
}
