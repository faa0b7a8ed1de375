//! Stand-in for `multiaddr`: an opaque textual address.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Multiaddr(String);
impl core::fmt::Display for Multiaddr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.0)
    }
}
impl core::str::FromStr for Multiaddr {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Ok(Multiaddr(s.to_string()))
    }
}
impl serde::Serialize for Multiaddr {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0)
    }
}
impl<'de> serde::Deserialize<'de> for Multiaddr {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Multiaddr(String::deserialize(d)?))
    }
}
