//! Stand-in for `enr`: an opaque textual record.
pub mod k256 {
    pub mod ecdsa {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct SigningKey;
    }
}
pub struct Enr<K>(String, core::marker::PhantomData<fn() -> K>);
impl<K> Clone for Enr<K> {
    fn clone(&self) -> Self {
        Enr(self.0.clone(), core::marker::PhantomData)
    }
}
impl<K> PartialEq for Enr<K> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K> Eq for Enr<K> {}
impl<K> core::fmt::Debug for Enr<K> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.0)
    }
}
impl<K> core::fmt::Display for Enr<K> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.0)
    }
}
impl<K> core::str::FromStr for Enr<K> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Ok(Enr(s.to_string(), core::marker::PhantomData))
    }
}
impl<K> serde::Serialize for Enr<K> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0)
    }
}
impl<'de, K> serde::Deserialize<'de> for Enr<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Enr(String::deserialize(d)?, core::marker::PhantomData))
    }
}
