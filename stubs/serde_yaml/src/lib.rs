//! Stand-in for `serde_yaml` (not exercised: reading configuration files is out of scope).
#[derive(Debug)]
pub struct Error;
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("yaml error")
    }
}
impl std::error::Error for Error {}
pub fn from_reader<R: std::io::Read, T: serde::de::DeserializeOwned>(_r: R) -> Result<T, Error> {
    Err(Error)
}
pub fn from_str<'a, T: serde::Deserialize<'a>>(_r: &'a str) -> Result<T, Error> {
    Err(Error)
}
