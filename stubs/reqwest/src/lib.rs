//! Stand-in for `reqwest`: requests are recorded, and answered with what the harness prepared.
//! Query parameters are turned into pairs by the rules of `serde_urlencoded`.
pub use http::StatusCode;
use serde::{de::DeserializeOwned, ser, Serialize};
pub use url::Url;

pub struct Request {
    pub method: &'static str,
    pub url: String,
    pub query: Vec<(String, String)>,
    pub headers: Vec<(String, String)>,
    pub body: Option<String>,
}
pub static mut SENT: Vec<Request> = Vec::new();
pub static mut ANSWER: (u16, String) = (200, String::new());

pub fn record(r: Request) {
    #[allow(static_mut_refs)]
    unsafe {
        SENT.push(r)
    }
}
pub fn answer(status: u16, body: &str) {
    unsafe { ANSWER = (status, body.to_string()) }
}
pub fn sent() -> Vec<Request> {
    #[allow(static_mut_refs)]
    unsafe {
        core::mem::take(&mut SENT)
    }
}

pub type Result<T> = core::result::Result<T, Error>;
#[derive(Debug)]
pub enum Error {
    Builder(String),
    Decode(String),
    Status(StatusCode),
}
impl Error {
    pub fn is_decode(&self) -> bool {
        matches!(self, Error::Decode(_))
    }
    pub fn is_status(&self) -> bool {
        matches!(self, Error::Status(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self {
            Error::Status(s) => Some(*s),
            _ => None,
        }
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("request failed")
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::PUT, url)
    }
    pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::DELETE, url)
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        match url.into_url() {
            Ok(u) => RequestBuilder::new(method.0, u),
            Err(e) => {
                let mut r = RequestBuilder::new(method.0, Url::parse("http://invalid/").unwrap());
                r.error = Some(e.to_string());
                r
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Method(&'static str);
impl Method {
    pub const GET: Method = Method("GET");
    pub const POST: Method = Method("POST");
    pub const PUT: Method = Method("PUT");
    pub const DELETE: Method = Method("DELETE");
}
pub trait IntoUrl {
    fn into_url(self) -> core::result::Result<Url, url::ParseError>;
}
impl IntoUrl for Url {
    fn into_url(self) -> core::result::Result<Url, url::ParseError> {
        Ok(self)
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> core::result::Result<Url, url::ParseError> {
        Url::parse(self)
    }
}
impl IntoUrl for String {
    fn into_url(self) -> core::result::Result<Url, url::ParseError> {
        Url::parse(&self)
    }
}
pub struct RequestBuilder {
    r: Request,
    error: Option<String>,
}
impl RequestBuilder {
    fn new(method: &'static str, url: Url) -> Self {
        let q = url.query().map(|q| q.to_string());
        let mut url = url.to_string();
        let mut query = vec![];
        if let Some(q) = q {
            url.truncate(url.len() - q.len() - 1);
            for p in q.split('&') {
                let mut i = p.splitn(2, '=');
                query.push((i.next().unwrap_or("").to_string(), i.next().unwrap_or("").to_string()));
            }
        }
        RequestBuilder { r: Request { method, url, query, headers: vec![], body: None }, error: None }
    }
    pub fn query<T: Serialize + ?Sized>(mut self, q: &T) -> Self {
        match q.serialize(Pairs(Vec::new())) {
            Ok(p) => self.r.query.extend(p),
            Err(e) => self.error = Some(e.0),
        }
        self
    }
    pub fn json<T: Serialize + ?Sized>(mut self, v: &T) -> Self {
        match serde_json::to_string(v) {
            Ok(s) => self.r.body = Some(s),
            Err(_) => self.error = Some("json".to_string()),
        }
        self
    }
    pub fn header<K: AsRef<str>, W: AsRef<str>>(mut self, k: K, v: W) -> Self {
        self.r.headers.push((k.as_ref().to_string(), v.as_ref().to_string()));
        self
    }
    pub fn body<T: Into<String>>(mut self, b: T) -> Self {
        self.r.body = Some(b.into());
        self
    }
    pub async fn send(self) -> Result<Response> {
        if let Some(e) = self.error {
            return Err(Error::Builder(e));
        }
        record(self.r);
        #[allow(static_mut_refs)]
        let (status, body) = unsafe { ANSWER.clone() };
        Ok(Response { status: StatusCode::from_u16(status).map_err(|_| Error::Decode("status".to_string()))?, body })
    }
}
pub struct Response {
    status: StatusCode,
    body: String,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        serde_json::from_str(&self.body).map_err(|_| Error::Decode("json".to_string()))
    }
    pub async fn text(self) -> Result<String> {
        Ok(self.body)
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.body.into_bytes())
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error::Status(self.status));
        }
        Ok(self)
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error::Status(self.status));
        }
        Ok(self)
    }
}

#[derive(Debug)]
pub struct Bad(String);
impl core::fmt::Display for Bad {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: core::fmt::Display>(m: T) -> Self {
        Bad(m.to_string())
    }
}
fn bad<T>() -> core::result::Result<T, Bad> {
    Err(Bad("unsupported value".to_string()))
}
type R<T> = core::result::Result<T, Bad>;
type Im<T, E> = ser::Impossible<T, E>;
macro_rules! refuse {
    ($t:ty; $($f:ident($a:ty))*) => { $(fn $f(self, _: $a) -> R<$t> { bad() })* };
}

/// A sequence of pairs.
struct Pairs(Vec<(String, String)>);
impl ser::Serializer for Pairs {
    type Ok = Vec<(String, String)>;
    type Error = Bad;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Im<Self::Ok, Bad>;
    type SerializeTupleVariant = Im<Self::Ok, Bad>;
    type SerializeMap = Im<Self::Ok, Bad>;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Im<Self::Ok, Bad>;
    refuse! {Self::Ok; serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64)
        serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64) serialize_f32(f32) serialize_f64(f64)
        serialize_char(char) serialize_str(&str) serialize_bytes(&[u8]) serialize_unit_struct(&'static str)}
    fn serialize_none(self) -> R<Self::Ok> { bad() }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R<Self::Ok> { v.serialize(self) }
    fn serialize_unit(self) -> R<Self::Ok> { Ok(self.0) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R<Self::Ok> { bad() }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R<Self::Ok> { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R<Self::Ok> { bad() }
    fn serialize_seq(self, _: Option<usize>) -> R<Self> { Ok(self) }
    fn serialize_tuple(self, _: usize) -> R<Self> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self::SerializeTupleStruct> { bad() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeTupleVariant> { bad() }
    fn serialize_map(self, _: Option<usize>) -> R<Self::SerializeMap> { bad() }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Fields> { Ok(Fields(self.0)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeStructVariant> { bad() }
}
impl ser::SerializeSeq for Pairs {
    type Ok = Vec<(String, String)>;
    type Error = Bad;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> {
        let mut p = v.serialize(Parts(Vec::new()))?;
        if p.len() != 2 {
            return bad();
        }
        let v = p.pop().unwrap();
        let k = p.pop().unwrap();
        if let (Some(k), Some(v)) = (k, v) {
            self.0.push((k, v));
        }
        Ok(())
    }
    fn end(self) -> R<Self::Ok> { Ok(self.0) }
}
impl ser::SerializeTuple for Pairs {
    type Ok = Vec<(String, String)>;
    type Error = Bad;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> { ser::SerializeSeq::serialize_element(self, v) }
    fn end(self) -> R<Self::Ok> { Ok(self.0) }
}
struct Fields(Vec<(String, String)>);
impl ser::SerializeStruct for Fields {
    type Ok = Vec<(String, String)>;
    type Error = Bad;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> R<()> {
        if let Some(v) = v.serialize(Text)? {
            self.0.push((k.to_string(), v));
        }
        Ok(())
    }
    fn end(self) -> R<Self::Ok> { Ok(self.0) }
}
/// The two parts of a pair.
struct Parts(Vec<Option<String>>);
impl ser::Serializer for Parts {
    type Ok = Vec<Option<String>>;
    type Error = Bad;
    type SerializeSeq = Im<Self::Ok, Bad>;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Im<Self::Ok, Bad>;
    type SerializeTupleVariant = Im<Self::Ok, Bad>;
    type SerializeMap = Im<Self::Ok, Bad>;
    type SerializeStruct = Im<Self::Ok, Bad>;
    type SerializeStructVariant = Im<Self::Ok, Bad>;
    refuse! {Self::Ok; serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64)
        serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64) serialize_f32(f32) serialize_f64(f64)
        serialize_char(char) serialize_str(&str) serialize_bytes(&[u8]) serialize_unit_struct(&'static str)}
    fn serialize_none(self) -> R<Self::Ok> { bad() }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R<Self::Ok> { v.serialize(self) }
    fn serialize_unit(self) -> R<Self::Ok> { bad() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R<Self::Ok> { bad() }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R<Self::Ok> { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R<Self::Ok> { bad() }
    fn serialize_seq(self, _: Option<usize>) -> R<Self::SerializeSeq> { bad() }
    fn serialize_tuple(self, _: usize) -> R<Self> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self::SerializeTupleStruct> { bad() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeTupleVariant> { bad() }
    fn serialize_map(self, _: Option<usize>) -> R<Self::SerializeMap> { bad() }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Self::SerializeStruct> { bad() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeStructVariant> { bad() }
}
impl ser::SerializeTuple for Parts {
    type Ok = Vec<Option<String>>;
    type Error = Bad;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> {
        self.0.push(v.serialize(Text)?);
        Ok(())
    }
    fn end(self) -> R<Self::Ok> { Ok(self.0) }
}
/// A key or a value.
struct Text;
macro_rules! shown {
    ($($f:ident($a:ty))*) => { $(fn $f(self, v: $a) -> R<Option<String>> { Ok(Some(v.to_string())) })* };
}
impl ser::Serializer for Text {
    type Ok = Option<String>;
    type Error = Bad;
    type SerializeSeq = Im<Self::Ok, Bad>;
    type SerializeTuple = Im<Self::Ok, Bad>;
    type SerializeTupleStruct = Im<Self::Ok, Bad>;
    type SerializeTupleVariant = Im<Self::Ok, Bad>;
    type SerializeMap = Im<Self::Ok, Bad>;
    type SerializeStruct = Im<Self::Ok, Bad>;
    type SerializeStructVariant = Im<Self::Ok, Bad>;
    shown! {serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64)
        serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64) serialize_char(char) serialize_str(&str)}
    refuse! {Self::Ok; serialize_f32(f32) serialize_f64(f64) serialize_bytes(&[u8])}
    fn serialize_unit_struct(self, n: &'static str) -> R<Self::Ok> { Ok(Some(n.to_string())) }
    fn serialize_none(self) -> R<Self::Ok> { Ok(None) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R<Self::Ok> { v.serialize(self) }
    fn serialize_unit(self) -> R<Self::Ok> { bad() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R<Self::Ok> { Ok(Some(v.to_string())) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R<Self::Ok> { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R<Self::Ok> { bad() }
    fn serialize_seq(self, _: Option<usize>) -> R<Self::SerializeSeq> { bad() }
    fn serialize_tuple(self, _: usize) -> R<Self::SerializeTuple> { bad() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self::SerializeTupleStruct> { bad() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeTupleVariant> { bad() }
    fn serialize_map(self, _: Option<usize>) -> R<Self::SerializeMap> { bad() }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Self::SerializeStruct> { bad() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeStructVariant> { bad() }
}
