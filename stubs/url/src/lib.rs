//! Stand-in for `url`: a base (scheme and authority), a path and a query, and RFC 3986's joining of
//! references without dot segments.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Url {
    base: String,
    path: String,
    query: Option<String>,
    text: String,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ParseError(());
impl core::fmt::Display for ParseError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("invalid url")
    }
}
impl std::error::Error for ParseError {}
impl Url {
    pub fn parse(s: &str) -> Result<Url, ParseError> {
        let i = s.find("://").ok_or(ParseError(()))? + 3;
        let (base, rest) = s.split_at(s[i..].find('/').map(|k| i + k).unwrap_or(s.len()));
        let (path, query) = split(rest);
        Ok(Url::new(base.to_string(), if path.is_empty() { "/".to_string() } else { path }, query))
    }
    pub fn join(&self, reference: &str) -> Result<Url, ParseError> {
        if reference.contains("://") {
            return Url::parse(reference);
        }
        let (path, query) = split(reference);
        let path = if path.starts_with('/') {
            path
        } else if path.is_empty() {
            self.path.clone()
        } else {
            let mut p = self.path[..=self.path.rfind('/').unwrap()].to_string();
            p.push_str(&path);
            p
        };
        Ok(Url::new(self.base.clone(), path, query))
    }
    pub fn scheme(&self) -> &str {
        &self.base[..self.base.find("://").unwrap()]
    }
    pub fn into_string(self) -> String {
        self.text
    }
    pub fn path(&self) -> &str {
        &self.path
    }
    pub fn query(&self) -> Option<&str> {
        self.query.as_deref()
    }
    pub fn as_str(&self) -> &str {
        &self.text
    }
    pub fn set_query(&mut self, query: Option<&str>) {
        *self = Url::new(core::mem::take(&mut self.base), core::mem::take(&mut self.path), query.map(|q| q.to_string()));
    }
    pub fn set_path(&mut self, path: &str) {
        let path = if path.starts_with('/') { path.to_string() } else { format!("/{path}") };
        *self = Url::new(core::mem::take(&mut self.base), path, self.query.take());
    }
    fn new(base: String, path: String, query: Option<String>) -> Url {
        let mut text = base.clone();
        text.push_str(&path);
        if let Some(q) = &query {
            text.push('?');
            text.push_str(q);
        }
        Url { base, path, query, text }
    }
}
fn split(s: &str) -> (String, Option<String>) {
    match s.find('?') {
        Some(i) => (s[..i].to_string(), Some(s[i + 1..].to_string())),
        None => (s.to_string(), None),
    }
}
impl core::fmt::Display for Url {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.text)
    }
}
impl From<Url> for String {
    fn from(u: Url) -> String {
        u.text
    }
}
impl AsRef<str> for Url {
    fn as_ref(&self) -> &str {
        &self.text
    }
}
impl core::str::FromStr for Url {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        Url::parse(s)
    }
}
