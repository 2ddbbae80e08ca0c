//! Stand-in for regex in the encoding: patterns without special characters.
#[derive(Debug, Clone, PartialEq)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("pattern not supported by the stand-in")
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone)]
pub struct Regex(String);
impl Regex {
    pub fn new(p: &str) -> Result<Self, Error> {
        if p.is_empty() || p.bytes().any(|b| b"\\.+*?()|[]{}^$".contains(&b)) {
            return Err(Error);
        }
        Ok(Regex(p.to_string()))
    }
    pub fn replace_all<'t>(&self, s: &'t str, r: String) -> std::borrow::Cow<'t, str> {
        std::borrow::Cow::Owned(s.replace(&self.0, &r))
    }
    pub fn split<'r, 't>(&'r self, s: &'t str) -> std::str::Split<'t, &'r str> {
        s.split(self.0.as_str())
    }
}
