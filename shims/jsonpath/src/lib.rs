//! Stand-in for jsonpath: supports `$`, `.name`, `[n]` and `..name`-free paths only.
use serde_json::Value;
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
enum Step {
    Key(String),
    Index(usize),
}
pub struct Selector(Vec<Step>);
impl Selector {
    pub fn new(s: &str) -> Result<Self, Error> {
        let bad = || Error(format!("unsupported path {s}"));
        let mut r = s.strip_prefix('$').ok_or_else(bad)?;
        let mut v = vec![];
        while !r.is_empty() {
            if let Some(x) = r.strip_prefix('.') {
                let n = x.find(['.', '[']).unwrap_or(x.len());
                if n == 0 {
                    return Err(bad());
                }
                v.push(Step::Key(x[..n].to_string()));
                r = &x[n..];
            } else if let Some(x) = r.strip_prefix('[') {
                let n = x.find(']').ok_or_else(bad)?;
                v.push(Step::Index(x[..n].parse().map_err(|_| bad())?));
                r = &x[n + 1..];
            } else {
                return Err(bad());
            }
        }
        Ok(Selector(v))
    }
    pub fn find<'a>(&self, root: &'a Value) -> std::vec::IntoIter<&'a Value> {
        let mut cur = Some(root);
        for s in &self.0 {
            cur = cur.and_then(|c| match s {
                Step::Key(k) => c.get(k),
                Step::Index(i) => c.get(i),
            });
        }
        cur.into_iter().collect::<Vec<_>>().into_iter()
    }
}
