//! Stand-in for minidom: no document parses.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("XML is not supported by this stand-in")
    }
}
impl std::error::Error for Error {}
pub enum Node {
    Element(Element),
    Text(String),
}
pub struct Element {
    name: String,
    attrs: Vec<(String, String)>,
    nodes: Vec<Node>,
}
impl Element {
    pub fn attrs(&self) -> impl Iterator<Item = (&str, &str)> {
        self.attrs.iter().map(|(a, b)| (a.as_str(), b.as_str()))
    }
    pub fn nodes(&self) -> std::slice::Iter<'_, Node> {
        self.nodes.iter()
    }
    pub fn name(&self) -> &str {
        &self.name
    }
}
impl std::str::FromStr for Element {
    type Err = Error;
    fn from_str(_: &str) -> Result<Self, Error> {
        Err(Error)
    }
}
