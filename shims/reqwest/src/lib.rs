//! Stand-in for reqwest: the types that the retrieval code mentions; nothing is ever sent.
pub use http::header;
pub use url::Url;
#[derive(Clone, Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no network")
    }
}
impl std::error::Error for Error {}
pub struct Body;
impl From<Vec<u8>> for Body {
    fn from(_: Vec<u8>) -> Self {
        Body
    }
}
pub struct RequestBuilder;
impl RequestBuilder {
    pub fn body(self, _: Body) -> Self {
        self
    }
    pub fn headers(self, _: header::HeaderMap) -> Self {
        self
    }
}
pub struct Response {
    headers: header::HeaderMap,
}
impl Response {
    pub fn status(&self) -> http::StatusCode {
        http::StatusCode::OK
    }
    pub fn headers(&self) -> &header::HeaderMap {
        &self.headers
    }
    pub async fn bytes(self) -> Result<Vec<u8>, Error> {
        Err(Error)
    }
    pub async fn text(self) -> Result<String, Error> {
        Err(Error)
    }
}
