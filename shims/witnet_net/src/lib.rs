//! Stand-in for witnet_net (its own dependencies are not available offline): no request succeeds.
pub type Uri = reqwest::Url;
pub mod client {
    pub mod http {
        pub type WitnetHttpBody = reqwest::Body;
        #[derive(Clone, Debug)]
        pub struct WitnetHttpClient;
        #[derive(Clone, Debug, Eq, PartialEq)]
        pub struct WitnetHttpError;
        impl std::fmt::Display for WitnetHttpError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("no network")
            }
        }
        impl std::error::Error for WitnetHttpError {}
        pub struct WitnetHttpResponse(reqwest::Response);
        impl WitnetHttpResponse {
            pub fn inner(self) -> reqwest::Response {
                self.0
            }
        }
        impl WitnetHttpClient {
            pub fn new(_: Option<reqwest::Url>, _: bool) -> Result<Self, WitnetHttpError> {
                Ok(Self)
            }
            pub async fn send(&self, _: reqwest::RequestBuilder, _: Option<std::time::Duration>) -> Result<WitnetHttpResponse, WitnetHttpError> {
                Err(WitnetHttpError)
            }
            pub fn get(self, _: reqwest::Url) -> reqwest::RequestBuilder {
                reqwest::RequestBuilder
            }
            pub fn post(self, _: reqwest::Url) -> reqwest::RequestBuilder {
                reqwest::RequestBuilder
            }
            pub fn head(self, _: reqwest::Url) -> reqwest::RequestBuilder {
                reqwest::RequestBuilder
            }
        }
    }
}
