//! Stand-in for tokio: a timeout that never expires.
pub mod time {
    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed;
    }
    pub async fn timeout<F: std::future::Future>(_: std::time::Duration, f: F) -> Result<F::Output, error::Elapsed> {
        Ok(f.await)
    }
}
