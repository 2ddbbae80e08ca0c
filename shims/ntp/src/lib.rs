//! Stand-in for the ntp crate: no server ever answers.
pub mod unix_time {
    #[derive(Copy, Clone, Debug)]
    pub struct Instant;
    impl Instant {
        pub fn secs(&self) -> i64 { 0 }
        pub fn subsec_nanos(&self) -> i32 { 0 }
    }
    impl From<u64> for Instant {
        fn from(_: u64) -> Self { Instant }
    }
}
pub struct Packet {
    pub receive_timestamp: u64,
}
pub fn request<A: std::fmt::Display>(_a: A) -> std::io::Result<Packet> {
    Err(std::io::Error::new(std::io::ErrorKind::NotConnected, "no network"))
}
