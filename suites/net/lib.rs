//! Peers, sessions and the configuration.
mod peers;
mod sessions;
mod settings;
pub use peers::*;
pub use sessions::*;
pub use settings::*;
