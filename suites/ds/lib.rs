//! Data structures: staking, transactions, pools, voting and serialization against references
//! written from the documented rules.
mod requests;
mod staking;
mod superblock;
mod util;
mod wire;
pub use requests::*;
pub use staking::*;
pub use superblock::*;
pub use wire::*;
mod utxos;
pub use utxos::*;
mod building;
pub use building::*;
mod text;
pub use text::*;
mod clock;
pub use clock::*;
mod mempool;
pub use mempool::*;
mod priority;
pub use priority::*;
