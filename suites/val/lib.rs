//! Validation rules against what they are documented to accept.
pub mod util;
mod blocks;
mod candidates;
mod ledger;
mod requests;
mod tallies;
mod witnesses;
mod transactions;
pub use blocks::*;
pub use candidates::*;
pub use ledger::*;
pub use requests::*;
pub use tallies::*;
pub use witnesses::*;
pub use transactions::*;
