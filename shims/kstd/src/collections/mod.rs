pub use std::collections::*;

pub mod hash_map;
pub mod hash_set;

pub use hash_map::HashMap;
pub use hash_set::HashSet;
