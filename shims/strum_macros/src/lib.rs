pub use vderive::{Display, EnumIter, EnumString, IntoStaticStr};
