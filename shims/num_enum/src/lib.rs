//! Stand-in for num_enum: the two derives used by witnet-rust.
pub use vderive::{IntoPrimitive, TryFromPrimitive};

pub trait TryFromPrimitive: Sized {
    type Primitive: Copy + Eq + core::fmt::Debug;
    const NAME: &'static str;
    fn try_from_primitive(number: Self::Primitive) -> Result<Self, TryFromPrimitiveError<Self>>;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TryFromPrimitiveError<Enum: TryFromPrimitive> {
    pub number: Enum::Primitive,
}

impl<Enum: TryFromPrimitive> core::fmt::Display for TryFromPrimitiveError<Enum> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "No discriminant in enum `{}` matches the value `{:?}`", Enum::NAME, self.number)
    }
}

impl<Enum: TryFromPrimitive + core::fmt::Debug> std::error::Error for TryFromPrimitiveError<Enum> {}
