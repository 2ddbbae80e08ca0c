//! Stand-in for strum: what the derives used by witnet-rust need.
pub trait IntoEnumIterator: Sized {
    type Iterator: Iterator<Item = Self> + Clone + DoubleEndedIterator + ExactSizeIterator;
    fn iter() -> Self::Iterator;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ParseError {
    VariantNotFound,
}
impl core::fmt::Display for ParseError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Matching variant not found")
    }
}
impl std::error::Error for ParseError {}
