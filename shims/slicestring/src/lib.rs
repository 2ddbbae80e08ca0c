//! Stand-in for slicestring: slices by characters, clamping to the text.
use std::ops::RangeFrom;
pub trait Slice {
    fn slice(&self, r: RangeFrom<usize>) -> String;
}
impl Slice for String {
    fn slice(&self, r: RangeFrom<usize>) -> String {
        self.chars().skip(r.start).collect()
    }
}
