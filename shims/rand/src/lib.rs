//! Stand-in for the system's source of randomness in the encoding: arbitrary bytes.
use std::fmt;
#[derive(Debug)]
pub struct Error(&'static str);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
pub trait RngCore {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]);
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>;
}
fn fill(dest: &mut [u8]) {
    for b in dest {
        *b = nd::u8("random byte");
    }
}
macro_rules! r {
    ($n:ident) => {
        #[derive(Clone, Copy, Default, Debug)]
        pub struct $n;
        impl RngCore for $n {
            fn fill_bytes(&mut self, dest: &mut [u8]) {
                fill(dest)
            }
            fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
                if nd::pick("random source fails", 0, 1) == 1 {
                    return Err(Error("no randomness"));
                }
                fill(dest);
                Ok(())
            }
        }
    };
}
pub mod rngs {
    use super::*;
    r!(OsRng);
    r!(ThreadRng);
}
pub fn thread_rng() -> rngs::ThreadRng {
    rngs::ThreadRng
}
/// Uniform choice: any value of the range.
pub trait Rng: RngCore {
    fn gen_range(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo < hi, "cannot sample empty range");
        nd::range("random number", lo as u64, hi as u64 - 1) as usize
    }
    fn r#gen<T: Arbitrary>(&mut self) -> T {
        T::arbitrary()
    }
}
impl<T: RngCore> Rng for T {}
pub mod seq {
    use super::*;
    /// Any choice of elements.
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: Rng>(self, rng: &mut R) -> Option<Self::Item> {
            let mut v: Vec<Self::Item> = self.collect();
            if v.is_empty() {
                return None;
            }
            let i = nd::pick("random element", 0, v.len() - 1);
            let _ = rng;
            Some(v.swap_remove(i))
        }
        fn choose_multiple<R: Rng>(self, rng: &mut R, n: usize) -> Vec<Self::Item> {
            let mut v: Vec<Self::Item> = self.collect();
            let _ = rng;
            let mut r = Vec::new();
            while r.len() < n && !v.is_empty() {
                let i = nd::pick("random element", 0, v.len() - 1);
                r.push(v.remove(i));
            }
            r
        }
    }
    impl<I: Iterator + Sized> IteratorRandom for I {}
}
pub trait Arbitrary {
    fn arbitrary() -> Self;
}
impl<const N: usize> Arbitrary for [u8; N] {
    fn arbitrary() -> Self {
        let mut a = [0; N];
        fill(&mut a);
        a
    }
}
impl Arbitrary for u64 {
    fn arbitrary() -> Self {
        nd::u64("random byte")
    }
}
pub fn random<T: Arbitrary>() -> T {
    T::arbitrary()
}
