//! Stand-in for the part of U256 that witnet-rust uses (ethereum-types is not available offline).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct U256([u64; 4]); // most significant first

impl From<u64> for U256 {
    fn from(x: u64) -> Self {
        U256([0, 0, 0, x])
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl U256 {
    pub fn from_big_endian(b: &[u8]) -> Self {
        assert!(32 >= b.len());
        let mut x = [0u8; 32];
        x[32 - b.len()..].copy_from_slice(b);
        let w = |i: usize| {
            let mut t = [0u8; 8];
            t.copy_from_slice(&x[i * 8..i * 8 + 8]);
            u64::from_be_bytes(t)
        };
        U256([w(0), w(1), w(2), w(3)])
    }
    pub fn to_big_endian(&self) -> [u8; 32] {
        let mut x = [0u8; 32];
        for i in 0..4 {
            x[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_be_bytes());
        }
        x
    }
    pub fn low_u64(&self) -> u64 {
        self.0[3]
    }
    /// Word by word; the divisors in use fit one word.
    pub fn div_mod(self, n: U256) -> (U256, U256) {
        assert!(n.0[0] == 0 && n.0[1] == 0 && n.0[2] == 0, "the stand-in divides by one word only");
        let d = n.0[3];
        assert!(d != 0, "division by zero");
        let mut r = 0u64;
        let mut q = [0u64; 4];
        for i in 0..4 {
            let cur = ((r as u128) << 64) | self.0[i] as u128;
            q[i] = (cur / d as u128) as u64;
            r = (cur % d as u128) as u64;
        }
        (U256(q), U256::from(r))
    }
}
