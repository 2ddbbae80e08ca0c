//! Stand-in for sha2 in the encoding: an ideal function. The same bytes give the same output,
//! anything else gives an arbitrary one (possibly an equal one): no claim rests on collision
//! resistance, only on which bytes reach the hash and where its output goes. SHA-256 of bytes that are all
//! known is computed as it is (so that constant keys and pointers have their real hashes).
pub use digest::Digest;
use digest::generic_array::typenum::{U28, U32, U48, U64, U128};
use digest::generic_array::GenericArray;
use digest::{BlockInput, FixedOutput, Input, Reset};

#[derive(Clone, Default)]
struct St {
    buf: Vec<u8>,
}
struct Table {
    run: u64,
    rows: Vec<(u64, Vec<u8>, Vec<u8>)>,
}
static mut TABLE: Table = Table { run: 0, rows: Vec::new() };

impl St {
    fn out(&self, n: usize, tag: u64) -> Vec<u8> {
        let known = tag == 256 && nd::known(&self.buf);
        let injective = nd::collisions_are_excluded();
        if known && !injective {
            return sha256(&self.buf).to_vec();
        }
        // single-threaded by construction: one harness runs at a time
        let t = unsafe { &mut *(&raw mut TABLE) };
        if t.run != nd::run_id() {
            t.run = nd::run_id();
            t.rows = Vec::new();
        }
        for (g, x, y) in t.rows.iter() {
            if *g == tag && (nd::same(x, &self.buf) || injective && *x == self.buf) {
                return y.clone();
            }
        }
        let mut o = vec![];
        if known {
            o = sha256(&self.buf).to_vec();
        }
        while o.len() < n {
            o.extend_from_slice(&nd::u64("ideal hash").to_be_bytes());
        }
        o.truncate(n);
        if injective {
            for (g, _, y) in t.rows.iter() {
                nd::assume(*g != tag || *y != o);
            }
        }
        t.rows.push((tag, self.buf.clone(), o.clone()));
        o
    }
}

macro_rules! h {
    ($n:ident, $o:ty, $b:ty, $len:expr, $tag:expr) => {
        #[derive(Clone, Default)]
        pub struct $n(St);
        impl BlockInput for $n {
            type BlockSize = $b;
        }
        impl Input for $n {
            fn input<B: AsRef<[u8]>>(&mut self, x: B) {
                self.0.buf.extend_from_slice(x.as_ref());
            }
        }
        impl FixedOutput for $n {
            type OutputSize = $o;
            fn fixed_result(self) -> GenericArray<u8, $o> {
                GenericArray::clone_from_slice(&self.0.out($len, $tag))
            }
        }
        impl Reset for $n {
            fn reset(&mut self) {
                self.0.buf.clear();
            }
        }
    };
}
h!(Sha224, U28, U64, 28, 224);
h!(Sha256, U32, U64, 32, 256);
h!(Sha384, U48, U128, 48, 384);
h!(Sha512, U64, U128, 64, 512);

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
fn sha256(m: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend_from_slice(&(m.len() as u64 * 8).to_be_bytes());
    for b in p.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        for i in 16..64 {
            let a = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let c = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(a).wrapping_add(w[i - 7]).wrapping_add(c);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let t1 = v[7].wrapping_add(s1).wrapping_add((v[4] & v[5]) ^ (!v[4] & v[6])).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
