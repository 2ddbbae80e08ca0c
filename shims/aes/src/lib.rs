//! Stand-in for the AES block function in the encoding: a keyed permutation of 16-byte blocks that
//! depends on every key byte. CBC and the padding (block-modes) are the real crates.
pub use cipher::{self, BlockCipher, BlockDecrypt, BlockEncrypt, NewBlockCipher};
use cipher::consts::{U1, U16, U24, U32};
use cipher::generic_array::GenericArray;
pub type Block = GenericArray<u8, U16>;
pub const BLOCK_SIZE: usize = 16;
macro_rules! a {
    ($n:ident, $k:ty, $l:expr) => {
        #[derive(Clone)]
        pub struct $n([u8; $l]);
        impl NewBlockCipher for $n {
            type KeySize = $k;
            fn new(key: &GenericArray<u8, $k>) -> Self {
                let mut k = [0; $l];
                k.copy_from_slice(key);
                $n(k)
            }
        }
        impl BlockCipher for $n {
            type BlockSize = U16;
            type ParBlocks = U1;
        }
        impl $n {
            fn sub(&self, i: usize) -> u8 {
                let mut x = self.0[i] ^ (i as u8);
                if i + 16 < $l {
                    x ^= self.0[i + 16].rotate_left(1);
                }
                x
            }
        }
        impl BlockEncrypt for $n {
            fn encrypt_block(&self, b: &mut Block) {
                let c = b.clone();
                for i in 0..16 {
                    b[(i + 5) % 16] = c[i] ^ self.sub(i);
                }
            }
        }
        impl BlockDecrypt for $n {
            fn decrypt_block(&self, b: &mut Block) {
                let c = b.clone();
                for i in 0..16 {
                    b[i] = c[(i + 5) % 16] ^ self.sub(i);
                }
            }
        }
    };
}
a!(Aes128, U16, 16);
a!(Aes192, U24, 24);
a!(Aes256, U32, 32);
