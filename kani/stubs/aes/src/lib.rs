//! Verification stand-in for `aes`: a cheap keyed 16-byte block permutation behind the
//! same traits.  AES itself (dependency) is not verified; what is verified is how
//! the crate drives the block cipher (which block, which key, in which order).
//! TRUSTED: the real `aes::Aes256` is a deterministic function of (key, block).
pub use cipher;
use cipher::{
    consts::{U1, U16, U32},
    generic_array::GenericArray,
    inout::InOut,
    BlockBackend, BlockCipher, BlockClosure, BlockEncrypt, BlockSizeUser, Key, KeyInit,
    KeySizeUser, ParBlocksSizeUser,
};

pub type Block = GenericArray<u8, U16>;

#[derive(Clone)]
pub struct Aes256 {
    key: [u8; 32],
}
impl KeySizeUser for Aes256 {
    type KeySize = U32;
}
impl KeyInit for Aes256 {
    fn new(key: &Key<Self>) -> Self {
        let mut k = [0u8; 32];
        k.copy_from_slice(key.as_slice());
        Aes256 { key: k }
    }
}
impl BlockCipher for Aes256 {}
impl BlockSizeUser for Aes256 {
    type BlockSize = U16;
}
struct Back<'a>(&'a Aes256);
impl<'a> BlockSizeUser for Back<'a> {
    type BlockSize = U16;
}
impl<'a> ParBlocksSizeUser for Back<'a> {
    type ParBlocksSize = U1;
}
impl<'a> BlockBackend for Back<'a> {
    fn proc_block(&mut self, mut block: InOut<'_, '_, Block>) {
        let mut b = [0u8; 16];
        b.copy_from_slice(block.get_in().as_slice());
        let out = block.get_out();
        // rotate the block by one byte and add the two key halves and the position
        macro_rules! st { ($($i:literal)*) => { $(
            out[$i] = b[($i + 5) % 16]
                .wrapping_add(self.0.key[$i])
                .wrapping_add($i * 7 + 1)
                ^ self.0.key[$i + 16];
        )* } }
        st!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    }
}
impl BlockEncrypt for Aes256 {
    fn encrypt_with_backend(&self, f: impl BlockClosure<BlockSize = U16>) {
        f.call(&mut Back(self))
    }
}
