//! Verification stand-in for `c2-chacha`: a cheap keyed keystream with the parts of
//! the API the crate uses.  TRUSTED: the real ChaCha20 is a deterministic function of
//! (key, nonce, block counter); the cipher itself (dependency) is not verified.
pub mod stream_cipher {
    #[derive(Debug)]
    pub struct InvalidKeyNonceLength;
    pub trait NewStreamCipher: Sized {
        fn new_var(key: &[u8], nonce: &[u8]) -> Result<Self, InvalidKeyNonceLength>;
    }
    pub trait SyncStreamCipher {
        fn apply_keystream(&mut self, data: &mut [u8]);
    }
}
#[derive(Clone, Debug)]
pub struct ChaChaState {
    key: [u8; 32],
    nonce: [u8; 12],
    counter: u64,
}
impl ChaChaState {
    pub fn set_stream_param(&mut self, param: u32, value: u64) {
        if param == 0 {
            self.counter = value;
        }
    }
}
#[derive(Clone, Debug)]
pub struct Buffer {
    pub state: ChaChaState,
    have: u8,
}
#[derive(Clone, Debug)]
pub struct Ietf {
    pub state: Buffer,
}
impl stream_cipher::NewStreamCipher for Ietf {
    fn new_var(key: &[u8], nonce: &[u8]) -> Result<Self, stream_cipher::InvalidKeyNonceLength> {
        if key.len() != 32 || nonce.len() != 12 {
            return Err(stream_cipher::InvalidKeyNonceLength);
        }
        let mut k = [0; 32];
        k.copy_from_slice(key);
        let mut n = [0; 12];
        n.copy_from_slice(nonce);
        Ok(Ietf {
            state: Buffer {
                state: ChaChaState { key: k, nonce: n, counter: 0 },
                have: 0,
            },
        })
    }
}
impl stream_cipher::SyncStreamCipher for Ietf {
    fn apply_keystream(&mut self, data: &mut [u8]) {
        let mut i = 0;
        while i < data.len() {
            let p = self.state.have as usize;
            let s = &self.state.state;
            data[i] ^= s.key[p % 32]
                .wrapping_add(s.nonce[p % 12])
                .wrapping_add((s.counter as u8).wrapping_mul(31))
                .wrapping_add(p as u8)
                ^ ((s.counter >> 8) as u8);
            self.state.have += 1;
            if self.state.have == 64 {
                self.state.have = 0;
                self.state.state.counter = self.state.state.counter.wrapping_add(1);
            }
            i += 1;
        }
    }
}
