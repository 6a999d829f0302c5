//! Shared fixtures: a decryptor with a symbolic keystream, and readers over buffers.
use crate::rt::*;
use std::sync::{Arc, RwLock};
use wz_reader::reader::*;
use wz_reader::util::string_decryptor::*;
use wz_reader::*;

pub const KEYLEN: usize = 32;

/// A decryptor whose keystream is given (first `KEYLEN` bytes, then repeated).
#[derive(Debug)]
pub struct D {
    pub k: [u8; KEYLEN],
    /// a key longer than this cannot be generated
    pub limit: usize,
}
impl Decryptor for D {
    fn get_iv_hash(&self) -> u64 {
        0
    }
    fn set_iv(&mut self, _iv: u64, _t: DecrypterType) {}
    fn is_enough(&self, size: usize) -> bool {
        size <= self.limit
    }
    fn is_pkg2(&self) -> bool {
        false
    }
    fn at(&mut self, index: usize) -> &u8 {
        &self.k[index % KEYLEN]
    }
    fn try_at(&self, index: usize) -> Option<&u8> {
        self.k.get(index % KEYLEN)
    }
    fn decrypt_slice(&self, data: &mut [u8]) {
        let mut i = 0;
        while i < data.len() {
            data[i] ^= self.k[i % KEYLEN];
            i += 1;
        }
    }
    fn ensure_key_size(&mut self, size: usize) -> std::result::Result<(), String> {
        if size <= self.limit {
            Ok(())
        } else {
            Err(String::new())
        }
    }
    fn get_enc_type(&self) -> DecrypterType {
        DecrypterType::Custom
    }
}

pub fn keyed(k: [u8; KEYLEN]) -> SharedWzStringDecryptor {
    Arc::new(RwLock::new(D { k, limit: usize::MAX }))
}
pub fn nokey() -> SharedWzStringDecryptor {
    keyed([0; KEYLEN])
}
/// `n` arbitrary keystream bytes followed by zeros
pub fn key_head<const N: usize>() -> [u8; KEYLEN] {
    let h: [u8; N] = any();
    let mut k = [0u8; KEYLEN];
    let mut i = 0;
    while i < N {
        k[i] = h[i];
        i += 1;
    }
    k
}

/// A reader over a copy of `b` (as a file mapping) with the given keys.
pub fn map_reader(b: &[u8], k: &SharedWzStringDecryptor, k2: &SharedWzStringDecryptor) -> Arc<WzReader> {
    let mut m = memmap2::MmapMut::map_anon(b.len()).unwrap();
    m.copy_from_slice(b);
    Arc::new(WzReader {
        map: m.make_read_only().unwrap(),
        header: WzHeader::default(),
        keys: k.clone(),
        pkg2_keys: k2.clone(),
    })
}
pub fn plain_reader(b: &[u8]) -> Arc<WzReader> {
    let k = nokey();
    map_reader(b, &k, &k)
}
