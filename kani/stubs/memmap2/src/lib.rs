//! Verification stand-in for `memmap2`: a heap-backed map.  Kani cannot execute
//! the mmap system call.  TRUSTED: a map of a buffer/file holds exactly its bytes.
use std::ops::{Deref, DerefMut};

#[derive(Debug)]
pub struct Mmap(Vec<u8>);
#[derive(Debug)]
pub struct MmapMut(Vec<u8>);

impl Mmap {
    /// # Safety
    /// none needed, kept `unsafe` for signature compatibility
    pub unsafe fn map(file: &std::fs::File) -> std::io::Result<Mmap> {
        use std::io::Read;
        let mut v = Vec::new();
        let mut f = file;
        f.read_to_end(&mut v)?;
        Ok(Mmap(v))
    }
}
impl MmapMut {
    pub fn map_anon(length: usize) -> std::io::Result<MmapMut> {
        Ok(MmapMut(vec![0; length]))
    }
    pub fn make_read_only(self) -> std::io::Result<Mmap> {
        Ok(Mmap(self.0))
    }
}
impl Deref for Mmap {
    type Target = [u8];
    #[inline]
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for Mmap {
    #[inline]
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Deref for MmapMut {
    type Target = [u8];
    #[inline]
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl DerefMut for MmapMut {
    #[inline]
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl AsRef<[u8]> for MmapMut {
    #[inline]
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
