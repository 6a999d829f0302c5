//! Verification stand-in for `flate2`: the zlib-ng C library cannot be executed by
//! Kani.  `Decompress` keeps flate2's contract towards the caller (append at most the
//! spare capacity of the output vector, error on a malformed stream) for the
//! "stored" codec of this module: [2-byte zlib header when requested] [0x01] [any] payload.
//! TRUSTED: the real inflate returns the original bytes of a valid stream and an
//! error for a stream whose zlib header or block type is invalid.
use std::fmt;

pub const STORED: u8 = 0x01;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DecompressError(());
impl fmt::Display for DecompressError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("deflate decompression error")
    }
}
impl std::error::Error for DecompressError {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FlushDecompress {
    None = 0,
    Sync = 2,
    Finish = 4,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Status {
    Ok,
    BufError,
    StreamEnd,
}
#[derive(Debug)]
pub struct Decompress {
    zlib: bool,
}
impl Decompress {
    pub fn new(zlib_header: bool) -> Decompress {
        Decompress { zlib: zlib_header }
    }
    pub fn decompress_vec(
        &mut self,
        input: &[u8],
        output: &mut Vec<u8>,
        _flush: FlushDecompress,
    ) -> Result<Status, DecompressError> {
        let mut i = 0;
        if self.zlib {
            if input.len() < 2 {
                return Ok(Status::BufError);
            }
            if (input[0] & 0x0f) != 8 || (input[0] as u16 * 256 + input[1] as u16) % 31 != 0 {
                return Err(DecompressError(()));
            }
            i = 2;
        }
        if input.len() <= i {
            return Ok(Status::BufError);
        }
        if input[i] != STORED || input.len() <= i + 1 {
            return Err(DecompressError(()));
        }
        i += 2;
        let room = output.capacity() - output.len();
        let n = if input.len() - i < room { input.len() - i } else { room };
        output.extend_from_slice(&input[i..i + n]);
        Ok(Status::Ok)
    }
}
