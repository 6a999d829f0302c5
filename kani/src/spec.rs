//! Specification functions: written from the documented file format, independently of
//! the implementation.

/// little-endian value of the `w` bytes at `p`, or None when they are not all in the buffer
pub fn le(b: &[u8], p: usize, w: usize) -> Option<u64> {
    if p > b.len() || w > b.len() - p {
        return None;
    }
    let mut v = 0u64;
    let mut i = w;
    while i > 0 {
        i -= 1;
        v = (v << 8) | b[p + i] as u64;
    }
    Some(v)
}
/// postcondition of a read that must yield `$want` (None: an error)
#[macro_export]
macro_rules! check {
    ($got:expr, $want:expr, $t:ty) => {{
        match $got {
            Ok(v) => {
                let w = $want;
                assert!(w.is_some(), "a read past the end succeeded");
                assert!(v as $t == w.unwrap() as $t, "wrong value");
            }
            Err(e) => {
                $crate::rt::leak(e);
                assert!($want.is_none(), "an in-range read failed");
            }
        }
    }};
}
