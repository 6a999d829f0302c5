//! Decoding and Encoding of WebP Images

mod decoder;
mod encoder;

pub use self::decoder::WebPDecoder;
pub use self::encoder::WebPEncoder;
