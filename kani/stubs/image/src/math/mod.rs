//! Mathematical helper functions and types.
mod rect;
mod utils;

pub use self::rect::Rect;
pub(super) use utils::resize_dimensions;
