//! Model backend: Poly1305 as an uninterpreted function of the key and the blocks.
pub(crate) mod soft;
