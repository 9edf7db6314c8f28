//! Model: the tag is an uninterpreted function of key and blocks.
extern crate alloc;
use crate::{Block, Key, Tag};
use alloc::vec::Vec;
use universal_hash::generic_array::GenericArray;

#[derive(Clone)]
pub(crate) struct State {
    key: [u8; 32],
    data: Vec<u8>,
}

impl State {
    pub(crate) fn new(key: &Key) -> State {
        let mut k = [0; 32];
        k.copy_from_slice(key);
        State { key: k, data: Vec::new() }
    }
    pub(crate) fn reset(&mut self) {
        self.data.clear();
    }
    pub(crate) fn compute_block(&mut self, block: &Block, partial: bool) {
        self.data.extend_from_slice(block);
        self.data.push(partial as u8);
    }
    pub(crate) fn finalize(&mut self) -> Tag {
        let mut i = Vec::with_capacity(32 + self.data.len());
        i.extend_from_slice(&self.key);
        i.extend_from_slice(&self.data);
        let mut o = GenericArray::default();
        nsx::uf(1305, &i, &mut o);
        Tag::new(o)
    }
}
