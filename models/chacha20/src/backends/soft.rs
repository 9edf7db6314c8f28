//! Portable implementation which does not rely on architecture-specific
//! intrinsics.

use crate::{Block, ChaChaCore, Unsigned, STATE_WORDS};
use cipher::{
    consts::{U1, U64},
    BlockSizeUser, ParBlocksSizeUser, StreamBackend,
};

pub(crate) struct Backend<'a, R: Unsigned>(pub(crate) &'a mut ChaChaCore<R>);

impl<'a, R: Unsigned> BlockSizeUser for Backend<'a, R> {
    type BlockSize = U64;
}

impl<'a, R: Unsigned> ParBlocksSizeUser for Backend<'a, R> {
    type ParBlocksSize = U1;
}

impl<'a, R: Unsigned> StreamBackend for Backend<'a, R> {
    #[inline(always)]
    fn gen_ks_block(&mut self, block: &mut Block) {
        let res = run_rounds::<R>(&self.0.state);
        self.0.state[12] = self.0.state[12].wrapping_add(1);

        for (chunk, val) in block.chunks_exact_mut(4).zip(res.iter()) {
            chunk.copy_from_slice(&val.to_le_bytes());
        }
    }
}

/// Model: the ChaCha block function is uninterpreted (same state, same block; nothing else is known).
#[inline(never)]
fn run_rounds<R: Unsigned>(state: &[u32; STATE_WORDS]) -> [u32; STATE_WORDS] {
    let mut i = [0u8; 65];
    for (c, v) in i.chunks_exact_mut(4).zip(state.iter()) {
        c.copy_from_slice(&v.to_le_bytes());
    }
    i[64] = R::U8;
    let mut o = [0u8; 64];
    nsx::uf(20, &i, &mut o);
    let mut res = [0u32; STATE_WORDS];
    for (v, c) in res.iter_mut().zip(o.chunks_exact(4)) {
        *v = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
    }
    res
}
