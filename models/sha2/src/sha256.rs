use digest::{generic_array::GenericArray, typenum::U64};

/// MODEL: the compression function is an uninterpreted function of state and block.
pub fn compress256(state: &mut [u32; 8], blocks: &[GenericArray<u8, U64>]) {
    for b in blocks {
        let mut i = [0u8; 96];
        for k in 0..8 {
            i[4 * k..4 * k + 4].copy_from_slice(&state[k].to_be_bytes());
        }
        i[32..].copy_from_slice(b);
        let mut o = [0u8; 32];
        nsx::uf(256, &i, &mut o);
        for k in 0..8 {
            state[k] = u32::from_be_bytes([o[4 * k], o[4 * k + 1], o[4 * k + 2], o[4 * k + 3]]);
        }
    }
}
