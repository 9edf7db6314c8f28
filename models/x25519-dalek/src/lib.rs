//! MODEL of x25519-dalek: same interface, with the base-point multiplication
//! and the shared secret as uninterpreted functions. The first byte of a
//! shared secret is in 0x40..=0x7f (which fixes the length of its encoding)
//! unless mode FREE_SECRET is on; then it is any value, all zero included.

use rand_core::{CryptoRng, RngCore};

#[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
pub struct PublicKey([u8; 32]);
impl From<[u8; 32]> for PublicKey {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
impl PublicKey {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
fn base(k: &[u8; 32]) -> PublicKey {
    let mut o = [0; 32];
    nsx::uf(25519, k, &mut o);
    PublicKey(o)
}
/// k times u, given base(k) and u.
pub fn shared(own: &[u8; 32], their: &[u8; 32]) -> [u8; 32] {
    let mut i = [0; 64];
    i[..32].copy_from_slice(own);
    i[32..].copy_from_slice(their);
    let mut o = [0; 32];
    nsx::uf(25520, &i, &mut o);
    if !nsx::mode(nsx::FREE_SECRET) {
        o[0] = o[0] & 0x3f | 0x40;
    }
    o
}
fn clamp(mut s: [u8; 32]) -> [u8; 32] {
    s[0] &= 248;
    s[31] &= 127;
    s[31] |= 64;
    s
}
pub fn x25519(k: [u8; 32], u: [u8; 32]) -> [u8; 32] {
    let k = clamp(k);
    if u == X25519_BASEPOINT_BYTES {
        base(&k).0
    } else {
        shared(&base(&k).0, &u)
    }
}
pub const X25519_BASEPOINT_BYTES: [u8; 32] = {
    let mut b = [0; 32];
    b[0] = 9;
    b
};
pub struct SharedSecret([u8; 32]);
impl SharedSecret {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    #[must_use]
    pub fn was_contributory(&self) -> bool {
        let mut x = 0;
        for b in self.0 {
            x |= b;
        }
        x != 0
    }
}
macro_rules! secret {
    ($n:ident, $s:ty) => {
        pub struct $n([u8; 32]);
        impl $n {
            pub fn new<T: RngCore + CryptoRng>(mut csprng: T) -> Self {
                let mut b = [0; 32];
                csprng.fill_bytes(&mut b);
                Self(clamp(b))
            }
            pub fn diffie_hellman(self: $s, their: &PublicKey) -> SharedSecret {
                SharedSecret(shared(&base(&self.0).0, &their.0))
            }
        }
        impl From<&$n> for PublicKey {
            fn from(s: &$n) -> Self {
                base(&s.0)
            }
        }
    };
}
secret!(EphemeralSecret, Self);
secret!(StaticSecret, &Self);
#[cfg(feature = "reusable_secrets")]
secret!(ReusableSecret, &Self);
impl StaticSecret {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
}
impl From<[u8; 32]> for StaticSecret {
    fn from(b: [u8; 32]) -> Self {
        Self(clamp(b))
    }
}
