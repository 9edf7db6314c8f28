//! Independent statement of chacha20-poly1305@openssh.com.
use nsx::*;

/// One ChaCha20 block with a 64-bit nonce and 64-bit counter (djb variant).
pub fn chacha_block(key: &[u8], nonce: [u8; 8], ctr: u64) -> [u8; 64] {
	let mut i = Vec::with_capacity(65);
	i.extend_from_slice(b"expand 32-byte k");
	i.extend_from_slice(key);
	i.extend_from_slice(&ctr.to_le_bytes());
	i.extend_from_slice(&nonce);
	i.push(10);
	let mut o = [0; 64];
	uf(20, &i, &mut o);
	o
}
pub fn chacha_xor(key: &[u8], nonce: [u8; 8], mut block: u64, d: &mut [u8]) {
	for c in d.chunks_mut(64) {
		let ks = chacha_block(key, nonce, block);
		for (a, b) in c.iter_mut().zip(ks) {
			*a ^= b
		}
		block += 1;
	}
}
pub fn poly(key: &[u8], d: &[u8]) -> [u8; 16] {
	let mut i = key.to_vec();
	for c in d.chunks(16) {
		let mut b = [0; 16];
		b[..c.len()].copy_from_slice(c);
		if c.len() < 16 {
			b[c.len()] = 1
		}
		i.extend_from_slice(&b);
		i.push((c.len() < 16) as u8);
	}
	let mut o = [0; 16];
	uf(1305, &i, &mut o);
	o
}
/// PROTOCOL.chacha20poly1305
pub struct Spec {
	pub main: Vec<u8>,
	pub header: Vec<u8>,
	pub seq: u64,
}
impl Spec {
	pub fn nonce(&self) -> [u8; 8] { self.seq.to_be_bytes() }
	pub fn tag(&self, d: &[u8]) -> [u8; 16] { poly(&chacha_block(&self.main, self.nonce(), 0)[..32], d) }
	pub fn seal(&mut self, plain: &[u8]) -> Vec<u8> {
		let mut v = plain.to_vec();
		chacha_xor(&self.header, self.nonce(), 0, &mut v[..4]);
		chacha_xor(&self.main, self.nonce(), 1, &mut v[4..]);
		let t = self.tag(&v);
		v.extend_from_slice(&t);
		self.seq += 1;
		v
	}
}
