use crate::model::put_mpint;
use crate::spec::*;
use digest::{consts::U32, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use nora_ssh_core::cipher::*;
use nora_ssh_core::key_exchange::*;
use nsx::*;

/// A hash function about which nothing is known but that it is a function.
#[derive(Default)]
pub struct H(Vec<u8>);
impl OutputSizeUser for H {
	type OutputSize = U32;
}
impl Update for H {
	fn update(&mut self, d: &[u8]) { self.0.extend_from_slice(d) }
}
impl FixedOutput for H {
	fn finalize_into(self, out: &mut Output<Self>) { uf(256, &self.0, out) }
}
impl HashMarker for H {}
fn hash(parts: &[&[u8]]) -> [u8; 32] {
	let v = parts.concat();
	let mut o = [0; 32];
	uf(256, &v, &mut o);
	o
}
/// RFC 4253 section 7.2.
fn derive(k: &[u8], h: &[u8], letter: u8, blocks: usize) -> Vec<u8> {
	let mut out = hash(&[k, h, &[letter], h]).to_vec();
	while out.len() < blocks * 32 {
		let n = hash(&[k, h, &out]);
		out.extend_from_slice(&n);
	}
	out
}
fn setup() -> (ChaCha20Poly1305, ChaCha20Poly1305, Spec, u64) {
	let mut secret = sym::<32>();
	let h = sym::<32>();
	secret[0] = 0x41; // the integer encoding is decided elsewhere
	let c2s = choose(2) == 0;
	let seq = sym_u64();
	assume(seq < u64::MAX - 100);
	let mut k = Vec::new();
	put_mpint(&mut k, &secret);
	let key = derive(&k, &h, if c2s { b'C' } else { b'D' }, 2);
	let mat = KeyMaterial::<H>::new(secret, h);
	let mk = || ChaCha20Poly1305::from_key_material(&mat, if c2s { Direction::ClientToServer } else { Direction::ServerToClient }, seq);
	(mk(), mk(), Spec { main: key[..32].to_vec(), header: key[32..].to_vec(), seq }, seq)
}
const LENS: &[usize] = &[8, 16, 12, 56, 60, 64, 68, 120, 124, 128, 132, 200];
fn lens() -> usize { LENS[choose(12)] }

fn spec_tag(s: &Spec, d: &[u8]) -> Vec<u8> {
	// of the packet just sealed
	let s = Spec { main: s.main.clone(), header: s.header.clone(), seq: s.seq - 1 };
	s.tag(d).to_vec()
}

harnesses! {
	/// Two packets in a row, all key material, sequence numbers and contents.
	fn h_seal() {
		let (mut c, _, mut spec, _) = setup();
		for n in [lens(), 16] {
			let plain = sym_vec(4 + n);
			let mut d = plain.clone();
			d.extend(sym::<16>());
			let want = spec.seal(&plain);
			c.encrypt(&mut d);
			check(eq(&d[..4], &want[..4]), "seal: encrypted length");
			check(eq(&d[4..4 + n], &want[4..4 + n]), "seal: encrypted body");
			check(eq(&d[4 + n..], &want[4 + n..]), "seal: authentication tag");
			obs_bytes(&d);
		}
		check(c.tag_size() == 16 && matches!(c.block_size(), nora_ssh_core::packet::BlockSize::B8), "seal: sizes");
		cover("sealed");
	}
	/// Arbitrary bytes from the network: accepted iff the tag is right, and then decrypted exactly.
	fn h_open() {
		let (mut c, _, mut spec, _) = setup();
		for (i, n) in [(0, lens()), (1, 16)] {
			let wire = sym_vec(4 + n + 16);
			let mut l = [wire[0], wire[1], wire[2], wire[3]];
			let got = c.decrypt_length(l).ok().expect("length");
			chacha_xor(&spec.header, spec.nonce(), 0, &mut l);
			check(eq(&got, &l), "open: decrypted length");
			let again = c.decrypt_length([wire[0], wire[1], wire[2], wire[3]]).ok().expect("length");
			check(eq(&again, &l), "open: reading the length does not advance the stream");
			let mut d = wire.clone();
			let good = eq(&spec.tag(&wire[..4 + n]), &wire[4 + n..]);
			match c.decrypt_data(&mut d) {
				Ok(()) => {
					check(good, "open: a packet with a wrong tag is refused");
					let mut p = wire[4..4 + n].to_vec();
					chacha_xor(&spec.main, spec.nonce(), 1, &mut p);
					check(eq(&d[4..4 + n], &p), "open: decrypted body");
					spec.seq += 1;
					if i == 1 { cover("opened") }
				}
				Err(_) => {
					check(!good, "open: an authentic packet is accepted");
					check(eq(&d[4..], &wire[4..]), "open: nothing of a refused packet is decrypted");
					cover("refused");
					return;
				}
			}
		}
	}
	/// What one side seals the other opens, in order; any reordering or replay is caught by the numbering.
	fn h_lockstep() {
		let (mut tx, mut rx, _, _) = setup();
		let mut first = Vec::new();
		for (i, n) in [lens(), 8, 24].into_iter().enumerate() {
			let plain = sym_vec(4 + n);
			let mut d = plain.clone();
			d.extend([0; 16]);
			tx.encrypt(&mut d);
			if i == 0 { first = d.clone() }
			let l = rx.decrypt_length([d[0], d[1], d[2], d[3]]).ok().expect("length");
			check(eq(&l, &plain[..4]), "lockstep: length");
			check(rx.decrypt_data(&mut d).is_ok(), "lockstep: the peer accepts every packet");
			check(eq(&d[4..4 + n], &plain[4..]), "lockstep: body");
		}
		cover("three packets");
		obs(first.len() as u64);
	}
	/// Large packets.
	fn h_cipher_large() {
		let (mut tx, mut rx, mut spec, _) = setup();
		for (i, n) in [[256, 1024, 16320, 16384, 34976, 264, 504, 4096, 16392, 248][choose(tier(7, 10))], 16].into_iter().enumerate() {
			let mut plain = vec![0x5a; 4 + n];
			fill(&mut plain[..8]);
			fill(&mut plain[n - 4..]);
			let mut d = plain.clone();
			d.extend([0; 16]);
			let want = spec.seal(&plain);
			tx.encrypt(&mut d);
			check(eq(&d, &want), "seal: large packets");
			// one changed byte, or none
			let at = [n / 2, 3 + n, 0, 3, 4, 4 + n, 19 + n][choose(if i == 0 { tier(2, 7) } else { 1 })];
			let x = if i == 0 { sym_u8() } else { 0 };
			let mut e = d.clone();
			e[at] ^= x;
			let good = eq(&spec_tag(&spec, &e[..4 + n]), &e[4 + n..]);
			if x == 0 {
				check(rx.decrypt_data(&mut e).is_ok(), "open: the peer accepts every packet");
				check(eq(&e[4..4 + n], &plain[4..]), "open: large packets");
				cover("opened");
			} else {
				assume(!good);
				check(rx.decrypt_data(&mut e).is_err(), "open: a changed byte is noticed");
				cover("refused");
				return;
			}
		}
	}
	/// Key derivation: every secret (with any leading zeroes), hash, purpose, direction and length.
	fn h_derive() {
		let secret = sym::<32>();
		let h = sym::<32>();
		let mut k = Vec::new();
		put_mpint(&mut k, &secret);
		let mat = KeyMaterial::<H>::new(secret, h);
		let blocks = 1 + choose(3);
		let dir = choose(2);
		let d = if dir == 0 { Direction::ClientToServer } else { Direction::ServerToClient };
		let mut out = vec![[0u8; 32]; blocks];
		let (got, letter) = match choose(3) {
			0 => (mat.initial_iv(d, &mut out), b'A'),
			1 => (mat.encryption_key(d, &mut out), b'C'),
			_ => (mat.integrity_key(d, &mut out), b'E'),
		};
		let want = derive(&k, &h, letter + dir as u8, blocks);
		check(eq(got, &want), "derive: key follows RFC 4253 section 7.2");
		let got = got.to_vec();
		check(eq(&out.concat(), &got), "derive: the output buffer holds the key");
		cover("derived");
		obs_bytes(&got);
	}
}
