use nora_ssh_core::packet::*;
use nsx::*;
use rand::{CryptoRng, Error, RngCore};

const BLOCKS: [(BlockSize, usize); 4] = [(BlockSize::B8, 8), (BlockSize::B16, 16), (BlockSize::B32, 32), (BlockSize::B64, 64)];

/// Records where random bytes were asked for.
struct Recorder<'a>(&'a mut Vec<(usize, usize)>);
impl RngCore for Recorder<'_> {
	fn next_u32(&mut self) -> u32 { sym_u32() }
	fn next_u64(&mut self) -> u64 { sym_u64() }
	fn fill_bytes(&mut self, b: &mut [u8]) { self.0.push((b.as_ptr() as usize, b.len())) }
	fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { Ok(self.fill_bytes(b)) }
}
impl CryptoRng for Recorder<'_> {}
/// Arbitrary random bytes.
struct Random;
impl RngCore for Random {
	fn next_u32(&mut self) -> u32 { sym_u32() }
	fn next_u64(&mut self) -> u64 { sym_u64() }
	fn fill_bytes(&mut self, b: &mut [u8]) { fill(b) }
	fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { Ok(self.fill_bytes(b)) }
}
impl CryptoRng for Random {}

/// RFC 4253 section 6 (or its AEAD variant, where the length field is outside the blocks).
fn well_formed(packet_len: usize, padding: usize, payload: usize, block: usize, with_length: bool) -> bool {
	let aligned = packet_len + if with_length { 4 } else { 0 };
	(padding >= 4) & (padding <= 255) & (packet_len == 1 + payload + padding) & (aligned & (block - 1) == 0)
}

harnesses! {
	/// Every payload length of the buffer at once (the length is symbolic).
	fn h_wrap_all_lengths() {
		const SIZE: usize = 1 << 17;
		let (bs, block) = BLOCKS[choose(4)];
		let with_length = choose(2) == 1;
		let n = sym_u32() as usize;
		assume(n <= SIZE - 256);
		let mut buf = vec![0u8; SIZE];
		let base = buf.as_ptr() as usize;
		let mut asked = Vec::new();
		let mut room = 0;
		let p = Packet::wrap(&mut buf, bs, with_length, |b| { room = b.len(); n }, Recorder(&mut asked));
		check(room >= SIZE - 5, "wrap: the payload may use the buffer");
		let (l, pad) = (p.packet_len(), p.padding_len());
		check(well_formed(l, pad, n, block, with_length), "wrap: length, padding and alignment follow the RFC");
		check(p.payload_len() == n, "wrap: payload length");
		check(p.payload().len() == n, "wrap: payload extent");
		check(p.payload().as_ptr() as usize == base + 5, "wrap: payload position");
		check(p.as_raw().len() == 4 + l, "wrap: raw extent");
		check(p.packet_bytes().len() == l, "wrap: body extent");
		check(pad <= 3 + block, "wrap: padding is minimal");
		let mut sum = 0;
		let mut at = base + 5 + n;
		let mut ok = true;
		for (a, k) in &asked { ok &= *a == at; at += *k; sum += *k; }
		check(ok & (sum == pad), "wrap: exactly the padding is filled with random bytes");
		cover("wrapped");
		obs(l as u64);
		// a receiver with the same framing recognises it
		let raw = p.into_raw(0);
		check(raw.len() == 4 + l, "wrap: raw packet extent");
		match Packet::wrap_raw(raw, with_length, bs) {
			Err(_) => check(false, "wrap: the receiver accepts the packet"),
			Ok(q) => {
				check((q.packet_len() == l) & (q.payload_len() == n), "wrap: the receiver sees the same packet");
				cover("recognised");
			}
		}
	}
	/// Payload bytes and padding bytes, for concrete lengths.
	fn h_wrap_content() {
		let (bs, block) = BLOCKS[choose(4)];
		let with_length = choose(2) == 1;
		let n = choose(tier(150, 300));
		let mut buf = sym_vec(5 + n + 80 + 16);
		let before = buf.clone();
		let payload = sym_vec(n);
		let p = Packet::wrap(&mut buf, bs, with_length, |b| { b[..n].copy_from_slice(&payload); n }, Random);
		check(eq(p.payload(), &payload), "wrap: payload preserved");
		let l = p.packet_len();
		let pad = p.padding_len();
		check(well_formed(l, pad, n, block, with_length), "wrap: well formed");
		let lb = *p.packet_len_bytes();
		check(u32::from_be_bytes(lb) as usize == l, "wrap: length field is big-endian");
		let mut p = p;
		let extra = choose(2) * 16;
		check(eq(p.payload_mut(), &payload), "wrap: payload preserved");
		check(p.packet_bytes_mut().len() == l && p.as_raw_mut().len() == 4 + l, "wrap: extents");
		let raw = p.into_raw(extra);
		check(raw.len() == 4 + l + extra, "wrap: room for the tag");
		check(eq(&raw[..4], &lb) & (raw[4] as usize == pad) & eq(&raw[5..5 + n], &payload), "wrap: raw bytes");
		check(eq(&buf[4 + l..], &before[4 + l..]), "wrap: nothing is written past the packet");
		match Packet::wrap_raw(&mut buf[..4 + l], with_length, bs) {
			Err(_) => check(false, "wrap: the receiver accepts the packet"),
			Ok(q) => { check(eq(q.into_payload(), &payload), "wrap: the receiver gets the payload"); cover("received"); }
		}
		obs(l as u64);
	}
	/// Recognising a packet: every length and padding field.
	fn h_wrap_raw() {
		const SIZE: usize = 1 << 17;
		let (bs, block) = BLOCKS[choose(4)];
		let with_length = choose(2) == 1;
		let mut buf = vec![0u8; SIZE];
		fill(&mut buf[..5]);
		let base = buf.as_ptr() as usize;
		let l = (buf[0] as usize) << 24 | (buf[1] as usize) << 16 | (buf[2] as usize) << 8 | buf[3] as usize;
		let pad = buf[4] as usize;
		assume(l + 4 <= SIZE);
		let aligned = (l + if with_length { 4 } else { 0 }) & (block - 1) == 0;
		match Packet::wrap_raw(&mut buf, with_length, bs) {
			Err(WrapRawError::BadAlignment) => { check(!aligned, "wrap_raw: an aligned packet is not called misaligned"); cover("misaligned") }
			Err(WrapRawError::PaddingTooLarge) => { check(pad + 1 > l, "wrap_raw: padding that fits is not called too large"); cover("padding") }
			Ok(mut p) => {
				check(aligned, "wrap_raw: a misaligned packet is refused");
				check(pad + 1 <= l, "wrap_raw: padding beyond the packet is refused");
				check((p.packet_len() == l) & (p.padding_len() == pad) & (p.payload_len() == l - pad - 1), "wrap_raw: lengths");
				check((p.payload().len() == l - pad - 1) & (p.payload().as_ptr() as usize == base + 5), "wrap_raw: payload extent");
				check((p.packet_bytes().len() == l) & (p.packet_bytes().as_ptr() as usize == base + 4), "wrap_raw: body extent");
				check(p.as_raw().len() == 4 + l, "wrap_raw: raw extent");
				check(p.payload_mut().len() == l - pad - 1, "wrap_raw: payload extent");
				check(p.into_payload().len() == l - pad - 1, "wrap_raw: payload extent");
				cover("accepted");
			}
		}
		obs(l as u64);
	}
}
