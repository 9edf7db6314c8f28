//! An SSH client written from the RFCs, for talking to the server under test.
use crate::model::*;
use crate::spec::Spec;
use crate::world::*;
use nora_ssh::server::Server;
use nora_ssh::Identifier;
use nsx::*;
use sha2::{Digest, Sha256};

pub use crate::SERVER_ID;
pub const CLIENT_ID: &[u8] = b"SSH-2.0-c";
pub const HOST_KEY: [u8; 32] = [7; 32];

/// Plain packet (before encryption starts).
pub fn frame(payload: &[u8], block: usize, with_length: bool) -> Vec<u8> {
	let mut pad = 4;
	while (1 + payload.len() + pad + if with_length { 4 } else { 0 }) % block != 0 {
		pad += 1
	}
	let mut v = Vec::new();
	put_u32(&mut v, (1 + payload.len() + pad) as u32);
	v.push(pad as u8);
	v.extend_from_slice(payload);
	v.resize(v.len() + pad, 0x5a);
	v
}
/// Takes one plain packet off the front; its payload.
pub fn unframe(d: &mut Vec<u8>, what: &'static str) -> Vec<u8> {
	check(d.len() >= 5, what);
	if d.len() < 5 {
		prune();
	}
	let l = concretize(u32::from_be_bytes([d[0], d[1], d[2], d[3]]) as u64) as usize;
	let pad = concretize(d[4] as u64) as usize;
	let ok = l + 4 <= d.len() && pad + 1 <= l && pad >= 4 && (l + 4) % 8 == 0;
	check(ok, what);
	if !ok {
		prune();
	}
	let p = d[5..4 + l - pad].to_vec();
	*d = d[4 + l..].to_vec();
	p
}
pub fn kexinit(kex: &[u8], host: &[u8], c2s: &[u8], s2c: &[u8], follows: u8) -> Vec<u8> {
	let mut v = vec![20];
	v.extend(sym::<16>());
	for l in [kex, host, c2s, s2c, b"none", b"none", b"none", b"none", b"", b""] {
		put_str(&mut v, l);
	}
	v.push(follows);
	put_u32(&mut v, 0);
	v
}
pub const KEX: &[u8] = b"curve25519-sha256";
pub const HOST: &[u8] = b"ecdsa-sha2-nistp256";
pub const CIPHER: &[u8] = b"chacha20-poly1305@openssh.com";

pub fn signing_key() -> p256::ecdsa::SigningKey { p256::ecdsa::SigningKey::from_bytes(&HOST_KEY).expect("key") }

thread_local!(/// Key exchanges so far.
	static SHARES: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
pub type Srv = Exec<()>;
pub fn server(w: &World) -> Srv {
	let s = Server::new(Identifier::new(SERVER_ID).expect("id"), signing_key(), w.clone());
	Exec::new(async move { s.start().await })
}
pub struct Client {
	pub tx: Pipe,
	pub rx: Pipe,
	pub out: Spec,
	pub inp: Spec,
	pub session: [u8; 32],
	pub pending: Vec<u8>,
}
pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
	let mut h = Sha256::new();
	for p in parts {
		h.update(p)
	}
	h.finalize().into()
}
pub fn derive64(k: &[u8], h: &[u8], letter: u8) -> Vec<u8> {
	let a = sha(&[k, h, &[letter], h]);
	let b = sha(&[k, h, &a]);
	[a, b].concat()
}
thread_local!(static BLOB: std::cell::OnceCell<Vec<u8>> = const { std::cell::OnceCell::new() });
pub fn host_key_blob() -> Vec<u8> { BLOB.with(|b| b.get_or_init(make_blob).clone()) }
fn make_blob() -> Vec<u8> {
	let q = signing_key().verifying_key().to_encoded_point(false);
	let mut v = Vec::new();
	put_str(&mut v, HOST);
	put_str(&mut v, b"nistp256");
	put_str(&mut v, q.as_bytes());
	v
}
/// What the client does in the key exchange.
pub struct Kex {
	pub id: Vec<u8>,
	pub init: Vec<u8>,
	/// Packets sent for a wrong guess.
	pub wasted: Vec<Vec<u8>>,
	pub key: Vec<u8>,
	pub newkeys: Vec<u8>,
}
impl Kex {
	pub fn new() -> Self { Kex { id: CLIENT_ID.to_vec(), init: kexinit(KEX, HOST, CIPHER, CIPHER, 0), wasted: Vec::new(), key: ecdh_init(&sym::<32>()), newkeys: vec![21] } }
}
pub fn ecdh_init(q: &[u8]) -> Vec<u8> {
	let mut e = vec![30];
	put_str(&mut e, q);
	e
}
/// Plays the key exchange; checks everything the server says.
pub fn handshake(s: &mut Srv, tx: Pipe, rx: Pipe) -> Client {
	let k = Kex::new();
	let mut p = start(s, &k, tx, rx);
	p.init(s);
	check(p.rx.left() == 0, "handshake: the server waits for the client's key");
	p.key(s);
	match p.finish(s) {
		Some(c) => c,
		None => {
			check(false, "handshake: the exchange succeeds");
			prune()
		}
	}
}
pub struct Partial<'a> {
	pub k: &'a Kex,
	pub tx: Pipe,
	pub rx: Pipe,
	pub server_init: Vec<u8>,
}
pub fn start<'a>(s: &mut Srv, k: &'a Kex, tx: Pipe, rx: Pipe) -> Partial<'a> {
	s.run(&[&tx, &rx]);
	let mut got = rx.take();
	let l = SERVER_ID.len();
	let ok = got.len() > l + 2 && eq(&got[..l], SERVER_ID) && eq(&got[l..l + 2], b"\r\n");
	check(ok, "handshake: the server introduces itself");
	if !ok {
		prune();
	}
	got = got[l + 2..].to_vec();
	let server_init = unframe(&mut got, "handshake: a well-formed first packet");
	check(got.is_empty(), "handshake: nothing else before the client speaks");
	offer(&server_init);
	Partial { k, tx, rx, server_init }
}
/// The server offers what it supports, with a random cookie.
fn offer(init: &[u8]) {
	let mut v = Vec::new();
	for l in [KEX, HOST, CIPHER, CIPHER] {
		put_str(&mut v, l)
	}
	let n = 17 + v.len();
	let ok = init.len() > n && init[0] == 20 && eq(&init[17..n], &v);
	check(ok, "handshake: the server offers the algorithms it supports");
	if !ok {
		prune();
	}
	let random = DRAWN.with(|d| {
		let mut any = false;
		for x in d.borrow().iter() {
			any |= eq(&x[..16], &init[1..17])
		}
		any
	}) || PIECES.with(|p| {
		let mut any = false;
		for x in p.borrow().iter() {
			for x in x.windows(16) {
				any |= eq(x, &init[1..17])
			}
		}
		any
	});
	check(random, "handshake: the cookie comes from the random source");
	check(init.len() >= n + 29 && init[init.len() - 5] == 0 && eq(&init[init.len() - 4..], &[0; 4]), "handshake: no guess follows");
}
impl Partial<'_> {
	pub fn run(&self, s: &mut Srv) { s.run(&[&self.tx, &self.rx]) }
	/// Has the server ended the connection?
	pub fn ended(&self) -> bool { self.tx.0.borrow().dropped && self.rx.0.borrow().closed }
	pub fn init(&mut self, s: &mut Srv) {
		self.tx.put(&self.k.id);
		self.tx.put(b"\r\n");
		self.tx.put(&frame(&self.k.init, 8, true));
		self.run(s);
	}
	pub fn key(&mut self, s: &mut Srv) {
		for w in &self.k.wasted {
			self.tx.put(&frame(w, 8, true));
		}
		self.tx.put(&frame(&self.k.key, 8, true));
		self.run(s);
	}
	/// Checks the reply; None if there is none.
	pub fn finish(self, s: &mut Srv) -> Option<Client> {
		let Partial { k: kex, tx, rx, server_init } = self;
		let mut got = rx.take();
		if got.is_empty() {
			return None;
		}
		let reply = unframe(&mut got, "handshake: a well-formed reply");
		let newkeys = unframe(&mut got, "handshake: a well-formed second packet");
		check(got.is_empty(), "handshake: nothing after NEWKEYS");
		check(newkeys.len() == 1 && newkeys[0] == 21, "handshake: NEWKEYS follows the reply");
		// the reply
		let ks = host_key_blob();
		let qs = server_key(&reply, &ks);
		let fresh = DRAWN.with(|d| {
			let mut any = false;
			for x in d.borrow().iter().filter(|x| x.len() == 32) {
				any |= eq(&public(x[..].try_into().unwrap()), &qs);
			}
			any
		});
		check(fresh, "handshake: the server's share comes from the random source");
		let n = SHARES.with(|n| n.replace(n.get() + 1)) + 1;
		check(DRAWN.with(|d| d.borrow().iter().filter(|x| x.len() == 32).count()) >= n, "handshake: a new share for each connection");
		let ok = kex.key.len() == 37;
		check(ok, "handshake: only a 32-byte client key is answered");
		if !ok {
			prune();
		}
		let mut qc = [0; 32];
		qc.copy_from_slice(&kex.key[5..]);
		let k = x25519_dalek::shared(&qs, &qc);
		check(!eq(&k, &[0; 32]), "handshake: a zero shared secret is refused");
		let mut h = Vec::new();
		put_str(&mut h, &kex.id);
		put_str(&mut h, SERVER_ID);
		put_str(&mut h, &kex.init);
		put_str(&mut h, &server_init);
		put_str(&mut h, &ks);
		put_str(&mut h, &qc);
		put_str(&mut h, &qs);
		put_mpint(&mut h, &k);
		let h = sha(&[&h]);
		let sig: p256::ecdsa::Signature = ecdsa::signature::Signer::sign(&signing_key(), &h);
		let (r, t) = sig.split_bytes();
		let mut rs = Vec::new();
		put_mpint(&mut rs, &r);
		put_mpint(&mut rs, &t);
		let mut sg = Vec::new();
		put_str(&mut sg, HOST);
		put_str(&mut sg, &rs);
		let mut want = vec![31];
		put_str(&mut want, &ks);
		put_str(&mut want, &qs);
		put_str(&mut want, &sg);
		check(eq(&reply, &want), "handshake: the reply is the host key, the server's share and the host's signature of the exchange hash");
		tx.put(&frame(&kex.newkeys, 8, true));
		s.run(&[&tx, &rx]);
		check(rx.left() == 0, "handshake: the server waits for a service request");
		let mut kb = Vec::new();
		put_mpint(&mut kb, &k);
		let (c, d) = (derive64(&kb, &h, b'C'), derive64(&kb, &h, b'D'));
		Some(Client {
			tx,
			rx,
			out: Spec { main: c[..32].to_vec(), header: c[32..].to_vec(), seq: 3 + kex.wasted.len() as u64 },
			inp: Spec { main: d[..32].to_vec(), header: d[32..].to_vec(), seq: 3 },
			session: h,
			pending: Vec::new(),
		})
	}
}
pub fn public(secret: [u8; 32]) -> [u8; 32] { x25519_dalek::PublicKey::from(&x25519_dalek::StaticSecret::from(secret)).to_bytes() }
/// The server's ephemeral public key, from the reply.
fn server_key(reply: &[u8], ks: &[u8]) -> [u8; 32] {
	let o = 1 + 4 + ks.len();
	let ok = reply.len() >= o + 36 && eq(&reply[o..o + 4], &[0, 0, 0, 32]);
	check(ok, "handshake: the reply carries a 32-byte share");
	if !ok {
		prune();
	}
	let mut q = [0; 32];
	q.copy_from_slice(&reply[o + 4..o + 36]);
	q
}
impl Client {
	pub fn sealed(&mut self, payload: &[u8]) -> Vec<u8> { self.out.seal(&frame(payload, 8, false)) }
	pub fn send(&mut self, payload: &[u8]) {
		let p = self.sealed(payload);
		self.tx.put(&p);
	}
	pub fn run(&mut self, s: &mut Srv) { s.run(&[&self.tx.clone(), &self.rx.clone()]) }
	/// Sends one message and lets the server work.
	pub fn say(&mut self, s: &mut Srv, payload: &[u8]) {
		self.send(payload);
		self.run(s);
	}
	pub fn ended(&self) -> bool { self.tx.0.borrow().dropped && self.rx.0.borrow().closed }
	/// The next message from the server, window adjustments left out.
	pub fn recv(&mut self) -> Option<Vec<u8>> {
		loop {
			let m = self.recv_raw()?;
			if m.len() != 9 || m[0] != 93 {
				return Some(m);
			}
		}
	}
	/// The next packet from the server, if a whole one arrived.
	pub fn recv_raw(&mut self) -> Option<Vec<u8>> {
		self.pending.extend(self.rx.take());
		let d = &self.pending;
		if d.is_empty() {
			return None;
		}
		if d.len() < 4 {
			return None;
		}
		let mut lb = [d[0], d[1], d[2], d[3]];
		crate::spec::chacha_xor(&self.inp.header, self.inp.nonce(), 0, &mut lb);
		let l = concretize(u32::from_be_bytes(lb) as u64) as usize;
		if l > 40000 || l % 8 != 0 {
			check(false, "reply: the length field decrypts to a sane length");
			prune();
		}
		if d.len() < 4 + l + 16 {
			return None;
		}
		let tag = self.inp.tag(&d[..4 + l]);
		check(eq(&tag, &d[4 + l..20 + l]), "reply: authentic under the session key and sequence number");
		let mut b = d[4..4 + l].to_vec();
		crate::spec::chacha_xor(&self.inp.main, self.inp.nonce(), 1, &mut b);
		self.inp.seq += 1;
		let pad = concretize(b[0] as u64) as usize;
		let ok = pad >= 4 && pad + 1 <= l;
		check(ok, "reply: padding");
		if !ok {
			prune();
		}
		self.pending = d[20 + l..].to_vec();
		Some(b[1..l - pad].to_vec())
	}
	pub fn expect(&mut self, want: &[u8], what: &'static str) {
		match self.recv() {
			None => check(false, what),
			Some(g) => check(eq(&g, want), what),
		}
	}
	pub fn expect_nothing(&mut self, what: &'static str) {
		let r = self.recv();
		check(r.is_none() && self.pending.is_empty(), what)
	}
}
pub fn msg(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
pub fn string(s: &[u8]) -> Vec<u8> {
	let mut v = Vec::new();
	put_str(&mut v, s);
	v
}
