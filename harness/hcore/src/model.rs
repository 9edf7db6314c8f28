//! Reference model of the SSH wire formats (RFC 4250-4254, 5656), written from
//! the RFCs and independent of the code under test.
use nora_ssh_core::data::*;
use nora_ssh_core::message::*;

/// One field of a message, independent of how the code under test represents it.
pub enum F {
	Bool(bool),
	U32(u32),
	/// `string`: length prefix and content
	S(Vec<u8>),
	/// `mpint` holding an unsigned integer (content with or without leading zeroes)
	M(Vec<u8>),
	/// bytes without a prefix
	Raw(Vec<u8>),
	/// a `string` that itself holds fields
	N(Vec<F>),
}

pub fn put_str(o: &mut Vec<u8>, s: &[u8]) {
	let n = s.len();
	o.extend_from_slice(&[(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
	o.extend_from_slice(s);
}
pub fn put_u32(o: &mut Vec<u8>, v: u32) {
	o.extend_from_slice(&[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]);
}
pub fn put_mpint(o: &mut Vec<u8>, s: &[u8]) {
	let mut i = 0;
	while i < s.len() && s[i] == 0 {
		i += 1
	}
	let mut v = Vec::new();
	if i < s.len() && s[i] >= 0x80 {
		v.push(0)
	}
	v.extend_from_slice(&s[i..]);
	put_str(o, &v);
}
pub fn encode(fs: &[F], o: &mut Vec<u8>) {
	for f in fs {
		match f {
			F::Bool(b) => o.push(*b as u8),
			F::U32(v) => put_u32(o, *v),
			F::S(s) => put_str(o, s),
			F::M(s) => put_mpint(o, s),
			F::Raw(s) => o.extend_from_slice(s),
			F::N(n) => {
				let mut x = Vec::new();
				encode(n, &mut x);
				put_str(o, &x);
			}
		}
	}
}

fn strip(mut s: &[u8]) -> &[u8] {
	while !s.is_empty() && s[0] == 0 {
		s = &s[1..]
	}
	s
}
/// Equality of field lists; the content comparison is one expression per field.
pub fn same(a: &[F], b: &[F]) -> bool {
	if a.len() != b.len() {
		return false;
	}
	let mut ok = true;
	for i in 0..a.len() {
		ok &= match (&a[i], &b[i]) {
			(F::Bool(x), F::Bool(y)) => x == y,
			(F::U32(x), F::U32(y)) => x == y,
			(F::S(x), F::S(y)) | (F::Raw(x), F::Raw(y)) => nsx::eq(x, y),
			(F::M(x), F::M(y)) => nsx::eq(strip(x), strip(y)),
			(F::N(x), F::N(y)) => same(x, y),
			_ => false,
		};
	}
	ok
}

// ---------------------------------------------------------------- values -> fields
fn s(x: &[u8]) -> F {
	F::S(x.to_vec())
}
fn nl(x: NameList) -> F {
	let b: &[u8] = x.into();
	F::S(b.to_vec())
}

/// Message number and fields of a parsed message.
pub fn fields(m: &Message) -> (u8, Vec<F>) {
	use F::*;
	match m {
		Message::Disconnect(d) => (1, vec![U32(d.reason), s(d.description), s(d.language)]),
		Message::Ignore(d) => (2, vec![s(d.data)]),
		Message::Unimplemented(d) => (3, vec![U32(d.sequence_number)]),
		Message::Debug(d) => (4, vec![Bool(d.always_display), s(d.message.as_bytes()), s(d.language)]),
		Message::ServiceRequest(_) | Message::ServiceAccept(_) => unreachable!(),
		Message::KeyExchangeInit(k) => (
			20,
			vec![
				Raw(k.cookie.to_vec()),
				nl(k.kex_algorithms),
				nl(k.server_host_key_algorithms),
				nl(k.encryption_algorithms_client_to_server),
				nl(k.encryption_algorithms_server_to_client),
				nl(k.mac_algorithms_client_to_server),
				nl(k.mac_algorithms_server_to_client),
				nl(k.compression_algorithms_client_to_server),
				nl(k.compression_algorithms_server_to_client),
				nl(k.languages_client_to_server),
				nl(k.languages_server_to_client),
				Bool(k.first_kex_packet_follows),
				U32(0),
			],
		),
		Message::NewKeys(_) => (21, vec![]),
		Message::KeyExchangeEcdhInit(k) => (30, vec![s(k.client_ephermal_public_key)]),
		Message::KeyExchangeEcdhReply(k) => (
			31,
			vec![
				N(vec![s(k.server_public_key.name), s(k.server_public_key.blob.identifier), s(k.server_public_key.blob.q)]),
				s(k.server_ephermal_public_key),
				N(vec![
					s(k.exchange_hash_signature.name),
					N(vec![M(k.exchange_hash_signature.blob.r.to_vec()), M(k.exchange_hash_signature.blob.s.to_vec())]),
				]),
			],
		),
		Message::UserAuth(u) => {
			use userauth::{Method as Me, UserAuth as U};
			match u {
				U::Request(r) => {
					let mut v = vec![s(r.user), s(r.service)];
					match r.method {
						Me::None => v.push(s(b"none")),
						Me::PublicKeyBlob { algorithm, blob } => v.extend([s(b"publickey"), Bool(false), s(algorithm), s(blob)]),
						Me::PublicKeySigned { algorithm, key, signature } => v.extend([s(b"publickey"), Bool(true), s(algorithm), s(key), s(signature)]),
						Me::Password { password } => v.extend([s(b"password"), Bool(false), s(password)]),
						Me::PasswordRenew { old_password, new_password } => v.extend([s(b"password"), Bool(true), s(old_password), s(new_password)]),
						Me::HostBased { algorithm, key_and_certificates, host_name, user_name, signature } => {
							let h: &[u8] = host_name.into();
							v.extend([s(b"hostbased"), s(algorithm), s(key_and_certificates), s(h), s(user_name.as_bytes()), s(signature)])
						}
						Me::Other { method, data } => v.extend([s(method), Raw(data.to_vec())]),
					}
					(50, v)
				}
				U::Failure(f) => (51, vec![nl(f.alternative_methods), Bool(f.partial_success)]),
				U::Success(_) => (52, vec![]),
				U::Banner(b) => (53, vec![s(b.message), s(b.language)]),
				U::PublicKeyOk(p) => (60, vec![s(p.algorithm), s(p.blob)]),
			}
		}
		Message::Channel(c) => {
			use channel::{Channel as C, OpenFailureReason as R};
			match c {
				C::Open(o) => (90, vec![s(o.ty), U32(o.sender_channel), U32(o.window_size), U32(o.max_packet_size)]),
				C::OpenConfirmation(o) => (91, vec![U32(o.recipient_channel), U32(o.sender_channel), U32(o.window_size), U32(o.max_packet_size), Raw(o.data.to_vec())]),
				C::OpenFailure(o) => (
					92,
					vec![
						U32(o.recipient_channel),
						U32(match o.reason {
							R::AdminstrativelyProhibited => 1,
							R::ConnectFailed => 2,
							R::UnknownChannelType => 3,
							R::ResourceShortage => 4,
							R::Other(r) => {
								r
							}
						}),
						s(o.description.as_bytes()),
						s(o.language),
					],
				),
				C::WindowAdjust(o) => (93, vec![U32(o.recipient_channel), U32(o.add_bytes)]),
				C::Data(o) => (94, vec![U32(o.recipient_channel), s(o.data)]),
				C::ExtendedData(o) => (95, vec![U32(o.recipient_channel), U32(o.ty), s(o.data)]),
				C::Eof(o) => (96, vec![U32(o.recipient_channel)]),
				C::Close(o) => (97, vec![U32(o.recipient_channel)]),
				C::Request(o) => (98, vec![U32(o.recipient_channel), s(o.ty), Bool(o.want_reply), Raw(o.data.to_vec())]),
				C::Success(o) => (99, vec![U32(o.recipient_channel)]),
				C::Failure(o) => (100, vec![U32(o.recipient_channel)]),
			}
		}
	}
}
/// As [`fields`], for messages whose fields are only reachable by consuming them.
pub fn into_fields(m: Message) -> (u8, Vec<F>) {
	match m {
		Message::ServiceRequest(r) => (5, vec![s(<&[u8]>::from(r))]),
		Message::ServiceAccept(r) => (6, vec![s(<&[u8]>::from(r))]),
		m => fields(&m),
	}
}

// ---------------------------------------------------------------- reference decoder
pub struct D<'a> {
	pub d: &'a [u8],
	pub p: usize,
}
impl<'a> D<'a> {
	fn left(&self) -> usize {
		self.d.len() - self.p
	}
	fn raw(&mut self, n: usize) -> Option<Vec<u8>> {
		if n > self.left() {
			return None;
		}
		let r = self.d[self.p..self.p + n].to_vec();
		self.p += n;
		Some(r)
	}
	fn u32(&mut self) -> Option<u32> {
		let b = self.raw(4)?;
		Some((b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32)
	}
	fn str(&mut self) -> Option<Vec<u8>> {
		let n = self.u32()? as usize;
		self.raw(n)
	}
	fn boolean(&mut self) -> Option<bool> {
		Some(self.raw(1)?[0] != 0)
	}
}
pub fn ascii(b: &[u8]) -> bool {
	let mut m = 0;
	for x in b {
		m |= *x
	}
	m < 0x80
}
pub fn name_list_ok(b: &[u8]) -> bool {
	if !ascii(b) {
		return false;
	}
	let mut prev_comma = true; // an empty name would start here
	let mut bad = false;
	for x in b {
		let c = *x == b',';
		bad |= c & prev_comma;
		prev_comma = c;
	}
	if b.is_empty() {
		return true;
	}
	!(bad | prev_comma)
}
/// Field kinds of a layout.
#[derive(Clone, Copy)]
pub enum K {
	Bool,
	U32,
	S,
	M,
	Utf8,
	Ascii,
	Names,
	Raw(usize),
	Zero,
	Rest,
	N(&'static [K]),
}
pub fn layout(ty: u8) -> Option<&'static [K]> {
	use K::*;
	Some(match ty {
		1 => &[U32, S, S],
		2 => &[S],
		3 => &[U32],
		4 => &[Bool, Utf8, S],
		5 | 6 => &[S],
		20 => &[Raw(16), Names, Names, Names, Names, Names, Names, Names, Names, Names, Names, Bool, Zero],
		21 => &[],
		30 => &[S],
		31 => &[N(&[S, S, S]), S, N(&[S, N(&[M, M])])],
		51 => &[Names, Bool],
		52 => &[],
		53 => &[S, S],
		60 => &[S, S],
		90 => &[S, U32, U32, U32],
		91 => &[U32, U32, U32, U32, Rest],
		92 => &[U32, U32, Utf8, S],
		93 => &[U32, U32],
		94 => &[U32, S],
		95 => &[U32, U32, S],
		96 | 97 | 99 | 100 => &[U32],
		98 => &[U32, S, Bool, Rest],
		_ => return None,
	})
}
pub fn decode(ks: &[K], d: &mut D) -> Option<Vec<F>> {
	let mut v = Vec::new();
	for k in ks {
		v.push(match *k {
			K::Bool => F::Bool(d.boolean()?),
			K::U32 => F::U32(d.u32()?),
			K::S => F::S(d.str()?),
			K::M => F::M(d.str()?),
			K::Utf8 => {
				let x = d.str()?;
				core::str::from_utf8(&x).ok()?;
				F::S(x)
			}
			K::Ascii => {
				let x = d.str()?;
				if !ascii(&x) {
					return None;
				}
				F::S(x)
			}
			K::Names => {
				let x = d.str()?;
				if !name_list_ok(&x) {
					return None;
				}
				F::S(x)
			}
			K::Raw(n) => F::Raw(d.raw(n)?),
			K::Zero => {
				if d.u32()? != 0 {
					return None;
				}
				F::U32(0)
			}
			K::Rest => {
				let n = d.left();
				F::Raw(d.raw(n)?)
			}
			K::N(ks) => {
				let x = d.str()?;
				let mut d = D { d: &x, p: 0 };
				let f = decode(ks, &mut d)?;
				if d.left() != 0 {
					return None;
				}
				F::N(f)
			}
		});
	}
	Some(v)
}
pub fn decode_all(ks: &[K], data: &[u8]) -> Option<Vec<F>> {
	let mut d = D { d: data, p: 0 };
	let v = decode(ks, &mut d)?;
	(d.left() == 0).then(|| v)
}
/// Reference decoder of a whole message payload.
pub fn decode_message(data: &[u8]) -> Option<(u8, Vec<F>)> {
	use K::*;
	let ty = *data.first()?;
	let data = &data[1..];
	if ty == 50 {
		let mut d = D { d: data, p: 0 };
		let mut v = decode(&[S, S], &mut d)?;
		let m = d.str()?;
		v.push(F::S(m.clone()));
		let rest = &data[d.p..];
		let t: &[K] = if nsx::eq(&m, b"none") {
			&[]
		} else if nsx::eq(&m, b"publickey") {
			if *rest.first()? == 0 { &[Bool, S, S] } else { &[Bool, S, S, S] }
		} else if nsx::eq(&m, b"password") {
			if *rest.first()? == 0 { &[Bool, S] } else { &[Bool, S, S] }
		} else if nsx::eq(&m, b"hostbased") {
			&[S, S, Ascii, Utf8, S]
		} else {
			&[Rest]
		};
		v.extend(decode_all(t, rest)?);
		return Some((50, v));
	}
	if ty == 90 {
		// type-specific data may follow, for types that have any
		let mut d = D { d: data, p: 0 };
		let v = decode(&[S, U32, U32, U32], &mut d)?;
		let session = matches!(&v[0], F::S(t) if nsx::eq(t, b"session"));
		return (d.left() == 0 || !session).then(|| (90, v));
	}
	Some((ty, decode_all(layout(ty)?, data)?))
}
/// Layout of session channel requests.
pub fn session_layout(ty: &[u8]) -> Option<&'static [K]> {
	use K::*;
	let t: &[(&[u8], &[K])] = &[
		(b"pty-req", &[S, U32, U32, U32, U32, S]),
		(b"x11-req", &[Bool, S, S, U32]),
		(b"env", &[S, S]),
		(b"shell", &[]),
		(b"exec", &[S]),
		(b"subsystem", &[S]),
		(b"window-change", &[U32, U32, U32, U32]),
		(b"xon-xoff", &[Bool]),
		(b"signal", &[S]),
		(b"exit-status", &[U32]),
		(b"exit-signal", &[S, Bool, Utf8, S]),
	];
	for (n, k) in t {
		if nsx::eq(n, ty) {
			return Some(k);
		}
	}
	None
}
