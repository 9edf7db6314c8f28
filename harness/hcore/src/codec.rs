use crate::model::*;
use nora_ssh_core::data::*;
use nora_ssh_core::message::channel::session::{SessionRequest, Signal};
use nora_ssh_core::message::*;
use nsx::*;

// ------------------------------------------------------------ decoding
fn compare(d: &[u8]) {
	let want = decode_message(d);
	match (Message::parse(d), want) {
		(Ok(m), Some((t, f))) => {
			let (rt, rf) = into_fields(m);
			check(rt == t, "decode: message kind matches the message number");
			check(same(&rf, &f), "decode: every field holds the bytes sent");
			cover("accepted");
			obs(1);
		}
		(Err(_), None) => {
			cover("rejected");
			obs(0);
		}
		(Ok(_), None) => check(false, "decode: malformed message accepted"),
		(Err(_), Some(_)) => check(false, "decode: well-formed message rejected"),
	}
}
/// Message types whose layout is short enough for arbitrary bytes.
fn any_bytes(types: &[u8], extra: &[usize]) {
	let i = choose(types.len());
	let n = choose(extra[i] + 2);
	if n == 0 {
		compare(&[]);
		return;
	}
	let mut d = sym_vec(n);
	d[0] = types[i];
	compare(&d);
}
/// Nothing, one more byte, or a truncation anywhere.
fn tail(d: &mut Vec<u8>) {
	match choose(3) {
		0 => (),
		1 => d.push(sym_u8()),
		_ => {
			let n = choose(d.len());
			d.truncate(n)
		}
	}
}
/// Symbolic content inside a frame of concrete lengths; one length field is arbitrary.
pub struct Gen {
	pub vary: usize,
	pub len: usize,
	pub i: usize,
}
impl Gen {
	pub fn new(fields: usize, lens: &[usize]) -> Self {
		let vary = choose(fields.max(1));
		let len = lens[choose(lens.len())];
		Gen { vary, len, i: 0 }
	}
	pub fn n(&mut self) -> usize {
		let r = if self.i == self.vary { self.len } else { 1 + self.i % 2 };
		self.i += 1;
		r
	}
	pub fn s(&mut self) -> Vec<u8> {
		let n = self.n();
		fat(n)
	}
	pub fn utf8(&mut self) -> Vec<u8> {
		let n = self.n();
		let v = fat(n);
		assume(core::str::from_utf8(&v).is_ok());
		v
	}
	pub fn ascii(&mut self) -> Vec<u8> {
		let v = self.s();
		assume(ascii(&v));
		v
	}
	pub fn names(&mut self) -> Vec<u8> {
		let v = self.s();
		assume(name_list_ok(&v));
		v
	}
}
/// Content: symbolic when short, symbolic at both ends when long.
pub fn fat(n: usize) -> Vec<u8> {
	if n <= 40 {
		return sym_vec(n);
	}
	let mut v = vec![b'x'; n];
	fill(&mut v[..2]);
	fill(&mut v[n - 2..]);
	v
}

/// Builds message number `k` of the table with symbolic fields, and hands the
/// value and its reference description to `f`.
fn with_message(k: usize, lens: &[usize], f: impl FnOnce(Message, u8, Vec<F>)) {
	use channel::*;
	use userauth as ua;
	use F::*;
	macro_rules! g {
		($n:expr) => {
			Gen::new($n, lens)
		};
	}
	let c = |x: &Vec<u8>| S(x.clone());
	match k {
		0 => {
			let mut g = g!(2);
			let (r, a, b) = (sym_u32(), g.s(), g.s());
			f(Message::Disconnect(Disconnect { reason: r, description: &a, language: &b }), 1, vec![U32(r), c(&a), c(&b)])
		}
		1 => {
			let a = g!(1).s();
			f(Message::Ignore(Ignore { data: &a }), 2, vec![c(&a)])
		}
		2 => {
			let r = sym_u32();
			f(Message::Unimplemented(Unimplemented { sequence_number: r }), 3, vec![U32(r)])
		}
		3 => {
			let mut g = g!(2);
			let (r, a, b) = (sym_bool(), g.utf8(), g.s());
			f(Message::Debug(Debug { always_display: r, message: unsafe { core::str::from_utf8_unchecked(&a) }, language: &b }), 4, vec![Bool(r), c(&a), c(&b)])
		}
		4 => {
			let a = g!(1).s();
			f(Message::ServiceRequest(ServiceRequest::new(&a)), 5, vec![c(&a)])
		}
		5 => {
			let a = g!(1).s();
			f(Message::ServiceAccept(ServiceAccept::new(&a)), 6, vec![c(&a)])
		}
		6 => {
			let cookie = sym::<16>();
			let mut g = g!(10);
			let l: Vec<Vec<u8>> = (0..10).map(|_| g.names()).collect();
			let n = |i: usize| NameList::try_from(&l[i][..]).ok().expect("valid name list");
			let follows = sym_bool();
			let mut v = vec![Raw(cookie.to_vec())];
			v.extend(l.iter().map(c));
			v.push(Bool(follows));
			v.push(U32(0));
			f(
				Message::KeyExchangeInit(KeyExchangeInit {
					cookie: &cookie,
					kex_algorithms: n(0),
					server_host_key_algorithms: n(1),
					encryption_algorithms_client_to_server: n(2),
					encryption_algorithms_server_to_client: n(3),
					mac_algorithms_client_to_server: n(4),
					mac_algorithms_server_to_client: n(5),
					compression_algorithms_client_to_server: n(6),
					compression_algorithms_server_to_client: n(7),
					languages_client_to_server: n(8),
					languages_server_to_client: n(9),
					first_kex_packet_follows: follows,
				}),
				20,
				v,
			)
		}
		7 => f(Message::NewKeys(NewKeys), 21, vec![]),
		8 => {
			let a = g!(1).s();
			f(Message::KeyExchangeEcdhInit(KeyExchangeEcdhInit { client_ephermal_public_key: &a }), 30, vec![c(&a)])
		}
		9 => {
			use key_exchange::ecdh::*;
			let mut g = g!(7);
			let v: Vec<Vec<u8>> = (0..7).map(|_| g.s()).collect();
			f(
				Message::KeyExchangeEcdhReply(KeyExchangeEcdhReply {
					server_public_key: Key { name: &v[0], blob: KeyBlob { identifier: &v[1], q: &v[2] } },
					server_ephermal_public_key: &v[3],
					exchange_hash_signature: Signature { name: &v[4], blob: SignatureBlob { r: &v[5], s: &v[6] } },
				}),
				31,
				vec![N(vec![c(&v[0]), c(&v[1]), c(&v[2])]), c(&v[3]), N(vec![c(&v[4]), N(vec![M(v[5].clone()), M(v[6].clone())])])],
			)
		}
		10..=16 => {
			let nf = [2, 4, 5, 3, 4, 7, 4][k - 10];
			let mut g = g!(nf);
			let (user, service) = (g.s(), g.s());
			let mut v = vec![c(&user), c(&service)];
			let x: Vec<Vec<u8>> = match k {
				15 => vec![g.s(), g.s(), g.ascii(), g.utf8(), g.s()],
				_ => (2..nf).map(|_| g.s()).collect(),
			};
			let method = match k {
				10 => {
					v.push(S(b"none".to_vec()));
					ua::Method::None
				}
				11 => {
					v.extend([S(b"publickey".to_vec()), Bool(false), c(&x[0]), c(&x[1])]);
					ua::Method::PublicKeyBlob { algorithm: &x[0], blob: &x[1] }
				}
				12 => {
					v.extend([S(b"publickey".to_vec()), Bool(true), c(&x[0]), c(&x[1]), c(&x[2])]);
					ua::Method::PublicKeySigned { algorithm: &x[0], key: &x[1], signature: &x[2] }
				}
				13 => {
					v.extend([S(b"password".to_vec()), Bool(false), c(&x[0])]);
					ua::Method::Password { password: &x[0] }
				}
				14 => {
					v.extend([S(b"password".to_vec()), Bool(true), c(&x[0]), c(&x[1])]);
					ua::Method::PasswordRenew { old_password: &x[0], new_password: &x[1] }
				}
				15 => {
					v.extend([S(b"hostbased".to_vec()), c(&x[0]), c(&x[1]), c(&x[2]), c(&x[3]), c(&x[4])]);
					ua::Method::HostBased {
						algorithm: &x[0],
						key_and_certificates: &x[1],
						host_name: AsciiStr::try_from(&x[2][..]).ok().expect("ascii"),
						user_name: unsafe { core::str::from_utf8_unchecked(&x[3]) },
						signature: &x[4],
					}
				}
				_ => {
					// a method outside RFC 4252: any name that is not one of the known four
					assume(!eq(&x[0], b"none") & !eq(&x[0], b"publickey") & !eq(&x[0], b"password") & !eq(&x[0], b"hostbased"));
					v.extend([c(&x[0]), Raw(x[1].clone())]);
					ua::Method::Other { method: &x[0], data: &x[1] }
				}
			};
			f(Message::UserAuth(ua::UserAuth::Request(ua::Request { user: &user, service: &service, method })), 50, v)
		}
		17 => {
			let a = g!(1).names();
			let b = sym_bool();
			f(Message::UserAuth(ua::UserAuth::Failure(ua::Failure { alternative_methods: NameList::try_from(&a[..]).ok().expect("valid name list"), partial_success: b })), 51, vec![c(&a), Bool(b)])
		}
		18 => f(Message::UserAuth(ua::UserAuth::Success(ua::Success)), 52, vec![]),
		19 => {
			let mut g = g!(2);
			let (a, b) = (g.s(), g.s());
			f(Message::UserAuth(ua::UserAuth::Banner(ua::Banner { message: &a, language: &b })), 53, vec![c(&a), c(&b)])
		}
		20 => {
			let mut g = g!(2);
			let (a, b) = (g.s(), g.s());
			f(Message::UserAuth(ua::UserAuth::PublicKeyOk(ua::PublicKeyOk { algorithm: &a, blob: &b })), 60, vec![c(&a), c(&b)])
		}
		21 => {
			let a = g!(1).s();
			let (x, y, z) = (sym_u32(), sym_u32(), sym_u32());
			f(Message::Channel(Channel::Open(Open { ty: &a, sender_channel: x, window_size: y, max_packet_size: z })), 90, vec![c(&a), U32(x), U32(y), U32(z)])
		}
		22 => {
			let a = g!(1).s();
			let (w, x, y, z) = (sym_u32(), sym_u32(), sym_u32(), sym_u32());
			f(Message::Channel(Channel::OpenConfirmation(OpenConfirmation { recipient_channel: w, sender_channel: x, window_size: y, max_packet_size: z, data: &a })), 91, vec![U32(w), U32(x), U32(y), U32(z), Raw(a.clone())])
		}
		23 => {
			let mut g = g!(2);
			let (a, b) = (g.utf8(), g.s());
			let w = sym_u32();
			let (reason, code) = match choose(5) {
				0 => (OpenFailureReason::AdminstrativelyProhibited, 1),
				1 => (OpenFailureReason::ConnectFailed, 2),
				2 => (OpenFailureReason::UnknownChannelType, 3),
				3 => (OpenFailureReason::ResourceShortage, 4),
				_ => {
					let r = sym_u32();
					(OpenFailureReason::Other(r), r)
				}
			};
			f(
				Message::Channel(Channel::OpenFailure(OpenFailure { recipient_channel: w, reason, description: unsafe { core::str::from_utf8_unchecked(&a) }, language: &b })),
				92,
				vec![U32(w), U32(code), c(&a), c(&b)],
			)
		}
		24 => {
			let (w, x) = (sym_u32(), sym_u32());
			f(Message::Channel(Channel::WindowAdjust(WindowAdjust { recipient_channel: w, add_bytes: x })), 93, vec![U32(w), U32(x)])
		}
		25 => {
			let a = g!(1).s();
			let w = sym_u32();
			f(Message::Channel(Channel::Data(Data { recipient_channel: w, data: &a })), 94, vec![U32(w), c(&a)])
		}
		26 => {
			let a = g!(1).s();
			let (w, x) = (sym_u32(), sym_u32());
			f(Message::Channel(Channel::ExtendedData(ExtendedData { recipient_channel: w, ty: x, data: &a })), 95, vec![U32(w), U32(x), c(&a)])
		}
		27 => {
			let w = sym_u32();
			f(Message::Channel(Channel::Eof(Eof { recipient_channel: w })), 96, vec![U32(w)])
		}
		28 => {
			let w = sym_u32();
			f(Message::Channel(Channel::Close(Close { recipient_channel: w })), 97, vec![U32(w)])
		}
		29 => {
			let mut g = g!(2);
			let (a, b) = (g.s(), g.s());
			let (w, r) = (sym_u32(), sym_bool());
			f(Message::Channel(Channel::Request(Request { recipient_channel: w, ty: &a, want_reply: r, data: &b })), 98, vec![U32(w), c(&a), Bool(r), Raw(b.clone())])
		}
		30 => {
			let w = sym_u32();
			f(Message::Channel(Channel::Success(Success { recipient_channel: w })), 99, vec![U32(w)])
		}
		_ => {
			let w = sym_u32();
			f(Message::Channel(Channel::Failure(Failure { recipient_channel: w })), 100, vec![U32(w)])
		}
	}
}
const KINDS: usize = 32;
const SMALL: &[usize] = &[0, 1, 2, 3, 5];
/// Lengths around every power-of-256 boundary that a truncating length computation would mangle.
const LARGE: &[usize] = &[127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537];

fn roundtrip(m: Message, t: u8, want: Vec<F>) {
	let mut buf = vec![0; 70200 * 3];
	match m.serialize(&mut buf) {
		None => check(false, "roundtrip: serializing into a large enough buffer succeeds"),
		Some((b, _)) => match Message::parse(b) {
			Err(_) => check(false, "roundtrip: a serialized message parses"),
			Ok(m) => {
				let (rt, rf) = into_fields(m);
				check(rt == t, "roundtrip: message kind preserved");
				check(same(&rf, &want), "roundtrip: every field preserved");
				cover("roundtrip");
				obs(b.len() as u64);
			}
		},
	}
}
fn layout_of(m: Message, t: u8, f: Vec<F>) {
	let mut want = vec![t];
	encode(&f, &mut want);
	let n = want.len();
	let mut buf = vec![0xa5; n + 3];
	match m.serialize(&mut buf) {
		None => check(false, "encode: buffer is large enough"),
		Some((b, rest)) => {
			check(eq(b, &want), "encode: bytes follow the RFC layout");
			check(b.len() + rest.len() == n + 3, "encode: result and remainder cover the buffer");
			check(eq(rest, &[0xa5; 3]), "encode: nothing is written past the end of the message");
			cover("encoded");
			obs_bytes(b);
		}
	}
}
fn fits(m: Message, t: u8, f: Vec<F>) {
	let mut want = vec![t];
	encode(&f, &mut want);
	let n = want.len();
	let step = if n > 400 { n / 23 } else { 1 };
	let mut cap = 0;
	while cap < n {
		let mut buf = vec![0u8; cap];
		check(m.serialize(&mut buf).is_none(), "encode: a buffer that is too small is refused");
		cap += if cap + step < n || cap + 1 == n { step } else { n - 1 - cap };
	}
	let mut buf = vec![0u8; n];
	match m.serialize(&mut buf) {
		None => check(false, "encode: a buffer of exactly the right size is accepted"),
		Some((b, r)) => {
			check(eq(b, &want), "encode: exact-size result is the whole message");
			check(r.is_empty(), "encode: nothing remains");
		}
	}
	cover("exact");
}

// ------------------------------------------------------------ session requests
fn session_fields(r: SessionRequest) -> (&'static [u8], Vec<F>) {
	use F::*;
	let s = |x: &[u8]| S(x.to_vec());
	match r {
		SessionRequest::Pty { terminal, char_width, char_height, pixel_width, pixel_height, modes } => (b"pty-req", vec![s(terminal), U32(char_width), U32(char_height), U32(pixel_width), U32(pixel_height), s(modes)]),
		SessionRequest::X11 { single_connection, auth_protocol, auth_cookie, screen } => (b"x11-req", vec![Bool(single_connection), s(auth_protocol), s(auth_cookie), U32(screen)]),
		SessionRequest::Env { name, value } => (b"env", vec![s(name), s(value)]),
		SessionRequest::Shell => (b"shell", vec![]),
		SessionRequest::Exec { command } => (b"exec", vec![s(command)]),
		SessionRequest::Subsystem { name } => (b"subsystem", vec![s(name)]),
		SessionRequest::WindowChange { char_width, char_height, pixel_width, pixel_height } => (b"window-change", vec![U32(char_width), U32(char_height), U32(pixel_width), U32(pixel_height)]),
		SessionRequest::XonXoff { on } => (b"xon-xoff", vec![Bool(on)]),
		SessionRequest::Signal { signal } => (b"signal", vec![S(signal_name(signal))]),
		SessionRequest::ExitStatus { status } => (b"exit-status", vec![U32(status)]),
		SessionRequest::ExitSignal { signal, core_dumped, message, language } => (b"exit-signal", vec![S(signal_name(signal)), Bool(core_dumped), s(message.as_bytes()), s(language)]),
	}
}
const SIGNALS: &[(&[u8], Signal<'static>)] = &[
	(b"ABRT", Signal::Abort),
	(b"ALRM", Signal::Alarm),
	(b"FPE", Signal::FloatingPointException),
	(b"HUP", Signal::Hangup),
	(b"ILL", Signal::Illegal),
	(b"INT", Signal::Interrupt),
	(b"KILL", Signal::Kill),
	(b"PIPE", Signal::Pipe),
	(b"QUIT", Signal::Quit),
	(b"SEGV", Signal::SegmentationFault),
	(b"TERM", Signal::Terminate),
	(b"USR1", Signal::User1),
	(b"USR2", Signal::User2),
];
/// RFC 4254 name of a signal; a known name may not hide behind `Other`.
fn signal_name(s: Signal) -> Vec<u8> {
	if let Signal::Other(n) = s {
		for (k, _) in SIGNALS {
			check(!eq(n, k), "signal: a known signal is reported as such");
		}
		return n.to_vec();
	}
	for (n, k) in SIGNALS {
		if *k == s {
			return n.to_vec();
		}
	}
	Vec::new()
}
const SESSION_TYPES: &[(&[u8], usize)] = &[
	(b"pty-req", 26),
	(b"x11-req", 15),
	(b"env", 11),
	(b"shell", 2),
	(b"exec", 8),
	(b"subsystem", 8),
	(b"window-change", 17),
	(b"xon-xoff", 2),
	(b"signal", 9),
	(b"exit-status", 5),
	(b"exit-signal", 17),
];
fn session_compare(ty: &[u8], d: &[u8]) {
	let want = session_layout(ty).and_then(|k| decode_all(k, d));
	match (SessionRequest::parse(ty, d), want) {
		(Ok(r), Some(f)) => {
			let (n, rf) = session_fields(r);
			check(eq(n, ty), "session: request kind matches its name");
			check(same(&rf, &f), "session: every field holds the bytes sent");
			cover("accepted");
			obs(1);
		}
		(Err(_), None) => {
			cover("rejected");
			obs(0);
		}
		(Ok(_), None) => check(false, "session: malformed request accepted"),
		(Err(_), Some(_)) => check(false, "session: well-formed request rejected"),
	}
}
fn with_session(k: usize, lens: &[usize], f: impl FnOnce(SessionRequest, Vec<F>)) {
	use F::*;
	let c = |x: &Vec<u8>| S(x.clone());
	let sig = |x: usize, o: &Vec<u8>| -> Vec<u8> { if x < SIGNALS.len() { SIGNALS[x].0.to_vec() } else { o.clone() } };
	fn mk<'a>(x: usize, o: &'a Vec<u8>) -> Signal<'a> {
		if x < SIGNALS.len() { SIGNALS[x].1 } else { Signal::Other(o) }
	}
	match k {
		0 => {
			let mut g = Gen::new(2, lens);
			let (a, b) = (g.s(), g.s());
			let (w, x, y, z) = (sym_u32(), sym_u32(), sym_u32(), sym_u32());
			f(SessionRequest::Pty { terminal: &a, char_width: w, char_height: x, pixel_width: y, pixel_height: z, modes: &b }, vec![c(&a), U32(w), U32(x), U32(y), U32(z), c(&b)])
		}
		1 => {
			let mut g = Gen::new(2, lens);
			let (a, b) = (g.s(), g.s());
			let (p, w) = (sym_bool(), sym_u32());
			f(SessionRequest::X11 { single_connection: p, auth_protocol: &a, auth_cookie: &b, screen: w }, vec![Bool(p), c(&a), c(&b), U32(w)])
		}
		2 => {
			let mut g = Gen::new(2, lens);
			let (a, b) = (g.s(), g.s());
			f(SessionRequest::Env { name: &a, value: &b }, vec![c(&a), c(&b)])
		}
		3 => f(SessionRequest::Shell, vec![]),
		4 => {
			let a = Gen::new(1, lens).s();
			f(SessionRequest::Exec { command: &a }, vec![c(&a)])
		}
		5 => {
			let a = Gen::new(1, lens).s();
			f(SessionRequest::Subsystem { name: &a }, vec![c(&a)])
		}
		6 => {
			let (w, x, y, z) = (sym_u32(), sym_u32(), sym_u32(), sym_u32());
			f(SessionRequest::WindowChange { char_width: w, char_height: x, pixel_width: y, pixel_height: z }, vec![U32(w), U32(x), U32(y), U32(z)])
		}
		7 => {
			let p = sym_bool();
			f(SessionRequest::XonXoff { on: p }, vec![Bool(p)])
		}
		8 => {
			let o = Gen::new(1, lens).s();
			let x = choose(SIGNALS.len() + 1);
			f(SessionRequest::Signal { signal: mk(x, &o) }, vec![S(sig(x, &o))])
		}
		9 => {
			let w = sym_u32();
			f(SessionRequest::ExitStatus { status: w }, vec![U32(w)])
		}
		_ => {
			let mut g = Gen::new(3, lens);
			let (o, m, l) = (g.s(), g.utf8(), g.s());
			let x = choose(SIGNALS.len() + 1);
			let p = sym_bool();
			f(SessionRequest::ExitSignal { signal: mk(x, &o), core_dumped: p, message: unsafe { core::str::from_utf8_unchecked(&m) }, language: &l }, vec![S(sig(x, &o)), Bool(p), c(&m), c(&l)])
		}
	}
}
fn session_roundtrip(lens: &[usize]) {
	let k = choose(SESSION_TYPES.len());
	with_session(k, lens, |r, want| {
		let mut bytes = Vec::new();
		encode(&want, &mut bytes);
		let n = bytes.len();
		let mut buf = vec![0xa5; n + 3];
		match r.serialize(&mut buf) {
			None => check(false, "session: buffer is large enough"),
			Some((ty, i)) => {
				check(eq(ty, SESSION_TYPES[k].0), "session: request name");
				check(i == n && eq(&buf[..n], &bytes), "session: bytes follow the RFC layout");
				check(eq(&buf[n..], &[0xa5; 3]), "session: nothing is written past the end");
				match SessionRequest::parse(ty, &bytes) {
					Err(_) => check(false, "session: a serialized request parses"),
					Ok(r) => {
						let (t, f) = session_fields(r);
						check(eq(t, SESSION_TYPES[k].0) & same(&f, &want), "session: every field preserved");
					}
				}
				cover("roundtrip");
				obs_bytes(&bytes);
			}
		}
		if n < 300 {
			for cap in 0..n {
				let mut buf = vec![0u8; cap];
				check(r.serialize(&mut buf).is_none(), "session: a buffer that is too small is refused");
			}
		}
		let mut buf = vec![0u8; n];
		check(matches!(r.serialize(&mut buf), Some((_, i)) if i == n), "session: exact-size buffer is accepted");
	});
}

harnesses! {
	fn h_decode_transport() {
		any_bytes(&[1, 2, 3, 4, 5, 6, 21, 30], &[15, 10, 6, 13, 10, 8, 2, 10]);
	}
	fn h_decode_auth() {
		any_bytes(&[51, 52, 53, 60], &[10, 2, 13, 13]);
	}
	fn h_decode_channel() {
		any_bytes(&[90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100], &[20, 19, 19, 9, 12, 16, 5, 5, 15, 5, 5]);
	}
	/// Every message number outside the protocol is refused, whatever follows.
	fn h_decode_unknown() {
		let n = choose(7);
		let d = sym_vec(n + 1);
		let t = d[0];
		let mut known = false;
		for k in [1, 2, 3, 4, 5, 6, 20, 21, 30, 31, 50, 51, 52, 53, 60, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100] { known |= t == k; }
		assume(!known);
		check(Message::parse(&d).is_err(), "decode: unknown message number refused");
		cover("rejected");
		obs(t as u64);
	}
	/// KEXINIT: one list arbitrary (content, and optionally its length field), the others fixed.
	fn h_decode_kexinit() {
		let focus = choose(10);
		let wild = choose(2) == 1;
		let n = if wild { 2 } else { choose(5) };
		let mut d = vec![20u8];
		d.extend(sym::<16>());
		for i in 0..10 {
			let other: &[u8] = [&b"a"[..], b"bb,c", b"", b"d"][i % 4];
			let v = if i == focus { sym_vec(n) } else { other.to_vec() };
			if i == focus && wild { d.extend(sym::<4>()) } else { put_u32(&mut d, v.len() as u32) }
			d.extend(v);
		}
		d.extend(sym::<5>());
		if !wild && n == 1 { tail(&mut d) }
		compare(&d);
	}
	/// ECDH reply: nested strings; two length fields arbitrary.
	fn h_decode_ecdhreply() {
		let j = choose(3); // number of arbitrary length fields (2: none)
		let i = if j == 2 { 99 } else { choose(10) };
		let lens = [1usize, 2, 1, 2, 1, 2, 1];
		let v: Vec<Vec<u8>> = lens.iter().map(|n| sym_vec(*n)).collect();
		let mut d = vec![31u8];
		// positions of the ten length fields, in order of appearance
		let key = 12 + v[0].len() + v[1].len() + v[2].len();
		let sb = 8 + v[5].len() + v[6].len();
		let sig = 8 + v[4].len() + sb;
		let mut k = 0;
		let mut len = |d: &mut Vec<u8>, n: usize| {
			if k == i || (j == 1 && k == i + 1) { d.extend([0, 0, 0, sym_u8()]) } else { put_u32(d, n as u32) }
			k += 1;
		};
		len(&mut d, key);
		for x in 0..3 { len(&mut d, v[x].len()); d.extend(&v[x]); }
		len(&mut d, v[3].len()); d.extend(&v[3]);
		len(&mut d, sig);
		len(&mut d, v[4].len()); d.extend(&v[4]);
		len(&mut d, sb);
		for x in 5..7 { len(&mut d, v[x].len()); d.extend(&v[x]); }
		if j == 2 { tail(&mut d) }
		compare(&d);
	}
	/// USERAUTH_REQUEST: every method, arbitrary content, two arbitrary length fields.
	fn h_decode_userauth() {
		let names: &[&[u8]] = &[b"none", b"publickey", b"publickey", b"password", b"password", b"hostbased", b"???", b"hostbasee"];
		let shape: &[&[u8]] = &[b"", b"fss", b"tsss", b"fs", b"tss", b"sssss", b"r", b"r"];
		let m = choose(names.len());
		let mut d = vec![50u8];
		let nf = 3 + shape[m].iter().filter(|c| **c == b's').count();
		let wild = choose(nf + 1);
		let both = choose(2) == 1;
		let mut k = 0;
		let mut s = |d: &mut Vec<u8>, v: &[u8]| {
			if k == wild || (both && k == wild + 1) { d.extend([0, 0, 0, sym_u8()]) } else { put_u32(d, v.len() as u32) }
			k += 1;
			d.extend(v);
		};
		s(&mut d, &sym::<1>());
		s(&mut d, &sym::<2>());
		let mut name = names[m].to_vec();
		if m == 6 { fill(&mut name) }
		s(&mut d, &name);
		for c in shape[m] {
			match c {
				b'f' => d.push(0),
				b't' => { let b = sym_u8(); assume(b != 0); d.push(b) }
				b's' => s(&mut d, &sym::<2>()),
				_ => d.extend(sym::<3>()),
			}
		}
		if wild == nf { tail(&mut d) }
		compare(&d);
	}
	/// Long messages: lengths around the byte boundaries of the length prefix.
	fn h_decode_large() {
		let k = choose(KINDS);
		with_message(k, LARGE, |_, t, f| {
			let mut d = vec![t];
			encode(&f, &mut d);
			match choose(3) {
				0 => (),
				1 => d.push(sym_u8()),
				_ => { d.pop(); }
			}
			compare(&d);
		});
	}
	fn h_roundtrip() {
		let k = choose(KINDS);
		with_message(k, SMALL, roundtrip);
	}
	fn h_roundtrip_large() {
		let k = choose(KINDS);
		with_message(k, LARGE, roundtrip);
	}
	fn h_layout() {
		let k = choose(KINDS);
		with_message(k, SMALL, layout_of);
	}
	fn h_layout_large() {
		let k = choose(KINDS);
		with_message(k, LARGE, layout_of);
	}
	fn h_fits() {
		let k = choose(KINDS);
		with_message(k, SMALL, fits);
	}
	fn h_fits_large() {
		let k = choose(KINDS);
		with_message(k, LARGE, fits);
	}
	/// Integers of signatures with many leading zeroes.
	fn h_mpint() {
		use key_exchange::ecdh::*;
		use F::*;
		let int = |n: usize| {
			let mut v = vec![0; n];
			let z = choose(n + 1);
			fill(&mut v[z..n.min(z + 2)]);
			for b in v.iter_mut().skip(z + 2) { *b = 0xa5 }
			v
		};
		let n = [1, 8, 9, 10, 20, 32, 33, 66][choose(8)];
		let (mut r, mut s) = (int(n), vec![1]);
		if choose(2) == 1 { core::mem::swap(&mut r, &mut s) }
		let (a, b) = (b"k".to_vec(), b"i".to_vec());
		let m = || Message::KeyExchangeEcdhReply(KeyExchangeEcdhReply {
			server_public_key: Key { name: &a, blob: KeyBlob { identifier: &b, q: b"q" } },
			server_ephermal_public_key: b"e",
			exchange_hash_signature: Signature { name: &a, blob: SignatureBlob { r: &r, s: &s } },
		});
		let fs = || vec![N(vec![S(a.clone()), S(b.clone()), S(b"q".to_vec())]), S(b"e".to_vec()), N(vec![S(a.clone()), N(vec![M(r.clone()), M(s.clone())])])];
		match choose(3) { 0 => layout_of(m(), 31, fs()), 1 => roundtrip(m(), 31, fs()), _ => fits(m(), 31, fs()) }
	}
	fn h_session_decode() {
		let k = choose(SESSION_TYPES.len());
		let (ty, max) = SESSION_TYPES[k];
		let n = choose(max + 1);
		let d = sym_vec(n);
		session_compare(ty, &d);
	}
	/// Request names: anything that is not one of the eleven names is unknown.
	fn h_session_names() {
		let n = choose(15);
		let ty = sym_vec(n);
		let m = choose(6);
		let d = sym_vec(m);
		session_compare(&ty, &d);
	}
	fn h_session_roundtrip() { session_roundtrip(&[0, 1, 2, 3, 4, 5]) }
	fn h_session_roundtrip_large() { session_roundtrip(LARGE) }
}
