//! User authentication (RFC 4252) with the whole server.
use crate::client::*;
use crate::kex::next_client;
use crate::world::*;
use nsx::*;

pub const SERVICE: &[u8] = b"\x05\0\0\0\x0cssh-userauth";
pub const FAILURE: &[u8] = b"\x33\0\0\0\x12publickey,password\0";
pub const SUCCESS: &[u8] = &[52];

/// A client that has reached the authentication phase.
pub fn phase() -> (World, Srv, Client) {
	let w = World::new();
	let (tx, rx) = w.connect();
	let mut s = server(&w);
	let mut c = handshake(&mut s, tx, rx);
	c.say(&mut s, SERVICE);
	c.expect(b"\x06\0\0\0\x0cssh-userauth", "auth: the service is accepted");
	(w, s, c)
}
/// A client that is through authentication.
pub fn authenticated() -> (World, Srv, Client) {
	let (w, mut s, mut c) = phase();
	w.0.borrow_mut().verdicts = vec![true];
	c.say(&mut s, &request(b"u", b"ssh-connection", b"none", &[]));
	c.expect(SUCCESS, "auth: accepted");
	w.0.borrow_mut().calls.clear();
	(w, s, c)
}
pub fn request(user: &[u8], service: &[u8], method: &[u8], rest: &[u8]) -> Vec<u8> { msg(&[&[50], &string(user), &string(service), &string(method), rest]) }

/// Requests the handlers should see.
pub fn same(a: &Call, b: &Call) -> bool {
	match (a, b) {
		(Call::None { user: a, service: b }, Call::None { user: c, service: d }) => eq(a, c) & eq(b, d),
		(Call::Password { user: a, service: b, password: e }, Call::Password { user: c, service: d, password: f }) => eq(a, c) & eq(b, d) & eq(e, f),
		(Call::Exists { user: a, service: b, algorithm: e, key: g }, Call::Exists { user: c, service: d, algorithm: f, key: h }) => eq(a, c) & eq(b, d) & eq(e, f) & eq(g, h),
		(
			Call::Key { user: a, service: b, algorithm: e, key: g, signature: i, message: k },
			Call::Key { user: c, service: d, algorithm: f, key: h, signature: j, message: l },
		) => eq(a, c) & eq(b, d) & eq(e, f) & eq(g, h) & eq(i, j) & eq(k, l),
		(Call::Spawn { user: a, command: b, id: e }, Call::Spawn { user: c, command: d, id: f }) => {
			a == c
				&& e == f && match (b, d) {
				(None, None) => true,
				(Some(b), Some(d)) => eq(b, d),
				_ => false,
			}
		}
		_ => false,
	}
}
/// The data a client signs (RFC 4252 section 7).
pub fn sign_data(session: &[u8], user: &[u8], service: &[u8], algorithm: &[u8], blob: &[u8]) -> Vec<u8> {
	msg(&[&string(session), &[50], &string(user), &string(service), &string(b"publickey"), &[1], &string(algorithm), &string(blob)])
}
pub struct Attempt {
	pub payload: Vec<u8>,
	pub call: Option<Call>,
	/// Reply when the handler agrees.
	agreed: Vec<u8>,
	grants: bool,
}
pub fn attempt(session: &[u8], kind: usize, ul: usize, l: usize) -> Attempt {
	let service = [&b"ssh-connection"[..], b"", b"x"][l % 3].to_vec();
	attempt_for(session, kind, ul, l, service)
}
pub fn attempt_for(session: &[u8], kind: usize, ul: usize, l: usize, service: Vec<u8>) -> Attempt {
	let user = sym_vec(ul);
	let (u, v) = (user.clone(), service.clone());
	let no = |p| Attempt { payload: p, call: None, agreed: FAILURE.to_vec(), grants: false };
	let yes = |p, c| Attempt { payload: p, call: Some(c), agreed: SUCCESS.to_vec(), grants: true };
	match kind {
		0 => yes(request(&u, &v, b"none", &[]), Call::None { user, service }),
		1 => {
			let p = sym_vec(l);
			yes(request(&u, &v, b"password", &msg(&[&[0], &string(&p)])), Call::Password { user, service, password: p })
		}
		2 => no(request(&u, &v, b"password", &msg(&[&[1], &string(&sym_vec(l)), &string(&sym::<2>())]))),
		3 => no(request(&u, &v, b"hostbased", &msg(&[&string(b"a"), &string(&sym_vec(l)), &string(b"h"), &string(b"u"), &string(&sym::<2>())]))),
		4 => no(request(&u, &v, &sym_method(l), &sym_vec(l))),
		5 => {
			let (alg, key) = (sym_vec(l), sym_vec(l + 1));
			let blob = msg(&[&string(&alg), &string(&key)]);
			let p = request(&u, &v, b"publickey", &msg(&[&[0], &string(&alg), &string(&blob)]));
			Attempt { payload: p, agreed: msg(&[&[60], &string(&alg), &string(&blob)]), call: Some(Call::Exists { user, service, algorithm: alg, key }), grants: false }
		}
		_ => {
			let (alg, key, sig) = (sym_vec(l), sym_vec(l + 1), sym_vec(l));
			let blob = msg(&[&string(&alg), &string(&key)]);
			let sg = msg(&[&string(&alg), &string(&sig)]);
			let p = request(&u, &v, b"publickey", &msg(&[&[1], &string(&alg), &string(&blob), &string(&sg)]));
			let message = sign_data(session, &user, &service, &alg, &blob);
			yes(p, Call::Key { user, service, algorithm: alg, key, signature: sig, message })
		}
	}
}
/// A method that is not one of the known ones (by its first letter).
fn sym_method(l: usize) -> Vec<u8> {
	let mut m = sym_vec(l);
	if let Some(b) = m.first() {
		assume(*b != b'n' && *b != b'p' && *b != b'h');
	}
	for b in &m {
		assume(*b < 128 && *b > 32 && *b != b',')
	}
	m.push(b'!');
	m
}
pub fn open(sender: u32) -> Vec<u8> { msg(&[&[90], &string(b"session"), &sender.to_be_bytes(), &[0, 1, 0, 0, 0, 0, 1, 0]]) }

harnesses! {
	/// Sequences of requests of every kind with every verdict: handlers get exactly what was asked; Success only when one agreed.
	fn h_auth_gate() {
		let (w, mut s, mut c) = phase();
		let n = 1 + choose(tier(3, 4));
		let mut granted = false;
		for i in 0..n {
			let kind = choose(7);
			let service = match choose(if i == 0 { 3 } else { 1 }) { 0 => b"ssh-connection".to_vec(), 1 => vec![], _ => sym_vec(1) };
			let a = attempt_for(&c.session.clone(), kind, [1, 0, 3][i], [2, 0, 5][i], service);
			let verdict = choose(2) == 1;
			w.0.borrow_mut().verdicts.push(verdict);
			if a.call.is_none() { w.0.borrow_mut().verdicts.pop(); assume(!verdict) }
			let before = w.calls().len();
			c.say(&mut s, &a.payload);
			let calls = w.calls();
			match &a.call {
				None => check(calls.len() == before, "auth: an unsupported method asks nobody"),
				Some(x) => check(calls.len() == before + 1 && same(&calls[before], x), "auth: the handler is asked exactly what the client sent"),
			}
			if verdict && a.call.is_some() { c.expect(&a.agreed, "auth: an agreed request gets its reply") } else { c.expect(FAILURE, "auth: a refused request fails") }
			c.expect_nothing("auth: one reply per request");
			granted = verdict && a.grants;
			if granted { break }
		}
		let before = w.calls().len();
		c.say(&mut s, &open(7));
		if granted {
			let m = c.recv().unwrap_or_default();
			let ok = m.len() == 17 && eq(&m[..5], &[91, 0, 0, 0, 7]);
			check(ok, "auth: channels can be opened after success");
			if !ok { return }
			c.say(&mut s, &msg(&[&[98], &m[5..9], &string(b"shell"), &[1]]));
			c.expect(&[99, 0, 0, 0, 7], "auth: a program can be started after success");
			let calls = w.calls();
			check(calls.len() == before + 1 && same(&calls[before], &Call::Spawn { user: 1, command: None, id: 0 }), "auth: it runs as the authenticated user");
			let a = attempt(&c.session.clone(), choose(7), 1, 2);
			c.say(&mut s, &a.payload);
			check(w.calls().len() == before + 1 && !c.ended(), "auth: further requests are ignored");
			c.expect_nothing("auth: and not answered");
			cover("granted");
		} else {
			check(c.ended() && c.rx.left() == 0, "auth: no channels before success");
			c.say(&mut s, &msg(&[&[98], &[0; 4], &string(b"shell"), &[1]]));
			check(w.calls().len() == before, "auth: no programs before success");
			cover("refused");
		}
	}
	/// Signed requests of many sizes; algorithm names that disagree; sizes near the limit of the signed data.
	fn h_auth_sign() {
		let (w, mut s, mut c) = phase();
		let (mut ul, mut sl, mut al, mut kl, mut gl) = (3, 14, 4, 5, 6);
		let big = [0, 1, 7, 255, 256, 257, 800, 922, 923, 924, 925, 926, 927, 1100][choose(14)];
		match choose(5) { 0 => ul = big, 1 => sl = big, 2 => al = big % 300, 3 => kl = big, _ => gl = big }
		let bytes = |n: usize| { let mut v = vec![b'k'; n]; let m = n.min(4); fill(&mut v[..m]); if n > 4 { fill(&mut v[n - 1..]) } v };
		let (user, service, alg, key, sig) = (bytes(ul), bytes(sl), bytes(al), bytes(kl), bytes(gl));
		let (mut kalg, mut salg) = (alg.clone(), alg.clone());
		let agree = match choose(5) {
			0 | 1 => true,
			2 => { kalg.push(b'x'); false }
			3 => { salg.pop(); al == 0 }
			_ => match salg.last_mut() { None => true, Some(b) => { let n = sym_u8(); assume(n != *b); *b = n; false } }
		};
		let blob = msg(&[&string(&kalg), &string(&key)]);
		let mut p = request(&user, &service, b"publickey", &msg(&[&[1], &string(&alg), &string(&blob), &string(&msg(&[&string(&salg), &string(&sig)]))]));
		let verdict = choose(2) == 1;
		w.0.borrow_mut().verdicts = vec![verdict];
		c.say(&mut s, &p);
		p.clear();
		let calls = w.calls();
		if !agree {
			check(calls.is_empty(), "auth: a key or signature of another algorithm asks nobody");
			check(c.recv().map_or(true, |m| eq(&m, FAILURE)), "auth: and is refused");
			cover("mismatch");
			next_client(&w, &mut s);
			return;
		}
		let message = sign_data(&c.session.clone(), &user, &service, &alg, &blob);
		if calls.is_empty() {
			check(message.len() > 1024, "auth: a signed request of ordinary size is looked at");
			c.expect(FAILURE, "auth: oversized signed data is refused");
			cover("oversized");
			return;
		}
		check(calls.len() == 1 && same(&calls[0], &Call::Key { user, service, algorithm: alg, key, signature: sig, message }), "auth: the signature is to be verified over this session's identifier and exactly this request");
		c.expect(if verdict { SUCCESS } else { FAILURE }, "auth: the verdict is passed on");
		c.expect_nothing("auth: one reply");
		cover("asked");
	}
	/// Key queries: names that disagree, and lists of keys in several sizes.
	fn h_auth_query() {
		let (w, mut s, mut c) = phase();
		let (mut al, mut kl) = (4, 5);
		let big = [0, 1, 7, 255, 256, 300, 1100][choose(7)];
		if choose(2) == 0 { al = big % 301 } else { kl = big }
		let bytes = |n: usize| { let mut v = vec![b'k'; n]; let m = n.min(4); fill(&mut v[..m]); if n > 4 { fill(&mut v[n - 1..]) } v };
		let (alg, key, user, service) = (bytes(al), bytes(kl), sym_vec(choose(2)), sym_vec(choose(2)));
		let mut kalg = alg.clone();
		let extra = choose(6);
		let agree = match extra {
			2 => { kalg.push(sym_u8()); false }
			3 => kalg.pop().is_none(),
			4 => match kalg.last_mut() { None => true, Some(b) => { let n = sym_u8(); assume(n != *b); *b = n; false } },
			5 => false,
			_ => true,
		};
		let mut blob = msg(&[&string(&kalg), &string(&key)]);
		if extra == 5 { blob.push(sym_u8()) }
		let verdict = choose(2) == 1;
		w.0.borrow_mut().verdicts = vec![verdict];
		c.say(&mut s, &request(&user, &service, b"publickey", &msg(&[&[0], &string(&alg), &string(&blob)])));
		let calls = w.calls();
		if !agree {
			check(calls.is_empty(), "auth: a key of another algorithm asks nobody");
			check(c.recv().map_or(true, |m| eq(&m, FAILURE)), "auth: and is refused");
			cover("mismatch");
			next_client(&w, &mut s);
			return;
		}
		check(calls.len() == 1 && same(&calls[0], &Call::Exists { user, service, algorithm: alg.clone(), key }), "auth: exactly the key asked about is looked up");
		if verdict { c.expect(&msg(&[&[60], &string(&alg), &string(&blob)]), "auth: the same algorithm and key are named in the answer") } else { c.expect(FAILURE, "auth: an unknown key is refused") }
		c.expect_nothing("auth: one reply");
		c.say(&mut s, &open(7));
		check(c.ended() && c.rx.left() == 0, "auth: a query grants nothing");
		cover("asked");
	}
	/// Arbitrary payloads in the authentication phase.
	fn h_auth_arbitrary() {
		let (w, mut s, mut c) = phase();
		let n = choose(tier(17, 24));
		let p = sym_vec(n);
		w.0.borrow_mut().verdicts = vec![false];
		c.say(&mut s, &p);
		refused(&w, &mut s, c, &p);
	}
	/// Proper requests with one or two length fields changed, cut off or extended.
	fn h_auth_lengths() {
		let (w, mut s, mut c) = phase();
		let kind = choose(7);
		let mut p = attempt(&c.session.clone(), kind, 1, 2).payload;
		match choose(3) {
			0 => { let n = choose(p.len()); p.truncate(n) }
			1 => p.push(sym_u8()),
			_ => { let i = choose(p.len()); p[i] = sym_u8() }
		}
		w.0.borrow_mut().verdicts = vec![false];
		c.say(&mut s, &p);
		refused(&w, &mut s, c, &p);
	}
	/// Anything in place of the service request.
	fn h_auth_service() {
		let w = World::new();
		let (tx, rx) = w.connect();
		let mut s = server(&w);
		let mut c = handshake(&mut s, tx, rx);
		let mut right = false;
		let p = match choose(5) {
			// names of other services, and some that are nearly right
			4 => { let n: &[u8] = [&b"ssh-connection"[..], b"ssh-userauth@openssh.com", b"SSH-USERAUTH", b"ssh-userauth\0", b"xssh-userauth", b"ssh-userauth,ssh-connection", b"userauth"][choose(7)]; msg(&[&[5], &string(n)]) }
			0 => { let n = choose(tier(16, 20)); let p = sym_vec(n); right = eq(&p, SERVICE); p }
			1 => { let mut p = SERVICE.to_vec(); let i = choose(p.len()); let b = sym_u8(); right = b == p[i]; p[i] = b; p }
			2 => { let mut p = SERVICE.to_vec(); match choose(3) { 0 => { p.pop(); } 1 => p.push(sym_u8()), _ => { p[4] -= 1; p.pop(); } } p }
			_ => request(b"u", b"ssh-connection", b"none", &[]),
		};
		w.0.borrow_mut().verdicts = vec![true; 4];
		c.say(&mut s, &p);
		if c.ended() {
			check(!right, "auth: the user authentication service is offered");
			check(c.rx.left() == 0, "auth: nothing is sent to a refused client");
			c.say(&mut s, &request(b"u", b"ssh-connection", b"none", &[]));
			check(w.calls().is_empty(), "auth: no authentication without the service");
			check(!quiet(&p), "auth: messages that ask for nothing do not end the connection");
			cover("refused");
			next_client(&w, &mut s);
		} else {
			if !right && quiet(&p) {
				c.expect_nothing("auth: nor are they answered");
				c.say(&mut s, SERVICE);
			} else {
				check(right, "auth: no other service is accepted");
			}
			c.expect(b"\x06\0\0\0\x0cssh-userauth", "auth: the service is accepted");
			c.expect_nothing("auth: one reply");
			cover("accepted");
		}
	}
	/// Arbitrary bytes on the wire once packets are encrypted.
	fn h_auth_wire() {
		let (w, mut s, mut c) = phase();
		let n = choose(tier(45, 61));
		let d = sym_vec(n);
		// anything but a genuine packet: 16-byte tags are not guessed right
		if n >= 20 {
			let mut lb = [d[0], d[1], d[2], d[3]];
			crate::spec::chacha_xor(&c.out.header, c.out.nonce(), 0, &mut lb);
			let l = u32::from_be_bytes(lb) as usize;
			for k in 0..=n - 20 { if l == k { assume(!eq(&c.out.tag(&d[..4 + k]), &d[4 + k..20 + k])) } }
		}
		c.tx.put(&d);
		c.run(&mut s);
		c.tx.close();
		c.run(&mut s);
		check(c.ended() && c.rx.left() == 0, "auth: a forged packet ends the connection");
		check(w.calls().is_empty(), "auth: no handler is asked about a forged packet");
		cover("ended");
		next_client(&w, &mut s);
	}
}
/// A proper IGNORE, UNIMPLEMENTED or DEBUG: asks for nothing.
pub fn quiet(p: &[u8]) -> bool { !p.is_empty() && p[0] >= 2 && p[0] <= 4 && crate::model::decode_message(p).is_some() }
/// Nobody gets in: the request failed, or the connection ended.
fn refused(w: &World, s: &mut Srv, mut c: Client, p: &[u8]) {
	if c.ended() {
		check(c.rx.left() == 0, "auth: nothing is sent to a refused client");
		check(!quiet(p), "auth: messages that ask for nothing do not end the connection");
		cover("ended");
	} else {
		match c.recv() {
			None => check(quiet(p), "auth: every request is answered"),
			Some(m) => check(eq(&m, FAILURE), "auth: without a handler's consent only failure"),
		}
		cover("failed");
	}
	c.say(s, &open(7));
	check(c.ended() && c.rx.left() == 0, "auth: no channels before success");
	check(!w.calls().iter().any(|c| matches!(c, Call::Spawn { .. })), "auth: no programs before success");
	next_client(w, s);
}
