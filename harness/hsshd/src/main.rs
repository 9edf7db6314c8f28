//! nora_sshd: the whole daemon against a client, with model sockets, programs and signatures.
#[path = "../../hcore/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../hcore/src/spec.rs"]
#[allow(dead_code)]
mod spec;
#[path = "../../hssh/src/client.rs"]
#[allow(dead_code)]
mod client;
#[path = "../../hssh/src/world.rs"]
#[allow(dead_code)]
mod world;
mod mstd;
#[path = "../../../.build/gen/nora_sshd/src/main.rs"]
#[allow(warnings)]
mod sshd;
use client::*;
use mstd::{programs, st, world};
use nsx::*;
use world::*;

pub const SERVER_ID: &[u8] = b"SSH-2.0-nora_ssh example";
fn main() { nsx::main(&[TABLE]) }

const SERVICE: &[u8] = b"\x05\0\0\0\x0cssh-userauth";
const FAILURE: &[u8] = b"\x33\0\0\0\x12publickey,password\0";
const SUCCESS: &[u8] = &[52];
const ED: &[u8] = b"ssh-ed25519";

fn daemon() -> Srv {
	Exec::new(async {
		sshd::main().await;
	})
}
fn phase() -> (Srv, Client) {
	let (tx, rx) = world().connect();
	let mut s = daemon();
	let mut c = handshake(&mut s, tx, rx);
	c.say(&mut s, SERVICE);
	c.expect(b"\x06\0\0\0\x0cssh-userauth", "sshd: the service is accepted");
	(s, c)
}
fn request(user: &[u8], method: &[u8], rest: &[u8]) -> Vec<u8> { msg(&[&[50], &string(user), &string(b"ssh-connection"), &string(method), rest]) }
fn sign_data(session: &[u8], user: &[u8], algorithm: &[u8], blob: &[u8]) -> Vec<u8> { msg(&[&string(session), &[50], &string(user), &string(b"ssh-connection"), &string(b"publickey"), &[1], &string(algorithm), &string(blob)]) }
fn signed(user: &[u8], alg: &[u8], key: &[u8], sig: &[u8]) -> Vec<u8> {
	let blob = msg(&[&string(alg), &string(key)]);
	let sg = msg(&[&string(alg), &string(sig)]);
	request(user, b"publickey", &msg(&[&[1], &string(alg), &string(&blob), &string(&sg)]))
}
/// Another client of the same daemon.
fn second(s: &mut Srv) -> Client {
	let (tx, rx) = world().connect();
	let mut c = handshake(s, tx, rx);
	c.say(s, SERVICE);
	c.expect(b"\x06\0\0\0\x0cssh-userauth", "sshd: the service is accepted");
	c
}
/// A client with a key whose signature is good.
fn login(s: &mut Srv, c: &mut Client) {
	let (key, sig) = (sym::<32>(), sym::<64>());
	let blob = msg(&[&string(ED), &string(&key)]);
	let m = sign_data(&c.session, b"u", ED, &blob);
	assume(mstd::genuine(&key, &m, &sig));
	c.say(s, &signed(b"u", ED, &key, &sig));
	c.expect(SUCCESS, "sshd: a good signature is accepted");
}
fn be(v: u32) -> [u8; 4] { v.to_be_bytes() }
fn session(s: &mut Srv, c: &mut Client, peer: u32) -> u32 {
	c.say(s, &msg(&[&[90], &string(b"session"), &be(peer), &be(65536), &be(32768)]));
	let m = c.recv().unwrap_or_default();
	let ok = m.len() == 17 && eq(&m[..5], &msg(&[&[91], &be(peer)]));
	check(ok, "sshd: a session is opened");
	if !ok {
		prune()
	}
	u32::from_be_bytes([m[5], m[6], m[7], m[8]])
}
fn channel_request(ch: u32, ty: &[u8], reply: bool, data: &[u8]) -> Vec<u8> { msg(&[&[98], &be(ch), &string(ty), &[reply as u8], data]) }
/// A new connection is answered.
fn alive(s: &mut Srv) {
	check(s.done.is_none(), "sshd: keeps running");
	let (tx, rx) = world().connect();
	s.run(&[&tx, &rx]);
	check(rx.left() > SERVER_ID.len(), "sshd: still answers new connections");
}
fn is_utf8(s: &[u8]) -> bool { core::str::from_utf8(s).is_ok() }

harnesses! {
	/// Who is let in.
	fn h_sshd_login() {
		let (mut s, mut c) = phase();
		if choose(2) == 1 {
			// asking for a key first changes nothing
			let blob = msg(&[&string(ED), &string(&sym::<32>())]);
			c.say(&mut s, &request(b"user", b"publickey", &msg(&[&[0], &string(ED), &string(&blob)])));
			c.expect(&msg(&[&[60], &string(ED), &string(&blob)]), "sshd: ed25519 keys are of use");
		}
		let user = match choose(5) { 4 => { let mut v = vec![b'u'; 300]; fill(&mut v[298..]); v } 0 => Vec::new(), 1 => b"user".to_vec(), 2 => sym_vec(1), _ => sym_vec(tier(2, 3)) };
		let mut granted = false;
		match choose(6) {
			0 => { c.say(&mut s, &request(&user, b"none", &[])); c.expect(FAILURE, "sshd: no credentials, no access"); cover("none") }
			1 => { let p = sym_vec(choose(4)); c.say(&mut s, &request(&user, b"password", &msg(&[&[0], &string(&p)]))); c.expect(FAILURE, "sshd: passwords are refused"); cover("password") }
			2 => {
				// another algorithm
				let mut alg = ED.to_vec();
				match choose(6) {
					0 => { let i = choose(alg.len()); let b = sym_u8(); assume(b != alg[i] && b < 128); alg[i] = b }
					1 => { alg.pop(); }
					2 => alg.insert(0, b'x'),
					3 => alg = [b"", &b"sk-ssh-ed25519@openssh.com"[..], b"ssh-ed25519-cert-v01@openssh.com", b"ssh-ed448", b"ecdsa-sha2-nistp256"][choose(5)].to_vec(),
					4 => { alg.remove(0); }
					_ => alg.push(b'x'),
				}
				if choose(2) == 1 {
					let blob = msg(&[&string(&alg), &string(&sym::<32>())]);
					c.say(&mut s, &request(&user, b"publickey", &msg(&[&[0], &string(&alg), &string(&blob)])));
					c.expect(FAILURE, "sshd: keys of other algorithms are of no use");
				}
				c.say(&mut s, &signed(&user, &alg, &sym::<32>(), &sym::<64>()));
				c.expect(FAILURE, "sshd: other algorithms are refused");
				cover("algorithm");
			}
			3 => {
				// wrong lengths
				let (k, g) = [(0, 64), (31, 64), (33, 64), (32, 0), (32, 63), (32, 65), (32, 128), (64, 32)][choose(8)];
				c.say(&mut s, &signed(&user, ED, &sym_vec(k), &sym_vec(g)));
				c.expect(FAILURE, "sshd: keys and signatures of wrong length are refused");
				cover("length");
			}
			4 => {
				let (key, sig) = (sym::<32>(), sym::<64>());
				let blob = msg(&[&string(ED), &string(&key)]);
				let m = sign_data(&c.session, &user, ED, &blob);
				let good = mstd::genuine(&key, &m, &sig) & is_utf8(&user);
				c.say(&mut s, &signed(&user, ED, &key, &sig));
				let r = c.recv().unwrap_or_default();
				check(if good { eq(&r, SUCCESS) } else { eq(&r, FAILURE) }, "sshd: access exactly for a good signature over this session and request");
				if good { granted = true; cover("granted") } else { cover("forged") }
			}
			_ => {
				// a query is not a login
				let alg = if choose(2) == 0 { ED } else { b"ssh-rsa" };
				let blob = msg(&[&string(alg), &string(&sym::<32>())]);
				c.say(&mut s, &request(&user, b"publickey", &msg(&[&[0], &string(alg), &string(&blob)])));
				let r = c.recv().unwrap_or_default();
				check(if alg == ED { eq(&r, &msg(&[&[60], &string(alg), &string(&blob)])) } else { eq(&r, FAILURE) }, "sshd: only ed25519 keys are of use");
				cover("query");
			}
		}
		if !granted {
			c.say(&mut s, &msg(&[&[90], &string(b"session"), &be(0), &be(65536), &be(32768)]));
			while let Some(m) = c.recv() { check(m.first() != Some(&91), "sshd: no channel without login") }
			check(programs().is_empty(), "sshd: no program without login");
		}
		alive(&mut s);
	}
	/// Someone has logged in; that is worth nothing to others, nor to the same one in another session.
	fn h_sshd_second() {
		let (mut s, mut a) = phase();
		let early = choose(2) == 1;
		let mut b = if early { Some(second(&mut s)) } else { None };
		let (ka, sa) = (sym::<32>(), sym::<64>());
		let m = sign_data(&a.session, b"u", ED, &msg(&[&string(ED), &string(&ka)]));
		let good = mstd::genuine(&ka, &m, &sa);
		a.say(&mut s, &signed(b"u", ED, &ka, &sa));
		a.expect(if good { SUCCESS } else { FAILURE }, "sshd: access exactly for a good signature");
		if choose(2) == 1 { a.tx.close(); a.run(&mut s) }
		let mut b = match b.take() { Some(b) => b, None => second(&mut s) };
		let user = if choose(2) == 1 { b"u".to_vec() } else { sym_vec(1) };
		let n = 1 + choose(tier(2, 3));
		let mut granted = false;
		for _ in 0..n {
			if granted { break }
			match choose(5) {
				0 => { b.say(&mut s, &request(&user, b"none", &[])); b.expect(FAILURE, "sshd: no credentials, no access") }
				1 => { b.say(&mut s, &request(&user, b"password", &msg(&[&[0], &string(&sym::<2>())]))); b.expect(FAILURE, "sshd: passwords are refused") }
				2 => {
					let blob = msg(&[&string(ED), &string(&ka)]);
					b.say(&mut s, &request(&user, b"publickey", &msg(&[&[0], &string(ED), &string(&blob)])));
					b.expect(&msg(&[&[60], &string(ED), &string(&blob)]), "sshd: a query is answered");
				}
				k => {
					// the same key, or the very same signature
					let (key, sig) = if k == 3 { (ka, sa) } else { ([ka, sym::<32>()][choose(2)], sym::<64>()) };
					let m = sign_data(&b.session, &user, ED, &msg(&[&string(ED), &string(&key)]));
					let good = mstd::genuine(&key, &m, &sig) & is_utf8(&user);
					b.say(&mut s, &signed(&user, ED, &key, &sig));
					let r = b.recv().unwrap_or_default();
					check(if good { eq(&r, SUCCESS) } else { eq(&r, FAILURE) }, "sshd: access exactly for a good signature over this session and request");
					if good { granted = true; cover("granted") } else { cover("forged") }
				}
			}
		}
		b.expect_nothing("sshd: one answer each");
		if !granted {
			b.say(&mut s, &msg(&[&[90], &string(b"session"), &be(0), &be(65536), &be(32768)]));
			while let Some(m) = b.recv() { check(m.first() != Some(&91), "sshd: no channel without login") }
		}
		check(programs().is_empty(), "sshd: no program without being asked");
		alive(&mut s);
	}
	/// Which program is run, and what the client gets to know of it.
	fn h_sshd_run() {
		let (mut s, mut c) = phase();
		login(&mut s, &mut c);
		let peer = sym_u32();
		let ch = session(&mut s, &mut c, peer);
		let can = choose(2) == 0;
		st(|x| x.can_start = can);
		let mut want: Vec<Vec<u8>> = Vec::new();
		if choose(3) == 0 {
			let set = choose(2) == 0;
			let sh = match choose(if set { 4 } else { 1 }) { 0 => b"/bin/sh".to_vec(), 1 => sym_vec(2), 2 => [b"/opt/my ", &sym_vec(1)[..], b"sh -l"].concat(), _ => { let mut v = vec![b's'; 400]; fill(&mut v[399..]); v } };
			for b in &sh { assume(*b != 0) }
			st(|x| x.shell = if set { Some(sh.clone()) } else { None });
			if set { want.push(sh) }
			c.say(&mut s, &channel_request(ch, b"shell", true, &[]));
		} else {
			let cmd = match choose(7) {
				6 => { let mut v = Vec::new(); for i in 0..400 { v.extend_from_slice(&[b'a' + (i % 26) as u8, b'0' + (i % 10) as u8, b' ']) } v.resize(6000, b'x'); fill(&mut v[5999..]); v }
				4 => { let mut v = Vec::new(); for i in 0..60 { v.extend_from_slice(&[b'a' + i % 26, b' ']) } v.extend(sym_vec(1)); v }
				0 => Vec::new(),
				1 => sym_vec(1 + choose(tier(2, 3))),
				2 => [&sym_vec(1)[..], b"prog", &sym_vec(1), b"arg", &sym_vec(1)].concat(),
				3 => b"  ls\t -l\n/tmp/x  ".to_vec(),
				_ => { let mut v = vec![b'p'; 300]; v[150] = b' '; fill(&mut v[298..]); v }
			};
			for b in &cmd { assume(*b != 0) }
			let mut word = Vec::new();
			for b in &cmd {
				if matches!(*b, b' ' | b'\t' | b'\n' | b'\r' | 12) { if !word.is_empty() { want.push(std::mem::take(&mut word)) } } else { word.push(*b) }
			}
			if !word.is_empty() { want.push(word) }
			c.say(&mut s, &channel_request(ch, b"exec", true, &string(&cmd)));
		}
		let ps = programs();
		if !want.is_empty() {
			check(ps.len() == 1 && ps[0].0.len() == want.len(), "sshd: exactly one program, with its arguments");
			for (a, b) in ps[0].0.iter().zip(&want) { check(eq(a, b), "sshd: the words of the command, unchanged and in order") }
		} else { check(ps.is_empty(), "sshd: nothing to run") }
		if want.is_empty() || !can {
			c.expect(&msg(&[&[100], &be(peer)]), "sshd: failure is reported");
			cover("failed");
			alive(&mut s);
			return;
		}
		c.expect(&msg(&[&[99], &be(peer)]), "sshd: the program starts");
		let p = world().child(0);
		let (i, o, e) = (sym::<2>(), sym::<2>(), sym::<1>());
		c.say(&mut s, &msg(&[&[94], &be(ch), &string(&i)]));
		check(eq(&p.stdin.take(), &i), "sshd: input arrives");
		p.stdout.put(&o);
		c.run(&mut s);
		c.expect(&msg(&[&[94], &be(peer), &string(&o)]), "sshd: output is passed on");
		p.stderr.put(&e);
		c.run(&mut s);
		c.expect(&msg(&[&[95], &be(peer), &be(1), &string(&e)]), "sshd: error output is passed on");
		p.stdout.close();
		p.stderr.close();
		c.run(&mut s);
		c.expect(&msg(&[&[96], &be(peer)]), "sshd: end of output");
		let killed = choose(2) == 1;
		let code = sym_u8();
		if killed { assume(code > 0 && code < 65) }
		p.exit(if killed { code as u32 } else { (code as u32) << 8 });
		c.run(&mut s);
		match c.recv() {
			None => check(false, "sshd: the exit status is reported"),
			Some(m) => {
				let h = msg(&[&[98], &be(peer), &string(b"exit-status"), &[0]]);
				let ok = m.len() == h.len() + 4 && eq(&m[..h.len()], &h);
				check(ok, "sshd: the exit status is reported");
				if ok {
					let v = u32::from_be_bytes([m[h.len()], m[h.len() + 1], m[h.len() + 2], m[h.len() + 3]]);
					if killed { check(v != 0, "sshd: a killed program is no success"); cover("killed") } else { check(v == code as u32, "sshd: the program's own exit status"); cover("exited") }
				}
			}
		}
		c.expect(&msg(&[&[97], &be(peer)]), "sshd: the channel is closed");
		alive(&mut s);
	}
	/// Two programs at once: neither disturbs the other.
	fn h_sshd_two() {
		let (mut s, mut c) = phase();
		login(&mut s, &mut c);
		let a = session(&mut s, &mut c, 11);
		let b = session(&mut s, &mut c, 22);
		let first = choose(2);
		for k in 0..2 {
			let (ch, peer) = if k == 0 { (a, 11) } else { (b, 22) };
			if (k == 0) == (first == 0) { c.say(&mut s, &channel_request(ch, b"shell", true, &[])) } else { c.say(&mut s, &channel_request(ch, b"exec", true, &string(b"x"))) }
			c.expect(&msg(&[&[99], &be(peer)]), "sshd: the program starts");
		}
		check(programs().len() == 2, "sshd: two programs");
		let (p, q) = (world().child(0), world().child(1));
		let order = choose(2);
		for k in 0..2 {
			let (p, ch, peer) = if k == order { (&p, a, 11) } else { (&q, b, 22) };
			check(!p.killed.get(), "sshd: a program is left alone");
			let (i, o) = (sym::<1>(), sym::<1>());
			c.say(&mut s, &msg(&[&[94], &be(ch), &string(&i)]));
			check(eq(&p.stdin.take(), &i), "sshd: input arrives at its program");
			p.stdout.put(&o);
			c.run(&mut s);
			c.expect(&msg(&[&[94], &be(peer), &string(&o)]), "sshd: output goes to its channel");
			let code = sym_u8();
			p.stdout.close();
			p.stderr.close();
			p.exit((code as u32) << 8);
			c.run(&mut s);
			let (mut status, mut closed) = (0, 0);
			while let Some(m) = c.recv() {
				check(m.len() >= 5 && eq(&m[1..5], &be(peer)), "sshd: only that channel ends");
				match m[0] {
					97 => closed += 1,
					98 => { status += 1; check(eq(&m[m.len() - 4..], &be(code as u32)), "sshd: its own exit status") }
					_ => {}
				}
			}
			check(status == 1 && closed == 1, "sshd: the end of each program is reported");
		}
		cover("both");
		alive(&mut s);
	}
	/// Many attempts to log in, then many programs, by several clients of one daemon.
	fn h_sshd_long() {
		let n = tier(8, 20);
		let (mut s, mut c) = phase();
		let other = choose(2) == 1;
		let mut d = None;
		let kinds = [choose(4), choose(4)];
		for i in 0..n {
			let user = [b"user".to_vec(), vec![b'u'; 255], Vec::new()][i % 3].clone();
			match kinds[i % 2] {
				0 => c.say(&mut s, &request(&user, b"none", &[])),
				1 => c.say(&mut s, &request(&user, b"password", &msg(&[&[0], &string(b"secret")]))),
				2 => {
					// a forged signature
					let (key, sig) = (sym::<32>(), sym::<64>());
					let m = sign_data(&c.session, &user, ED, &msg(&[&string(ED), &string(&key)]));
					assume(!mstd::genuine(&key, &m, &sig));
					c.say(&mut s, &signed(&user, ED, &key, &sig));
				}
				_ => c.say(&mut s, &signed(&user, b"ssh-rsa", &sym::<32>(), &sym::<64>())),
			}
			c.expect(FAILURE, "sshd: no access, however often one tries");
			if other && i == n / 2 {
				// someone else logs in
				let (tx, rx) = world().connect();
				let mut o = handshake(&mut s, tx, rx);
				o.say(&mut s, SERVICE);
				o.expect(b"\x06\0\0\0\x0cssh-userauth", "sshd: the service is accepted");
				login(&mut s, &mut o);
				d = Some(o);
			}
		}
		check(programs().is_empty(), "sshd: no program without login");
		if choose(2) == 1 {
			c.say(&mut s, &msg(&[&[90], &string(b"session"), &be(0), &be(65536), &be(32768)]));
			while let Some(m) = c.recv() { check(m.first() != Some(&91), "sshd: no channel without login") }
			if let Some(o) = &mut d { session(&mut s, o, 3); }
			alive(&mut s);
			cover("refused");
			return;
		}
		login(&mut s, &mut c);
		// programs come and go, on one channel after the other
		let overlap = choose(3);
		let mut live: Vec<(u32, u32, Child, u32)> = Vec::new();
		for i in 0..n {
			let who = if i % 2 == 1 && d.is_some() { d.as_mut().unwrap() } else { &mut c };
			let peer = 40 + i as u32;
			let ch = session(&mut s, who, peer);
			let can = i % 4 != 3;
			st(|x| x.can_start = can);
			let cmd = [b"do ", i.to_string().as_bytes()].concat();
			if i % 3 == 0 { who.say(&mut s, &channel_request(ch, b"shell", true, &[])) } else { who.say(&mut s, &channel_request(ch, b"exec", true, &string(&cmd))) }
			who.expect(&msg(&[&[if can { 99 } else { 100 }], &be(peer)]), "sshd: success or failure is reported");
			let ps = programs();
			check(ps.len() == i + 1, "sshd: exactly one program");
			let got = &ps.last().unwrap().0;
			check(if i % 3 == 0 { got.len() == 1 && eq(&got[0], b"/bin/sh") } else { got.len() == 2 && eq(&got[0], b"do") && eq(&got[1], i.to_string().as_bytes()) }, "sshd: the program asked for");
			if can { live.push((ch, peer, world().child(world().0.borrow().children.len() - 1), i as u32)) }
			while live.len() > overlap || i == n - 1 && !live.is_empty() {
				let (ch, peer, p, k) = live.remove(if overlap == 1 { live.len() - 1 } else { 0 });
				let who = if k % 2 == 1 && d.is_some() { d.as_mut().unwrap() } else { &mut c };
				check(!p.killed.get(), "sshd: a program is left alone");
				let (x, o) = (sym::<1>(), sym::<1>());
				who.say(&mut s, &msg(&[&[94], &be(ch), &string(&x)]));
				check(eq(&p.stdin.take(), &x), "sshd: input arrives at its program");
				p.stdout.put(&o);
				who.run(&mut s);
				who.expect(&msg(&[&[94], &be(peer), &string(&o)]), "sshd: output goes to its channel");
				p.stdout.close();
				p.stderr.close();
				who.run(&mut s);
				p.exit(k << 8);
				who.run(&mut s);
				who.expect(&msg(&[&[96], &be(peer)]), "sshd: end of output");
				who.expect(&msg(&[&[98], &be(peer), &string(b"exit-status"), &[0], &be(k)]), "sshd: its own exit status");
				who.expect(&msg(&[&[97], &be(peer)]), "sshd: the channel is closed");
				who.say(&mut s, &msg(&[&[97], &be(ch)]));
				who.expect_nothing("sshd: closed once");
			}
		}
		cover("ran");
		alive(&mut s);
	}
	/// Connections that cannot be accepted.
	fn h_sshd_accept() {
		let n = 1 + choose(3);
		let (tx, rx) = world().connect();
		let before = choose(2) == 0;
		if before { st(|x| x.refuse = n) }
		let mut s = daemon();
		s.run(&[&tx, &rx]);
		check(rx.left() > SERVER_ID.len(), "sshd: the next connection is served");
		st(|x| x.refuse = n);
		alive(&mut s);
		cover("served");
	}
}
