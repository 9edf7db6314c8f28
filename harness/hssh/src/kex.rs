//! Key exchange with the whole server (RFC 4253 sections 4 and 7, RFC 5656, RFC 8731).
use crate::client::*;
use crate::world::*;
use nsx::*;

fn connect() -> (World, Srv, Pipe, Pipe) {
	let w = World::new();
	let (tx, rx) = w.connect();
	let s = server(&w);
	(w, s, tx, rx)
}
fn sched(tx: &Pipe, rx: &Pipe) {
	let m = [Sched::Greedy, Sched::Single, Sched::SinglePending];
	tx.sched(m[choose(3)]);
	rx.sched(m[choose(3)]);
}
const ACCEPT: &[u8] = b"\x06\0\0\0\x0cssh-userauth";
const REQUEST: &[u8] = b"\x05\0\0\0\x0cssh-userauth";
fn service(s: &mut Srv, mut c: Client) {
	c.say(s, REQUEST);
	c.expect(ACCEPT, "handshake: both directions work under the negotiated keys");
	c.expect_nothing("handshake: one reply");
}
/// Lists around a supported name.
fn list(name: &[u8], shape: usize) -> (Vec<u8>, bool, bool) {
	let n = name.len();
	match shape {
		0 => (name.to_vec(), true, true),
		1 => (vec![], false, false),
		2 => (b"other".to_vec(), false, false),
		3 => (msg(&[b"other,", name]), true, false),
		4 => (msg(&[name, b",other"]), true, true),
		5 => (name[..n - 1].to_vec(), false, false),
		6 => (msg(&[name, b"x"]), false, false),
		7 => (msg(&[b"a,", name, b",b"]), true, false),
		// long names and many of them
		8 => (msg(&[&[b'l'; 300], b",", name]), true, false),
		9 => (msg(&[&b"n@x.org,".repeat(40), name]), true, false),
		10 => (msg(&[&[b'l'; 300], b",", name, b"x,", &name[1..]]), false, false),
		_ => {
			// one arbitrary byte
			let mut v = name.to_vec();
			let i = [0, n / 2, n - 1][choose(3)];
			let b = sym_u8();
			assume(b < 128 && b != b',');
			v[i] = b;
			let same = b == name[i];
			(v, same, same)
		}
	}
}

harnesses! {
	/// Client identification of any content and many lengths, any chunking.
	fn h_kex_exchange() {
		let (_w, mut s, tx, rx) = connect();
		let mut k = Kex::new();
		let n = [0, 1, 2, 8, 100, 245][choose(6)];
		let mut sw = vec![b'v'; n];
		if n > 0 { fill(&mut sw[..1]); fill(&mut sw[n - 1..]); }
		for b in [0, n.wrapping_sub(1)] { if let Some(b) = sw.get(b) { assume(*b != b'\r') } }
		k.id = msg(&[b"SSH-2.0-", &sw]);
		sched(&tx, &rx);
		let mut p = start(&mut s, &k, tx, rx);
		p.init(&mut s);
		check(p.rx.left() == 0, "handshake: the server waits for the client's key");
		p.key(&mut s);
		match p.finish(&mut s) {
			None => check(false, "handshake: a proper exchange succeeds"),
			Some(c) => { service(&mut s, c); cover("exchanged") }
		}
	}
	/// Every shared secret, leading zeroes and zero included.
	fn h_kex_secret() {
		set_mode(FREE_SECRET);
		let (_w, mut s, tx, rx) = connect();
		let k = Kex::new();
		let mut p = start(&mut s, &k, tx, rx);
		p.init(&mut s);
		p.key(&mut s);
		let mut qc = [0; 32];
		qc.copy_from_slice(&k.key[5..]);
		if p.rx.left() == 0 {
			let zero = DRAWN.with(|d| d.borrow().iter().any(|x| x.len() == 32 && eq(&x25519_dalek::shared(&public(x[..].try_into().unwrap()), &qc), &[0; 32])));
			check(zero, "handshake: a proper secret is accepted");
			check(p.ended(), "handshake: a refused connection is closed");
			cover("zero");
		} else if let Some(c) = p.finish(&mut s) {
			service(&mut s, c);
			cover("exchanged");
		}
	}
	/// Negotiation: the exchange goes on exactly if every list has a supported name; a wrongly guessed packet is skipped.
	fn h_kex_negotiate() {
		let (_w, mut s, tx, rx) = connect();
		let mut k = Kex::new();
		let names = [KEX, HOST, CIPHER, CIPHER];
		let (i, j) = [(0, 1), (0, 2), (1, 3), (2, 3)][choose(4)];
		let mut l: Vec<_> = names.iter().map(|n| list(n, 0)).collect();
		l[i] = list(names[i], choose(12));
		l[j] = list(names[j], choose(12));
		let follows = choose(2) == 1;
		k.init = kexinit(&l[0].0, &l[1].0, &l[2].0, &l[3].0, follows as u8);
		let ok = l[0].1 & l[1].1 & l[2].1 & l[3].1;
		let guessed = l[0].2 & l[1].2;
		let mut p = start(&mut s, &k, tx, rx);
		p.init(&mut s);
		if p.ended() {
			check(!ok, "negotiation: supported algorithms are accepted");
			check(p.rx.left() == 0, "negotiation: nothing is sent after refusing");
			cover("refused");
			return;
		}
		check(ok, "negotiation: without a common algorithm the connection ends");
		let wasted = if follows && !guessed { vec![msg(&[&[30], &string(&sym::<5>())])] } else { vec![] };
		let k = Kex { wasted, id: k.id.clone(), init: k.init.clone(), key: k.key.clone(), newkeys: k.newkeys.clone() };
		let mut p = Partial { k: &k, ..p };
		p.key(&mut s);
		match p.finish(&mut s) {
			None => check(false, "negotiation: the exchange succeeds"),
			Some(c) => { service(&mut s, c); if k.wasted.is_empty() { cover("agreed") } else { cover("skipped") } }
		}
	}
	/// Malformed messages in place of KEXINIT, the client's key or NEWKEYS: never a panic, never a step further.
	fn h_kex_malformed() {
		let (w, mut s, tx, rx) = connect();
		let mut k = Kex::new();
		let stage = choose(3);
		let n = choose(tier(9, 16));
		let mut bad = sym_vec(n);
		match choose(4) {
			0 => {}
			1 => { let l = [0, 1, 31, 33, 64][choose(5)]; bad = ecdh_init(&sym_vec(l)) }
			2 => { bad = [&k.init[..], &k.key, &k.newkeys][choose(3)].to_vec(); if choose(2) == 0 { bad.pop(); } else { bad.push(sym_u8()) } }
			_ => { bad = [&k.init[..], &k.key, &k.newkeys][(stage + 1 + choose(2)) % 3].to_vec() }
		}
		match stage {
			0 => k.init = bad.clone(),
			1 => { assume(!(bad.len() == 37 && bad[0] == 30)); k.key = bad.clone() }
			_ => { assume(!(bad.len() == 1 && bad[0] == 21)); k.newkeys = bad.clone() }
		}
		let mut p = start(&mut s, &k, tx, rx);
		p.init(&mut s);
		if stage == 0 {
			check(p.ended() && p.rx.left() == 0, "kex: anything but a proper KEXINIT ends the connection");
			cover("init");
		} else {
			p.key(&mut s);
			if stage == 1 {
				check(p.ended() && p.rx.left() == 0, "kex: anything but a proper client key ends the connection");
				cover("key");
			} else {
				let (tx, rx) = (p.tx.clone(), p.rx.clone());
				match p.finish(&mut s) {
					None => check(false, "kex: replied"),
					Some(mut c) => {
						check(c.ended(), "kex: anything but NEWKEYS ends the connection");
						c.say(&mut s, REQUEST);
						check(rx.left() == 0, "kex: no service without NEWKEYS");
						cover("newkeys");
					}
				}
				obs(tx.left() as u64);
			}
		}
		check(w.calls().is_empty(), "kex: no handler is asked");
		next_client(&w, &mut s);
	}
	/// Arbitrary bytes instead of a plain packet.
	fn h_kex_wire() {
		let (w, mut s, tx, rx) = connect();
		let k = Kex::new();
		let stage = choose(3);
		let mut p = start(&mut s, &k, tx, rx);
		if stage > 0 { p.init(&mut s) }
		if stage > 1 { p.key(&mut s) }
		if stage == 0 { p.tx.put(b"SSH-2.0-x\r\n") }
		let _ = p.rx.take();
		let n = choose(tier(17, 29));
		p.tx.put(&sym_vec(n));
		p.run(&mut s);
		p.tx.close();
		p.run(&mut s);
		check(p.ended() && p.rx.left() == 0, "kex: a broken packet stream ends the connection");
		check(w.calls().is_empty(), "kex: no handler is asked");
		cover("ended");
		next_client(&w, &mut s);
	}
	/// A length field of any value, with a stream that goes on and on.
	fn h_kex_length() {
		let (w, mut s, tx, rx) = connect();
		let k = Kex::new();
		let p = start(&mut s, &k, tx, rx);
		p.tx.put(b"SSH-2.0-x\r\n");
		let mut d = vec![0; 70000];
		let l = sym_u32();
		assume(l <= 40 || l >= 65500);
		d[..4].copy_from_slice(&l.to_be_bytes());
		d[4] = 5;
		p.tx.put(&d);
		p.run(&mut s);
		p.tx.close();
		p.run(&mut s);
		check(p.ended() && p.rx.left() == 0, "kex: a broken packet stream ends the connection");
		cover("ended");
		next_client(&w, &mut s);
	}
	/// The client goes away, or writing fails, at any point.
	fn h_kex_cut() {
		let (w, mut s, tx, rx) = connect();
		let k = Kex::new();
		let all = msg(&[&k.id, b"\r\n", &frame(&k.init, 8, true), &frame(&k.key, 8, true), &frame(&k.newkeys, 8, true)]);
		let cut = choose(all.len() + 1);
		tx.put(&all[..cut]);
		match choose(3) {
			0 => tx.close(),
			1 => tx.0.borrow_mut().fail = true,
			_ => rx.0.borrow_mut().fail = true,
		}
		s.run(&[&tx, &rx]);
		check(tx.0.borrow().dropped && rx.0.borrow().closed, "kex: a lost connection is ended");
		check(w.calls().is_empty(), "kex: no handler is asked");
		cover("ended");
		next_client(&w, &mut s);
	}
}
/// The server still serves others.
pub fn next_client(w: &World, s: &mut Srv) {
	check(s.done.is_none(), "server: keeps running");
	let (tx, rx) = w.connect();
	s.run(&[&tx, &rx]);
	check(rx.left() > SERVER_ID.len(), "server: still answers new connections");
}
