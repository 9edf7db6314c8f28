//! Long histories: what holds for a few steps also holds for many.
use crate::auth::*;
use crate::client::*;
use crate::conn::*;
use crate::world::*;
use nsx::*;

harnesses! {
	/// Many refused requests, then one that is agreed to.
	fn h_long_auth() {
		let (w, mut s, mut c) = phase();
		let kinds = [choose(7), choose(7)];
		let last = [0, 1, 6][choose(3)];
		let n = if kinds[0] == kinds[1] && kinds[0] < 2 && last == 0 { 300 } else { tier(20, 40) };
		let mut asked = 0;
		for i in 0..n + 1 {
			let a = attempt(&c.session.clone(), if i == n { last } else { kinds[i % 2] }, 1, [2, 3][i % 2]);
			w.0.borrow_mut().verdicts = vec![false; asked];
			if i == n { w.0.borrow_mut().verdicts.push(true) }
			c.say(&mut s, &a.payload);
			let calls = w.calls();
			asked += a.call.is_some() as usize;
			let ok = calls.len() == asked;
			check(ok, "auth: each request is put to the handler once");
			if !ok { return }
			if let Some(x) = &a.call { check(same(&calls[asked - 1], x), "auth: the handler is asked exactly what the client sent") }
			c.expect(if i == n { SUCCESS } else { FAILURE }, "auth: the handler's verdict is passed on, however many were refused");
			c.expect_nothing("auth: one reply per request");
		}
		let ch = session(&mut s, &mut c, 9);
		c.say(&mut s, &channel_request(ch, b"shell", true, &[]));
		c.expect(&[99, 0, 0, 0, 9], "auth: a program can be started after success");
		check(w.0.borrow().users == 1 && same(w.calls().last().unwrap(), &Call::Spawn { user: 1, command: None, id: 0 }), "auth: it runs as the user agreed to");
		cover("granted");
	}
	/// Channels come and go for a long time.
	fn h_long_channels() {
		let (w, mut s, mut c) = authenticated();
		let m = [1, 3, 20][choose(3)];
		let pattern = choose(4);
		let mut open: Vec<(u32, u32, Option<Child>)> = Vec::new();
		let (mut peer, mut kids) = (1000, 0);
		for i in 0..m + if m == 1 { 300 } else { tier(16, 40) } {
			if i >= m {
				let k = match pattern { 0 => 0, 1 => m - 1, 2 => m / 2, _ => i % m };
				let (ch, p, kid) = open.remove(k);
				match (i % 3, kid) {
					// the program ends by itself
					(0, Some(kid)) => {
						kid.stdout.close();
						kid.stderr.close();
						kid.exit(i as u32);
						c.run(&mut s);
						let mut seen = Seen::default();
						seen.drain(p, &mut c);
						check(seen.eof == 1 && seen.close == 1 && seen.status == [i as u32], "channel: a program ends properly");
						c.say(&mut s, &close(ch));
						c.expect_nothing("channel: one close each");
					}
					(_, kid) => {
						c.say(&mut s, &close(ch));
						c.expect(&close(p), "channel: a close is answered");
						if let Some(kid) = kid { check(kid.stdin.0.borrow().closed, "channel: the input of the program ends with its channel") }
					}
				}
			}
			peer += 1;
			let ch = session(&mut s, &mut c, peer);
			for x in &open { check(x.0 != ch, "channel: numbers of open channels are distinct") }
			let kid = if i % 2 == 0 {
				let cmd = msg(&[b"run ", &be(peer)]);
				c.say(&mut s, &channel_request(ch, b"exec", true, &string(&cmd)));
				c.expect(&msg(&[&[99], &be(peer)]), "channel: the program starts, and the reply goes to its channel");
				let calls = w.calls();
				let ok = calls.len() == kids + 1 && same(&calls[kids], &Call::Spawn { user: 1, command: Some(cmd), id: kids });
				check(ok, "channel: exactly the program asked for starts");
				if !ok { return }
				kids += 1;
				Some(w.child(kids - 1))
			} else { None };
			c.expect_nothing("channel: no other messages");
			open.push((ch, peer, kid));
		}
		// all of them work
		for (ch, p, kid) in &open {
			if let Some(kid) = kid {
				let d = sym::<2>();
				c.say(&mut s, &data(*ch, &d));
				check(eq(&kid.stdin.take(), &d), "channel: data goes to its program");
				kid.stdout.put(&d);
				c.run(&mut s);
				let mut seen = Seen::default();
				seen.drain(*p, &mut c);
				check(eq(&seen.out, &d), "channel: output goes to its channel");
			}
		}
		cover("open");
	}
	/// A lot of output.
	fn h_long_output() {
		let (w, mut s, mut c) = authenticated();
		c.say(&mut s, &open_ty(b"session", 7, u32::MAX, 32768));
		let m = c.recv().unwrap_or_default();
		if m.len() != 17 { check(false, "session: opened"); return }
		let ch = u32::from_be_bytes([m[5], m[6], m[7], m[8]]);
		c.say(&mut s, &channel_request(ch, b"shell", true, &[]));
		c.expect(&[99, 0, 0, 0, 7], "session: a program starts");
		let kid = w.child(0);
		let size = [1, 3, 255, 1000, 5000, 40000][choose(6)];
		let every = [1, 4, 1000][choose(3)];
		let both = choose(3);
		let (mut out, mut err) = (Vec::new(), Vec::new());
		let mut seen = Seen::default();
		for i in 0..if size > 9000 { 2 } else if size > 900 { tier(8, 40) } else if size == 1 { 300 } else { tier(30, 100) } {
			let d = bytes(size + i % 3);
			if both == 0 || both == 2 && i % 2 == 0 { kid.stdout.put(&d); out.extend(d) } else { kid.stderr.put(&d); err.extend(d) }
			if i % every == 0 { c.run(&mut s); seen.drain(7, &mut c); check(seen.out.len() == out.len() && seen.err.len() == err.len(), "session: output is passed on at once") }
		}
		kid.stdout.close();
		kid.stderr.close();
		if choose(2) == 1 { c.run(&mut s) }
		kid.exit(1);
		c.run(&mut s);
		seen.drain(7, &mut c);
		check(eq(&seen.out, &out), "session: all standard output arrives, in order");
		check(eq(&seen.err, &err), "session: all error output arrives, in order");
		check(seen.eof == 1 && seen.close == 1 && seen.status == [1], "session: and ends properly");
		cover("complete");
	}
	/// A lot of input, with the window as announced.
	fn h_long_input() {
		let (w, mut s, mut c) = authenticated();
		let (ch, kid) = program(&mut s, &mut c, &w, 7);
		let size = [1, 3, 255, 256, 1000, 5000, 32766][choose(7)];
		let n = if size > 9000 { 6 } else if size == 1 { 300 } else { tier(40, 100) };
		if size < 9 { kid.stdin.sched([Sched::Greedy, Sched::Single, Sched::SinglePending][choose(3)]) }
		let other = choose(2) == 1;
		let (mut want, mut seen) = (Vec::new(), Seen::default());
		let mut left = 65536;
		for i in 0..n {
			let d = bytes(size + i % 3);
			if other && i % 4 == 3 {
				c.send(&msg(&[&[95], &be(ch), &be(i as u32 / 4), &string(&d)]))
			} else {
				c.send(&data(ch, &d));
				want.extend_from_slice(&d)
			}
			left -= d.len() as i64;
			s.run(&[&c.tx, &c.rx, &kid.stdin]);
			seen.adjust = 0;
			seen.drain(7, &mut c);
			left += seen.adjust as i64;
			check(left > 32770, "session: the window is given back");
			check(kid.stdin.left() == want.len(), "session: input is passed on at once");
		}
		c.send(&eof(ch));
		s.run(&[&c.tx, &c.rx, &kid.stdin]);
		check(eq(&kid.stdin.take(), &want), "session: all input arrives, in order");
		check(kid.stdin.0.borrow().closed, "session: and ends");
		check(!c.ended(), "session: the connection goes on");
		cover("complete");
	}
	/// Sequence numbers of unknown messages, late in a connection.
	fn h_long_unknown() {
		let (_w, mut s, mut c) = authenticated();
		let n = [1, 250, 251, 300, tier(600, 4000)][choose(5)];
		for i in 0..n {
			c.send(&msg(&[&[2], &string(&[i as u8])]));
			if i % 7 == 0 { c.run(&mut s); c.expect_nothing("connection: IGNORE is not answered") }
		}
		let seq = c.out.seq as u32;
		let ty = sym_u8();
		assume(ty >= 192);
		c.say(&mut s, &[ty]);
		c.expect(&msg(&[&[3], &be(seq)]), "connection: unknown messages are answered with their sequence number");
		c.expect_nothing("connection: once");
		cover("unknown");
	}
	/// Requests of every kind with one large field.
	fn h_large_auth() {
		let (w, mut s, mut c) = phase();
		let big = [255, 256, 257, 1023, 1024, 1025, 4096, 20000, 32000][choose(9)];
		let (kind, field) = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 2), (3, 2), (4, 2), (5, 0), (5, 1), (5, 2), (5, 3)][choose(12)];
		let l = |f: usize| bytes(if f == field { big } else { 3 });
		let (user, service, x, y) = (l(0), l(1), l(2), l(3));
		let (payload, call, agreed) = match kind {
			0 => (request(&user, &service, b"none", &[]), Some(Call::None { user, service }), SUCCESS.to_vec()),
			1 => (request(&user, &service, b"password", &msg(&[&[0], &string(&x)])), Some(Call::Password { user, service, password: x }), SUCCESS.to_vec()),
			2 => (request(&user, &service, b"password", &msg(&[&[1], &string(&x), &string(&y)])), None, vec![]),
			3 => (request(&user, &service, b"hostbased", &msg(&[&string(b"a"), &string(&x), &string(b"h"), &string(b"u"), &string(&y)])), None, vec![]),
			4 => (request(&user, &service, b"keyboard-interactive", &msg(&[&string(&x), &string(&y)])), None, vec![]),
			_ => {
				let alg = if field == 2 { vec![b'a'; big.min(4096)] } else { x };
				let blob = msg(&[&string(&alg), &string(&y)]);
				(request(&user, &service, b"publickey", &msg(&[&[0], &string(&alg), &string(&blob)])), Some(Call::Exists { user, service, algorithm: alg.clone(), key: y }), msg(&[&[60], &string(&alg), &string(&blob)]))
			}
		};
		let verdict = choose(2) == 1;
		w.0.borrow_mut().verdicts = vec![verdict];
		c.say(&mut s, &payload);
		let calls = w.calls();
		match &call {
			None => check(calls.is_empty(), "auth: an unsupported method asks nobody"),
			Some(x) => check(calls.len() == 1 && same(&calls[0], x), "auth: the handler is asked exactly what the client sent, whatever its size"),
		}
		c.expect(if verdict && call.is_some() { &agreed } else { FAILURE }, "auth: the verdict is passed on");
		c.expect_nothing("auth: one reply per request");
		if verdict { cover("agreed") } else { cover("refused") }
	}
	/// Channel requests and commands of every size.
	fn h_large_requests() {
		let (w, mut s, mut c) = authenticated();
		let ch = session(&mut s, &mut c, 9);
		let cmd = bytes([254, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 20000, 32600][choose(12)]);
		let kind = choose(3);
		let (ty, d): (&[u8], _) = match kind { 0 => (b"exec", string(&cmd)), 1 => (b"env", msg(&[&string(b"A"), &string(&cmd)])), _ => (b"other", cmd.clone()) };
		c.say(&mut s, &channel_request(ch, ty, true, &d));
		let calls = w.calls();
		if kind == 0 {
			check(calls.len() == 1 && same(&calls[0], &Call::Spawn { user: 1, command: Some(cmd), id: 0 }), "channel: exactly the program asked for starts, however long its command");
			c.expect(&[99, 0, 0, 0, 9], "channel: success");
			cover("started");
		} else {
			check(calls.is_empty(), "channel: nothing else starts a program");
			c.expect(&[100, 0, 0, 0, 9], "channel: failure");
			cover("failed");
		}
		c.expect_nothing("channel: one reply");
	}
	/// Hundreds of channels at once.
	fn h_many_channels() {
		let (w, mut s, mut c) = authenticated();
		let n = [130, 258, tier(300, 600)][choose(3)];
		let mut chs = Vec::new();
		for i in 0..n { chs.push(session(&mut s, &mut c, 5000 + i as u32)) }
		let gone = [0, n / 2, n - 1][choose(3)];
		c.say(&mut s, &close(chs[gone]));
		c.expect(&close(5000 + gone as u32), "channel: a close is answered on its channel");
		let peer = sym_u32();
		chs[gone] = session(&mut s, &mut c, peer);
		let mut sorted = chs.clone();
		sorted.sort();
		check(sorted.windows(2).all(|w| w[0] != w[1]), "channel: numbers of open channels are distinct");
		let at = [0, 1, 63, 127, n / 2, n - 2, n - 1, 128, 129, n.min(256) - 1, n.min(257) - 1][choose(11)];
		let p = if at == gone { peer } else { 5000 + at as u32 };
		c.say(&mut s, &channel_request(chs[at], b"shell", true, &[]));
		c.expect(&msg(&[&[99], &be(p)]), "channel: the reply goes to the channel that asked");
		let kid = w.child(0);
		let d = sym::<2>();
		c.say(&mut s, &data(chs[at], &d));
		check(eq(&kid.stdin.take(), &d), "channel: data goes to its program");
		let mut seen = Seen::default();
		seen.drain(p, &mut c);
		kid.stdout.put(&d);
		kid.stdout.close();
		kid.stderr.close();
		kid.exit(3);
		c.run(&mut s);
		seen.drain(p, &mut c);
		check(eq(&seen.out, &d) && seen.eof == 1 && seen.close == 1 && seen.status == [3], "channel: output and end of the program go to its channel");
		c.say(&mut s, &close(chs[at]));
		c.expect_nothing("channel: closed once");
		cover("open");
	}
	/// After a packet that was skipped in the key exchange, the numbering still counts it.
	fn h_long_skipped() {
		let w = World::new();
		let (tx, rx) = w.connect();
		let mut s = server(&w);
		let mut k = Kex::new();
		let skip = choose(2) == 1;
		if skip {
			k.init = kexinit(b"other,curve25519-sha256", HOST, CIPHER, CIPHER, 1);
			k.wasted = vec![vec![30; 1 + choose(9)]];
		}
		let mut p = start(&mut s, &k, tx, rx);
		p.init(&mut s);
		p.key(&mut s);
		let mut c = match p.finish(&mut s) { Some(c) => c, None => { check(false, "negotiation: the exchange succeeds"); return } };
		c.say(&mut s, SERVICE);
		c.expect(b"\x06\0\0\0\x0cssh-userauth", "negotiation: both directions work");
		w.0.borrow_mut().verdicts = vec![true];
		let message = sign_data(&c.session.clone(), b"u", b"s", b"a", &msg(&[&string(b"a"), &string(b"k")]));
		c.say(&mut s, &request(b"u", b"s", b"publickey", &msg(&[&[1], &string(b"a"), &string(&msg(&[&string(b"a"), &string(b"k")])), &string(&msg(&[&string(b"a"), &string(b"s")]))])));
		let calls = w.calls();
		check(calls.len() == 1 && same(&calls[0], &Call::Key { user: b"u".to_vec(), service: b"s".to_vec(), algorithm: b"a".to_vec(), key: b"k".to_vec(), signature: b"s".to_vec(), message }), "auth: the signature is over this session's identifier");
		c.expect(SUCCESS, "auth: accepted");
		for _ in 0..choose(3) { c.say(&mut s, &msg(&[&[2], &string(b"x")])) }
		let seq = c.out.seq as u32;
		c.say(&mut s, &[192 + choose(2) as u8 * 63]);
		c.expect(&msg(&[&[3], &be(seq)]), "connection: unknown messages are answered with their sequence number");
		if skip { cover("skipped") } else { cover("plain") }
	}
	/// A pipe of a program that breaks counts as ended.
	fn h_session_broken() {
		let (w, mut s, mut c) = authenticated();
		let (ch, kid) = program(&mut s, &mut c, &w, 7);
		let (_, other) = program(&mut s, &mut c, &w, 8);
		let which = choose(3);
		let d = sym::<2>();
		let before = choose(2) == 1;
		if before { kid.stdout.put(&d); kid.stderr.put(&d); c.run(&mut s) }
		let mut seen = Seen::default();
		seen.drain(7, &mut c);
		for (i, p) in [&kid.stdout, &kid.stderr].into_iter().enumerate() {
			if which == 2 || which == i { p.0.borrow_mut().fail = true; p.wake() } else if !before { p.put(&d); p.close() } else { p.close() }
		}
		c.run(&mut s);
		let code = sym_u32();
		kid.exit(code);
		c.run(&mut s);
		seen.drain(7, &mut c);
		let n = |i: usize| if before || which != 2 && which != i { &d[..] } else { &[] };
		check(eq(&seen.out, n(0)) && eq(&seen.err, n(1)), "session: what was written before arrives");
		check(seen.eof == 1 && seen.close == 1 && seen.status == [code], "session: a broken pipe counts as ended, and the exit status is reported");
		c.say(&mut s, &close(ch));
		other.stdout.put(&d);
		c.run(&mut s);
		let mut seen = Seen::default();
		seen.drain(8, &mut c);
		check(eq(&seen.out, &d) && seen.close == 0, "session: other programs go on");
		cover("broken");
	}
}
