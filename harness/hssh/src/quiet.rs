//! Messages that ask for nothing, at every stage of a connection.
use crate::auth::*;
use crate::client::*;
use crate::conn::*;
use crate::world::*;
use nsx::*;

fn text(n: usize) -> Vec<u8> {
	let v = bytes(n);
	for b in &v { assume(*b < 128) }
	v
}
/// IGNORE, UNIMPLEMENTED, DEBUG with arbitrary contents.
fn nothing(n: usize) -> Vec<u8> {
	match choose(3) {
		0 => msg(&[&[2], &string(&bytes(n))]),
		1 => msg(&[&[3], &sym::<4>()]),
		_ => msg(&[&[4, sym_u8() & 1], &string(&text(n)), &string(&text(n % 3))]),
	}
}
fn some(n: usize) -> Vec<Vec<u8>> { let k = 1 + choose(n); (0..k).map(|i| nothing([0, 1, 5, 3, 2][i % 5])).collect() }

harnesses! {
	/// At one of the stages of a connection a few messages that ask for nothing: everything goes on as without them.
	fn h_ignored() {
		let w = World::new();
		w.0.borrow_mut().verdicts = vec![false, true];
		w.0.borrow_mut().slow = choose(2) == 1;
		let (tx, rx) = w.connect();
		let mut s = server(&w);
		let mut c = handshake(&mut s, tx, rx);
		let at = choose(6);
		let batch = choose(2) == 1;
		let more = match at { 0..=2 => some(tier(2, 3)), _ => Vec::new() };
		let quiet = |i: usize, s: &mut Srv, c: &mut Client| if i == at {
			for m in &more { if batch { c.send(m) } else { c.say(s, m); c.expect_nothing("quiet: no reply"); check(!c.ended(), "quiet: the connection goes on"); } }
		};
		quiet(0, &mut s, &mut c);
		c.say(&mut s, SERVICE);
		c.expect(b"\x06\0\0\0\x0cssh-userauth", "quiet: the service is accepted");
		quiet(1, &mut s, &mut c);
		c.say(&mut s, &request(b"u", b"ssh-connection", b"none", &[]));
		c.expect(FAILURE, "quiet: the first attempt is refused");
		quiet(2, &mut s, &mut c);
		c.say(&mut s, &request(b"u", b"ssh-connection", b"none", &[]));
		c.expect(SUCCESS, "quiet: the second attempt is accepted");
		check(w.calls().len() == 2, "quiet: handlers are asked about the requests only");
		w.0.borrow_mut().calls.clear();
		// from here on more kinds of messages ask for nothing
		let peer = sym_u32();
		let mut known = None;
		let later = |i: usize, s: &mut Srv, c: &mut Client, known: Option<u32>| if i == at {
			for i in 0..1 + choose(tier(2, 3)) {
				let m = match choose(4) {
					0 => nothing([1, 5, 0][i]),
					1 => msg(&[&[93], &be(known.filter(|_| choose(2) == 1).unwrap_or_else(sym_u32)), &be(sym_u32())]),
					2 => attempt_for(&c.session.clone(), choose(7), 1, 2, b"ssh-connection".to_vec()).payload,
					_ => close({ let n = sym_u32(); if let Some(k) = known { assume(n != k) } n }),
				};
				if batch { c.send(&m) } else { c.say(s, &m); c.expect_nothing("quiet: no reply"); check(!c.ended(), "quiet: the connection goes on"); }
			}
		};
		later(3, &mut s, &mut c, known);
		let ch = session(&mut s, &mut c, peer);
		known = Some(ch);
		later(4, &mut s, &mut c, known);
		c.say(&mut s, &channel_request(ch, b"shell", true, &[]));
		c.expect(&msg(&[&[99], &be(peer)]), "quiet: a program starts");
		let ok = w.0.borrow().children.len() == 1;
		check(ok, "quiet: one program");
		if !ok { return }
		let kid = w.child(0);
		let first = batch || at != 5;
		if first { kid.stdout.put(b"out") }
		c.send(&data(ch, b"i"));
		if !first { c.run(&mut s) }
		if !first { while c.recv().is_some() {} }
		later(5, &mut s, &mut c, known);
		if !first { kid.stdout.put(b"out") }
		c.say(&mut s, &data(ch, b"n"));
		check(eq(&kid.stdin.take(), b"in"), "quiet: input is passed on");
		c.send(&eof(ch));
		kid.stdout.close();
		kid.stderr.close();
		kid.exit(3);
		c.run(&mut s);
		check(kid.stdin.0.borrow().closed, "quiet: and its end");
		let mut seen = Seen::default();
		seen.drain(peer, &mut c);
		check(eq(&seen.out, b"out") && seen.eof == 1 && seen.close == 1 && seen.status == [3], "quiet: so are output and exit status");
		check(w.calls().len() == 1, "quiet: nobody is asked but for the program");
		cover("quiet");
	}
	/// A program started in any way, with its input sent along or later, from start to end.
	fn h_program_kinds() {
		let (w, mut s, mut c) = authenticated();
		w.0.borrow_mut().slow = choose(2) == 1;
		let peer = sym_u32();
		let reply = choose(2) == 1;
		let stdin = choose(3) != 2;
		w.0.borrow_mut().stdio.0 = stdin;
		let ch = session(&mut s, &mut c, peer);
		let (mut failures, mut early) = (0, false);
		match choose(6) {
			0 => {}
			1 => { c.send(&channel_request(ch, b"env", reply, &msg(&[&string(b"LANG"), &string(&bytes(2))]))); failures = reply as usize }
			2 => { c.send(&channel_request(ch, b"pty-req", true, &msg(&[&string(b"vt"), &sym::<16>(), &string(b"\0")]))); failures = 1 }
			3 => { c.send(&data(ch, b"early")); c.run(&mut s) }
			n => { if n == 5 { c.send(&data(ch, b"early")) } c.send(&eof(ch)); early = true; if choose(2) == 1 { c.run(&mut s) } }
		}
		let mut seen = Seen::default();
		seen.adjust = 0;
		let cmd = bytes([0, 3, 300][choose(3)]);
		let exec = choose(2) == 1;
		let at_once = choose(2) == 1;
		let (cmd, start) = if exec { (Some(cmd.clone()), channel_request(ch, b"exec", reply, &string(&cmd))) } else { (None, channel_request(ch, b"shell", reply, &[])) };
		c.send(&start);
		if !at_once { c.run(&mut s) }
		let (d, e) = (bytes(3), bytes(1));
		c.send(&data(ch, &d));
		if !at_once && choose(2) == 1 { c.run(&mut s) }
		c.send(&data(ch, &e));
		c.run(&mut s);
		let calls = w.calls();
		let ok = calls.len() == 1 && same(&calls[0], &Call::Spawn { user: 1, command: cmd, id: 0 });
		check(ok, "program: exactly the requested one is started, once");
		if !ok { return }
		let kid = w.child(0);
		let d = if early { Vec::new() } else { msg(&[&d, &e]) };
		check(!stdin || eq(&kid.stdin.take(), &d), "program: input reaches it however it was started");
		check(!stdin || kid.stdin.0.borrow().closed == early, "program: its input is open until EOF");
		let ends = !early && choose(2) == 1;
		if ends { c.say(&mut s, &eof(ch)); check(!stdin || kid.stdin.0.borrow().closed, "program: and ends then") }
		for _ in 0..failures { c.expect(&msg(&[&[100], &be(peer)]), "program: requests that are not supported fail") }
		if reply { c.expect(&msg(&[&[99], &be(peer)]), "program: the reply, if wanted") }
		let (o, r, status) = (bytes(2), bytes(1), sym_u32());
		kid.stdout.put(&o);
		kid.stderr.put(&r);
		if choose(2) == 1 { c.run(&mut s); seen.drain(peer, &mut c); check(seen.out.len() == 2 && seen.err.len() == 1, "program: output is passed on at once") }
		kid.exit(status);
		if choose(2) == 1 { c.run(&mut s); seen.drain(peer, &mut c); check(seen.status.len() == 1 && seen.close == 0, "program: the exit status is passed on at once") }
		kid.stdout.close();
		kid.stderr.close();
		c.run(&mut s);
		seen.drain(peer, &mut c);
		check(eq(&seen.out, &o) && eq(&seen.err, &r), "program: all output arrives");
		check(seen.eof == 1 && seen.close == 1 && seen.status.len() == 1 && seen.status[0] == status, "program: one EOF, status and close");
		c.say(&mut s, &close(ch));
		c.expect_nothing("program: the close is not answered twice");
		if reply { cover("reply") } else { cover("no reply") }
		let (_, k) = { w.0.borrow_mut().stdio.0 = true; program(&mut s, &mut c, &w, peer) };
		check(!k.stdin.0.borrow().closed, "program: the next one starts afresh");
	}
}
