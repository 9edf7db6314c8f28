//! Several clients at once, and the transport under any chunking and size.
use crate::auth::*;
use crate::client::*;
use crate::conn::*;
use crate::world::*;
use nsx::*;

/// One client of several: a script of steps.
struct Actor {
	name: u8,
	tx: Pipe,
	rx: Pipe,
	init: Vec<u8>,
	c: Option<Client>,
	k: Kex,
	at: usize,
	ch: u32,
	user: u32,
	kid: Option<Child>,
}
const STEPS: usize = 9;
impl Actor {
	fn new(w: &World, name: u8) -> Self {
		let (tx, rx) = w.connect();
		Actor { name, tx, rx, init: Vec::new(), c: None, k: Kex::new(), at: 0, ch: 0, user: 0, kid: None }
	}
	fn peer(&self) -> u32 { 100 + self.name as u32 }
	fn step(&mut self, w: &World, s: &mut Srv) {
		let at = self.at;
		self.at += 1;
		let peer = self.peer();
		if at == 0 {
			self.init = start(s, &self.k, self.tx.clone(), self.rx.clone()).server_init;
			return;
		}
		if at < 4 {
			let mut p = Partial { k: &self.k, tx: self.tx.clone(), rx: self.rx.clone(), server_init: self.init.clone() };
			match at {
				1 => p.init(s),
				2 => p.key(s),
				_ => match p.finish(s) {
					Some(c) => self.c = Some(c),
					None => {
						check(false, "clients: each key exchange succeeds");
						prune()
					}
				},
			}
			return;
		}
		let c = match &mut self.c {
			Some(c) => c,
			None => return,
		};
		match at {
			4 => {
				c.say(s, SERVICE);
				c.expect(b"\x06\0\0\0\x0cssh-userauth", "clients: each gets its service");
			}
			5 => {
				w.0.borrow_mut().verdicts = vec![true; 99];
				c.say(s, &request(&[self.name], b"ssh-connection", b"none", &[]));
				c.expect(SUCCESS, "clients: each is authenticated");
				self.user = w.0.borrow().users;
			}
			6 => self.ch = session(s, c, peer),
			7 => {
				let n = w.0.borrow().children.len();
				c.say(s, &channel_request(self.ch, b"exec", true, &string(&[self.name])));
				c.expect(&msg(&[&[99], &be(peer)]), "clients: each starts its program");
				let ok = w.0.borrow().children.len() == n + 1;
				check(ok, "clients: one program each");
				if !ok {
					prune()
				}
				check(same(w.calls().last().unwrap(), &Call::Spawn { user: self.user, command: Some(vec![self.name]), id: n }), "clients: each program runs as its client's user");
				let kid = w.child(n);
				kid.stdout.put(&[self.name; 3]);
				self.kid = Some(kid);
				c.run(s);
			}
			_ => {
				c.say(s, &data(self.ch, &[self.name; 2]));
				let kid = self.kid.take().unwrap();
				check(eq(&kid.stdin.take(), &[self.name; 2]), "clients: data goes to the client's own program");
				kid.stdout.close();
				kid.stderr.close();
				kid.exit(self.name as u32);
				c.run(s);
				let mut seen = Seen::default();
				seen.drain(peer, c);
				check(eq(&seen.out, &[self.name; 3]) && seen.err.is_empty(), "clients: output goes to the program's own client");
				check(seen.status.len() == 1 && seen.status[0] == self.name as u32 && seen.close == 1, "clients: each gets its program's status");
			}
		}
	}
	/// Something goes wrong.
	fn fail(&mut self, how: usize, s: &mut Srv) {
		match how {
			0 => self.tx.close(),
			1 => {
				self.rx.0.borrow_mut().fail = true;
				self.tx.0.borrow_mut().fail = true;
				self.tx.put(&[])
			}
			_ => match &mut self.c {
				Some(c) => c.send(&[20]),
				None => self.tx.put(&[255; 40]),
			},
		}
		s.run(&[&self.tx, &self.rx]);
		self.tx.close();
		s.run(&[&self.tx, &self.rx]);
		check(self.tx.0.borrow().dropped && self.rx.0.borrow().closed, "clients: a broken connection is ended");
	}
}

harnesses! {
	/// Two clients in any interleaving with few switches: neither notices the other.
	fn h_clients_two() {
		let w = World::new();
		let mut s = server(&w);
		let mut a = [Actor::new(&w, 1), Actor::new(&w, 2)];
		let mut cur = choose(2);
		for _ in 0..tier(3, 4) {
			for _ in 0..choose(STEPS + 1 - a[cur].at) { a[cur].step(&w, &mut s) }
			cur = 1 - cur;
		}
		for k in 0..2 { while a[k].at < STEPS { a[k].step(&w, &mut s) } }
		check(a[0].user != a[1].user, "clients: each is its own user");
		check(s.done.is_none(), "server: keeps running");
		cover("both");
	}
	/// A handler takes its time for one client; the other, and the programs of the first, carry on.
	fn h_clients_slow() {
		let w = World::new();
		let mut s = server(&w);
		select_orders(0);
		let mut a = Actor::new(&w, 1);
		let mut b = Actor::new(&w, 2);
		let spawn = choose(2) == 1;
		while a.at < if spawn { 7 } else { 5 } { a.step(&w, &mut s) }
		for _ in 0..choose(STEPS + 1) { b.step(&w, &mut s) }
		let mut c = a.c.take().unwrap();
		let peer = a.peer();
		let early = if spawn && choose(2) == 1 { Some(program(&mut s, &mut c, &w, 500).1) } else { None };
		w.0.borrow_mut().hold = true;
		w.0.borrow_mut().verdicts = vec![true; 99];
		let n = w.0.borrow().children.len();
		c.say(&mut s, &if spawn { channel_request(a.ch, b"exec", true, &string(&[1])) } else { request(&[1], b"ssh-connection", b"none", &[]) });
		c.expect_nothing("clients: no answer before the handler's");
		while b.at < STEPS && b.at != 5 && b.at != 7 { b.step(&w, &mut s) }
		if let Some(k) = &early {
			k.stdout.put(b"early");
			c.run(&mut s);
			let mut seen = Seen::default();
			seen.drain(500, &mut c);
			check(eq(&seen.out, b"early"), "clients: output goes on while a handler takes its time");
		}
		let gone = choose(2) == 1;
		if gone { a.tx.close(); c.run(&mut s) }
		w.release();
		c.run(&mut s);
		if gone {
			check(c.ended(), "clients: a connection that ended meanwhile is ended");
			cover("gone");
		} else if spawn {
			c.expect(&msg(&[&[99], &be(peer)]), "clients: the program starts in the end");
			let kid = w.child(n);
			kid.stdout.put(&[1; 3]);
			a.kid = Some(kid);
			c.run(&mut s);
			a.c = Some(c);
			a.at = 8;
		} else {
			c.expect(SUCCESS, "clients: the client is authenticated in the end");
			a.user = w.0.borrow().users;
			a.c = Some(c);
			a.at = 6;
		}
		if !gone { while a.at < STEPS { a.step(&w, &mut s) } }
		while b.at < STEPS { b.step(&w, &mut s) }
		crate::kex::next_client(&w, &mut s);
		cover("served");
	}
	/// Many clients that do nothing more, at any step; others are served all the same.
	fn h_clients_crowd() {
		let w = World::new();
		let mut s = server(&w);
		let (first, at, left) = (choose(2) == 1, choose(STEPS), choose(2) == 1);
		let mut a = Actor::new(&w, 1);
		if first { for _ in 0..choose(STEPS) { a.step(&w, &mut s) } }
		let mut crowd = Vec::new();
		for i in 0..tier(34, 70) {
			let mut b = Actor::new(&w, 10 + i as u8);
			if at == 0 { s.run(&[]) }
			while b.at < at { b.step(&w, &mut s) }
			// some go away
			if left && i % 3 == 1 { b.fail(0, &mut s) }
			crowd.push(b);
		}
		while a.at < STEPS { a.step(&w, &mut s) }
		let mut b = Actor::new(&w, 2);
		while b.at < STEPS { b.step(&w, &mut s) }
		while crowd[0].at < STEPS { crowd[0].step(&w, &mut s) }
		check(s.done.is_none(), "server: keeps running");
		cover("served");
	}
	/// One client breaks at any step; the other carries on.
	fn h_clients_broken() {
		let w = World::new();
		let mut s = server(&w);
		select_orders(0);
		let mut a = Actor::new(&w, 1);
		let mut b = Actor::new(&w, 2);
		let (na, nb) = (choose(STEPS + 1), choose(STEPS));
		for _ in 0..na { a.step(&w, &mut s) }
		for _ in 0..nb { b.step(&w, &mut s) }
		if nb == 0 { s.run(&[]) }
		b.fail(choose(3), &mut s);
		while a.at < STEPS { a.step(&w, &mut s) }
		crate::kex::next_client(&w, &mut s);
		cover("survived");
	}
	/// A whole session, sent in one go or step by step, with any chunking of both directions.
	fn h_transport_chunks() {
		let w = World::new();
		let (tx, rx) = w.connect();
		let mut s = server(&w);
		let mut c = handshake(&mut s, tx, rx);
		w.0.borrow_mut().verdicts = vec![false, true];
		let at_once = choose(2) == 1;
		let n = tier(1, 2) as u32;
		let (a, b) = [(Sched::Single, Sched::Single), (Sched::SinglePending, Sched::SinglePending), (Sched::Any(n), Sched::Greedy), (Sched::Greedy, Sched::Any(n)), (Sched::Any(1), Sched::Any(1))][choose(5)];
		c.tx.sched(a);
		c.rx.sched(b);
		let (d, e) = (sym::<3>(), sym::<2>());
		let mut replies = Vec::new();
		let mut ch = 0;
		for part in 0..2 {
			let msgs = if part == 0 {
				vec![SERVICE.to_vec(), request(b"u", b"ssh-connection", b"password", &msg(&[&[0], &string(&sym::<2>())])), request(b"u", b"ssh-connection", b"none", &[]), open_ty(b"session", 5, 65536, 32768)]
			} else {
				vec![channel_request(ch, b"exec", true, &string(b"run")), data(ch, &d), data(ch, &e), eof(ch)]
			};
			for m in msgs {
				c.send(&m);
				if !at_once { c.run(&mut s); while let Some(m) = c.recv() { replies.push(m) } }
			}
			c.run(&mut s);
			while let Some(m) = c.recv() { replies.push(m) }
			let ok = replies.len() == 4 + part && c.pending.is_empty();
			check(ok, "transport: every message is answered");
			if !ok { return }
			if part == 0 { ch = u32::from_be_bytes([replies[3][5], replies[3][6], replies[3][7], replies[3][8]]) }
		}
		let want: [&[u8]; 5] = [b"\x06\0\0\0\x0cssh-userauth", FAILURE, SUCCESS, &[91, 0, 0, 0, 5], &[99, 0, 0, 0, 5]];
		for i in 0..5 { check(if i == 3 { eq(&replies[3][..5], want[3]) } else { eq(&replies[i], want[i]) }, "transport: the answers do not depend on how bytes arrive") }
		let kid = w.child(0);
		check(eq(&kid.stdin.take(), &msg(&[&d, &e])) && kid.stdin.0.borrow().closed, "transport: the program gets its input");
		kid.stdout.put(&d);
		kid.stderr.put(&e);
		kid.stdout.close();
		kid.stderr.close();
		kid.exit(3);
		c.run(&mut s);
		let mut seen = Seen::default();
		seen.drain(5, &mut c);
		check(eq(&seen.out, &d) && eq(&seen.err, &e) && seen.eof == 1 && seen.status == [3] && seen.close == 1, "transport: the client gets the output");
		cover("complete");
	}
	/// Packets of up to 35000 bytes (RFC 4253 section 6.1) in each phase.
	fn h_transport_large() {
		let n = [2040, 2048, 16384, 32767, 32768, 34000, 34960, 34967][choose(8)];
		let outer = |n: usize| { let mut v = vec![b'p'; n]; fill(&mut v[..2]); fill(&mut v[n - 2..]); v };
		match choose(3) {
			0 => {
				let w = World::new();
				let (tx, rx) = w.connect();
				let mut s = server(&w);
				let mut k = Kex::new();
				let base = k.init.len();
				k.init = kexinit(&msg(&[KEX, b",", &vec![b'x'; n - base - 1]]), HOST, CIPHER, CIPHER, 0);
				let mut p = start(&mut s, &k, tx, rx);
				p.init(&mut s);
				p.key(&mut s);
				check(p.finish(&mut s).is_some(), "transport: a large KEXINIT is processed");
				cover("kex");
			}
			1 => {
				let (w, mut s, mut c) = phase();
				let base = request(b"u", b"s", b"password", &msg(&[&[0], &string(b"")])).len();
				let pw = outer(n - base);
				c.say(&mut s, &request(b"u", b"s", b"password", &msg(&[&[0], &string(&pw)])));
				let calls = w.calls();
				check(calls.len() == 1 && same(&calls[0], &Call::Password { user: b"u".to_vec(), service: b"s".to_vec(), password: pw }), "transport: a large request is processed");
				c.expect(FAILURE, "transport: and answered");
				cover("auth");
			}
			_ => {
				let (w, mut s, mut c) = authenticated();
				let (ch, kid) = program(&mut s, &mut c, &w, 7);
				let d = outer(n - 9);
				c.say(&mut s, &data(ch, &d));
				check(eq(&kid.stdin.take(), &d), "transport: large data is delivered");
				cover("data");
			}
		}
	}
}
