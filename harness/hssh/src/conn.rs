//! The connection protocol (RFC 4254) with the whole server.
use crate::auth::*;
use crate::client::*;
use crate::kex::next_client;
use crate::world::*;
use nsx::*;

pub fn be(v: u32) -> [u8; 4] { v.to_be_bytes() }
pub fn open_ty(ty: &[u8], sender: u32, window: u32, max: u32) -> Vec<u8> { msg(&[&[90], &string(ty), &be(sender), &be(window), &be(max)]) }
pub fn channel_request(ch: u32, ty: &[u8], reply: bool, data: &[u8]) -> Vec<u8> { msg(&[&[98], &be(ch), &string(ty), &[reply as u8], data]) }
pub fn data(ch: u32, d: &[u8]) -> Vec<u8> { msg(&[&[94], &be(ch), &string(d)]) }
pub fn eof(ch: u32) -> Vec<u8> { msg(&[&[96], &be(ch)]) }
pub fn close(ch: u32) -> Vec<u8> { msg(&[&[97], &be(ch)]) }
/// Opens a channel; the server's number for it.
pub fn session(s: &mut Srv, c: &mut Client, peer: u32) -> u32 {
	c.say(s, &open_ty(b"session", peer, 65536, 32768));
	let m = match c.recv() {
		Some(m) => m,
		None => {
			check(false, "channel: an open request is answered");
			prune()
		}
	};
	let ok = m.len() == 17 && eq(&m[..5], &msg(&[&[91], &be(peer)]));
	check(ok, "channel: a session is opened");
	if !ok {
		prune()
	}
	u32::from_be_bytes([m[5], m[6], m[7], m[8]])
}
/// Opens a channel and starts a program.
pub fn program(s: &mut Srv, c: &mut Client, w: &World, peer: u32) -> (u32, Child) {
	let ch = session(s, c, peer);
	let n = w.0.borrow().children.len();
	c.say(s, &channel_request(ch, b"shell", true, &[]));
	c.expect(&msg(&[&[99], &be(peer)]), "channel: a program starts");
	let ok = w.0.borrow().children.len() == n + 1;
	check(ok, "channel: one program");
	if !ok {
		prune()
	}
	(ch, w.child(n))
}
/// The connection is still of use.
fn usable(s: &mut Srv, c: &mut Client) {
	c.say(s, &open_ty(b"session", 0x55667788, 1, 2));
	let mut last = Vec::new();
	while let Some(m) = c.recv() {
		last = m
	}
	check(last.len() == 17 && eq(&last[..5], &[91, 0x55, 0x66, 0x77, 0x88]), "connection: goes on working");
}
/// What the server sent for a channel, sorted out.
#[derive(Default)]
pub struct Seen {
	pub out: Vec<u8>,
	pub err: Vec<u8>,
	pub eof: usize,
	pub status: Vec<u32>,
	pub close: usize,
	/// What was added to the server's window.
	pub adjust: u64,
}
impl Seen {
	/// Takes in a message for peer channel `peer`; false if it is for another one.
	pub fn take(&mut self, peer: u32, m: &[u8]) -> bool {
		if m.len() < 5 || !eq(&m[1..5], &be(peer)) {
			return false;
		}
		check(self.close == 0, "session: nothing follows the close message");
		let r = &m[5..];
		match concretize(m[0] as u64) {
			93 => {
				check(r.len() == 4, "session: window adjustments are well-formed");
				if r.len() == 4 { self.adjust += u32::from_be_bytes([r[0], r[1], r[2], r[3]]) as u64 }
			}
			94 => {
				let ok = r.len() >= 4 && eq(&r[..4], &be(r.len() as u32 - 4));
				check(ok && self.eof == 0 && r.len() > 4, "session: data comes before EOF");
				if ok { self.out.extend_from_slice(&r[4..]) }
			}
			95 => {
				let ok = r.len() >= 8 && eq(&r[4..8], &be(r.len() as u32 - 8)) && eq(&r[..4], &be(1));
				check(ok && self.eof == 0 && r.len() > 8, "session: stderr is extended data of type 1, before EOF");
				if ok { self.err.extend_from_slice(&r[8..]) }
			}
			96 => {
				check(r.is_empty(), "session: EOF is well-formed");
				self.eof += 1
			}
			97 => {
				check(r.is_empty(), "session: close is well-formed");
				self.close += 1
			}
			98 => {
				let want = msg(&[&string(b"exit-status"), &[0]]);
				let ok = r.len() == want.len() + 4 && eq(&r[..want.len()], &want);
				check(ok, "session: the only request is exit-status without reply");
				if ok { let i = want.len(); self.status.push(u32::from_be_bytes([r[i], r[i + 1], r[i + 2], r[i + 3]])) }
			}
			_ => check(false, "session: only data, EOF, exit status and close"),
		}
		true
	}
	pub fn drain(&mut self, peer: u32, c: &mut Client) {
		while let Some(m) = c.recv_raw() {
			check(self.take(peer, &m), "session: messages go to the client's channel")
		}
		check(c.pending.is_empty(), "session: whole packets")
	}
}
pub fn bytes(n: usize) -> Vec<u8> {
	let mut v = vec![b'.'; n];
	let m = n.min(2);
	fill(&mut v[..m]);
	if n > 2 {
		fill(&mut v[n - 1..])
	}
	v
}
const UNIMPLEMENTED: u8 = 3;
/// How the world behaves: plainly, with writes to the connection that are not
/// ready or partial, or with `select!` taking other orders.
struct Regime {
	plain: bool,
	pending: u32,
	orders: usize,
	pattern: usize,
}
impl Regime {
	fn new(n: usize) -> Self {
		let k = choose(3);
		Regime { plain: k == 0, pending: if k == 1 { n as u32 } else { 0 }, orders: if k == 2 { n } else { 0 }, pattern: if k == 0 { 3 } else { choose(3) } }
	}
	fn apply(&self, c: &Client) {
		if self.pending > 0 { c.rx.sched(Sched::Any(self.pending)) }
		if self.orders > 0 { select_orders(self.orders) }
	}
	fn over(&self, c: &Client) {
		c.rx.sched(Sched::Greedy);
		set_deviations(0);
	}
	/// Does the server get to run after event number `i`?
	fn run(&self, i: usize) -> bool {
		match self.pattern {
			0 => false,
			1 => true,
			2 => i % 2 == 0,
			_ => choose(2) == 1,
		}
	}
}

harnesses! {
	/// Opening and closing in any order: numbers of open channels are distinct and lead to the right client channel.
	fn h_channel_numbers() {
		let (_w, mut s, mut c) = authenticated();
		let mut live: Vec<(u32, u32)> = Vec::new();
		let mut dead = Vec::new();
		for _ in 0..tier(6, 8) {
			let k = choose(1 + live.len());
			if k == 0 {
				let peer = sym_u32();
				let (win, max) = (sym_u32(), sym_u32());
				c.say(&mut s, &open_ty(b"session", peer, win, max));
				let m = match c.recv() { Some(m) => m, None => { check(false, "channel: an open request is answered"); return } };
				let ok = m.len() == 17 && eq(&m[..5], &msg(&[&[91], &be(peer)]));
				check(ok, "channel: the confirmation names the client's channel");
				if !ok { return }
				let n = concretize(u32::from_be_bytes([m[5], m[6], m[7], m[8]]) as u64) as u32;
				check(live.iter().all(|l| l.0 != n), "channel: numbers of open channels are distinct");
				dead.retain(|d| *d != n);
				live.push((n, peer));
			} else {
				let (n, peer) = live.remove(k - 1);
				c.say(&mut s, &close(n));
				c.expect(&close(peer), "channel: a close is answered with a close of the client's channel");
				dead.push(n);
			}
			c.expect_nothing("channel: one reply");
		}
		for (n, peer) in &live {
			c.say(&mut s, &channel_request(*n, b"nothing", true, &[]));
			c.expect(&msg(&[&[100], &be(*peer)]), "channel: requests reach the channel they name");
		}
		if let Some(d) = dead.first() {
			c.say(&mut s, &channel_request(*d, b"shell", true, &[]));
			c.expect_nothing("channel: a closed channel takes no requests");
			cover("closed");
		}
		cover("numbered");
	}
	/// Only sessions are offered.
	fn h_channel_types() {
		let (w, mut s, mut c) = authenticated();
		let mut ty = b"session".to_vec();
		let mut right = false;
		match choose(5) {
			0 => { let n = choose(9); ty = sym_vec(n); if n == 7 { right = eq(&ty, b"session") } }
			1 => { let i = choose(7); let b = sym_u8(); right = ty[i] == b; ty[i] = b }
			2 => ty = b"direct-tcpip".to_vec(),
			3 => { ty.pop(); }
			_ => ty.push(sym_u8()),
		}
		let peer = sym_u32();
		let extra = choose(3);
		c.say(&mut s, &msg(&[&open_ty(&ty, peer, 1000, 1000), &sym_vec(extra)]));
		match c.recv() {
			None if right && extra > 0 => { check(c.ended(), "channel: a malformed request ends the connection"); cover("malformed"); return }
			None => check(false, "channel: an open request is answered"),
			Some(m) => if right {
				check(extra == 0, "channel: malformed requests are not answered");
				check(m.len() == 17 && eq(&m[..5], &msg(&[&[91], &be(peer)])), "channel: sessions are opened");
				cover("opened");
			} else {
				check(eq(&m, &msg(&[&[92], &be(peer), &be(3), &[0; 8]])), "channel: other types are refused as unknown");
				cover("refused");
			}
		}
		c.expect_nothing("channel: one reply");
		check(w.calls().is_empty(), "channel: opening starts nothing");
		usable(&mut s, &mut c);
	}
	/// Requests on a session: exactly one program, started with exactly the command; replies exactly when wanted.
	fn h_channel_requests() {
		let (w, mut s, mut c) = authenticated();
		let peer = sym_u32();
		let ch = session(&mut s, &mut c, peer);
		let mut started = false;
		for i in 0..2 {
			let reply = choose(2) == 1;
			let ok = choose(2) == 1;
			w.0.borrow_mut().spawn_ok = ok;
			let before = w.calls().len();
			let kids = w.0.borrow().children.len();
			let cmd = bytes([0, 1, 5, 300][choose(if i == 0 { 4 } else { 2 })]);
			let (ty, data, command): (&[u8], Vec<u8>, Option<Option<Vec<u8>>>) = match choose(8) {
				0 => (b"shell", vec![], Some(None)),
				1 => (b"exec", string(&cmd), Some(Some(cmd.clone()))),
				2 => (b"exec", msg(&[&string(&cmd), &sym::<1>()]), None),
				3 => (b"exec", cmd.clone(), None),
				4 => (b"shell", vec![sym_u8()], None),
				5 => (b"env", msg(&[&string(b"A"), &string(&cmd)]), None),
				6 => (b"subsystem", string(b"sftp"), None),
				_ => (b"x11-whatever", cmd.clone(), None),
			};
			// "exec" followed by bytes that happen to be a proper string
			if let (b"exec", None) = (ty, &command) { if data.len() >= 4 { assume(!eq(&data[..4], &be(data.len() as u32 - 4))) } }
			c.say(&mut s, &channel_request(ch, ty, reply, &data));
			let calls = w.calls();
			let mut good = false;
			match command {
				Some(command) if !started => {
					check(calls.len() == before + 1 && same(&calls[before], &Call::Spawn { user: 1, command, id: kids }), "channel: exactly the requested program is started, once, as the user");
					good = ok;
					started |= ok;
				}
				_ => check(calls.len() == before, "channel: nothing else starts a program"),
			}
			if reply { c.expect(&msg(&[&[if good { 99 } else { 100 }], &be(peer)]), "channel: the reply tells whether the request succeeded") }
			c.expect_nothing("channel: replies only when wanted");
			if good { cover("started") } else { cover("failed") }
			if i == 0 {
				match choose(4) {
					0 => {}
					1 => c.say(&mut s, &eof(ch)),
					2 => { c.say(&mut s, &self::data(ch, b"input")); c.say(&mut s, &eof(ch)) }
					_ => { if good { w.child(kids).stdin.0.borrow_mut().fail = true } c.say(&mut s, &self::data(ch, b"input")) }
				}
				c.expect_nothing("channel: no replies to data");
			}
		}
		usable(&mut s, &mut c);
	}
	/// Data reaches the input of the program of its channel, in order, whatever the chunking; EOF ends it.
	fn h_channel_stdin() {
		let (w, mut s, mut c) = authenticated();
		let (pa, pb) = (7, sym_u32());
		let (a, ka) = program(&mut s, &mut c, &w, pa);
		let (b, kb) = program(&mut s, &mut c, &w, pb);
		let chs = [a, b];
		let kids = [ka, kb];
		let mut want = [Vec::new(), Vec::new()];
		let mut ended = [false, false];
		let sch = [Sched::Greedy, Sched::Single, Sched::SinglePending, Sched::Any(2)];
		kids[0].stdin.sched(sch[choose(4)]);
		kids[1].stdin.sched(Sched::SinglePending);
		let (i0, i1) = (kids[0].stdin.clone(), kids[1].stdin.clone());
		for i in 0..tier(3, 4) {
			let k = choose(2);
			match choose(5) {
				0 => { c.send(&eof(chs[k])); ended[k] = true }
				4 => { let ty: &[u8] = [&b"shell"[..], b"env", b"shell", b"signal"][(i + k) % 4]; c.send(&channel_request(chs[k], ty, false, &[])) }
				1 => { c.send(&msg(&[&[95], &be(chs[k]), &be(sym_u32()), &string(b"x")])) }
				n => {
					let d = bytes(if n == 2 { i + 1 } else { 0 });
					c.send(&data(chs[k], &d));
					if !ended[k] { want[k].extend(d) }
				}
			}
			if choose(2) == 1 { s.run(&[&c.tx, &c.rx, &i0, &i1]) }
		}
		s.run(&[&c.tx, &c.rx, &i0, &i1]);
		for k in 0..2 {
			check(eq(&kids[k].stdin.take(), &want[k]), "channel: the program gets exactly the data of its channel, in order");
			check(kids[k].stdin.0.borrow().closed == ended[k], "channel: the program's input ends exactly at EOF");
			if ended[k] { cover("ended") }
		}
		c.expect_nothing("channel: no replies to data");
		cover("delivered");
		usable(&mut s, &mut c);
	}
	/// Many channels: data, EOF and close affect exactly the one they name.
	fn h_channel_many() {
		let (w, mut s, mut c) = authenticated();
		let n = [3, tier(4, 6)][choose(2)];
		w.0.borrow_mut().slow = choose(2) == 1;
		let mut all = Vec::new();
		for i in 0..n { all.push(program(&mut s, &mut c, &w, 70 + i as u32)) }
		let mut want = vec![Vec::new(); n];
		let mut ended = vec![false; n];
		for _ in 0..tier(1, 2) {
			// any number, of a channel or not
			let k = choose(n + 1);
			let ch = if k < n { all[k].0 } else { sym_u32() };
			if k == n { for x in &all { assume(x.0 != ch) } }
			let op = choose(3);
			let d = bytes(2);
			c.send(&match op {
				0 => data(ch, &d),
				1 => eof(ch),
				_ => msg(&[&[95], &be(ch), &be(1), &string(b"x")]),
			});
			if choose(2) == 1 { c.run(&mut s) }
			match k {
				_ if k == n && op == 2 => {}
				_ if k == n => {
					c.run(&mut s);
					check(c.ended(), "channel: messages for channels that are not open end the connection");
					for i in 0..n { check(eq(&all[i].1.stdin.take(), &want[i]), "channel: and reach no program") }
					cover("unknown");
					return
				}
				_ => match op {
					0 => if !ended[k] { want[k].extend(d) },
					1 => ended[k] = true,
					_ => {}
				}
			}
		}
		let k = choose(n);
		let closed = choose(2) == 1;
		if closed { c.send(&close(all[k].0)); ended[k] = true }
		for i in 0..n {
			if i == k && closed { continue }
			let d = bytes(1);
			c.send(&data(all[i].0, &d));
			if !ended[i] { want[i].extend(d) }
		}
		c.run(&mut s);
		for i in 0..n {
			check(eq(&all[i].1.stdin.take(), &want[i]), "channel: each program gets exactly the data of its channel");
			check(all[i].1.stdin.0.borrow().closed == ended[i], "channel: a program's input ends exactly when its channel's does");
		}
		if closed { c.expect(&close(70 + k as u32), "channel: the closed channel is answered"); cover("closed") }
		c.expect_nothing("channel: no other replies");
		check(!c.ended(), "channel: the connection goes on");
		cover("delivered");
	}
	/// Requests that are known but not supported, and unknown ones, before and while a program runs.
	fn h_request_kinds() {
		let (w, mut s, mut c) = authenticated();
		let peer = sym_u32();
		let ch = session(&mut s, &mut c, peer);
		let early = choose(2) == 1;
		let mut start = |s: &mut Srv, c: &mut Client| {
			c.say(s, &channel_request(ch, b"shell", true, &[]));
			c.expect(&msg(&[&[99], &be(peer)]), "channel: a program starts whatever was asked for");
		};
		if early { start(&mut s, &mut c) }
		let n = w.calls().len();
		for _ in 0..tier(1, 2) {
			let reply = choose(2) == 1;
			let any = bytes([3, 6, 13][choose(3)]);
			let (ty, d): (&[u8], Vec<u8>) = match choose(12) {
				0 => (b"window-change", sym::<16>().to_vec()),
				1 => (b"pty-req", msg(&[&string(b"vt100"), &sym::<16>(), &string(&bytes(2))])),
				2 => (b"x11-req", msg(&[&sym::<1>(), &string(b"p"), &string(b"c"), &sym::<4>()])),
				3 => (b"env", msg(&[&string(&bytes(1)), &string(&bytes(2))])),
				4 => (b"subsystem", string(&bytes(2))),
				5 => (b"signal", string(b"TERM")),
				6 => (b"exit-status", sym::<4>().to_vec()),
				7 => (b"exit-signal", msg(&[&string(b"INT"), &sym::<1>(), &string(b"m"), &string(b"")])),
				8 => (b"xon-xoff", sym::<1>().to_vec()),
				9 => (b"break", sym::<4>().to_vec()),
				10 => (b"window-change", bytes(3)),
				_ => (&any, bytes(2)),
			};
			c.say(&mut s, &channel_request(ch, ty, reply, &d));
			if reply { c.expect(&msg(&[&[100], &be(peer)]), "channel: every request is answered, if it asks for that") }
			c.expect_nothing("channel: and otherwise not");
			check(!c.ended(), "channel: the connection goes on");
			check(w.calls().len() == n, "channel: nothing else starts a program");
			if reply { cover("answered") } else { cover("silent") }
		}
		if !early { start(&mut s, &mut c) }
		let kid = w.child(0);
		c.say(&mut s, &data(ch, b"in"));
		check(eq(&kid.stdin.take(), b"in") && !kid.stdin.0.borrow().closed, "channel: the program is not disturbed");
	}
	/// Many channels: requests and closes reach exactly the one they name.
	fn h_request_many() {
		let (w, mut s, mut c) = authenticated();
		let n = [3, 6][choose(2)];
		w.0.borrow_mut().slow = choose(2) == 1;
		let mut all = Vec::new();
		for i in 0..n { all.push(session(&mut s, &mut c, 70 + i as u32)) }
		for i in 0..n { for j in 0..i { check(all[i] != all[j], "channel: numbers of open channels are distinct") } }
		let (k, gone) = (choose(n), choose(n));
		c.say(&mut s, &channel_request(all[k], b"exec", true, &string(b"one")));
		c.expect(&msg(&[&[99], &be(70 + k as u32)]), "channel: the reply goes to the channel of the request");
		let calls = w.calls();
		check(calls.len() == 1 && same(&calls[0], &Call::Spawn { user: 1, command: Some(b"one".to_vec()), id: 0 }), "channel: the program is started once");
		c.say(&mut s, &close(all[gone]));
		c.expect(&close(70 + gone as u32), "channel: the close goes to the channel that was closed");
		c.expect_nothing("channel: one reply each");
		w.0.borrow_mut().calls.clear();
		let mut started = 0;
		for i in 0..n {
			if i == gone { continue }
			c.say(&mut s, &channel_request(all[i], b"shell", true, &[]));
			c.expect(&msg(&[&[if i == k { 100 } else { 99 }], &be(70 + i as u32)]), "channel: every other channel still takes its one program");
			started += (i != k) as usize;
			check(w.calls().len() == started, "channel: one program per request");
		}
		c.expect_nothing("channel: nothing else");
		if k != gone {
			let kid = w.child(0);
			kid.stdout.put(b"out");
			c.run(&mut s);
			let mut seen = Seen::default();
			seen.drain(70 + k as u32, &mut c);
			check(eq(&seen.out, b"out"), "channel: output goes to the program's channel");
		}
		cover("numbered");
	}
	/// A program that stops reading does not disturb the connection.
	fn h_channel_stdin_broken() {
		let (w, mut s, mut c) = authenticated();
		let (ch, kid) = program(&mut s, &mut c, &w, 7);
		kid.stdin.0.borrow_mut().fail = true;
		for i in 0..2 { c.say(&mut s, &data(ch, &bytes(i + 1))) }
		c.say(&mut s, &eof(ch));
		c.expect_nothing("channel: no replies to data");
		check(!c.ended(), "channel: a program that stops reading does not end the connection");
		usable(&mut s, &mut c);
		cover("survived");
	}
	/// A program's output, error output, ends and exit in every order and chunking.
	fn h_session_output() {
		let (w, mut s, mut c) = authenticated();
		let peer = sym_u32();
		let r = Regime::new(tier(1, 2));
		if r.plain { w.0.borrow_mut().stdio = [(true, true, true), (false, true, true), (true, true, false), (true, false, true), (true, false, false)][choose(5)] }
		let (_, has_out, has_err) = w.0.borrow().stdio;
		let (_ch, kid) = program(&mut s, &mut c, &w, peer);
		r.apply(&c);
		let mut seen = Seen::default();
		let (mut out, mut err) = (Vec::new(), Vec::new());
		let status = sym_u32();
		let (mut todo, mut n) = (vec![0, 1, 2, 3, 4], 0);
		if !has_out { todo.retain(|x| *x != 0 && *x != 2) }
		if !has_err { todo.retain(|x| *x != 1 && *x != 3) }
		while !todo.is_empty() {
			let e = todo.remove(choose(todo.len()));
			n += 1;
			let d = bytes([1, 256, 257, 3, 0][n % 5]);
			match e {
				0 => if !kid.stdout.0.borrow().closed { kid.stdout.put(&d); out.extend(d) },
				1 => if !kid.stderr.0.borrow().closed { kid.stderr.put(&d); err.extend(d) },
				2 => kid.stdout.close(),
				3 => kid.stderr.close(),
				_ => kid.exit(status),
			}
			if r.run(n) {
				c.run(&mut s);
				seen.drain(peer, &mut c);
				let open = (has_out && todo.contains(&2)) || (has_err && todo.contains(&3));
				check(seen.eof == !open as usize, "session: EOF exactly when both outputs ended");
				check(seen.status.len() == !todo.contains(&4) as usize, "session: the exit status as soon as the program exits");
				check(seen.close == (!open && !todo.contains(&4)) as usize, "session: close exactly when output and program ended");
			}
		}
		c.run(&mut s);
		seen.drain(peer, &mut c);
		check(eq(&seen.out, &out), "session: all standard output arrives, in order");
		check(eq(&seen.err, &err), "session: all error output arrives, in order");
		check(seen.eof == 1 && seen.close == 1, "session: one EOF and one close");
		check(seen.status.len() == 1 && seen.status[0] == status, "session: the exit status arrives once");
		r.over(&c);
		usable(&mut s, &mut c);
		cover("complete");
	}
	/// Output is passed on as it comes; EOF only after both outputs ended, close only after the exit.
	fn h_session_prompt() {
		let (w, mut s, mut c) = authenticated();
		let (_ch, kid) = program(&mut s, &mut c, &w, 7);
		let mut seen = Seen::default();
		let d = bytes(3);
		if choose(2) == 0 { kid.stdout.put(&d) } else { kid.stderr.put(&d) }
		c.run(&mut s);
		seen.drain(7, &mut c);
		check(seen.out.len() + seen.err.len() == 3, "session: output is passed on at once");
		let first = choose(3);
		match first { 0 => kid.stdout.close(), 1 => kid.stderr.close(), _ => kid.exit(5) }
		c.run(&mut s);
		seen.drain(7, &mut c);
		check(seen.close == 0 && seen.eof == 0, "session: neither EOF nor close while an output is open");
		check(seen.status.len() == (first == 2) as usize, "session: the exit status is passed on at once");
		if first == 2 { kid.stdout.put(&d); c.run(&mut s); let n = seen.out.len(); seen.drain(7, &mut c); check(seen.out.len() == n + 3, "session: output after the exit is passed on") }
		kid.stdout.close();
		kid.stderr.close();
		c.run(&mut s);
		seen.drain(7, &mut c);
		check(seen.eof == 1, "session: EOF once both outputs ended");
		check(seen.close == (first == 2) as usize, "session: close exactly when output and program have ended");
		if first != 2 { kid.exit(6); c.run(&mut s); seen.drain(7, &mut c); check(seen.close == 1 && seen.status.len() == 1, "session: status and close after the exit") }
		cover("prompt");
	}
	/// Two programs write at the same time, with replies in between, under every choice of the selector.
	fn h_session_two() {
		let (w, mut s, mut c) = authenticated();
		let (pa, pb) = (1, 2);
		let (_a, ka) = program(&mut s, &mut c, &w, pa);
		let (_b, kb) = program(&mut s, &mut c, &w, pb);
		select_orders(tier(1, 2));
		c.rx.sched(Sched::Any(tier(1, 2) as u32));
		let mut seen = [Seen::default(), Seen::default()];
		let (da, db) = (bytes(3), bytes(2));
		ka.stdout.put(&da);
		kb.stdout.put(&db);
		c.send(&[200]);
		c.run(&mut s);
		let two = choose(2) == 1;
		if two { kb.stdout.put(&da); ka.stdout.close(); ka.stderr.close(); ka.exit(9); c.run(&mut s) }
		let mut unimplemented = 0;
		while let Some(m) = c.recv() {
			if m.len() == 5 && m[0] == UNIMPLEMENTED { unimplemented += 1; continue }
			let (x, y) = seen.split_at_mut(1);
			check(x[0].take(pa, &m) || y[0].take(pb, &m), "session: every message belongs to a channel")
		}
		check(c.pending.is_empty() && unimplemented == 1, "session: whole packets, one reply");
		check(eq(&seen[0].out, &da), "session: a program's output goes to its own channel");
		check(eq(&seen[1].out, &if two { msg(&[&db, &da]) } else { db }), "session: each channel's data is complete and in order");
		check(seen[0].close == two as usize && seen[1].close == 0 && seen[1].eof == 0 && seen[1].status.is_empty(), "session: the end of one program leaves the other alone");
		cover("both");
	}
	/// The client closes at any point: one close each way, nothing after it, and the number can be used again.
	fn h_session_close() {
		let (w, mut s, mut c) = authenticated();
		let (ch, kid) = program(&mut s, &mut c, &w, 7);
		let mut seen = Seen::default();
		let r = Regime::new(tier(1, 2));
		r.apply(&c);
		let at = choose(5);
		let both = choose(2) == 1;
		for i in 0..5 {
			if i == at {
				c.send(&close(ch));
				if choose(2) == 1 { c.run(&mut s) }
			}
			match i {
				0 => { kid.stdout.put(&bytes(3)); if both { kid.stderr.put(&bytes(2)) } }
				1 => kid.stdout.close(),
				2 => kid.stderr.close(),
				3 => kid.exit(4),
				_ => {}
			}
			if r.run(i) { c.run(&mut s) }
		}
		c.run(&mut s);
		seen.drain(7, &mut c);
		check(seen.close == 1, "session: exactly one close from the server");
		r.over(&c);
		let (n, k2) = program(&mut s, &mut c, &w, 8);
		k2.stdout.put(b"new");
		kid.stdout.put(b"old");
		c.run(&mut s);
		let mut seen = Seen::default();
		seen.drain(8, &mut c);
		check(eq(&seen.out, b"new"), "session: a new channel has its own program's output only");
		c.say(&mut s, &data(n, b"in"));
		check(eq(&k2.stdin.take(), b"in") && kid.stdin.left() == 0, "session: and its own program's input");
		cover("closed");
	}
	/// The client does not read for a while: output, replies and closes wait for each other.
	fn h_session_blocked() {
		let (w, mut s, mut c) = authenticated();
		let (pa, pb) = (1, 2);
		let (a, ka) = program(&mut s, &mut c, &w, pa);
		let (b, kb) = program(&mut s, &mut c, &w, pb);
		select_orders(tier(1, 2));
		c.rx.sched(Sched::Blocked);
		let d = bytes(3);
		let (mut out, mut err, mut other) = (Vec::new(), Vec::new(), Vec::new());
		let first = choose(4);
		match first {
			0 => { ka.stdout.put(&d); out.extend(&d) }
			1 => { kb.stdout.put(&d); other.extend(&d) }
			2 => c.send(&channel_request(b, b"env", true, &[])),
			_ => {}
		}
		c.run(&mut s);
		let (mut closed, mut ended, mut replies) = (false, false, (first == 2) as usize);
		for _ in 0..tier(2, 3) {
			match choose(6) {
				0 => if !closed { closed = true; c.send(&close(a)) },
				1 => if !ended { ka.stdout.put(&d[..2]); out.extend(&d[..2]) },
				2 => if !ended { ka.stderr.put(&d[1..]); err.extend(&d[1..]) },
				3 => { kb.stdout.put(&d[..1]); other.extend(&d[..1]) }
				4 => if !ended { ended = true; ka.stdout.close(); ka.stderr.close(); ka.exit(4) },
				_ => { replies += 1; c.send(&channel_request(b, b"shell", true, &[])) }
			}
			c.run(&mut s);
		}
		check(c.rx.left() == 0, "session: nothing moves");
		c.rx.unblock([Sched::Greedy, Sched::Single][choose(2)]);
		c.run(&mut s);
		let mut seen = [Seen::default(), Seen::default()];
		while let Some(m) = c.recv() {
			if eq(&m, &msg(&[&[100], &be(pb)])) { check(replies > 0, "session: one reply each"); replies = replies.saturating_sub(1); continue }
			let (x, y) = seen.split_at_mut(1);
			check(x[0].take(pa, &m) || y[0].take(pb, &m), "session: every message belongs to a channel")
		}
		check(c.pending.is_empty() && replies == 0, "session: whole packets, all replies");
		check(eq(&seen[1].out, &other) && seen[1].close == 0 && seen[1].eof == 0 && seen[1].status.is_empty(), "session: the other channel's data is complete and in order");
		check(seen[0].close == (closed || ended) as usize, "session: exactly one close");
		if !closed {
			check(eq(&seen[0].out, &out) && eq(&seen[0].err, &err), "session: all output arrives");
			check(seen[0].eof == ended as usize && seen[0].status.len() == ended as usize, "session: EOF and status once the program ended");
		}
		c.rx.sched(Sched::Greedy);
		usable(&mut s, &mut c);
		cover("unblocked");
	}
	/// The client goes on using a channel that the server has closed, not knowing it yet.
	fn h_session_late() {
		let (w, mut s, mut c) = authenticated();
		let peer = sym_u32();
		let (ch, kid) = program(&mut s, &mut c, &w, peer);
		kid.stdout.close();
		kid.stderr.close();
		kid.exit(4);
		let first = choose(2) == 1;
		if first { c.run(&mut s) }
		w.0.borrow_mut().calls.clear();
		let n = 1 + choose(tier(2, 3));
		let mut replies = 0;
		for i in 0..n {
			let d = bytes(2);
			let p = match choose(7) {
				0 => { replies += 1; channel_request(ch, b"shell", true, &[]) }
				1 => { replies += 1; channel_request(ch, b"env", true, &msg(&[&string(b"a"), &string(b"b")])) }
				2 => channel_request(ch, b"signal", false, &string(b"TERM")),
				3 => data(ch, &d),
				4 => msg(&[&[95], &be(ch), &be(1), &string(&d)]),
				5 => eof(ch),
				_ => msg(&[&[93], &be(ch), &be(sym_u32())]),
			};
			c.send(&p);
			if i == 0 { c.run(&mut s) }
		}
		c.run(&mut s);
		check(!c.ended(), "session: messages that crossed the close do no harm");
		check(w.calls().is_empty(), "session: a channel has one program");
		let mut seen = Seen::default();
		while let Some(m) = c.recv() {
			if !first && m.len() == 5 && m[0] == 100 && seen.close == 0 { replies -= 1; continue }
			check(seen.take(peer, &m), "session: messages go to the client's channel");
		}
		check(seen.eof == 1 && seen.close == 1 && seen.status == [4], "session: one EOF, status and close");
		c.say(&mut s, &close(ch));
		c.expect_nothing("session: a close is not answered twice");
		// the client's number is free again
		let (_, k2) = program(&mut s, &mut c, &w, peer);
		k2.stdout.put(b"new");
		c.run(&mut s);
		let mut seen = Seen::default();
		seen.drain(peer, &mut c);
		check(eq(&seen.out, b"new"), "session: a new channel has its own program's output only");
		obs(replies);
		cover("late");
	}
	/// Any payload of a few bytes in each state of a connection.
	fn h_conn_arbitrary() {
		let (w, mut s, mut c) = authenticated();
		let state = choose(3);
		if state == 1 { session(&mut s, &mut c, 7); }
		if state == 2 { program(&mut s, &mut c, &w, 7); }
		w.0.borrow_mut().calls.clear();
		let n = choose(tier(14, 15));
		let p = sym_vec(n);
		c.say(&mut s, &p);
		check(w.calls().is_empty(), "connection: nothing starts or authenticates without a proper request");
		if c.ended() { cover("ended") } else { usable(&mut s, &mut c); cover("usable") }
		next_client(&w, &mut s);
	}
	/// Proper messages of every kind with a changed, missing or extra byte, in each state.
	fn h_conn_mutated() {
		let (w, mut s, mut c) = authenticated();
		let state = choose(3);
		let ch = match state { 0 => 0, 1 => session(&mut s, &mut c, 7), _ => program(&mut s, &mut c, &w, 7).0 };
		let mut p = match choose(11) {
			0 => open_ty(b"session", 1, 2, 3),
			1 => channel_request(ch, b"shell", true, &[]),
			2 => channel_request(ch, b"exec", true, &string(b"ls")),
			3 => channel_request(ch, b"pty-req", true, &msg(&[&string(b"vt"), &[0; 16], &string(b"\0")])),
			4 => data(ch, b"abc"),
			5 => msg(&[&[95], &be(ch), &be(1), &string(b"ab")]),
			6 => eof(ch),
			7 => close(ch),
			8 => msg(&[&[93], &be(ch), &be(9)]),
			9 => request(b"u", b"s", b"none", &[]),
			_ => msg(&[&[1], &be(2), &string(b"by"), &string(b"")]),
		};
		match choose(3) {
			0 => { let n = choose(p.len()); p.truncate(n) }
			1 => p.push(sym_u8()),
			_ => { let i = choose(p.len()); p[i] = sym_u8() }
		}
		c.say(&mut s, &p);
		if c.ended() { cover("ended") } else { usable(&mut s, &mut c); cover("usable") }
		next_client(&w, &mut s);
	}
	/// Unknown message numbers are answered with UNIMPLEMENTED and their sequence number; IGNORE and DEBUG with nothing.
	fn h_conn_unknown() {
		let (_w, mut s, mut c) = authenticated();
		for _ in 0..tier(3, 4) {
			match choose(3) {
				0 => c.say(&mut s, &msg(&[&[2], &string(&sym::<3>())])),
				1 => c.say(&mut s, &msg(&[&[4, sym_u8()], &string(b"text"), &string(b"")])),
				_ => {
					let t = sym_u8();
					assume(t == 0 || (t > 6 && t < 20) || (t > 21 && t < 30) || (t > 31 && t < 50) || (t > 53 && t < 60) || (t > 60 && t < 90) || t > 100);
					let n = choose(3);
					let seq = c.out.seq as u32;
					c.say(&mut s, &msg(&[&[t], &sym_vec(n)]));
					c.expect(&msg(&[&[UNIMPLEMENTED], &be(seq)]), "connection: unknown messages are answered with their sequence number");
					cover("unknown");
				}
			}
			c.expect_nothing("connection: no other reply");
		}
		usable(&mut s, &mut c);
	}
	/// DISCONNECT and messages that make no sense end the connection; nobody else is affected.
	fn h_conn_end() {
		let (w, mut s, mut c) = authenticated();
		let running = choose(2) == 1;
		let n = sym_u32();
		let kid = if running { let (ch, kid) = program(&mut s, &mut c, &w, 7); assume(n != ch); Some(kid) } else { None };
		let p = match choose(9) {
			0 => msg(&[&[1], &be(sym_u32()), &string(b"bye"), &string(b"")]),
			1 => kexinit(KEX, HOST, CIPHER, CIPHER, 0),
			2 => vec![21],
			3 => msg(&[&[5], &string(b"ssh-userauth")]),
			4 => vec![52],
			5 => msg(&[&[99], &be(0)]),
			6 => channel_request(n, b"shell", true, &[]),
			7 => data(n, b"x"),
			_ => eof(n),
		};
		c.say(&mut s, &p);
		check(c.ended(), "connection: senseless messages end the connection");
		check(c.rx.left() == 0, "connection: nothing is sent when it ends");
		if let Some(k) = kid { check(k.stdin.0.borrow().closed && k.stdout.0.borrow().dropped && k.stderr.0.borrow().dropped, "connection: programs lose their pipes when it ends") }
		cover("ended");
		next_client(&w, &mut s);
	}
	/// The connection is lost at any moment.
	fn h_conn_cut() {
		let (w, mut s, mut c) = authenticated();
		let (ch, kid) = program(&mut s, &mut c, &w, 7);
		select_orders(tier(1, 2));
		let mut wire = Vec::new();
		for p in [data(ch, b"abc"), channel_request(ch, b"env", true, &[]), open_ty(b"session", 9, 1, 1), close(ch)] { wire.extend(c.sealed(&p)) }
		if choose(2) == 1 { kid.stdout.put(b"some output"); kid.stderr.put(b"err") }
		let cut = choose(wire.len() + 1);
		let how = choose(3);
		if how == 2 { c.rx.0.borrow_mut().fail = true }
		c.tx.put(&wire[..cut]);
		c.run(&mut s);
		if how == 0 { c.tx.close() } else { c.tx.0.borrow_mut().fail = true; c.tx.put(&[]) }
		c.run(&mut s);
		check(c.ended(), "connection: a lost connection is ended");
		check(kid.stdin.0.borrow().closed && kid.stdout.0.borrow().dropped, "connection: its programs lose their pipes");
		cover("ended");
		next_client(&w, &mut s);
	}
	/// A client that keeps to the window and packet size it was told can always go on sending.
	fn h_window() {
		let (w, mut s, mut c) = authenticated();
		let peer = sym_u32();
		c.say(&mut s, &open_ty(b"session", peer, sym_u32(), sym_u32()));
		let m = c.recv().unwrap_or_default();
		let ok = m.len() == 17 && eq(&m[..5], &msg(&[&[91], &be(peer)]));
		check(ok, "window: a session is opened");
		if !ok { return }
		let word = |i: usize| concretize(u32::from_be_bytes([m[i], m[i + 1], m[i + 2], m[i + 3]]) as u64);
		let (ch, mut left, max) = (word(5) as u32, word(9), word(13));
		let whole = left;
		check(left > 0 && max > 0, "window: whatever its own window, the client may send");
		if choose(2) == 1 {
			c.say(&mut s, &channel_request(ch, b"shell", true, &[]));
			c.expect(&msg(&[&[99], &be(peer)]), "window: a program starts");
		}
		let kid = w.0.borrow().children.first().cloned();
		let mut seen = Seen::default();
		let mut want = Vec::new();
		let mut eofed = false;
		for i in 0..tier(3, 4) {
			let room = left.min(max) as usize;
			let k = choose(5);
			let n = if k > 2 || choose(2) == 0 { 1 } else { room };
			let d = bytes(n);
			match k {
				0 | 1 => {
					c.send(&data(ch, &d));
					left -= n as u64;
					if kid.is_some() && !eofed { want.extend(d) }
				}
				2 => {
					c.send(&msg(&[&[95], &be(ch), &be(sym_u32()), &string(&d)]));
					left -= n as u64;
				}
				3 => { c.run(&mut s); if let Some(k) = &kid { k.stdin.0.borrow_mut().fail = true; } eofed = true }
				_ => if !eofed && i == 0 { c.send(&eof(ch)); eofed = true },
			}
			// several packets at once or one after the other
			if k != 1 || left == 0 { c.run(&mut s) }
			seen.adjust = 0;
			seen.drain(peer, &mut c);
			left += seen.adjust;
			check(!c.ended(), "window: data within the window and packet size is accepted");
			check(left <= u32::MAX as u64, "window: at most 2^32-1 bytes");
			check(left > 0, "window: the window is given back");
			if c.ended() || left == 0 { return }
		}
		c.run(&mut s);
		seen.adjust = 0;
		seen.drain(peer, &mut c);
		check(left + seen.adjust == whole, "window: all of the window is given back");
		if let Some(k) = &kid { check(eq(&k.stdin.take(), &want), "window: all data is delivered") }
		check(seen.out.is_empty() && seen.eof == 0 && seen.close == 0, "window: no other messages");
		cover("sent");
	}
	/// The server keeps to the client's window and packet size.
	fn h_window_peer() {
		let (w, mut s, mut c) = authenticated();
		let (win, max) = ([0u32, 1, 2, 300, 65536][choose(5)], [1u32, 2, 255, 32768][choose(4)]);
		c.say(&mut s, &open_ty(b"session", 7, win, max));
		let m = c.recv().unwrap_or_default();
		let ok = m.len() == 17;
		check(ok, "window: a session is opened");
		if !ok { return }
		c.say(&mut s, &channel_request(u32::from_be_bytes([m[5], m[6], m[7], m[8]]), b"shell", true, &[]));
		c.expect(&msg(&[&[99], &be(7)]), "window: a program starts");
		let kid = w.child(0);
		kid.stdout.put(&bytes(3));
		c.run(&mut s);
		let mut sent = 0;
		while let Some(m) = c.recv() {
			if m[0] == 94 { check(m.len() - 9 <= max as usize, "window: the server keeps to the client's packet size"); sent += m.len() - 9 }
		}
		check(sent <= win as usize, "window: the server keeps to the client's window");
		cover("sent");
	}
}
