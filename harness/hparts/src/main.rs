//! Parts on their own: identification and the write lock.
#[path = "../../hssh/src/world.rs"]
#[allow(dead_code)]
mod world;
use nora_ssh::verif::identifier;
use nora_ssh::verif::sync::LocalMutex;
use nsx::*;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use world::*;

fn main() { nsx::main(&[TABLE]) }

/// What a stream is worth as an identification: the version string and how
/// many bytes it took, None if it is refused or incomplete.
fn identification(d: &[u8]) -> Option<(Vec<u8>, usize)> {
	let mut line = 0;
	loop {
		if line + 4 > d.len() {
			return None;
		}
		if d[line] == b'S' && d[line + 1] == b'S' && d[line + 2] == b'H' && d[line + 3] == b'-' {
			break;
		}
		let mut i = line;
		loop {
			if i + 2 > d.len() {
				return None;
			}
			if d[i] == b'\r' && d[i + 1] == b'\n' {
				break;
			}
			i += 1;
		}
		line = i + 2;
	}
	if line + 8 > d.len() || !eq(&d[line + 4..line + 8], b"2.0-") {
		return None;
	}
	let mut i = line + 8;
	loop {
		if i + 2 > d.len() {
			return None;
		}
		if d[i] == b'\r' && d[i + 1] == b'\n' {
			break;
		}
		i += 1;
	}
	if i - line > 253 {
		return None;
	}
	Some((d[line..i].to_vec(), i + 2))
}
fn parse(d: &[u8], sched: Sched) -> (Option<Vec<u8>>, usize) {
	let p = Pipe::new();
	p.put(d);
	p.close();
	p.sched(sched);
	let mut rd = Rd(p.clone());
	let mut e = Exec::new(async move {
		let mut buf = [0; 253];
		let r = identifier::parse(&mut rd, &mut buf).await.ok().map(|i| i.as_ref().to_vec());
		r
	});
	e.run(&[&p]);
	check(e.done.is_some(), "identification: decided once the stream ends");
	let used = p.0.borrow().pos;
	(e.done.take().flatten(), used)
}
fn compare(d: &[u8], sched: Sched) {
	let (got, used) = parse(d, sched);
	match identification(d) {
		None => {
			check(got.is_none(), "identification: malformed ones are refused");
			cover("refused")
		}
		Some((want, n)) => {
			match got {
				None => check(false, "identification: proper ones are accepted"),
				Some(g) => check(eq(&g, &want), "identification: the line without its end, unchanged"),
			}
			check(used == n, "identification: nothing after the line is consumed");
			cover("accepted")
		}
	}
}
fn any_sched(n: u32) -> Sched { [Sched::Greedy, Sched::Single, Sched::SinglePending, Sched::Any(n)][choose(4)] }

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) { self.0.store(true, Relaxed) }
	fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, Relaxed) }
}
/// Not ready once, then ready; ready to be polled again at once.
struct Yield(bool);
impl Future for Yield {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if self.0 {
			return Poll::Ready(());
		}
		self.0 = true;
		cx.waker().wake_by_ref();
		Poll::Pending
	}
}

harnesses! {
	/// Arbitrary bytes before and after the marker.
	fn h_identification() {
		let pre = choose(tier(5, 6));
		let mut d = sym_vec(pre);
		match choose(3) {
			0 => {}
			1 => {
				d.extend_from_slice(b"SSH-2.0-");
				let n = choose(4);
				d.extend(sym_vec(n));
				d.extend_from_slice(b"\r\nrest");
			}
			_ => {
				let mut l = b"SSH-2.0-a\r\nb".to_vec();
				let i = choose(l.len());
				l[i] = sym_u8();
				d.extend(l);
				d.extend_from_slice(b"\r\n");
			}
		}
		compare(&d, Sched::Greedy);
	}
	/// Other lines first, however the bytes arrive.
	fn h_identification_lines() {
		let mut d = Vec::new();
		let mut changed = false;
		for _ in 0..choose(3) {
			d.extend_from_slice([&b"\r\n"[..], b"\n\r\n", b"SS\r\n", b"SSH\r\n", b"hello\rSSH-\r\n", b"x SSH-2.0-no\r\n", b"\r\r\n", b"SSH-1"][choose(8)]);
			if (THOROUGH || !changed) && choose(2) == 1 { let i = choose(d.len()); d[i] = sym_u8(); changed = true }
		}
		d.extend_from_slice(b"SSH-2.0-y z\r\n\x00");
		compare(&d, if changed { Sched::Greedy } else { any_sched(1) });
	}
	/// Lengths around the limit.
	fn h_identification_long() {
		let n = [8, 9, 100, 250, 251, 252, 253, 254, 255, 256, 300][choose(11)];
		let mut d = b"SSH-2.0-".to_vec();
		d.resize(n, b'v');
		if n > 10 { fill(&mut d[n - 2..]) }
		d.extend_from_slice(b"\r\n");
		d.extend(sym::<2>());
		compare(&d, any_sched(0));
	}
	/// Many and long lines first.
	fn h_identification_many() {
		let (n, l) = [(1, 253), (1, 254), (1, 255), (1, 256), (1, 257), (1, 1023), (1, 1025), (1, 4097), (2, 600), (20, 81), (64, 3), (65, 3), (100, 0), (300, 0)][choose(14)];
		let mut d = Vec::new();
		for i in 0..n {
			let mut v = vec![b'w'; l];
			if i == 0 || i == n - 1 { let m = l.min(1); fill(&mut v[..m]); if l > 3 { fill(&mut v[l - 1..]) } }
			d.extend(v);
			d.extend_from_slice(b"\r\n");
		}
		d.extend_from_slice(b"SSH-2.0-");
		d.extend(sym::<1>());
		d.extend_from_slice(b"z\r\n!");
		compare(&d, [Sched::Greedy, Sched::Single][choose(2)]);
	}
	/// Tasks sharing a lock, under every schedule, with tasks dropped at any point.
	fn h_mutex() {
		let first = sym_u32();
		let m = Rc::new(LocalMutex::new(first));
		let inside = Rc::new(Cell::new(0));
		let total = Rc::new(Cell::new(0u32));
		let n = tier(3, 4);
		let mut tasks: Vec<Option<(Pin<Box<dyn Future<Output = ()>>>, Arc<Flag>)>> = Vec::new();
		for i in 0..n {
			let (m, inside, total) = (m.clone(), inside.clone(), total.clone());
			let rounds = if i == 0 { 2 } else { 1 };
			tasks.push(Some((Box::pin(async move {
				for _ in 0..rounds {
					let mut g = m.lock().await;
					struct In(Rc<Cell<u32>>);
					impl Drop for In { fn drop(&mut self) { self.0.set(self.0.get() - 1) } }
					inside.set(inside.get() + 1);
					let _in = In(inside.clone());
					check(inside.get() == 1, "lock: one holder at a time");
					let v = *g;
					if i != 1 { Yield(false).await }
					check(*g == v, "lock: nobody else changes the value");
					let d = sym_u32();
					*g = v ^ d;
					total.set(d ^ total.get());
				}
			}), Arc::new(Flag(AtomicBool::new(true))))));
		}
		let (mut drops, mut extra) = (1, 1);
		loop {
			let ready: Vec<usize> = (0..n).filter(|i| tasks[*i].as_ref().map_or(false, |t| t.1 .0.load(Relaxed))).collect();
			let there: Vec<usize> = (0..n).filter(|i| tasks[*i].is_some()).collect();
			if there.is_empty() { break }
			check(!ready.is_empty(), "lock: no task waits forever");
			if ready.is_empty() { return }
			let k = choose(ready.len() + if drops > 0 { there.len() } else { 0 } + if extra > 0 { there.len() } else { 0 });
			let (i, mut poll) = if k < ready.len() { (ready[k], true) } else { (there[(k - ready.len()) % there.len()], false) };
			if !poll && (k - ready.len() >= there.len() || drops == 0) { extra -= 1; poll = true } else if !poll { drops -= 1 }
			if !poll { tasks[i] = None; cover("dropped"); continue }
			let t = tasks[i].as_mut().unwrap();
			// a poll nobody asked for comes from elsewhere: the earlier waker is worth nothing from now on
			if k >= ready.len() && choose(2) == 1 { t.1 = Arc::new(Flag(AtomicBool::new(false))) }
			t.1 .0.store(false, Relaxed);
			let w = Waker::from(t.1.clone());
			if t.0.as_mut().poll(&mut Context::from_waker(&w)).is_ready() { tasks[i] = None }
		}
		check(inside.get() == 0, "lock: released in the end");
		let m = Rc::try_unwrap(m).ok().unwrap();
		let v = RefCell::new(0u32);
		let f = m.lock();
		let mut f = Box::pin(async { *v.borrow_mut() = *f.await });
		let fl = Arc::new(Flag(AtomicBool::new(false)));
		let ok = f.as_mut().poll(&mut Context::from_waker(&Waker::from(fl))).is_ready();
		check(ok, "lock: free in the end");
		check(*v.borrow() == (total.get() ^ first), "lock: no update is lost");
		cover("finished");
	}
	/// Many tasks waiting at once.
	fn h_mutex_many() {
		let n = [5, 9, 17, tier(33, 65)][choose(4)];
		let m = Rc::new(LocalMutex::new(0u32));
		let order = choose(3);
		let gone = if choose(2) == 1 { [1, 2, n / 2, n - 1][choose(4)] } else { 0 };
		let mut tasks: Vec<Option<(Pin<Box<dyn Future<Output = ()>>>, Arc<Flag>)>> = Vec::new();
		for _ in 0..n {
			let m = m.clone();
			tasks.push(Some((Box::pin(async move {
				for _ in 0..2 {
					let mut g = m.lock().await;
					let v = *g;
					Yield(false).await;
					check(*g == v, "lock: nobody else changes the value");
					*g = v + 1;
				}
			}), Arc::new(Flag(AtomicBool::new(true))))));
		}
		for round in 0.. {
			let mut any = false;
			for k in 0..n {
				let i = match order { 0 => k, 1 => n - 1 - k, _ => k * 7 % n };
				if round == 1 && gone > 0 { tasks[gone] = None }
				if let Some(t) = tasks[i].as_mut() {
					if !t.1 .0.swap(false, Relaxed) { continue }
					any = true;
					let w = Waker::from(t.1.clone());
					if t.0.as_mut().poll(&mut Context::from_waker(&w)).is_ready() { tasks[i] = None }
				}
			}
			if tasks.iter().all(|t| t.is_none()) { break }
			check(any, "lock: no task waits forever");
			if !any { return }
		}
		let mut f = Box::pin(async { *m.lock().await });
		let fl = Arc::new(Flag(AtomicBool::new(false)));
		match f.as_mut().poll(&mut Context::from_waker(&Waker::from(fl))) {
			Poll::Ready(v) => check(v as usize + if gone > 0 { 2 } else { 0 } >= 2 * n && v as usize <= 2 * n, "lock: no update is lost"),
			Poll::Pending => check(false, "lock: free in the end"),
		}
		cover("finished");
	}
}
