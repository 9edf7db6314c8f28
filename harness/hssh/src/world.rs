//! The world around a server: byte pipes with a delivery schedule, handlers
//! that record what they are asked, and an executor that polls a task only
//! after it was woken.
use futures::io::{AsyncRead, AsyncWrite};
use nora_ssh::auth::Auth;
use nora_ssh::server::*;
use nsx::*;
use std::cell::RefCell;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// How a pipe moves bytes.
#[derive(Clone, Copy, PartialEq)]
pub enum Sched {
	/// As much as fits.
	Greedy,
	/// One byte per call.
	Single,
	/// One byte per call, not ready before each.
	SinglePending,
	/// Each call: everything, one byte, or not ready yet (at most n deviations).
	Any(u32),
	/// Nothing moves until `unblock`.
	Blocked,
}
pub struct PipeState {
	pub data: Vec<u8>,
	pub pos: usize,
	/// No more bytes will come: end of stream once `data` is consumed.
	pub closed: bool,
	/// The reading end was dropped.
	pub dropped: bool,
	pub fail: bool,
	pub sched: Sched,
	armed: bool,
	pub waiting: Option<Waker>,
	/// Wakers of calls that reported "not ready" although data was there.
	pub delayed: Option<Waker>,
	/// Wakers of calls that wait for `unblock`.
	pub stuck: Option<Waker>,
	pub calls: usize,
}
#[derive(Clone)]
pub struct Pipe(pub Rc<RefCell<PipeState>>);
impl Pipe {
	pub fn new() -> Self {
		Pipe(Rc::new(RefCell::new(PipeState {
			data: Vec::new(),
			pos: 0,
			closed: false,
			dropped: false,
			fail: false,
			sched: Sched::Greedy,
			armed: false,
			waiting: None,
			delayed: None,
			stuck: None,
			calls: 0,
		})))
	}
	pub fn sched(&self, s: Sched) { self.0.borrow_mut().sched = s }
	pub fn put(&self, d: &[u8]) {
		let w = {
			let mut s = self.0.borrow_mut();
			s.data.extend_from_slice(d);
			s.waiting.take()
		};
		if let Some(w) = w {
			w.wake()
		}
	}
	pub fn wake(&self) {
		let w = self.0.borrow_mut().waiting.take();
		if let Some(w) = w {
			w.wake()
		}
	}
	pub fn close(&self) {
		let w = {
			let mut s = self.0.borrow_mut();
			s.closed = true;
			s.waiting.take()
		};
		if let Some(w) = w {
			w.wake()
		}
	}
	/// Everything written and not taken yet.
	pub fn take(&self) -> Vec<u8> {
		let mut s = self.0.borrow_mut();
		let v = s.data[s.pos..].to_vec();
		s.pos = s.data.len();
		v
	}
	pub fn left(&self) -> usize {
		let s = self.0.borrow();
		s.data.len() - s.pos
	}
	/// Bytes move again.
	pub fn unblock(&self, s: Sched) {
		let w = {
			let mut p = self.0.borrow_mut();
			p.sched = s;
			p.stuck.take()
		};
		if let Some(w) = w {
			w.wake()
		}
	}
	/// Wakes calls that were told "not ready".
	fn release(&self) -> bool {
		let w = self.0.borrow_mut().delayed.take();
		match w {
			None => false,
			Some(w) => {
				w.wake();
				true
			}
		}
	}
}
impl PipeState {
	/// How many of `n` bytes move now; None: not ready.
	fn amount(&mut self, n: usize, cx: &mut Context<'_>) -> Option<usize> {
		self.calls += 1;
		match self.sched {
			Sched::Greedy => Some(n),
			Sched::Blocked => {
				self.stuck = Some(cx.waker().clone());
				None
			}
			Sched::Single => Some(1),
			Sched::SinglePending => {
				self.armed = !self.armed;
				if self.armed {
					self.delayed = Some(cx.waker().clone());
					None
				} else {
					Some(1)
				}
			}
			Sched::Any(0) => Some(n),
			Sched::Any(k) => match choose(if n > 1 { 3 } else { 2 }) {
				0 => Some(n),
				1 => {
					self.sched = Sched::Any(k - 1);
					self.delayed = Some(cx.waker().clone());
					None
				}
				_ => {
					self.sched = Sched::Any(k - 1);
					Some(1)
				}
			},
		}
	}
}
/// Reading end.
pub struct Rd(pub Pipe);
impl AsyncRead for Rd {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
		let mut s = self.0 .0.borrow_mut();
		if buf.is_empty() {
			return Poll::Ready(Ok(0));
		}
		let n = buf.len().min(s.data.len() - s.pos);
		if n == 0 {
			if s.fail {
				return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
			}
			if s.closed {
				return Poll::Ready(Ok(0));
			}
			s.waiting = Some(cx.waker().clone());
			return Poll::Pending;
		}
		match s.amount(n, cx) {
			None => Poll::Pending,
			Some(n) => {
				let p = s.pos;
				buf[..n].copy_from_slice(&s.data[p..p + n]);
				s.pos += n;
				Poll::Ready(Ok(n))
			}
		}
	}
}
impl Drop for Rd {
	fn drop(&mut self) { self.0 .0.borrow_mut().dropped = true }
}
/// Writing end.
pub struct Wr(pub Pipe);
impl AsyncWrite for Wr {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
		let mut s = self.0 .0.borrow_mut();
		if s.fail {
			return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
		}
		if buf.is_empty() {
			return Poll::Ready(Ok(0));
		}
		match s.amount(buf.len(), cx) {
			None => Poll::Pending,
			Some(n) => {
				s.data.extend_from_slice(&buf[..n]);
				Poll::Ready(Ok(n))
			}
		}
	}
	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
	fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		self.0 .0.borrow_mut().closed = true;
		Poll::Ready(Ok(()))
	}
}
impl Drop for Wr {
	fn drop(&mut self) { self.0 .0.borrow_mut().closed = true }
}

/// Arbitrary random bytes; those of 16 and more bytes are remembered.
/// Seeded with anything else than such bytes, they are predictable and not remembered.
pub struct Rng(Option<([u8; 32], u64)>);
thread_local!(pub static DRAWN: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) });
// Random bytes may also be drawn piece by piece: the first bytes of the pieces, and all bytes.
thread_local!(pub static PIECES: RefCell<[Vec<u8>; 2]> = const { RefCell::new([Vec::new(), Vec::new()]) });
fn pieces(x: &[u8]) {
	PIECES.with(|p| {
		let mut p = p.borrow_mut();
		p[0].push(x[0]);
		p[1].extend_from_slice(x);
	})
}
impl Rng {
	pub const FRESH: Rng = Rng(None);
	fn predictable(&mut self, b: &mut [u8]) -> bool {
		match &mut self.0 {
			None => false,
			Some((seed, n)) => {
				for b in b {
					let mut o = [0];
					nsx::uf(2718, &[&seed[..], &n.to_be_bytes()].concat(), &mut o);
					*n += 1;
					*b = o[0]
				}
				true
			}
		}
	}
}
impl rand::RngCore for Rng {
	fn next_u32(&mut self) -> u32 {
		let mut b = [0; 4];
		if self.predictable(&mut b) {
			return u32::from_le_bytes(b);
		}
		let x = sym_u32();
		pieces(&x.to_le_bytes());
		x
	}
	fn next_u64(&mut self) -> u64 {
		let mut b = [0; 8];
		if self.predictable(&mut b) {
			return u64::from_le_bytes(b);
		}
		let x = sym_u64();
		pieces(&x.to_le_bytes());
		x
	}
	fn fill_bytes(&mut self, b: &mut [u8]) {
		if self.predictable(b) {
			return;
		}
		fill(b);
		if b.len() >= 16 {
			DRAWN.with(|d| d.borrow_mut().push(b.to_vec()))
		}
	}
	fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { Ok(self.fill_bytes(b)) }
}
impl rand::CryptoRng for Rng {}
impl rand::SeedableRng for Rng {
	type Seed = [u8; 32];
	fn from_seed(s: [u8; 32]) -> Self {
		let random = DRAWN.with(|d| d.borrow().iter().any(|x| x.len() == 32 && eq(x, &s)));
		Rng(if random { None } else { Some((s, 0)) })
	}
	fn seed_from_u64(s: u64) -> Self {
		let random = PIECES.with(|p| p.borrow().iter().any(|x| x.windows(8).any(|x| eq(x, &s.to_le_bytes()))));
		let mut v = [0; 32];
		v[..8].copy_from_slice(&s.to_le_bytes());
		Rng(if random { None } else { Some((v, 0)) })
	}
	fn from_entropy() -> Self { Rng(None) }
}

/// What the handlers were asked.
#[derive(Clone)]
pub enum Call {
	Exists { user: Vec<u8>, service: Vec<u8>, algorithm: Vec<u8>, key: Vec<u8> },
	None { user: Vec<u8>, service: Vec<u8> },
	Password { user: Vec<u8>, service: Vec<u8>, password: Vec<u8> },
	Key { user: Vec<u8>, service: Vec<u8>, algorithm: Vec<u8>, key: Vec<u8>, signature: Vec<u8>, message: Vec<u8> },
	Spawn { user: u32, command: Option<Vec<u8>>, id: usize },
}
/// An exit status that arrives when the harness says so.
pub struct Exit {
	pub status: Option<u32>,
	pub waker: Option<Waker>,
}
#[derive(Clone)]
pub struct Child {
	pub stdin: Pipe,
	pub stdout: Pipe,
	pub stderr: Pipe,
	pub exit: Rc<RefCell<Exit>>,
	pub killed: Rc<std::cell::Cell<bool>>,
}
impl Child {
	pub fn new() -> Self {
		Child { stdin: Pipe::new(), stdout: Pipe::new(), stderr: Pipe::new(), exit: Rc::new(RefCell::new(Exit { status: None, waker: None })), killed: Default::default() }
	}
	pub fn exit(&self, status: u32) {
		let w = {
			let mut e = self.exit.borrow_mut();
			e.status = Some(status);
			e.waker.take()
		};
		if let Some(w) = w {
			w.wake()
		}
	}
}
struct Wait(Rc<RefCell<Exit>>);
impl Future for Wait {
	type Output = u32;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
		let mut e = self.0.borrow_mut();
		match e.status {
			Some(s) => Poll::Ready(s),
			None => {
				e.waker = Some(cx.waker().clone());
				Poll::Pending
			}
		}
	}
}
pub struct State {
	pub connections: Vec<(Pipe, Pipe)>,
	pub accepting: Option<Waker>,
	pub calls: Vec<Call>,
	/// Verdicts of public_key_exists and authenticate, in order; then refusal.
	pub verdicts: Vec<bool>,
	pub asked: usize,
	pub children: Vec<Child>,
	/// Which of stdin, stdout, stderr a child gets.
	pub stdio: (bool, bool, bool),
	pub spawn_ok: bool,
	pub users: u32,
	/// Handlers are not done at once.
	pub slow: bool,
	/// Handlers are not done until `release`.
	pub hold: bool,
	pub held: Vec<Waker>,
}
#[derive(Clone)]
pub struct World(pub Rc<RefCell<State>>);
impl World {
	pub fn new() -> Self {
		World(Rc::new(RefCell::new(State {
			connections: Vec::new(),
			accepting: None,
			calls: Vec::new(),
			verdicts: Vec::new(),
			asked: 0,
			children: Vec::new(),
			stdio: (true, true, true),
			spawn_ok: true,
			users: 0,
			slow: false,
			hold: false,
			held: Vec::new(),
		})))
	}
	/// A new connection: (client to server, server to client).
	pub fn connect(&self) -> (Pipe, Pipe) {
		let (a, b) = (Pipe::new(), Pipe::new());
		let w = {
			let mut s = self.0.borrow_mut();
			s.connections.push((a.clone(), b.clone()));
			s.accepting.take()
		};
		if let Some(w) = w {
			w.wake()
		}
		(a, b)
	}
	pub fn release(&self) {
		let held = {
			let mut s = self.0.borrow_mut();
			s.hold = false;
			std::mem::take(&mut s.held)
		};
		for w in held {
			w.wake()
		}
	}
	async fn ponder(&self) {
		let slow = self.0.borrow().slow;
		Ponder(self.clone(), slow).await
	}
	fn verdict(&self, c: Call) -> bool {
		let mut s = self.0.borrow_mut();
		s.calls.push(c);
		let i = s.asked;
		s.asked += 1;
		s.verdicts.get(i).copied().unwrap_or(false)
	}
	pub fn calls(&self) -> Vec<Call> { self.0.borrow().calls.clone() }
	pub fn child(&self, i: usize) -> Child { self.0.borrow().children[i].clone() }
}
struct Accept(World);
impl Future for Accept {
	type Output = (Rd, Wr);
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<(Rd, Wr)> {
		let mut s = self.0 .0.borrow_mut();
		if s.connections.is_empty() {
			s.accepting = Some(cx.waker().clone());
			Poll::Pending
		} else {
			let (a, b) = s.connections.remove(0);
			Poll::Ready((Rd(a), Wr(b)))
		}
	}
}
/// Not ready the first time, if handlers are slow.
struct Ponder(World, bool);
impl Future for Ponder {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if self.0 .0.borrow().hold {
			self.0 .0.borrow_mut().held.push(cx.waker().clone());
			return Poll::Pending;
		}
		if std::mem::replace(&mut self.1, false) {
			cx.waker().wake_by_ref();
			return Poll::Pending;
		}
		Poll::Ready(())
	}
}
pub struct User(pub u32);
#[async_trait::async_trait(?Send)]
impl ServerHandlers for World {
	type Sign = p256::NistP256;
	type Crypt = nora_ssh::cipher::ChaCha20Poly1305;
	type Read = Rd;
	type Write = Wr;
	type User = User;
	type Stdin = Wr;
	type Stdout = Rd;
	type Stderr = Rd;
	type Rng = Rng;

	async fn accept(&self) -> (Rd, Wr) { Accept(self.clone()).await }
	async fn public_key_exists<'a>(&self, user: &'a [u8], service: &'a [u8], algorithm: &'a [u8], key: &'a [u8]) -> Result<(), ()> {
		self.ponder().await;
		if self.verdict(Call::Exists { user: user.to_vec(), service: service.to_vec(), algorithm: algorithm.to_vec(), key: key.to_vec() }) { Ok(()) } else { Err(()) }
	}
	async fn authenticate<'a>(&self, user: &'a [u8], service: &'a [u8], auth: Auth<'a>) -> Result<User, ()> {
		self.ponder().await;
		let (user, service) = (user.to_vec(), service.to_vec());
		let c = match auth {
			Auth::None => Call::None { user, service },
			Auth::Password(p) => Call::Password { user, service, password: p.to_vec() },
			Auth::PublicKey { algorithm, key, signature, message } => Call::Key { user, service, algorithm: algorithm.to_vec(), key: key.to_vec(), signature: signature.to_vec(), message: message.to_vec() },
		};
		if self.verdict(c) {
			let mut s = self.0.borrow_mut();
			s.users += 1;
			Ok(User(s.users))
		} else {
			Err(())
		}
	}
	async fn spawn<'a>(&self, user: &'a mut User, ty: SpawnType<'a>, _: &'a [u8]) -> Result<IoSet<Wr, Rd, Rd>, ()> {
		self.ponder().await;
		let mut s = self.0.borrow_mut();
		let id = s.children.len();
		s.calls.push(Call::Spawn {
			user: user.0,
			command: match ty {
				SpawnType::Shell => None,
				SpawnType::Exec { command } => Some(command.to_vec()),
			},
			id,
		});
		if !s.spawn_ok {
			return Err(());
		}
		let c = Child::new();
		s.children.push(c.clone());
		let (i, o, e) = s.stdio;
		Ok(IoSet { stdin: i.then(|| Wr(c.stdin)), stdout: o.then(|| Rd(c.stdout)), stderr: e.then(|| Rd(c.stderr)), wait: Box::pin(Wait(c.exit)) })
	}
}

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) { self.0.store(true, Relaxed) }
	fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, Relaxed) }
}
/// Runs one task, and only when it was woken.
pub struct Exec<T> {
	task: Pin<Box<dyn Future<Output = T>>>,
	flag: Arc<Flag>,
	pub done: Option<T>,
	pub polls: usize,
}
impl<T> Exec<T> {
	pub fn new(f: impl Future<Output = T> + 'static) -> Self {
		Exec { task: Box::pin(f), flag: Arc::new(Flag(AtomicBool::new(true))), done: None, polls: 0 }
	}
	/// Polls while the task is woken; between polls, calls that were told
	/// "not ready" become ready.
	pub fn run(&mut self, delayed: &[&Pipe]) {
		let waker = Waker::from(self.flag.clone());
		let mut cx = Context::from_waker(&waker);
		loop {
			if self.flag.0.swap(false, Relaxed) && self.done.is_none() {
				self.polls += 1;
				if let Poll::Ready(x) = self.task.as_mut().poll(&mut cx) {
					self.done = Some(x)
				}
				continue;
			}
			let mut any = false;
			for p in delayed {
				any |= p.release();
			}
			if !any {
				break;
			}
		}
	}
}
