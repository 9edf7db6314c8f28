//! Model environment of the daemon: sockets, programs, signatures, random bytes.
#![allow(unused)]
use crate::world::*;
pub use std::*;
use std::cell::RefCell;

pub struct State {
	pub world: World,
	/// So many attempts to accept a connection fail.
	pub refuse: usize,
	pub shell: Option<Vec<u8>>,
	pub can_start: bool,
	/// Everything that was to be run, and whether it could.
	pub programs: Vec<(Vec<Vec<u8>>, bool)>,
	/// The daemon listens.
	pub listening: bool,
}
thread_local!(static ST: RefCell<State> = RefCell::new(State { world: World::new(), refuse: 0, shell: Some(b"/bin/sh".to_vec()), can_start: true, programs: Vec::new(), listening: false }));
pub fn st<R>(f: impl FnOnce(&mut State) -> R) -> R { ST.with(|s| f(&mut s.borrow_mut())) }
pub fn world() -> World { st(|s| s.world.clone()) }
pub fn programs() -> Vec<(Vec<Vec<u8>>, bool)> { st(|s| s.programs.clone()) }
/// Is this a good signature?
pub fn genuine(key: &[u8], message: &[u8], signature: &[u8]) -> bool {
	let mut o = [0];
	nsx::uf(25521, &[key, signature, message].concat(), &mut o);
	o[0] & 1 == 1
}

pub mod env {
	pub use std::env::*;
	use std::ffi::{OsStr, OsString};
	use std::os::unix::ffi::OsStringExt;
	pub fn var_os(k: impl AsRef<OsStr>) -> Option<OsString> {
		if k.as_ref() == "SHELL" {
			super::st(|s| s.shell.clone()).map(OsString::from_vec)
		} else {
			None
		}
	}
	pub fn var(k: impl AsRef<OsStr>) -> Result<String, VarError> { var_os(k).ok_or(VarError::NotPresent)?.into_string().map_err(VarError::NotUnicode) }
}
pub mod rand {
	pub use rand::*;
	pub mod rngs {
		use crate::world::Rng;
		use rand::{CryptoRng, Error, RngCore, SeedableRng};
		/// Fixed bytes (those of the host key the client expects) until the daemon listens, then arbitrary ones unless seeded with a constant.
		pub struct StdRng(Option<Rng>);
		impl StdRng {
			fn rng(&mut self) -> Option<&mut Rng> { if crate::mstd::st(|s| s.listening) { Some(self.0.get_or_insert(Rng::FRESH)) } else { None } }
		}
		impl RngCore for StdRng {
			fn next_u32(&mut self) -> u32 { self.rng().map_or(7, |r| r.next_u32()) }
			fn next_u64(&mut self) -> u64 { self.rng().map_or(7, |r| r.next_u64()) }
			fn fill_bytes(&mut self, b: &mut [u8]) { match self.rng() { Some(r) => r.fill_bytes(b), None => b.fill(7) } }
			fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { Ok(self.fill_bytes(b)) }
		}
		impl CryptoRng for StdRng {}
		impl SeedableRng for StdRng {
			type Seed = [u8; 32];
			fn from_seed(s: [u8; 32]) -> Self { StdRng(Some(Rng::from_seed(s))) }
			fn seed_from_u64(s: u64) -> Self { StdRng(Some(Rng::seed_from_u64(s))) }
			fn from_entropy() -> Self { StdRng(None) }
		}
		pub type OsRng = StdRng;
		pub type ThreadRng = StdRng;
	}
	pub fn thread_rng() -> rngs::StdRng { SeedableRng::from_entropy() }
}
pub mod ed25519_dalek {
	#[derive(Debug)]
	pub struct SignatureError;
	#[derive(Debug, Clone, Copy)]
	pub struct PublicKey([u8; 32]);
	#[derive(Debug, Clone, Copy)]
	pub struct Signature([u8; 64]);
	pub const PUBLIC_KEY_LENGTH: usize = 32;
	pub const SIGNATURE_LENGTH: usize = 64;
	impl PublicKey {
		pub fn from_bytes(b: &[u8]) -> Result<Self, SignatureError> { b.try_into().map(PublicKey).map_err(|_| SignatureError) }
		pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
		pub fn to_bytes(&self) -> [u8; 32] { self.0 }
		pub fn verify_strict(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> { Verifier::verify(self, m, s) }
	}
	impl Signature {
		pub fn from_bytes(b: &[u8]) -> Result<Self, SignatureError> { b.try_into().map(Signature).map_err(|_| SignatureError) }
		pub fn to_bytes(&self) -> [u8; 64] { self.0 }
	}
	impl TryFrom<&[u8]> for Signature {
		type Error = SignatureError;
		fn try_from(b: &[u8]) -> Result<Self, SignatureError> { Self::from_bytes(b) }
	}
	pub trait Verifier<S> {
		fn verify(&self, m: &[u8], s: &S) -> Result<(), SignatureError>;
	}
	impl Verifier<Signature> for PublicKey {
		fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> { if super::genuine(&self.0, m, &s.0) { Ok(()) } else { Err(SignatureError) } }
	}
}
pub mod async_std {
	pub use std::sync::Arc;
	pub mod io {
		pub use futures::io::*;
	}
	pub mod task {
		pub use std::task::*;
		use std::{future::Future, pin::Pin, time::Duration};
		struct Yield(bool);
		impl Future for Yield {
			type Output = ();
			fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
				if self.0 {
					return Poll::Ready(());
				}
				self.0 = true;
				cx.waker().wake_by_ref();
				Poll::Pending
			}
		}
		pub async fn yield_now() { Yield(false).await }
		pub async fn sleep(_: Duration) { Yield(false).await }
	}
	pub mod net {
		use crate::mstd::{st, world};
		use crate::world::{Pipe, Rd, Wr};
		use futures::io::{AsyncRead, AsyncWrite};
		use std::future::Future;
		use std::io;
		use std::net::SocketAddr;
		use std::pin::Pin;
		use std::task::{Context, Poll};
		pub use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, Shutdown};
		pub struct TcpListener;
		pub struct TcpStream(Rd, Wr);
		struct Accept;
		impl Future for Accept {
			type Output = io::Result<TcpStream>;
			fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
				let w = world();
				let mut s = w.0.borrow_mut();
				if s.connections.is_empty() {
					s.accepting = Some(cx.waker().clone());
					return Poll::Pending;
				}
				let refuse = st(|x| {
					let r = x.refuse > 0;
					x.refuse -= r as usize;
					r
				});
				if refuse {
					return Poll::Ready(Err(io::ErrorKind::ConnectionAborted.into()));
				}
				let (a, b) = s.connections.remove(0);
				Poll::Ready(Ok(TcpStream(Rd(a), Wr(b))))
			}
		}
		impl TcpListener {
			pub async fn bind<A>(_: A) -> io::Result<TcpListener> {
				st(|s| s.listening = true);
				Ok(TcpListener)
			}
			pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> { Ok((Accept.await?, SocketAddr::from(([127, 0, 0, 1], 1234)))) }
			pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], 2222))) }
		}
		impl TcpStream {
			pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
		}
		impl AsyncRead for TcpStream {
			fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { Pin::new(&mut self.0).poll_read(cx, b) }
		}
		impl AsyncWrite for TcpStream {
			fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Pin::new(&mut self.1).poll_write(cx, b) }
			fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.1).poll_flush(cx) }
			fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.1).poll_close(cx) }
		}
	}
	pub mod process {
		use crate::mstd::{st, world};
		use crate::world::{Child as Prog, Exit, Pipe, Rd, Wr};
		use std::cell::RefCell;
		use std::ffi::{OsStr, OsString};
		use std::future::Future;
		use std::io;
		use std::os::unix::ffi::OsStrExt;
		use std::os::unix::process::ExitStatusExt;
		use std::path::Path;
		use std::pin::Pin;
		use std::rc::Rc;
		use std::task::{Context, Poll};
		pub use std::process::ExitStatus;
		pub type ChildStdin = Wr;
		pub type ChildStdout = Rd;
		pub type ChildStderr = Rd;
		#[derive(Clone, Copy, PartialEq)]
		pub struct Stdio(u8);
		impl Stdio {
			pub fn piped() -> Self { Stdio(1) }
			pub fn null() -> Self { Stdio(2) }
			pub fn inherit() -> Self { Stdio(3) }
		}
		pub struct Command {
			words: Vec<Vec<u8>>,
			io: [Stdio; 3],
			kill: bool,
		}
		pub struct Child {
			pub stdin: Option<ChildStdin>,
			pub stdout: Option<ChildStdout>,
			pub stderr: Option<ChildStderr>,
			prog: Prog,
			guard: Guard,
		}
		/// Kills the program when dropped, if so asked.
		struct Guard(Option<Prog>);
		impl Drop for Guard {
			fn drop(&mut self) {
				if let Some(p) = &self.0 {
					p.killed.set(true)
				}
			}
		}
		struct Wait(Rc<RefCell<Exit>>);
		impl Future for Wait {
			type Output = io::Result<ExitStatus>;
			fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
				let mut e = self.0.borrow_mut();
				match e.status {
					Some(s) => Poll::Ready(Ok(ExitStatus::from_raw(s as i32))),
					None => {
						e.waker = Some(cx.waker().clone());
						Poll::Pending
					}
				}
			}
		}
		impl Child {
			pub fn id(&self) -> u32 { 4711 }
			pub fn kill(&mut self) -> io::Result<()> { Ok(self.prog.killed.set(true)) }
			pub fn status(&mut self) -> impl Future<Output = io::Result<ExitStatus>> + use<> {
				drop(self.stdin.take());
				Wait(self.prog.exit.clone())
			}
		}
		impl Command {
			pub fn new(p: impl AsRef<OsStr>) -> Self { Command { words: vec![p.as_ref().as_bytes().to_vec()], io: [Stdio(3); 3], kill: false } }
			pub fn arg(&mut self, a: impl AsRef<OsStr>) -> &mut Self {
				self.words.push(a.as_ref().as_bytes().to_vec());
				self
			}
			pub fn args(&mut self, a: impl IntoIterator<Item = impl AsRef<OsStr>>) -> &mut Self {
				for a in a {
					self.arg(a);
				}
				self
			}
			pub fn env(&mut self, _: impl AsRef<OsStr>, _: impl AsRef<OsStr>) -> &mut Self { self }
			pub fn env_remove(&mut self, _: impl AsRef<OsStr>) -> &mut Self { self }
			pub fn current_dir(&mut self, _: impl AsRef<Path>) -> &mut Self { self }
			pub fn kill_on_drop(&mut self, k: bool) -> &mut Self {
				self.kill = k;
				self
			}
			pub fn stdin(&mut self, s: Stdio) -> &mut Self {
				self.io[0] = s;
				self
			}
			pub fn stdout(&mut self, s: Stdio) -> &mut Self {
				self.io[1] = s;
				self
			}
			pub fn stderr(&mut self, s: Stdio) -> &mut Self {
				self.io[2] = s;
				self
			}
			pub fn spawn(&mut self) -> io::Result<Child> {
				let ok = st(|s| {
					s.programs.push((self.words.clone(), s.can_start));
					s.can_start
				});
				if !ok {
					return Err(io::ErrorKind::NotFound.into());
				}
				let p = Prog::new();
				world().0.borrow_mut().children.push(p.clone());
				let piped = |i: usize| self.io[i] == Stdio(1);
				Ok(Child { stdin: piped(0).then(|| Wr(p.stdin.clone())), stdout: piped(1).then(|| Rd(p.stdout.clone())), stderr: piped(2).then(|| Rd(p.stderr.clone())), guard: Guard(self.kill.then(|| p.clone())), prog: p })
			}
		}
	}
}
