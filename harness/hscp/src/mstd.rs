//! The standard library with model arguments, pipes, files and exit.
#![allow(unused)]
pub use std::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// The other end of standard input and output: looks at what came out, says
/// something (`say`) or closes (`hang_up`).
pub type Peer = Box<dyn FnMut(&mut Wire)>;
#[derive(Default)]
pub struct Wire {
	/// Bytes on their way to the program.
	pub input: Vec<u8>,
	pub pos: usize,
	pub closed: bool,
	/// Bytes the program sent; those after `visible` are still in its buffer.
	pub output: Vec<u8>,
	pub visible: usize,
	/// What the peer has looked at.
	pub seen: usize,
	/// Every read gets one byte.
	pub single: bool,
}
impl Wire {
	pub fn say(&mut self, d: &[u8]) { self.input.extend_from_slice(d) }
	pub fn hang_up(&mut self) { self.closed = true }
	/// What the program sent since the last call.
	pub fn heard(&mut self) -> Vec<u8> {
		let v = self.output[self.seen..self.visible].to_vec();
		self.seen = self.visible;
		v
	}
}
#[derive(Default)]
pub struct State {
	pub args: Vec<Vec<u8>>,
	pub wire: Wire,
	pub peer: Option<Peer>,
	pub files: BTreeMap<Vec<u8>, Vec<u8>>,
	pub dirs: Vec<Vec<u8>>,
	pub cwd: Vec<u8>,
	/// Paths as they were given.
	pub created: Vec<Vec<u8>>,
	/// Writing to files fails after so many bytes.
	pub room: Option<usize>,
	/// What files are said to be long.
	pub claims: Option<u64>,
	pub at_exit: Option<Box<dyn FnOnce(i32)>>,
	pub single: bool,
}
thread_local!(pub static ST: RefCell<State> = RefCell::new(State::default()));
pub fn st<R>(f: impl FnOnce(&mut State) -> R) -> R { ST.with(|s| f(&mut s.borrow_mut())) }
/// The program ended with this status.
pub fn finish(code: i32) -> ! {
	let f = st(|s| {
		s.wire.visible = s.wire.output.len();
		s.at_exit.take()
	});
	if let Some(f) = f {
		f(code)
	}
	nsx::end()
}
fn absolute(p: &[u8]) -> Vec<u8> {
	if p.first() == Some(&b'/') {
		p.to_vec()
	} else {
		st(|s| [&s.cwd[..], b"/", p].concat())
	}
}
/// The path of a directory without empty components and `.`.
fn plain(p: &[u8]) -> Vec<u8> {
	let mut v = Vec::new();
	for c in absolute(p).split(|b| *b == b'/') {
		if !c.is_empty() && c != b"." {
			v.push(b'/');
			v.extend_from_slice(c)
		}
	}
	v
}
/// Of a plain path. The root and /home are always there.
pub fn is_dir(d: &[u8]) -> bool { d.is_empty() || d == b"/home" || d == b"/src" || st(|s| s.dirs.iter().any(|x| x == d)) }
fn parent(p: &[u8]) -> &[u8] { &p[..p.iter().rposition(|b| *b == b'/').unwrap_or(0)] }
fn make(d: Vec<u8>) -> io::Result<()> {
	if !is_dir(parent(&d)) {
		return Err(io::ErrorKind::NotFound.into());
	}
	if is_dir(&d) || st(|s| s.files.contains_key(&d)) {
		return Err(io::ErrorKind::AlreadyExists.into());
	}
	st(|s| s.dirs.push(d));
	Ok(())
}
/// Can a file be there?
fn place(path: &[u8]) -> io::Result<()> {
	// a name without slashes is in the current directory, which is there
	if st(|s| s.files.contains_key(path)) {
		return Ok(());
	}
	let (d, f) = path.split_at(path.iter().rposition(|b| *b == b'/').unwrap_or(0));
	if f.len() <= 1 || is_dir(&plain(path)) {
		return Err(io::ErrorKind::IsADirectory.into());
	}
	if !is_dir(&plain(d)) {
		return Err(io::ErrorKind::NotFound.into());
	}
	Ok(())
}
fn bytes(p: &path::Path) -> Vec<u8> { os::unix::ffi::OsStrExt::as_bytes(p.as_os_str()).to_vec() }

pub mod env {
	pub use std::env::*;
	use std::ffi::OsString;
	use std::os::unix::ffi::OsStringExt;
	pub fn args_os() -> std::vec::IntoIter<OsString> { super::st(|s| s.args.iter().map(|a| OsString::from_vec(a.clone())).collect::<Vec<_>>().into_iter()) }
	pub fn args() -> std::iter::Map<std::vec::IntoIter<OsString>, fn(OsString) -> String> { args_os().map(|a| a.into_string().expect("UTF-8 argument")) }
	pub fn set_current_dir(p: impl AsRef<std::path::Path>) -> std::io::Result<()> {
		let d = super::plain(&super::bytes(p.as_ref()));
		if !super::is_dir(&d) {
			return Err(std::io::ErrorKind::NotFound.into());
		}
		super::st(|s| s.cwd = d);
		Ok(())
	}
	pub fn current_dir() -> std::io::Result<std::path::PathBuf> { Ok(std::path::PathBuf::from(OsString::from_vec(super::st(|s| s.cwd.clone())))) }
}
pub mod process {
	pub use std::process::*;
	pub fn exit(code: i32) -> ! { super::finish(code) }
}
pub mod fs {
	pub use std::fs::*;
	use super::{absolute, bytes, is_dir, make, place, plain, st};
	use std::io::{self, Read, Write};
	use std::cell::Cell;
	use std::path::Path;
	pub struct File {
		path: Vec<u8>,
		pos: Cell<usize>,
	}
	pub struct Metadata(u64);
	impl Metadata {
		pub fn len(&self) -> u64 { self.0 }
		pub fn is_file(&self) -> bool { true }
		pub fn is_dir(&self) -> bool { false }
	}
	impl File {
		pub fn create(p: impl AsRef<Path>) -> io::Result<File> {
			let b = bytes(p.as_ref());
			let path = absolute(&b);
			st(|s| s.created.push(b));
			place(&path)?;
			st(|s| s.files.insert(path.clone(), Vec::new()));
			Ok(File { path, pos: Cell::new(0) })
		}
		pub fn open(p: impl AsRef<Path>) -> io::Result<File> {
			let path = absolute(&bytes(p.as_ref()));
			if st(|s| s.files.contains_key(&path)) {
				Ok(File { path, pos: Cell::new(0) })
			} else {
				Err(io::ErrorKind::NotFound.into())
			}
		}
		pub fn metadata(&self) -> io::Result<Metadata> { Ok(Metadata(st(|s| s.claims.unwrap_or(s.files[&self.path].len() as u64)))) }
		pub fn options() -> OpenOptions { OpenOptions::new() }
		pub fn sync_data(&self) -> io::Result<()> { Ok(()) }
		pub fn sync_all(&self) -> io::Result<()> { Ok(()) }
		pub fn set_len(&self, n: u64) -> io::Result<()> { Ok(st(|s| s.files.get_mut(&self.path).expect("file").resize(n as usize, 0))) }
		fn get(&self, buf: &mut [u8]) -> io::Result<usize> {
			st(|s| {
				let f = &s.files[&self.path];
				let mut n = buf.len().min(f.len() - self.pos.get());
				if s.single {
					n = n.min(1)
				}
				buf[..n].copy_from_slice(&f[self.pos.get()..self.pos.get() + n]);
				self.pos.set(self.pos.get() + n);
				Ok(n)
			})
		}
		fn put(&self, buf: &[u8]) -> io::Result<usize> {
			st(|s| {
				let mut n = buf.len();
				if s.single {
					n = n.min(1)
				}
				if let Some(r) = &mut s.room {
					n = n.min(*r);
					*r -= n;
					if n == 0 && !buf.is_empty() {
						return Err(io::ErrorKind::Other.into());
					}
				}
				let f = s.files.get_mut(&self.path).expect("file");
				let at = self.pos.get();
				let over = n.min(f.len() - at);
				f[at..at + over].copy_from_slice(&buf[..over]);
				f.extend_from_slice(&buf[over..n]);
				self.pos.set(self.pos.get() + n);
				Ok(n)
			})
		}
	}
	impl Read for &File {
		fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { self.get(buf) }
	}
	impl Write for &File {
		fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.put(buf) }
		fn flush(&mut self) -> io::Result<()> { Ok(()) }
	}
	impl Read for File {
		fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { self.get(buf) }
	}
	impl Write for File {
		fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.put(buf) }
		fn flush(&mut self) -> io::Result<()> { Ok(()) }
	}
	pub fn create_dir_all(p: impl AsRef<Path>) -> io::Result<()> {
		let d = plain(&bytes(p.as_ref()));
		for i in 1..=d.len() {
			if (i == d.len() || d[i] == b'/') && !is_dir(&d[..i]) {
				make(d[..i].to_vec())?
			}
		}
		Ok(())
	}
	/// As far as `File::create` and `File::open` go.
	#[derive(Clone, Default)]
	pub struct OpenOptions([bool; 6]);
	impl OpenOptions {
		pub fn new() -> Self { Self::default() }
		pub fn read(&mut self, v: bool) -> &mut Self { self.0[0] = v; self }
		pub fn write(&mut self, v: bool) -> &mut Self { self.0[1] = v; self }
		pub fn create(&mut self, v: bool) -> &mut Self { self.0[2] = v; self }
		pub fn truncate(&mut self, v: bool) -> &mut Self { self.0[3] = v; self }
		pub fn create_new(&mut self, v: bool) -> &mut Self { self.0[4] = v; self }
		pub fn append(&mut self, v: bool) -> &mut Self { self.0[5] = v; self }
		pub fn open(&self, p: impl AsRef<Path>) -> io::Result<File> {
			let [_, w, c, t, n, a] = self.0;
			let b = bytes(p.as_ref());
			let path = absolute(&b);
			let there = st(|s| s.files.contains_key(&path));
			if n && there {
				return Err(io::ErrorKind::AlreadyExists.into());
			}
			if !there && !((c || n) && (w || a)) {
				return Err(io::ErrorKind::NotFound.into());
			}
			place(&path)?;
			st(|s| {
				if w || a {
					s.created.push(b)
				}
				let f = s.files.entry(path.clone()).or_default();
				if t {
					f.clear()
				}
				Ok(File { path, pos: Cell::new(if a { f.len() } else { 0 }) })
			})
		}
	}
	pub fn read(p: impl AsRef<Path>) -> io::Result<Vec<u8>> {
		let mut v = Vec::new();
		File::open(p)?.read_to_end(&mut v)?;
		Ok(v)
	}
	pub fn write(p: impl AsRef<Path>, d: impl AsRef<[u8]>) -> io::Result<()> { File::create(p)?.write_all(d.as_ref()) }
	pub fn create_dir(p: impl AsRef<Path>) -> io::Result<()> { make(plain(&bytes(p.as_ref()))) }
	pub fn metadata(p: impl AsRef<Path>) -> io::Result<Metadata> { File::open(p)?.metadata() }
	pub fn symlink_metadata(p: impl AsRef<Path>) -> io::Result<Metadata> { metadata(p) }
	pub fn exists(p: impl AsRef<Path>) -> io::Result<bool> { Ok(File::open(&p).is_ok() || is_dir(&plain(&bytes(p.as_ref())))) }
	pub fn remove_file(p: impl AsRef<Path>) -> io::Result<()> {
		let p = absolute(&bytes(p.as_ref()));
		st(|s| s.files.remove(&p)).map(drop).ok_or(io::ErrorKind::NotFound.into())
	}
	pub fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
		let f = read(a.as_ref())?;
		remove_file(a)?;
		let b = bytes(b.as_ref());
		let path = absolute(&b);
		st(|s| {
			s.created.push(b);
			s.files.insert(path, f);
		});
		Ok(())
	}
	pub fn copy(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<u64> {
		let f = read(a)?;
		write(b, &f)?;
		Ok(f.len() as u64)
	}
	impl io::Seek for File {
		fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
			let n = match p {
				io::SeekFrom::Start(n) => Some(n as usize),
				io::SeekFrom::Current(n) => self.pos.get().checked_add_signed(n as isize),
				io::SeekFrom::End(n) => st(|s| s.files[&self.path].len()).checked_add_signed(n as isize),
			};
			let n = n.ok_or(io::Error::from(io::ErrorKind::InvalidInput))?;
			self.pos.set(n);
			Ok(n as u64)
		}
	}
}
pub mod io {
	use super::st;
	pub use std::io::*;
	use std::marker::PhantomData;
	pub struct Stdin;
	pub struct StdinLock<'a>(PhantomData<&'a ()>);
	pub struct Stdout;
	pub struct StdoutLock<'a>(PhantomData<&'a ()>);
	pub struct Stderr;
	pub fn stderr() -> Stderr { Stderr }
	impl Stderr {
		pub fn lock(&self) -> Stderr { Stderr }
	}
	impl Write for Stderr {
		fn write(&mut self, buf: &[u8]) -> Result<usize> { Ok(buf.len()) }
		fn flush(&mut self) -> Result<()> { Ok(()) }
	}
	pub fn stdin() -> Stdin { Stdin }
	pub fn stdout() -> Stdout { Stdout }
	impl Stdin {
		pub fn lock(&self) -> StdinLock<'static> { StdinLock(PhantomData) }
		pub fn read_line(&self, s: &mut String) -> Result<usize> { self.lock().read_line(s) }
	}
	impl Stdout {
		pub fn lock(&self) -> StdoutLock<'static> { StdoutLock(PhantomData) }
	}
	/// Waits for the peer if nothing is there.
	fn await_input() {
		let w = st(|s| s.wire.pos == s.wire.input.len() && !s.wire.closed);
		if w {
			let p = st(|s| s.peer.take());
			if let Some(mut p) = p {
				st(|s| p(&mut s.wire));
				st(|s| s.peer = Some(p));
			}
			let stuck = st(|s| s.wire.pos == s.wire.input.len() && !s.wire.closed);
			nsx::check(!stuck, "scp: the two sides never wait for each other");
			if stuck {
				nsx::end()
			}
		}
	}
	impl Read for StdinLock<'_> {
		fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
			if buf.is_empty() {
				return Ok(0);
			}
			await_input();
			st(|s| {
				let w = &mut s.wire;
				let mut n = buf.len().min(w.input.len() - w.pos);
				if w.single {
					n = n.min(1)
				}
				buf[..n].copy_from_slice(&w.input[w.pos..w.pos + n]);
				w.pos += n;
				Ok(n)
			})
		}
	}
	impl Read for Stdin {
		fn read(&mut self, buf: &mut [u8]) -> Result<usize> { self.lock().read(buf) }
	}
	impl BufRead for StdinLock<'_> {
		fn fill_buf(&mut self) -> Result<&[u8]> {
			await_input();
			Ok(st(|s| {
				let w = &s.wire;
				let n = w.input.len() - w.pos;
				w.input[w.pos..w.pos + if w.single { n.min(1) } else { n }].to_vec().leak()
			}))
		}
		fn consume(&mut self, n: usize) { st(|s| s.wire.pos += n) }
	}
	/// Standard output is line-buffered.
	fn put(buf: &[u8]) {
		st(|s| {
			let w = &mut s.wire;
			w.output.extend_from_slice(buf);
			if let Some(i) = buf.iter().rposition(|b| *b == b'\n') {
				w.visible = w.output.len() - buf.len() + i + 1
			}
			if w.output.len() - w.visible > 1024 {
				w.visible = w.output.len()
			}
		})
	}
	impl Write for StdoutLock<'_> {
		fn write(&mut self, buf: &[u8]) -> Result<usize> {
			put(buf);
			Ok(buf.len())
		}
		fn flush(&mut self) -> Result<()> {
			st(|s| s.wire.visible = s.wire.output.len());
			Ok(())
		}
	}
	impl Write for Stdout {
		fn write(&mut self, buf: &[u8]) -> Result<usize> { self.lock().write(buf) }
		fn flush(&mut self) -> Result<()> { self.lock().flush() }
	}
}
#[allow(unused)]
macro_rules! print {
	($($a:tt)*) => {{ let _ = $crate::mstd::io::Write::write_all(&mut $crate::mstd::io::stdout(), format!($($a)*).as_bytes()); }};
}
#[allow(unused)]
macro_rules! println {
	() => { print!("\n") };
	($($a:tt)*) => {{ print!($($a)*); print!("\n"); }};
}
#[allow(unused)]
macro_rules! eprintln {
	($($a:tt)*) => {{ let _ = format_args!($($a)*); }};
}
