//! Harness API of the symbolic executor.
//!
//! With `--cfg nsx_engine` the functions are left external and the engine
//! interprets them; otherwise they are implemented natively on a concrete
//! input stream, so that a counterexample (or a sampled path) found by the
//! engine is replayed against the ordinary build of the same code.

#[cfg(nsx_engine)]
mod imp {
	extern "C" {
		pub fn nsx_sym(p: *mut u8, n: usize);
		pub fn nsx_assume(c: bool);
		pub fn nsx_assert(c: bool, m: *const u8, n: usize);
		pub fn nsx_cover(m: *const u8, n: usize);
		pub fn nsx_choose(n: u32) -> u32;
		pub fn nsx_concretize(v: u64) -> u64;
		pub fn nsx_obs(v: u64);
		pub fn nsx_uf(f: u64, i: *const u8, il: usize, o: *mut u8, ol: usize);
		pub fn nsx_prune();
		pub fn nsx_end();
	}
}

#[cfg(not(nsx_engine))]
mod imp {
	use std::collections::HashMap;
	use std::sync::Mutex;
	pub struct S {
		pub stream: Vec<u8>,
		pub pos: usize,
		pub uf: Option<HashMap<(u64, Vec<u8>, usize), Vec<u8>>>,
		pub failed: u32,
		pub obs: Vec<u64>,
		pub under: bool,
	}
	pub static ST: Mutex<S> = Mutex::new(S { stream: Vec::new(), pos: 0, uf: None, failed: 0, obs: Vec::new(), under: false });
	fn take(n: usize) -> Vec<u8> {
		let mut s = ST.lock().unwrap_or_else(|e| e.into_inner());
		let p = s.pos;
		let mut v = vec![0; n];
		for i in 0..n {
			if p + i < s.stream.len() { v[i] = s.stream[p + i] } else { s.under = true }
		}
		s.pos += n;
		v
	}
	fn text(m: *const u8, n: usize) -> String {
		String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(m, n) }).into_owned()
	}
	pub unsafe fn nsx_sym(p: *mut u8, n: usize) {
		let v = take(n);
		std::ptr::copy_nonoverlapping(v.as_ptr(), p, n);
	}
	pub unsafe fn nsx_assume(c: bool) {
		if !c {
			super::report();
			println!("NSX-ASSUME-FAILED");
			std::process::exit(77);
		}
	}
	pub unsafe fn nsx_assert(c: bool, m: *const u8, n: usize) {
		if !c {
			println!("NSX-ASSERT {}", text(m, n));
			ST.lock().unwrap_or_else(|e| e.into_inner()).failed += 1;
		}
	}
	pub unsafe fn nsx_cover(m: *const u8, n: usize) {
		println!("NSX-COVER {}", text(m, n));
	}
	pub unsafe fn nsx_choose(n: u32) -> u32 {
		let v = take(4);
		let x = u32::from_le_bytes([v[0], v[1], v[2], v[3]]);
		if x >= n {
			println!("NSX-BAD-CHOICE");
			std::process::exit(76);
		}
		x
	}
	pub unsafe fn nsx_concretize(v: u64) -> u64 { v }
	pub unsafe fn nsx_obs(v: u64) { ST.lock().unwrap_or_else(|e| e.into_inner()).obs.push(v) }
	pub unsafe fn nsx_uf(f: u64, i: *const u8, il: usize, o: *mut u8, ol: usize) {
		let fresh = take(ol);
		let input = std::slice::from_raw_parts(i, il).to_vec();
		let mut s = ST.lock().unwrap_or_else(|e| e.into_inner());
		let m = s.uf.get_or_insert_with(HashMap::new);
		let v = m.entry((f, input, ol)).or_insert(fresh);
		std::ptr::copy_nonoverlapping(v.as_ptr(), o, ol);
	}
	pub unsafe fn nsx_end() { super::done() }
	pub unsafe fn nsx_prune() {
		super::report();
		println!("NSX-PRUNED");
		let failed = ST.lock().unwrap_or_else(|e| e.into_inner()).failed > 0;
		std::process::exit(if failed { 78 } else { 75 });
	}
}

#[cfg(not(nsx_engine))]
fn report() {
	let s = imp::ST.lock().unwrap_or_else(|e| e.into_inner());
	print!("NSX-OBS");
	for o in &s.obs { print!(" {}", o) }
	println!();
	if s.under || s.pos != s.stream.len() { println!("NSX-STREAM pos={} len={}", s.pos, s.stream.len()) }
}

/// Entry point of a harness binary: `prog <harness> <hex stream>`.
pub fn main(tables: &[&[(&str, extern "C" fn())]]) {
	#[cfg(nsx_engine)]
	{
		// keeps every harness alive in the module; never executed
		let n = std::env::args().count();
		let t = tables[n % tables.len()];
		(t[n % t.len()].1)();
	}
	#[cfg(not(nsx_engine))]
	{
		let a: Vec<String> = std::env::args().collect();
		let h = std::fs::read_to_string(&a[2]).expect("stream file");
		let h = h.trim();
		imp::ST.lock().unwrap().stream = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
		let f = tables.iter().flat_map(|t| t.iter()).find(|(n, _)| *n == a[1]).expect("harness").1;
		std::panic::set_hook(Box::new(|i| {
			println!("NSX-PANIC {}", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
			report();
			std::process::exit(101);
		}));
		f();
		done();
	}
}
#[cfg(not(nsx_engine))]
fn done() -> ! {
	report();
	let n = imp::ST.lock().unwrap_or_else(|e| e.into_inner()).failed;
	println!("NSX-DONE failed={}", n);
	std::process::exit(if n > 0 { 78 } else { 0 });
}

/// The thorough tier widens bounds.
pub const THOROUGH: bool = cfg!(nsx_thorough);
/// Quick or thorough bound.
pub const fn tier(q: usize, t: usize) -> usize { if THOROUGH { t } else { q } }

#[macro_export]
macro_rules! harnesses {
	($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
		$($(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $n() $b)*
		pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n),)*];
	};
}

#[inline(always)]
pub fn fill(b: &mut [u8]) { unsafe { imp::nsx_sym(b.as_mut_ptr(), b.len()) } }
#[inline(always)]
pub fn sym<const N: usize>() -> [u8; N] {
	let mut b = [0; N];
	fill(&mut b);
	b
}
pub fn sym_vec(n: usize) -> Vec<u8> {
	let mut b = vec![0; n];
	fill(&mut b);
	b
}
#[inline(always)]
pub fn sym_u8() -> u8 { sym::<1>()[0] }
#[inline(always)]
pub fn sym_u32() -> u32 { u32::from_le_bytes(sym()) }
#[inline(always)]
pub fn sym_u64() -> u64 { u64::from_le_bytes(sym()) }
#[inline(always)]
pub fn sym_bool() -> bool { sym_u8() & 1 != 0 }
#[inline(always)]
pub fn assume(c: bool) { unsafe { imp::nsx_assume(c) } }
#[inline(always)]
pub fn check(c: bool, m: &'static str) { unsafe { imp::nsx_assert(c, m.as_ptr(), m.len()) } }
#[inline(always)]
pub fn cover(m: &'static str) { unsafe { imp::nsx_cover(m.as_ptr(), m.len()) } }
/// Every value in `0..n`, one path each.
#[inline(always)]
pub fn choose(n: usize) -> usize { unsafe { imp::nsx_choose(n as u32) as usize } }
#[inline(always)]
pub fn concretize(v: u64) -> u64 { unsafe { imp::nsx_concretize(v) } }
#[inline(always)]
pub fn obs(v: u64) { unsafe { imp::nsx_obs(v) } }
pub fn obs_bytes(b: &[u8]) {
	obs(b.len() as u64);
	for c in b.chunks(8) {
		let mut x = [0; 8];
		x[..c.len()].copy_from_slice(c);
		obs(u64::from_le_bytes(x));
	}
}
/// Uninterpreted function number `f`: equal inputs give equal outputs, nothing else is known.
pub fn uf(f: u64, i: &[u8], o: &mut [u8]) { unsafe { imp::nsx_uf(f, i.as_ptr(), i.len(), o.as_mut_ptr(), o.len()) } }
/// Ends the path without a verdict (counted and reported).
pub fn prune() -> ! {
	unsafe { imp::nsx_prune() };
	loop {}
}
/// Ends the path as if the harness had returned.
pub fn end() -> ! {
	unsafe { imp::nsx_end() };
	loop {}
}
/// Slice equality as one boolean expression (no per-byte forks).
#[inline(always)]
pub fn eq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a == b }

/// Switches of the model crates, set by a harness.
pub const SELECT_REVERSE: u32 = 1;
pub const FREE_SECRET: u32 = 4;
static MODE: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
pub fn set_mode(m: u32) { MODE.store(m, core::sync::atomic::Ordering::Relaxed) }
pub fn mode(m: u32) -> bool { MODE.load(core::sync::atomic::Ordering::Relaxed) & m != 0 }

/// How often `select!` may deviate from its order.
static DEVIATIONS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
pub fn set_deviations(n: u32) { DEVIATIONS.store(n, core::sync::atomic::Ordering::Relaxed) }
pub fn deviate() -> bool { DEVIATIONS.load(core::sync::atomic::Ordering::Relaxed) > 0 }
pub fn deviated() { set_deviations(DEVIATIONS.load(core::sync::atomic::Ordering::Relaxed) - 1) }
/// Either base order of `select!`, with up to `n` deviations from here on.
pub fn select_orders(n: usize) {
	if choose(2) == 1 { set_mode(SELECT_REVERSE) }
	set_deviations(n as u32);
}
