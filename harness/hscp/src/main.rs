//! nora_scp: the program itself against a peer that keeps to the protocol, or does not.
#[macro_use]
mod mstd;
#[path = "../../../.build/gen/nora_scp/src/main.rs"]
#[allow(warnings)]
mod scp;
use mstd::{st, Wire};
use nsx::*;
use std::cell::RefCell;
use std::rc::Rc;

fn main() { nsx::main(&[TABLE]) }

trait Status {
	fn status(self) -> i32;
}
impl Status for () {
	fn status(self) -> i32 { 0 }
}
impl Status for std::process::ExitCode {
	fn status(self) -> i32 { (format!("{:?}", self) != format!("{:?}", std::process::ExitCode::SUCCESS)) as i32 }
}
impl<T: Status, E> Status for Result<T, E> {
	fn status(self) -> i32 {
		match self {
			Ok(t) => t.status(),
			Err(_) => 1,
		}
	}
}
/// Runs the program; `then` gets its exit status.
fn run(args: &[&[u8]], peer: impl FnMut(&mut Wire) + 'static, then: impl FnOnce(i32) + 'static) -> ! {
	st(|s| {
		s.args = args.iter().map(|a| a.to_vec()).collect();
		s.args.insert(0, b"scp".to_vec());
		s.cwd = b"/home".to_vec();
		s.peer = Some(Box::new(peer));
		s.at_exit = Some(Box::new(then));
	});
	mstd::finish(scp::main().status())
}
/// A file name a sender may use.
fn name(n: usize) -> Vec<u8> {
	let mut v = sym_vec(n);
	for b in &v {
		assume(*b < 128 && *b != b'\n' && *b != b'/' && *b != 0);
	}
	if n == 1 {
		assume(v[0] != b'.')
	}
	if n == 2 {
		assume(!eq(&v, b".."))
	}
	if n == 0 {
		v.push(b'f')
	}
	v
}
fn full(p: &[u8]) -> Vec<u8> { if p[0] == b'/' { p.to_vec() } else { [b"/home/", p].concat() } }
fn content(n: usize) -> Vec<u8> {
	let mut v = vec![b'c'; n];
	let m = n.min(2);
	fill(&mut v[..m]);
	if n > 2 {
		fill(&mut v[n - 1..])
	}
	v
}
const SIZES: [usize; 9] = [0, 1, 2, 10, 32767, 32768, 32769, 65536, 70001];
fn header(mode: &[u8], size: usize, name: &[u8]) -> Vec<u8> { [b"C", mode, b" ", size.to_string().as_bytes(), b" ", name, b"\n"].concat() }
/// A sender: every part after the other side said it is ready, or everything at once.
fn sender(parts: Vec<Vec<u8>>, at_once: bool) -> (impl FnMut(&mut Wire), Rc<RefCell<usize>>) {
	let acks = Rc::new(RefCell::new(0));
	let a = acks.clone();
	let mut parts = parts.into_iter();
	let peer = move |w: &mut Wire| {
		let h = w.heard();
		for b in &h {
			check(*b == 0, "scp: the receiver says nothing but ready");
		}
		*a.borrow_mut() += h.len();
		if at_once {
			for p in parts.by_ref() {
				w.say(&p)
			}
			w.hang_up();
		} else if !h.is_empty() {
			match parts.next() {
				Some(p) => w.say(&p),
				None => w.hang_up(),
			}
		}
	};
	(peer, acks)
}
fn chunked() { st(|s| { s.wire.single = choose(2) == 1; s.single = choose(2) == 1 }) }

harnesses! {
	/// Files arrive in the directory under their names with their contents.
	fn h_scp_receive_dir() {
		let n = choose(tier(3, 4));
		let mut files: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
		let mut parts = Vec::new();
		for i in 0..n {
			let f = if i == 0 && choose(2) == 1 { let n = [200, 255, 600][choose(if n == 1 { 3 } else { 1 })]; let mut f = vec![b'n'; n]; f[n - 1] = name(1)[0]; f } else { name([3, 1, 2][i]) };
			let c = content(if i == 0 { SIZES[choose(7)] } else { [0, 3][choose(2)] });
			if i > 0 { assume(!eq(&f, &files[0].0)) }
			parts.push(header(b"0644", c.len(), &f));
			parts.push([&c[..], b"\0"].concat());
			files.push((f, c));
		}
		if files.iter().all(|f| f.1.len() < 100) { chunked() }
		// an older, longer file of that name, and another one
		let (to, at, made): (&[u8], &[u8], &[&[u8]]) = match choose(if n == 1 { 5 } else { 2 }) {
			0 => (b"dir", b"/home/dir", &[]),
			1 => (b"dir", b"/home/dir", &[b"/home/dir"]),
			2 => (b"a/b/", b"/home/a/b", &[b"/home/a"]),
			3 => (b".", b"/home", &[]),
			_ => (b"/x/y", b"/x/y", &[]),
		};
		st(|s| for d in made { s.dirs.push(d.to_vec()) });
		let there = mstd::is_dir(at);
		let old = if n > 0 && there { choose(2) } else { 0 };
		if old == 1 { st(|s| { s.files.insert([at, b"/", &files[0].0[..]].concat(), vec![b'o'; files[0].1.len() + 5]); }) }
		let other = if there { [at, b"/other"].concat() } else { b"/home/other".to_vec() };
		st(|s| s.files.insert(other.clone(), b"other".to_vec()));
		let (peer, _) = sender(parts, choose(2) == 1);
		run(&[b"-d", b"-t", to], peer, move |status| {
			check(status == 0, "scp: a proper transfer succeeds");
			st(|s| {
				check(s.wire.output.len() == 1 + 2 * n && s.wire.output.iter().all(|b| *b == 0), "scp: ready once, then after each header and file");
				check(s.files.len() == n + 1 && s.files.get(&other[..]).map_or(false, |f| eq(f, b"other")), "scp: the files sent and no others");
				for (f, c) in &files {
					match s.files.get(&[at, b"/", &f[..]].concat()) {
						None => check(false, "scp: a file arrives under its name in the directory"),
						Some(x) => check(eq(x, c), "scp: the content arrives unchanged"),
					}
				}
			});
			check(mstd::is_dir(at), "scp: the directory is created");
			cover("received");
		})
	}
	/// Without -d the files go to the paths given.
	fn h_scp_receive_files() {
		let paths: [&[u8]; 3] = [b"x", b"a/b/y", b"/abs/z"];
		let n = 1 + choose(2);
		let first = choose(2);
		let mut files = Vec::new();
		let mut parts = Vec::new();
		// as many files as paths, one less or one more
		let sent = n + choose(3) - 1;
		for i in 0..sent {
			let c = content(if i == 0 { SIZES[choose(7)] } else { 4 });
			parts.push(header(&[b'0', b'7', b'5', b'5'], c.len(), &name(2)));
			parts.push([&c[..], b"\0"].concat());
			if i < n { files.push((paths[first + i].to_vec(), c)) }
		}
		if files.iter().all(|f| f.1.len() < 100) { chunked() }
		// older, longer files there already, with their directories; another file beside them
		if choose(2) == 1 { st(|s| { s.dirs.extend([b"/home/a".to_vec(), b"/home/a/b".to_vec(), b"/abs".to_vec()]); for f in &files { s.files.insert(full(&f.0), vec![b'o'; f.1.len() + 5]); } }) }
		st(|s| s.files.insert(b"/home/other".to_vec(), b"other".to_vec()));
		let (peer, _) = sender(parts, choose(2) == 1);
		let mut args: Vec<&[u8]> = vec![b"-t"];
		args.extend_from_slice(&paths[first..first + n]);
		run(&args, peer, move |status| {
			check((status == 0) == (sent == n), "scp: a transfer succeeds exactly if it is complete");
			let n = n.min(sent);
			st(|s| {
				check(s.wire.output.len() == 1 + 2 * n && s.wire.output.iter().all(|b| *b == 0), "scp: ready once, then after each header and file");
				check(s.files.len() == n + 1 && s.files.get(&b"/home/other"[..]).map_or(false, |f| eq(f, b"other")), "scp: as many files as were sent");
				for (f, c) in &files {
					let p = full(f);
					match s.files.get(&p) { None => check(false, "scp: a file goes to the path given"), Some(x) => check(eq(x, c), "scp: the content arrives unchanged") }
				}
			});
			cover("received");
		})
	}
	/// Whatever name a sender chooses, nothing outside the directory is touched.
	fn h_scp_names() {
		let k = choose(3);
		let mut f = match k { 0 => sym_vec(choose(tier(3, 4))), 1 => sym_vec(choose(tier(4, 5))), _ => sym_vec(choose(tier(3, 4))) };
		for b in &f { assume(*b != b'\n' && (k == 0 || *b < 128)) }
		if k == 2 { match choose(3) { 0 => f = [b"../", &f[..]].concat(), 1 => f = [&f[..], b"/x"].concat(), _ => f = [b"a/../", &f[..]].concat() } }
		let bad = f.is_empty() || eq(&f, b".") || eq(&f, b"..") || f.iter().any(|b| *b == b'/');
		let (peer, _) = sender(vec![header(b"0644", 1, &f), b"x\0".to_vec()], true);
		run(&[b"-d", b"-t", b"dir"], peer, move |status| st(|s| {
			for c in &s.created {
				check(!c.is_empty() && !c.iter().any(|b| *b == b'/') && !eq(c, b".") && !eq(c, b".."), "scp: no file outside the directory");
				check(eq(c, &f), "scp: no other name than the sender's");
			}
			if bad { check(status != 0 && s.created.is_empty(), "scp: such a name is refused"); cover("refused") }
			if status == 0 { check(s.files.len() == 1, "scp: success means the file is there"); cover("accepted") }
		}))
	}
	/// Arbitrary bytes from the sender.
	fn h_scp_arbitrary() {
		let mut d = match choose(3) {
			0 => { let n = choose(tier(6, 8)); sym_vec(n) }
			1 => { let mut v = b"C0644 2 ab\nxy\0".to_vec(); let i = choose(v.len()); v[i] = sym_u8(); v }
			_ => { let n = choose(4); [b"C0644 ", &sym_vec(n)[..], b" f\nxyz\0"].concat() }
		};
		if choose(2) == 1 { d.extend_from_slice(b"C0644 1 z\nq\0") }
		let dir = choose(2) == 1;
		let mut fed = false;
		let len = d.len();
		run(if dir { &[b"-d", b"-t", b"dir"] } else { &[b"-t", b"only"] }, move |w| { if !fed { w.say(&d); fed = true } w.hang_up() }, move |status| st(|s| {
			for c in &s.created {
				check(if dir { !c.iter().any(|b| *b == b'/') && !eq(c, b"..") && !eq(c, b".") && !c.is_empty() } else { eq(c, b"only") }, "scp: no other files are touched");
			}
			if status == 0 {
				check(s.wire.output.len() == 1 + 2 * s.created.len(), "scp: success means every file was acknowledged");
				let got: usize = s.files.values().map(|f| f.len()).sum();
				check(got <= len, "scp: no more content than was sent");
				cover("accepted");
			} else { cover("refused") }
		}))
	}
	/// The sender goes away at any point, or the disk is full: failure is reported and the file not acknowledged.
	fn h_scp_cut() {
		let c = content(5);
		let all = [&header(b"0644", 5, b"ab")[..], &c, b"\0", &header(b"0644", 2, b"d"), b"xy\0"].concat();
		let h = header(b"0644", 5, b"ab").len();
		let one = h + 6;
		let two = all.len();
		let how = choose(3);
		let full = how == 1;
		let cut = if how > 0 { two } else { choose(two + 1) };
		// the sender ends a file with something else than zero: it failed
		let broken = if how == 2 { 1 + choose(2) } else { 0 };
		let mut all = all;
		if broken > 0 {
			let b = sym_u8();
			assume(b != 0);
			all[if broken == 1 { one - 1 } else { two - 1 }] = b
		}
		if full { st(|s| s.room = Some(choose(7))) }
		let room = st(|s| s.room.unwrap_or(100));
		chunked();
		let d = all[..cut].to_vec();
		let mut fed = false;
		run(&[b"-d", b"-t", b"dir"], move |w| { if !fed { w.say(&d); fed = true } w.hang_up() }, move |status| st(|s| {
			let whole = if broken > 0 { broken - 1 } else if full { if room >= 5 { 1 } else { 0 } } else { (cut >= one) as usize + (cut >= two) as usize };
			let proper = how == 0 && (cut == 0 || cut == one || cut == two);
			check((status == 0) == proper, "scp: an incomplete transfer fails");
			let headers = if how > 0 { whole + 1 } else { (cut >= h) as usize + (cut >= two - 3) as usize };
			check(s.wire.output.len() == 1 + headers + whole, "scp: only complete files are acknowledged");
			if whole >= 1 { check(s.files.get(&b"/home/dir/ab"[..]).map_or(false, |f| eq(f, &c)), "scp: acknowledged files are complete") }
			if proper { cover("proper") } else { cover("failed") }
		}))
	}
	/// Sending: header with the actual size, content, each after the receiver is ready.
	fn h_scp_send() {
		let n = 1 + choose(2);
		let names: [&[u8]; 2] = [b"dir/some file", b"/y"];
		let (mut want, mut paths) = (Vec::new(), Vec::new());
		for i in 0..n {
			let k = if i == 0 { choose(9) } else { 3 };
			let small = i == 0 && k == 3;
			let c = content(SIZES[k]);
			let p = if i == 0 && small { [&b"dir/"[..], &name(1 + choose(3))].concat() } else { names[i].to_vec() };
			let base = p[p.iter().rposition(|b| *b == b'/').unwrap() + 1..].to_vec();
			want.push(header(b"0644", c.len(), &base));
			want.push([&c[..], b"\0"].concat());
			paths.push(p.clone());
			st(|s| s.files.insert(if p[0] == b'/' { p } else { [b"/home/", &p[..]].concat() }, c.clone()));
		}
		if want.iter().all(|f| f.len() < 100) { chunked() }
		// the receiver refuses at some point, or never
		let stop = choose(2 * n + 2);
		let answer = sym_u8();
		assume(answer != 0);
		let mut step = 0;
		let (w1, w2) = (want.clone(), want.clone());
		let mut args: Vec<&[u8]> = vec![b"-f"];
		args.extend(paths.iter().map(|p| &p[..]));
		run(&args, move |w| {
			let h = w.heard();
			if step == 0 { check(h.is_empty(), "scp: the sender waits for the receiver") } else { check(step <= w1.len() && eq(&h, &w1[step - 1]), "scp: header and content, one after the other") }
			w.say(&[if step == stop { answer } else { 0 }]);
			step += 1;
		}, move |status| st(|s| {
			let k = stop.min(2 * n);
			check(eq(&s.wire.output, &w2[..k].concat()), "scp: exactly the files are sent, nothing after a refusal");
			check((status == 0) == (stop > 2 * n), "scp: the outcome is reported");
			if status == 0 { cover("sent") } else { cover("refused") }
		}))
	}
	/// Many files, and large ones.
	fn h_scp_many() {
		let (n, size) = if choose(2) == 0 { (tier(12, 40), [0, 1, 9, 10, 100, 1000][choose(6)]) } else { (3, [65535, 65537, 98304, 100_000, 131_072, 300_001][choose(6)]) };
		let send = choose(2) == 1;
		// the other side gives up at one of the files, or the disk is full there
		let bad = if choose(2) == 1 { choose(n) } else { n };
		let (mut files, mut parts, mut total) = (Vec::new(), Vec::new(), 0);
		for i in 0..n {
			let f = [b"f", i.to_string().as_bytes()].concat();
			let c = if i == n - 1 { content(size + i % 2) } else { (0..size + i % 2).map(|k| (k * 7 + i) as u8).collect() };
			if i < bad { total += c.len() }
			parts.push(header(b"0644", c.len(), &f));
			parts.push([&c[..], b"\0"].concat());
			files.push((f, c));
		}
		let k = files.clone();
		if send {
			let paths: Vec<Vec<u8>> = files.iter().map(|f| [b"/src/", &f.0[..]].concat()).collect();
			for (p, f) in paths.iter().zip(&files) { st(|s| s.files.insert(p.clone(), f.1.clone())); }
			let mut args: Vec<&[u8]> = vec![b"-f"];
			args.extend(paths.iter().map(|p| &p[..]));
			let (mut step, w1) = (0, parts.clone());
			return run(&args, move |w| {
				let h = w.heard();
				if step == 0 { check(h.is_empty(), "scp: the sender waits for the receiver") } else { check(step <= w1.len() && eq(&h, &w1[step - 1]), "scp: header and content, one after the other") }
				w.say(&[(step == 2 * bad + 1) as u8]);
				step += 1;
			}, move |status| st(|s| {
				check(eq(&s.wire.output, &parts[..(2 * bad + 1).min(2 * n)].concat()), "scp: exactly the files are sent, nothing after a refusal");
				check((status == 0) == (bad == n), "scp: the outcome is reported");
				check(s.files.len() == n, "scp: the files stay");
				for f in &k { check(s.files.get(&[b"/src/", &f.0[..]].concat()).map_or(false, |x| eq(x, &f.1)), "scp: as they were") }
				if status == 0 { cover("sent") } else { cover("refused") }
			}));
		}
		let full = bad < n && files[bad].1.len() > 0;
		if full { st(|s| s.room = Some(total)) }
		let bad = if full { bad } else { n };
		let (peer, _) = sender(parts, choose(2) == 1);
		run(&[b"-d", b"-t", b"dir"], peer, move |status| st(|s| {
			check((status == 0) == (bad == n), "scp: the outcome is reported");
			check(s.wire.output.len() == 1 + 2 * bad + (bad < n) as usize, "scp: ready once, then after each header and file");
			check(s.files.len() <= n, "scp: the files sent and no others");
			for f in &k[..bad] { check(s.files.get(&[b"/home/dir/", &f.0[..]].concat()).map_or(false, |x| eq(x, &f.1)), "scp: the content arrives unchanged") }
			if status == 0 { cover("received") } else { cover("failed") }
		}))
	}
	/// Sizes that no machine word is to be cut down to, and long names.
	fn h_scp_huge() {
		let text: &[u8] = [&b"65536"[..], b"2147483648", b"4294967296", b"4294967299", b"8589934592", b"9223372036854775808", b"18446744073709551615", b"18446744073709551616", b"18446744073709551619", b"1180591620717411303424"][choose(10)];
		if choose(2) == 0 {
			// so much never comes
			let d = [b"C0644 ", text, b" f", text, b"\n", &sym::<3>(), b"\0"].concat();
			let mut fed = false;
			return run(&[b"-d", b"-t", b"dir"], move |w| { if !fed { w.say(&d); fed = true } w.hang_up() }, move |status| st(|s| {
				check(status != 0, "scp: an incomplete transfer fails");
				check(s.wire.output.len() <= 2, "scp: only complete files are acknowledged");
				cover("failed");
			}));
		}
		// a file that large, or one that is not as large as it seems
		let size = core::str::from_utf8(text).unwrap().parse().unwrap_or(u64::MAX);
		let c = content(5);
		st(|s| { s.files.insert(b"/home/big".to_vec(), c.clone()); s.claims = Some(size) });
		let refuse = choose(2) == 1;
		let want = header(b"0644", size as usize, b"big");
		let mut step = 0;
		run(&[b"-f", b"big"], move |w| {
			w.say(&[(step == 1 && refuse) as u8]);
			step += 1;
		}, move |status| st(|s| {
			check(status != 0, "scp: a file that became shorter is a failure");
			let full = [&want[..], &c].concat();
			check(eq(&s.wire.output, if refuse { &want } else { &full }), "scp: the header has the whole size, and a file that became shorter is not ended");
			cover("sent");
		}))
	}
	/// Names of any bytes, at any place among the files.
	fn h_scp_send_names() {
		let at = choose(2);
		let mut odd = sym_vec(1 + choose(3));
		for b in &odd { assume(*b != b'/' && *b != 0) }
		assume(!eq(&odd, b".") && !eq(&odd, b"..") && !eq(&odd, b"y"));
		if choose(2) == 1 { odd = [&b"ab "[..], &odd].concat() }
		let line = odd.iter().any(|b| *b == b'\n');
		let text = core::str::from_utf8(&odd).is_ok();
		let names = if at == 0 { [odd.clone(), b"y".to_vec()] } else { [b"y".to_vec(), odd.clone()] };
		let (mut want, mut paths) = (Vec::new(), Vec::new());
		for n in &names {
			let c = content(3);
			want.push([header(b"0644", 3, n), c.clone(), vec![0]].concat());
			let p = [&b"/dir/"[..], n].concat();
			st(|s| s.files.insert(p.clone(), c));
			paths.push(p);
		}
		let mut args: Vec<&[u8]> = vec![b"-f"];
		args.extend(paths.iter().map(|p| &p[..]));
		run(&args, |w| w.say(&[0]), move |status| st(|s| {
			// a line feed would end the header early
			let sent = !line && (text || status == 0);
			check((status == 0) == sent, "scp: the outcome is reported");
			check(eq(&s.wire.output, &want[..if sent { 2 } else { at }].concat()), "scp: names go out as they are or not at all");
			if sent { cover("sent") } else { cover("refused") }
		}))
	}
	/// Unreadable files and wrong arguments.
	fn h_scp_errors() {
		let args: Vec<&[u8]> = match choose(9) {
			5 => vec![b"-d", b"-t", b"there"],
			6 => vec![b"-t", b"dir"],
			7 => vec![b"-t", b"there/x"],
			0 => vec![b"-f", b"missing"],
			1 => vec![b"-x", b"-t", b"a"],
			2 => vec![b"-d", b"-t"],
			3 => vec![b"-d", b"-t", b"a", b"b"],
			4 => vec![b"-t", b"-q"],
			_ => vec![b"-f", b"there", b"missing"],
		};
		st(|s| { s.files.insert(b"/home/there".to_vec(), b"t".to_vec()); s.dirs.push(b"/home/dir".to_vec()) });
		let send = args[0] == b"-f";
		let mut said = 0;
		run(&args, move |w| { said += 1; if send { w.say(b"\0") } else if said == 1 { w.say(b"C0644 1 x\nx\0") } else { w.hang_up() } }, |status| {
			st(|s| check(s.files.len() == 1 && s.files.get(&b"/home/there"[..]).map_or(false, |f| eq(f, b"t")), "scp: errors change no files"));
			check(status != 0, "scp: errors are reported");
			cover("reported");
		})
	}
}
