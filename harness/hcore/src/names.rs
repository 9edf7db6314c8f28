use crate::model::*;
use nora_ssh_core::data::*;
use nora_ssh_core::identifier::Identifier;
use nsx::*;

fn names_of(b: &[u8]) -> Vec<Vec<u8>> {
	let mut v = Vec::new();
	if b.is_empty() {
		return v;
	}
	let mut cur = Vec::new();
	for x in b {
		if *x == b',' {
			v.push(core::mem::take(&mut cur));
		} else {
			cur.push(*x);
		}
	}
	v.push(cur);
	v
}
fn name_list(b: &[u8]) {
	let want = name_list_ok(b);
	match NameList::try_from(b) {
		Err(e) => {
			check(!want, "names: a valid list is accepted");
			check((e == InvalidNameList::NotAscii) == !ascii(b), "names: the reason is right");
			cover("rejected");
			obs(0);
		}
		Ok(l) => {
			check(want, "names: an invalid list is refused");
			let raw: &[u8] = l.into();
			check(eq(raw, b), "names: content preserved");
			let mut it = l.iter();
			for n in names_of(b) {
				match it.next() {
					None => check(false, "names: every name is listed"),
					Some(g) => {
						check(eq(g.as_bytes(), &n), "names: names in order and unchanged");
						check(!g.is_empty(), "names: no empty name");
					}
				}
			}
			check(it.next().is_none(), "names: nothing beyond the last name");
			check(it.next().is_none(), "names: the end is final");
			cover("accepted");
			obs_bytes(raw);
		}
	}
}

harnesses! {
	fn h_names() {
		let n = choose(tier(9, 11));
		let b = sym_vec(n);
		name_list(&b);
	}
	/// Long lists: two adjacent arbitrary bytes anywhere in a list of 9-80 bytes.
	fn h_names_long() {
		let n = [9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 80, 130, 258, 600][choose(14)];
		let mut b = vec![b'n'; n];
		// long names first, last, or both
		let at = if n < 100 { n / 2 } else { [n / 2, 1, n - 2, 128][choose(4)] };
		b[at] = b',';
		let i = if n < 100 { choose(n - 1) } else { [0, 63, 64, at - 1, at, n - 2][choose(6)] };
		fill(&mut b[i..i + 2]);
		name_list(&b);
	}
	fn h_ascii() {
		let n = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65][choose(15)];
		let mut b = vec![b'a'; n];
		if n > 0 {
			let i = choose(n);
			let j = choose(n);
			b[i] = sym_u8();
			b[j] = sym_u8();
		}
		match AsciiStr::try_from(&b[..]) {
			Err(_) => { check(!ascii(&b), "ascii: text is accepted"); cover("rejected"); }
			Ok(s) => {
				check(ascii(&b), "ascii: other bytes are refused");
				let r: &[u8] = s.into();
				check(eq(r, &b), "ascii: content preserved");
				let r: &str = s.into();
				check(eq(r.as_bytes(), &b), "ascii: content preserved");
				cover("accepted");
			}
		}
		obs(n as u64);
	}
	/// A length-prefixed string is split off exactly, for every length field.
	fn h_string() {
		let n = choose(tier(20, 40));
		let d = sym_vec(n);
		let want = if n < 4 { None } else {
			let l = (d[0] as u64) << 24 | (d[1] as u64) << 16 | (d[2] as u64) << 8 | d[3] as u64;
			(l <= n as u64 - 4).then(|| concretize(l) as usize)
		};
		match (parse_string(&d), want) {
			(None, None) => cover("rejected"),
			(Some((s, r)), Some(l)) => {
				check(eq(s, &d[4..4 + l]) & eq(r, &d[4 + l..]), "string: content and rest");
				cover("accepted");
			}
			_ => check(false, "string: accepted iff complete"),
		}
	}
	/// Version strings longer than the protocol allows are refused.
	fn h_ident_len() {
		let n = sym_u32() as usize;
		assume(n <= 600);
		let buf = vec![b'v'; 600];
		match Identifier::new(&buf[..n]) {
			None => { check(n > 253, "identifier: up to 253 bytes are accepted"); cover("rejected") }
			Some(i) => {
				check(n <= 253, "identifier: more than 253 bytes are refused");
				check(i.as_ref().len() == n, "identifier: content preserved");
				cover("accepted");
			}
		}
		obs(n as u64);
	}
}
