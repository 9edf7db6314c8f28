#include "expr.h"
std::unordered_map<EKey, E, EHash> g_exprs;
Stats g_stats;
Solver g_solver;
static u32 g_nextId = 1;

static E intern(EK k, u32 w, u32 p, u128 c, E a, E b, E d) {
	EKey key{k, w, p, c, a, b, d};
	auto it = g_exprs.find(key);
	if (it != g_exprs.end()) return it->second;
	Expr *e = new Expr();
	e->k = k; e->w = w; e->p = p; e->c = c; e->a = a; e->b = b; e->d = d;
	e->id = g_nextId++;
	e->hasVar = k == EK::Var || (a && a->hasVar) || (b && b->hasVar) || (d && d->hasVar);
	g_exprs.emplace(key, e);
	return e;
}
E mkConst(u32 w, u128 c) {
	if (w > 128) {
		// wide constant: zero-extended
		return mkConcat(mkConst(w - 128 > 128 ? 128 : w - 128, 0), w - 128 > 128 ? mkConst(w - 128, c) : mkConst(128, c));
	}
	return intern(EK::Const, w, 0, c & maskw(w), nullptr, nullptr, nullptr);
}
E mkVar(u32 idx) { return intern(EK::Var, 8, idx, 0, nullptr, nullptr, nullptr); }

E mkConcat(E hi, E lo) {
	u32 w = hi->w + lo->w;
	if (isC(hi) && isC(lo) && w <= 128) return mkConst(w, (hi->c << lo->w) | lo->c);
	if (hi->k == EK::Extract && lo->k == EK::Extract && hi->a == lo->a && hi->p == lo->p + lo->w) return mkExtract(hi->a, lo->p, w);
	if (hi->k == EK::Ite && lo->k == EK::Ite && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
	// right-associate: concat(concat(a,b),c) -> concat(a, concat(b,c))
	if (hi->k == EK::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
	// merge hi with top of lo
	if (lo->k == EK::Concat) {
		E t = lo->a;
		if (isC(hi) && isC(t) && hi->w + t->w <= 128) return mkConcat(mkConst(hi->w + t->w, (hi->c << t->w) | t->c), lo->b);
		if (hi->k == EK::Extract && t->k == EK::Extract && hi->a == t->a && hi->p == t->p + t->w) return mkConcat(mkExtract(hi->a, t->p, hi->w + t->w), lo->b);
	}
	return intern(EK::Concat, w, 0, 0, hi, lo, nullptr);
}
E mkExtract(E x, u32 lo, u32 w) {
	if (lo == 0 && w == x->w) return x;
	switch (x->k) {
	case EK::Const: return mkConst(w, x->c >> lo);
	case EK::Extract: return mkExtract(x->a, x->p + lo, w);
	case EK::Concat: {
		u32 lw = x->b->w;
		if (lo + w <= lw) return mkExtract(x->b, lo, w);
		if (lo >= lw) return mkExtract(x->a, lo - lw, w);
		return mkConcat(mkExtract(x->a, 0, lo + w - lw), mkExtract(x->b, lo, lw - lo));
	}
	case EK::SExt:
		if (lo + w <= x->a->w) return mkExtract(x->a, lo, w);
		break;
	case EK::Not: return mkNot(mkExtract(x->a, lo, w));
	case EK::And: case EK::Or: case EK::Xor: return mkBin(x->k, mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
	case EK::Add: case EK::Sub: case EK::Mul:
		if (lo == 0) return mkBin(x->k, mkExtract(x->a, 0, w), mkExtract(x->b, 0, w));
		break;
	case EK::Ite:
		if (isC(x->b) || isC(x->d)) return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->d, lo, w));
		break;
	default: break;
	}
	return intern(EK::Extract, w, lo, 0, x, nullptr, nullptr);
}
E mkZExt(E x, u32 w) {
	if (w == x->w) return x;
	u32 d = w - x->w;
	if (d > 128) return mkConcat(mkConst(d - 128 > 128 ? 128 : d - 128, 0), mkZExt(x, w - (d - 128 > 128 ? 128 : d - 128)));
	return mkConcat(mkConst(d, 0), x);
}
E mkSExt(E x, u32 w) {
	if (w == x->w) return x;
	if (isC(x)) {
		u128 c = x->c;
		if ((c >> (x->w - 1)) & 1) c |= ~maskw(x->w);
		if (w <= 128) return mkConst(w, c);
	}
	if (x->k == EK::Concat && isC(x->a) && ((x->a->c >> (x->a->w - 1)) & 1) == 0) return mkZExt(x, w);
	return intern(EK::SExt, w, 0, 0, x, nullptr, nullptr);
}
E mkNot(E a) {
	if (isC(a)) return mkConst(a->w, ~a->c);
	if (a->k == EK::Not) return a->a;
	if (a->w == 1) {
		if (a->k == EK::Ult) return mkBin(EK::Ule, a->b, a->a);
		if (a->k == EK::Ule) return mkBin(EK::Ult, a->b, a->a);
		if (a->k == EK::Slt) return mkBin(EK::Sle, a->b, a->a);
		if (a->k == EK::Sle) return mkBin(EK::Slt, a->b, a->a);
	}
	return intern(EK::Not, a->w, 0, 0, a, nullptr, nullptr);
}
E mkIte(E c, E a, E b) {
	if (isC(c)) return c->c ? a : b;
	if (a == b) return a;
	if (c->k == EK::Not) return mkIte(c->a, b, a);
	if (a->w == 1 && isC(a) && isC(b)) return a->c ? c : mkNot(c);
	if (a->w == 1) {
		if (isC(a)) return a->c ? mkBin(EK::Or, c, b) : mkBin(EK::And, mkNot(c), b);
		if (isC(b)) return b->c ? mkBin(EK::Or, mkNot(c), a) : mkBin(EK::And, c, a);
	}
	if (a->k == EK::Ite && a->a == c) a = a->b;
	if (b->k == EK::Ite && b->a == c) b = b->d;
	return intern(EK::Ite, a->w, 0, 0, c, a, b);
}
static i128 sx(u128 c, u32 w) {
	if (w < 128 && ((c >> (w - 1)) & 1)) c |= ~maskw(w);
	return (i128)c;
}
u128 foldBin(EK k, u128 a, u128 b, u32 w) {
	switch (k) {
	case EK::And: return a & b;
	case EK::Or: return a | b;
	case EK::Xor: return a ^ b;
	case EK::Add: return a + b;
	case EK::Sub: return a - b;
	case EK::Mul: return a * b;
	case EK::UDiv: return b ? a / b : maskw(w);
	case EK::URem: return b ? a % b : a;
	case EK::SDiv: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : maskw(w); if (y == -1) return -(u128)x; return (u128)(x / y); }
	case EK::SRem: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y); }
	case EK::Shl: return b >= w ? 0 : a << (u32)b;
	case EK::LShr: return b >= w ? 0 : a >> (u32)b;
	case EK::AShr: { i128 x = sx(a, w); return b >= w ? (x < 0 ? ~(u128)0 : 0) : (u128)(x >> (u32)b); }
	case EK::Eq: return a == b;
	case EK::Ult: return a < b;
	case EK::Ule: return a <= b;
	case EK::Slt: return sx(a, w) < sx(b, w);
	case EK::Sle: return sx(a, w) <= sx(b, w);
	default: fatal("foldBin");
	}
}
static bool isCmp(EK k) { return k >= EK::Eq && k <= EK::Sle; }
static bool isZero(E e) { return isC(e) && e->c == 0; }
static bool isOnes(E e) { return isC(e) && e->c == maskw(e->w); }
static u32 clow(E e) { return e->k == EK::Concat ? e->b->w : e->w; }

E mkBin(EK k, E a, E b) {
	if (a->w != b->w) fatal("mkBin width mismatch " + std::to_string(a->w) + "/" + std::to_string(b->w) + " op " + std::to_string((int)k));
	u32 w = a->w;
	u32 rw = isCmp(k) ? 1 : w;
	if (isC(a) && isC(b)) return mkConst(rw, foldBin(k, a->c, b->c, w));
	bool comm = k == EK::And || k == EK::Or || k == EK::Xor || k == EK::Add || k == EK::Mul || k == EK::Eq;
	if (comm && isC(a)) std::swap(a, b);
	else if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
	switch (k) {
	case EK::And:
		if (isZero(b)) return b;
		if (isOnes(b)) return a;
		if (a == b) return a;
		if (w == 1 && (a == mkNot(b))) return mkConst(1, 0);
		break;
	case EK::Or:
		if (isZero(b)) return a;
		if (isOnes(b)) return b;
		if (a == b) return a;
		if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
		break;
	case EK::Xor:
		if (isZero(b)) return a;
		if (a == b) return w <= 128 ? mkConst(w, 0) : mkBin(EK::And, a, mkNot(a));
		if (isOnes(b)) return mkNot(a);
		// (x ^ c1) ^ c2, (x ^ y) ^ y
		if (a->k == EK::Xor && isC(a->b) && isC(b)) return mkBin(EK::Xor, a->a, mkConst(w, a->b->c ^ b->c));
		if (a->k == EK::Xor && a->a == b) return a->b;
		if (a->k == EK::Xor && a->b == b) return a->a;
		if (b->k == EK::Xor && b->a == a) return b->b;
		if (b->k == EK::Xor && b->b == a) return b->a;
		break;
	case EK::Add:
		if (isZero(b)) return a;
		if (isC(b) && a->k == EK::Add && isC(a->b)) return mkBin(EK::Add, a->a, mkConst(w, a->b->c + b->c));
		if (!isC(b) && a->k == EK::Add && isC(a->b)) return mkBin(EK::Add, mkBin(EK::Add, a->a, b), a->b);
		if (!isC(b) && b->k == EK::Add && isC(b->b)) return mkBin(EK::Add, mkBin(EK::Add, a, b->a), b->b);
		if (a->k == EK::Sub && a->b == b) return a->a;
		if (b->k == EK::Sub && b->b == a) return b->a;
		break;
	case EK::Sub:
		if (isZero(b)) return a;
		if (a == b && w <= 128) return mkConst(w, 0);
		if (isC(b)) return mkBin(EK::Add, a, mkConst(w, -b->c));
		// (x+y)-x
		{
			E aa = a, ca = nullptr, bb = b, cb = nullptr;
			if (a->k == EK::Add && isC(a->b)) aa = a->a, ca = a->b;
			if (b->k == EK::Add && isC(b->b)) bb = b->a, cb = b->b;
			if (aa == bb && w <= 128) return mkConst(w, (ca ? ca->c : 0) - (cb ? cb->c : 0));
			E r = nullptr;
			if (aa->k == EK::Add && aa->a == bb) r = aa->b;
			else if (aa->k == EK::Add && aa->b == bb) r = aa->a;
			if (r && w <= 128) return mkBin(EK::Add, r, mkConst(w, (ca ? ca->c : 0) - (cb ? cb->c : 0)));
			if (cb && w <= 128) return mkBin(EK::Add, mkBin(EK::Sub, a, bb), mkConst(w, -cb->c));
		}
		break;
	case EK::Mul:
		if (isZero(b)) return b;
		if (isC(b) && b->c == 1) return a;
		if (isC(b) && (b->c & (b->c - 1)) == 0) { u32 s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(EK::Shl, a, mkConst(w, s)); }
		break;
	case EK::UDiv:
		if (isC(b) && b->c == 1) return a;
		if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { u32 s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(EK::LShr, a, mkConst(w, s)); }
		break;
	case EK::URem:
		if (isC(b) && b->c == 1) return mkConst(w, 0);
		if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(EK::And, a, mkConst(w, b->c - 1));
		break;
	case EK::Shl:
		if (isC(b)) {
			if (b->c >= w) return mkConst(w, 0);
			u32 s = (u32)b->c;
			if (!s) return a;
			if (s <= 128) return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
		}
		if (isZero(a)) return a;
		break;
	case EK::LShr:
		if (isC(b)) {
			if (b->c >= w) return mkConst(w, 0);
			u32 s = (u32)b->c;
			if (!s) return a;
			if (s <= 128) return mkConcat(mkConst(s, 0), mkExtract(a, s, w - s));
		}
		if (isZero(a)) return a;
		break;
	case EK::AShr:
		if (isZero(b)) return a;
		if (isC(b)) {
			u32 s = b->c >= w ? w - 1 : (u32)b->c;
			return mkSExt(mkExtract(a, s, w - s), w);
		}
		break;
	case EK::Eq:
		if (a == b) return mkConst(1, 1);
		if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
		if (a->k == EK::Ite && isC(b)) {
			if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkBin(EK::Eq, a->b, b), mkBin(EK::Eq, a->d, b));
		}
		if (isC(b) && a->k == EK::Concat) {
			u32 lw = a->b->w;
			E h = mkBin(EK::Eq, a->a, mkExtract(b, lw, w - lw));
			if (isC(h) && !h->c) return h;
			return mkBin(EK::And, h, mkBin(EK::Eq, a->b, mkExtract(b, 0, lw)));
		}
		if (a->k == EK::Concat && b->k == EK::Concat) {
			u32 lw = std::min(clow(a), clow(b));
			E h = mkBin(EK::Eq, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw));
			if (isC(h) && !h->c) return h;
			E l = mkBin(EK::Eq, mkExtract(a, 0, lw), mkExtract(b, 0, lw));
			return mkBin(EK::And, h, l);
		}
		if (isC(b) && a->k == EK::Add && isC(a->b)) return mkBin(EK::Eq, a->a, mkConst(w, b->c - a->b->c));
		if (isC(b) && a->k == EK::Xor && isC(a->b)) return mkBin(EK::Eq, a->a, mkConst(w, b->c ^ a->b->c));
		if (isC(b) && a->k == EK::Not) return mkBin(EK::Eq, a->a, mkNot(b));
		if (isC(b) && a->k == EK::SExt) {
			E lo = mkExtract(b, 0, a->a->w);
			if (mkSExt(lo, w) != b) return mkConst(1, 0);
			return mkBin(EK::Eq, a->a, lo);
		}
		break;
	case EK::Ult:
		if (a == b || isZero(b)) return mkConst(1, 0);
		if (isC(b) && b->c == 1) return mkBin(EK::Eq, a, mkConst(w, 0));
		if (isZero(a)) return mkNot(mkBin(EK::Eq, b, a));
		if (isOnes(a)) return mkConst(1, 0);
		break;
	case EK::Ule:
		if (a == b || isZero(a) || isOnes(b)) return mkConst(1, 1);
		if (isZero(b)) return mkBin(EK::Eq, a, b);
		break;
	case EK::Slt:
		if (a == b) return mkConst(1, 0);
		break;
	case EK::Sle:
		if (a == b) return mkConst(1, 1);
		break;
	default: break;
	}
	// unsigned compares of zero-extended values
	if ((k == EK::Ult || k == EK::Ule) && w <= 128) {
		auto zb = [](E e) -> u32 { // number of known-zero top bits
			if (e->k == EK::Concat && isC(e->a) && e->a->c == 0) return e->a->w;
			if (isC(e)) { u32 n = 0; while (n < e->w && !((e->c >> (e->w - 1 - n)) & 1)) n++; return n; }
			return 0;
		};
		u32 za = zb(a), zc = zb(b);
		u32 m = std::min(za, zc);
		if (m >= w) m = w - 1;
		if (m > 0) return mkBin(k, mkExtract(a, 0, w - m), mkExtract(b, 0, w - m));
		if (isC(b) && za > zc) return mkConst(1, 1); // a < 2^(w-za) <= b
		if (isC(a) && zc > za) return mkConst(1, 0);
	}
	if ((k == EK::Slt || k == EK::Sle) && w <= 128) {
		auto nonneg = [](E e) { return (isC(e) && !((e->c >> (e->w - 1)) & 1)) || (e->k == EK::Concat && isC(e->a) && !((e->a->c >> (e->a->w - 1)) & 1)); };
		if (nonneg(a) && nonneg(b)) return mkBin(k == EK::Slt ? EK::Ult : EK::Ule, a, b);
	}
	// bitwise ops over segmented operands
	if ((k == EK::And || k == EK::Or || k == EK::Xor) && w > 1) {
		bool sa = a->k == EK::Concat, sb = b->k == EK::Concat;
		if (sa && (sb || isC(b))) {
			u32 lw = std::min(clow(a), sb ? clow(b) : w);
			if (lw < w) return mkConcat(mkBin(k, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw)), mkBin(k, mkExtract(a, 0, lw), mkExtract(b, 0, lw)));
		}
		if (k == EK::And && isC(b)) {
			// contiguous low mask
			u128 c = b->c;
			if ((c & (c + 1)) == 0) { u32 n = 0; while (n < w && ((c >> n) & 1)) n++; return mkZExt(mkExtract(a, 0, n), w); }
			// mask with trailing zero bits / leading zero bits
			u32 tz = 0; while (!((c >> tz) & 1)) tz++;
			u32 lz = 0; while (!((c >> (w - 1 - lz)) & 1)) lz++;
			if (tz || lz) {
				E mid = mkBin(EK::And, mkExtract(a, tz, w - tz - lz), mkConst(w - tz - lz, c >> tz));
				if (tz) mid = mkConcat(mid, mkConst(tz, 0));
				if (lz) mid = mkConcat(mkConst(lz, 0), mid);
				return mid;
			}
		}
	}
	// add of disjoint concat low part: x + zext where x has zero low bits
	if (k == EK::Add && a->k == EK::Concat && b->k == EK::Concat && isZero(a->b) && b->w - b->b->w >= 1 && isC(b->a) && b->a->c == 0 && b->b->w <= a->b->w) {
		return mkBin(EK::Or, a, b);
	}
	return intern(k, rw, 0, 0, a, b, nullptr);
}

static u32 g_stamp = 0;
void newEvalStamp() { g_stamp++; }
static u128 evalRec(E e, const std::vector<u8> &m) {
	if (e->k == EK::Const) return e->c;
	if (e->k == EK::Var) return e->p < m.size() ? m[e->p] : 0;
	if (e->stamp == g_stamp) return e->ev;
	u128 r = 0;
	switch (e->k) {
	case EK::Concat:
		if (e->w > 128) fatal("eval wide");
		r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m);
		break;
	case EK::Extract:
		if (e->a->w > 128) fatal("eval wide extract");
		r = (evalRec(e->a, m) >> e->p) & maskw(e->w);
		break;
	case EK::SExt: r = (u128)sx(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
	case EK::Not: r = ~evalRec(e->a, m) & maskw(e->w); break;
	case EK::Ite: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
	case EK::And:
		if (e->w == 1) { r = evalRec(e->a, m) ? evalRec(e->b, m) : 0; break; }
		[[fallthrough]];
	default:
		if (e->a->w > 128) {
			if (e->k == EK::Eq) {
				r = 1;
				for (u32 lo = 0; lo < e->a->w && r; lo += 64) { u32 w = std::min(64u, e->a->w - lo); if (evalRec(mkExtract(e->a, lo, w), m) != evalRec(mkExtract(e->b, lo, w), m)) r = 0; }
				break;
			}
			fatal("eval wide op");
		}
		r = foldBin(e->k, evalRec(e->a, m), evalRec(e->b, m), e->a->w) & maskw(e->w);
	}
	e->stamp = g_stamp;
	e->ev = r;
	return r;
}
u128 evalStamped(E e, const std::vector<u8> &m) { return evalRec(e, m); }
u128 evalE(E e, const std::vector<u8> &m) {
	newEvalStamp();
	return evalRec(e, m);
}

// ------------------------------------------------------------ solver
static void z3err(Z3_context c, Z3_error_code e) { fatal(std::string("z3 error: ") + Z3_get_error_msg(c, e)); }
void Solver::init() {
	Z3_config cfg = Z3_mk_config();
	ctx = Z3_mk_context(cfg); // no per-ast refcounting: asts live as long as the context
	Z3_set_error_handler(ctx, z3err);
	sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
	Z3_solver_inc_ref(ctx, sol);
	Z3_params pr = Z3_mk_params(ctx);
	Z3_params_inc_ref(ctx, pr);
	Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
	Z3_solver_set_params(ctx, sol, pr);
}
Z3_ast Solver::toBV(E e) {
	if (e->zbv) return e->zbv;
	Z3_ast r = nullptr;
	auto bvs = [&](u32 w) { return Z3_mk_bv_sort(ctx, w); };
	switch (e->k) {
	case EK::Const:
		if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->c, bvs(e->w));
		else {
			std::string s; u128 c = e->c; if (!c) s = "0"; while (c) { s.insert(s.begin(), '0' + (int)(c % 10)); c /= 10; }
			r = Z3_mk_numeral(ctx, s.c_str(), bvs(e->w));
		}
		break;
	case EK::Var:
		while (varAst.size() <= e->p) varAst.push_back(nullptr);
		if (!varAst[e->p]) varAst[e->p] = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->p), bvs(8));
		r = varAst[e->p];
		break;
	case EK::Concat: {
		std::vector<E> parts; E t = e;
		while (t->k == EK::Concat) { parts.push_back(t->a); t = t->b; }
		r = toBV(t);
		for (size_t i = parts.size(); i-- > 0;) r = Z3_mk_concat(ctx, toBV(parts[i]), r);
		break;
	}
	case EK::Extract: r = Z3_mk_extract(ctx, e->p + e->w - 1, e->p, toBV(e->a)); break;
	case EK::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
	case EK::Not:
		if (e->w > 1) { r = Z3_mk_bvnot(ctx, toBV(e->a)); break; }
		[[fallthrough]];
	case EK::Eq: case EK::Ult: case EK::Ule: case EK::Slt: case EK::Sle:
		r = Z3_mk_ite(ctx, toBool(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1)));
		break;
	case EK::Ite: {
		// iterative over long else-chains
		std::vector<E> ch; E t = e;
		while (t->k == EK::Ite && !t->zbv) { ch.push_back(t); t = t->d; }
		r = toBV(t);
		for (size_t i = ch.size(); i-- > 0;) { r = Z3_mk_ite(ctx, toBool(ch[i]->a), toBV(ch[i]->b), r); ch[i]->zbv = r; }
		break;
	}
	default: {
		Z3_ast a = toBV(e->a), b = toBV(e->b);
		switch (e->k) {
		case EK::And: r = Z3_mk_bvand(ctx, a, b); break;
		case EK::Or: r = Z3_mk_bvor(ctx, a, b); break;
		case EK::Xor: r = Z3_mk_bvxor(ctx, a, b); break;
		case EK::Add: r = Z3_mk_bvadd(ctx, a, b); break;
		case EK::Sub: r = Z3_mk_bvsub(ctx, a, b); break;
		case EK::Mul: r = Z3_mk_bvmul(ctx, a, b); break;
		case EK::UDiv: r = Z3_mk_bvudiv(ctx, a, b); break;
		case EK::SDiv: r = Z3_mk_bvsdiv(ctx, a, b); break;
		case EK::URem: r = Z3_mk_bvurem(ctx, a, b); break;
		case EK::SRem: r = Z3_mk_bvsrem(ctx, a, b); break;
		case EK::Shl: r = Z3_mk_bvshl(ctx, a, b); break;
		case EK::LShr: r = Z3_mk_bvlshr(ctx, a, b); break;
		case EK::AShr: r = Z3_mk_bvashr(ctx, a, b); break;
		default: fatal("toBV");
		}
	}
	}
	e->zbv = r;
	return r;
}
Z3_ast Solver::toBool(E e) {
	if (e->w != 1) fatal("toBool width");
	if (e->zbool) return e->zbool;
	Z3_ast r = nullptr;
	switch (e->k) {
	case EK::Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
	case EK::Not: r = Z3_mk_not(ctx, toBool(e->a)); break;
	case EK::And: case EK::Or: {
		// flatten long chains to avoid deep recursion
		std::vector<E> st{e}; std::vector<Z3_ast> args;
		while (!st.empty()) {
			E t = st.back(); st.pop_back();
			if (t->k == e->k && (t == e || !t->zbool)) { st.push_back(t->b); st.push_back(t->a); }
			else args.push_back(toBool(t));
		}
		r = e->k == EK::And ? Z3_mk_and(ctx, args.size(), args.data()) : Z3_mk_or(ctx, args.size(), args.data());
		break;
	}
	case EK::Xor: r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b)); break;
	case EK::Ite: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->d)); break;
	case EK::Eq: r = e->a->w == 1 ? Z3_mk_iff(ctx, toBool(e->a), toBool(e->b)) : Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
	case EK::Ult: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
	case EK::Ule: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
	case EK::Slt: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
	case EK::Sle: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
	default: r = Z3_mk_eq(ctx, toBV(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
	}
	e->zbool = r;
	return r;
}
int Solver::check(const std::vector<E> &pc, E extra, std::vector<u8> *model, u32 nvars) {
	auto t0 = std::chrono::steady_clock::now();
	size_t c = 0;
	while (c < stack.size() && c < pc.size() && stack[c] == pc[c]) c++;
	if (c < stack.size()) {
		Z3_solver_pop(ctx, sol, stack.size() - c);
		stack.resize(c);
	}
	for (; c < pc.size(); c++) {
		Z3_solver_push(ctx, sol);
		Z3_solver_assert(ctx, sol, toBool(pc[c]));
		stack.push_back(pc[c]);
	}
	if (extra) {
		Z3_solver_push(ctx, sol);
		Z3_solver_assert(ctx, sol, toBool(extra));
	}
	Z3_lbool r = Z3_solver_check(ctx, sol);
	if (r == Z3_L_TRUE && model) {
		Z3_model m = Z3_solver_get_model(ctx, sol);
		Z3_model_inc_ref(ctx, m);
		// variables the model does not mention keep their previous value
		model->resize(nvars, 0);
		for (u32 i = 0; i < nvars && i < varAst.size(); i++) {
			if (!varAst[i]) continue;
			Z3_ast v = nullptr;
			if (Z3_model_eval(ctx, m, varAst[i], false, &v) && v && Z3_get_ast_kind(ctx, v) == Z3_NUMERAL_AST) {
				u64 x = 0;
				if (Z3_get_numeral_uint64(ctx, v, &x)) (*model)[i] = (u8)x;
			}
		}
		Z3_model_dec_ref(ctx, m);
	}
	if (extra) Z3_solver_pop(ctx, sol, 1);
	g_stats.queries++;
	g_stats.solverS += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	if (r == Z3_L_TRUE) { g_stats.sat++; return 1; }
	if (r == Z3_L_FALSE) { g_stats.unsat++; return 0; }
	g_stats.unknown++;
	return -1;
}
