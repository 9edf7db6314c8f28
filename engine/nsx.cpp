#include <sys/resource.h>
// nsx: symbolic executor for whole-program LLVM IR emitted by rustc, deciding
// assertions with z3 over all values of the symbolic input stream.
#include "expr.h"
#include <algorithm>
#include <atomic>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string g_where; // context for fatal()
static std::string g_outPath;
[[noreturn]] void fatal(const std::string &msg) {
	fprintf(stderr, "nsx fatal: %s%s%s\n", msg.c_str(), g_where.empty() ? "" : " at ", g_where.c_str());
	if (!g_outPath.empty()) {
		std::string p = g_outPath + ".fatal." + std::to_string(getpid());
		if (FILE *f = fopen(p.c_str(), "w")) { fprintf(f, "%s at %s\n", msg.c_str(), g_where.c_str()); fclose(f); }
	}
	_exit(3);
}
std::string unescape(const std::string &s) {
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == '\\') { r += '\\'; i++; }
		else if (s[i] == '\\' && i + 2 < s.size() && isxdigit((u8)s[i + 1]) && isxdigit((u8)s[i + 2])) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
		else r += s[i];
	}
	return r;
}

// ------------------------------------------------------------------ types
static std::map<std::string, Type *> g_named;
static std::map<std::string, Type *> g_tcache;
static void layout(Type *t) {
	if (t->laid) return;
	t->laid = true;
	switch (t->k) {
	case Type::Void: case Type::Label: case Type::Meta: case Type::Opaque: t->sizeB = 0; break;
	case Type::Int: {
		u64 s = (t->bits + 7) / 8, a = 1;
		while (a < s && a < 16) a *= 2;
		t->alignB = a; t->sizeB = (s + a - 1) / a * a; break;
	}
	case Type::Ptr: t->sizeB = t->alignB = 8; break;
	case Type::Float: t->sizeB = t->alignB = t->bits / 8; if (t->bits == 80) t->sizeB = t->alignB = 16; break;
	case Type::Array: layout(t->el[0]); t->sizeB = t->n * t->el[0]->sizeB; t->alignB = t->el[0]->alignB; break;
	case Type::Vector: {
		layout(t->el[0]);
		u64 bits = t->el[0]->k == Type::Ptr ? 64 : t->el[0]->bits;
		u64 s = (t->n * bits + 7) / 8, a = 1;
		while (a < s) a *= 2;
		t->alignB = a; t->sizeB = (s + a - 1) / a * a; break;
	}
	case Type::Struct: {
		u64 o = 0, al = 1;
		for (auto e : t->el) {
			layout(e);
			u64 a = t->packed ? 1 : e->alignB;
			o = (o + a - 1) / a * a; t->offs.push_back(o); o += e->sizeB; al = std::max(al, a);
		}
		t->alignB = al; t->sizeB = (o + al - 1) / al * al; break;
	}
	}
}
static Type *parseType(Lexer &L);
static Type *prim(Type::K k, u32 bits) {
	std::string key = std::to_string((int)k) + ":" + std::to_string(bits);
	auto &p = g_tcache[key];
	if (!p) { p = new Type(); p->k = k; p->bits = bits; layout(p); }
	return p;
}
static Type *parseType(Lexer &L) {
	auto t = L.next();
	if (t == "void") return prim(Type::Void, 0);
	if (t == "ptr") { if (L.peek() == "addrspace") { L.next(); L.skipParens(); } return prim(Type::Ptr, 64); }
	if (t == "label") return prim(Type::Label, 0);
	if (t == "metadata") return prim(Type::Meta, 0);
	if (t == "token" || t == "opaque") return prim(Type::Opaque, 0);
	if (t == "half") return prim(Type::Float, 16);
	if (t == "float") return prim(Type::Float, 32);
	if (t == "double") return prim(Type::Float, 64);
	if (t == "fp128") return prim(Type::Float, 128);
	if (t == "x86_fp80") return prim(Type::Float, 80);
	if (t.size() > 1 && t[0] == 'i' && isdigit((u8)t[1])) return prim(Type::Int, atoi(t.c_str() + 1));
	if (t == "[") {
		Type *r = new Type(); r->k = Type::Array; r->n = strtoull(L.next().c_str(), nullptr, 10); L.expect("x"); r->el.push_back(parseType(L)); L.expect("]"); layout(r); return r;
	}
	if (t == "<" && L.peek() != "{") {
		Type *r = new Type(); r->k = Type::Vector; r->n = strtoull(L.next().c_str(), nullptr, 10); L.expect("x"); r->el.push_back(parseType(L)); L.expect(">"); layout(r); return r;
	}
	bool packed = false;
	if (t == "<") { packed = true; t = L.next(); }
	if (t == "{") {
		Type *r = new Type(); r->k = Type::Struct; r->packed = packed;
		if (!L.eat("}")) { do r->el.push_back(parseType(L)); while (L.eat(",")); L.expect("}"); }
		if (packed) L.expect(">");
		layout(r); return r;
	}
	if (t[0] == '%') { auto it = g_named.find(t); if (it != g_named.end()) return it->second; }
	fatal("type? '" + t + "' in " + std::string(L.s));
}
static u32 scalarBits(Type *t) { return t->k == Type::Ptr ? 64 : t->bits; }

// ------------------------------------------------------------------ values
struct Val {
	u32 w = 0;
	E e = nullptr;
	u128 c = 0;
	std::shared_ptr<std::vector<Val>> agg;
	bool conc() const { return !e && !agg; }
};
static Val cv(u32 w, u128 c) {
	Val v; v.w = w;
	if (w > 128) { v.e = mkConst(w, c); return v; }
	v.c = c & maskw(w); return v;
}
static Val ev(E e) {
	Val v; v.w = e->w;
	if (isC(e)) v.c = e->c; else v.e = e;
	return v;
}
static E ex(const Val &v) { return v.e ? v.e : mkConst(v.w, v.c); }
static Val mkAgg(std::vector<Val> x) { Val v; v.agg = std::make_shared<std::vector<Val>>(std::move(x)); return v; }

static Val undefOf(Type *t) {
	switch (t->k) {
	case Type::Int: case Type::Ptr: case Type::Float: return cv(scalarBits(t), 0);
	case Type::Array: case Type::Vector: return mkAgg(std::vector<Val>(t->n, undefOf(t->el[0])));
	case Type::Struct: { std::vector<Val> x; for (auto e : t->el) x.push_back(undefOf(e)); return mkAgg(x); }
	default: return Val();
	}
}

// ------------------------------------------------------------------ module
struct Operand { int reg = -1; Val c; };
enum class Op : u8 { Bin, ICmp, Trunc, ZExt, SExt, Bitcast, Load, Store, Gep, Alloca, Br, CondBr, Switch, Ret, Call, Phi, Select, ExtractV, InsertV, ExtractE, InsertE, Shuffle, RMW, CmpXchg, Nop, Unreachable, Copy, Unsupported };
struct Func;
struct Inst {
	Op op; u8 sub = 0; int dst = -1;
	Type *ty = nullptr, *ty2 = nullptr;
	std::vector<Operand> ops;
	std::vector<u64> idx;                      // gep scales / extract indices / shuffle mask
	std::vector<int> tgt;                      // branch targets / phi preds
	std::vector<u128> cases;
	u64 off = 0;
	Func *callee = nullptr;
	int bi = 0; // builtin id
	std::string name;
	int dbg = -1;
	bool seen = false;
};
struct Block { std::string name; int first = 0, nphi = 0; };
struct Func {
	std::string name;
	u64 addr = 0;
	bool defined = false, parsed = false;
	std::vector<std::string> lines; // body lines
	std::string header;
	Type *ret = nullptr;
	std::vector<int> params;
	std::vector<Type *> ptypes;
	std::vector<Inst> ins;
	std::vector<Block> blocks;
	int nregs = 0;
	int bi = -1; // builtin id once resolved
	int dbg = -1;
};
struct Obj {
	u64 base = 0, size = 0;
	u8 kind = 0; // 0 const global 1 global 2 heap 3 stack
	bool freed = false;
	std::vector<u8> c;
	std::vector<E> s;
	const std::string *name = nullptr;
};
typedef std::shared_ptr<Obj> OP;
struct Global { std::string name, text; u64 addr = 0; Type *ty = nullptr; bool konst = false, ext = false; size_t initPos = 0; };

static std::vector<Func *> g_funcs;
static std::unordered_map<std::string, Func *> g_fmap;
static std::unordered_map<u64, Func *> g_faddr;
static std::vector<Global *> g_globals;
static std::unordered_map<std::string, Global *> g_gmap;
static std::unordered_map<std::string, std::string> g_alias;
static std::map<u64, OP> g_baseMem;
static std::unordered_map<int, std::string_view> g_meta;
static std::string g_text;

static u64 symAddr(const std::string &n, bool must = true) {
	auto it = g_gmap.find(n);
	if (it != g_gmap.end()) return it->second->addr;
	auto f = g_fmap.find(n);
	if (f != g_fmap.end()) return f->second->addr;
	auto a = g_alias.find(n);
	if (a != g_alias.end()) return symAddr(a->second);
	if (must) fatal("unknown symbol @" + n);
	return 0;
}
static Val parseConst(Lexer &L, Type *t);
static Val constTyped(Lexer &L) { Type *t = parseType(L); return parseConst(L, t); }
static u128 parseNum(const std::string &s) {
	bool neg = s[0] == '-'; u128 r = 0;
	for (size_t i = neg; i < s.size(); i++) r = r * 10 + (s[i] - '0');
	return neg ? -r : r;
}
static Val parseConst(Lexer &L, Type *t) {
	if (L.s.compare(L.p, 0, "") == 0) {}
	auto k = L.next();
	if (t->k == Type::Meta) { // metadata operand: skip
		if (L.peek() == "(") L.skipParens();
		return Val();
	}
	if (k == "undef" || k == "poison" || k == "zeroinitializer" || k == "null" || k == "none") return undefOf(t);
	if (k == "true") return cv(1, 1);
	if (k == "false") return cv(1, 0);
	if (k[0] == '@') return cv(64, symAddr(k.substr(1)));
	if (k[0] == 'c' && k.size() > 1 && k[1] == '"') {
		auto b = unescape(k.substr(2)); std::vector<Val> x; x.reserve(b.size());
		for (u8 ch : b) x.push_back(cv(8, ch));
		return mkAgg(x);
	}
	if (k == "splat") { L.expect("("); Val v = constTyped(L); L.expect(")"); return mkAgg(std::vector<Val>(t->n, v)); }
	if (k == "[") { std::vector<Val> x; if (!L.eat("]")) { do x.push_back(constTyped(L)); while (L.eat(",")); L.expect("]"); } return mkAgg(x); }
	if (k == "<") {
		bool st = L.eat("{");
		std::vector<Val> x;
		if (!(st && L.eat("}"))) { do x.push_back(constTyped(L)); while (L.eat(",")); if (st) L.expect("}"); }
		L.expect(">"); return mkAgg(x);
	}
	if (k == "{") { std::vector<Val> x; if (!L.eat("}")) { do x.push_back(constTyped(L)); while (L.eat(",")); L.expect("}"); } return mkAgg(x); }
	if (k == "getelementptr") {
		while (L.peek() != "(") { auto w = L.next(); if (w == "inrange") { L.skipParens(); } }
		L.expect("(");
		Type *st = parseType(L); L.expect(",");
		Val b = constTyped(L); u128 a = b.c; Type *cur = st; bool first = true;
		while (L.eat(",")) {
			Val i = constTyped(L); i128 iv = (i128)i.c; if (i.w < 128 && ((i.c >> (i.w - 1)) & 1)) iv -= (i128)1 << i.w;
			if (first) { a += (u128)(iv * (i128)st->sizeB); first = false; }
			else if (cur->k == Type::Struct) { a += cur->offs[(u64)iv]; cur = cur->el[(u64)iv]; }
			else { a += (u128)(iv * (i128)cur->el[0]->sizeB); cur = cur->el[0]; }
		}
		L.expect(")"); return cv(64, a);
	}
	if (k == "inttoptr" || k == "ptrtoint" || k == "ptrtoaddr" || k == "bitcast" || k == "addrspacecast" || k == "trunc" || k == "zext") {
		L.expect("("); Val v = constTyped(L); L.expect("to"); Type *tt = parseType(L); L.expect(")"); return cv(scalarBits(tt), v.c);
	}
	if (k == "add" || k == "sub" || k == "xor" || k == "mul") {
		while (L.peek() != "(") L.next();
		L.expect("("); Val a = constTyped(L); L.expect(","); Val b = constTyped(L); L.expect(")");
		return cv(a.w, k == "add" ? a.c + b.c : k == "sub" ? a.c - b.c : k == "mul" ? a.c * b.c : a.c ^ b.c);
	}
	if (t->k == Type::Float) {
		if (k.size() > 2 && k[0] == '0' && k[1] == 'x') return cv(t->bits, t->bits == 64 ? strtoull(k.c_str() + 2, nullptr, 16) : 0);
		double d = strtod(k.c_str(), nullptr);
		if (L.peekc() == '+' || L.peekc() == '-') { std::string rest = L.next(); rest += L.next(); d = strtod((k + rest).c_str(), nullptr); }
		u64 b; memcpy(&b, &d, 8); return cv(t->bits, b);
	}
	if (isdigit((u8)k[0]) || (k[0] == '-' && k.size() > 1)) {
		if (t->bits > 128) {
			// wide literal: build from decimal, base 2^64
			std::vector<u64> limbs(1, 0);
			for (size_t i = k[0] == '-'; i < k.size(); i++) { u128 carry = k[i] - '0'; for (auto &l : limbs) { u128 v = (u128)l * 10 + carry; l = (u64)v; carry = v >> 64; } if (carry) limbs.push_back((u64)carry); }
			u32 nl = (t->bits + 63) / 64; limbs.resize(nl, 0);
			if (k[0] == '-') { u64 c = 1; for (auto &l : limbs) { l = ~l; u64 o = l; l += c; c = (l < o) ? 1 : 0; } }
			E r = nullptr; u32 done = 0;
			for (u32 i = 0; i < nl; i++) { u32 w = std::min(64u, t->bits - done); E p = mkConst(w, limbs[i]); r = r ? mkConcat(p, r) : p; done += w; }
			return ev(r);
		}
		return cv(scalarBits(t), parseNum(k));
	}
	if (k == "dso_local_equivalent" || k == "no_cfi") { auto n = L.next(); return cv(64, symAddr(n.substr(1))); }
	fatal("const? '" + k + "' in " + std::string(L.s.substr(0, 300)));
}

// --------------------------------------------------------- module parsing
static void parseModule(const char *path) {
	FILE *f = fopen(path, "rb");
	if (!f) fatal(std::string("cannot open ") + path);
	fseek(f, 0, SEEK_END); long n = ftell(f); fseek(f, 0, SEEK_SET);
	g_text.resize(n);
	if (fread(&g_text[0], 1, n, f) != (size_t)n) fatal("read");
	fclose(f);
	std::string_view T = g_text;
	size_t p = 0;
	u64 faddr = 0x10000;
	std::vector<std::string> pendingTypes;
	auto line = [&]() { size_t e = T.find('\n', p); if (e == T.npos) e = T.size(); auto r = T.substr(p, e - p); p = e + 1; return r; };
	auto addF = [&](std::string_view h, bool def) -> Func * {
		size_t at = h.find('@'); Lexer L(h); L.p = at; auto nm = L.next().substr(1);
		Func *fn; auto it = g_fmap.find(nm);
		if (it == g_fmap.end()) { fn = new Func(); fn->name = nm; fn->addr = faddr; faddr += 16; g_fmap[nm] = fn; g_faddr[fn->addr] = fn; g_funcs.push_back(fn); } else fn = it->second;
		if (def) { fn->defined = true; fn->header = std::string(h); }
		else if (!fn->defined) fn->header = std::string(h);
		return fn;
	};
	while (p < T.size()) {
		auto l = line();
		if (l.empty() || l[0] == ';') continue;
		if (l[0] == '%') { // named type
			Lexer L(l); auto nm = L.next(); L.expect("="); L.expect("type");
			if (L.peek() == "opaque") { g_named[nm] = prim(Type::Opaque, 0); continue; }
			g_named[nm] = parseType(L); continue;
		}
		if (l[0] == '@') {
			Lexer L(l); auto nm = L.next().substr(1); L.expect("=");
			Global *g = new Global(); g->name = nm; bool done = false, alias = false;
			while (!done) {
				size_t q = L.p; auto w = L.next();
				if (w == "constant") { g->konst = true; done = true; }
				else if (w == "global") done = true;
				else if (w == "external" || w == "extern_weak") g->ext = true;
				else if (w == "alias" || w == "ifunc") { alias = true; done = true; }
				else if (L.peek() == "(") L.skipParens();
				(void)q;
				if (w.empty()) fatal("global: " + std::string(l));
			}
			if (alias) { parseType(L); L.expect(","); parseType(L); auto tgt = L.next(); g_alias[nm] = tgt.substr(1); delete g; continue; }
			g->text = std::string(l.substr(L.p));
			g_globals.push_back(g); g_gmap[nm] = g; continue;
		}
		if (l.compare(0, 7, "declare") == 0) { addF(l, false); continue; }
		if (l.compare(0, 6, "define") == 0) {
			Func *fn = addF(l, true);
			while (true) { auto b = line(); if (!b.empty() && b[0] == '}') break; fn->lines.emplace_back(b); }
			continue;
		}
		if (l[0] == '!' && l.size() > 1 && isdigit((u8)l[1])) { g_meta[atoi(l.data() + 1)] = l; continue; }
	}
	// globals: addresses, then initialisers
	u64 ga = 0x10000000;
	for (auto g : g_globals) {
		Lexer L(g->text); g->ty = parseType(L); g->initPos = L.p;
		u64 al = std::max<u64>(16, g->ty->alignB);
		ga = (ga + al - 1) / al * al; g->addr = ga; ga += std::max<u64>(g->ty->sizeB, 1) + 32;
	}
}
static void putConst(std::vector<u8> &b, u64 off, Type *t, const Val &v) {
	switch (t->k) {
	case Type::Int: case Type::Ptr: case Type::Float: {
		u64 n = (scalarBits(t) + 7) / 8;
		if (v.e) { for (u64 i = 0; i < n; i++) { u32 w = std::min<u32>(8, v.e->w - i * 8); E x = mkExtract(v.e, i * 8, w); if (!isC(x)) fatal("wide const"); b[off + i] = (u8)x->c; } return; }
		for (u64 i = 0; i < n; i++) b[off + i] = (u8)(v.c >> (8 * i));
		return;
	}
	case Type::Array: case Type::Vector: for (u64 i = 0; i < t->n; i++) putConst(b, off + i * t->el[0]->sizeB, t->el[0], (*v.agg)[i]); return;
	case Type::Struct: for (u64 i = 0; i < t->el.size(); i++) putConst(b, off + t->offs[i], t->el[i], (*v.agg)[i]); return;
	default: return;
	}
}
static void initGlobals() {
	for (auto g : g_globals) {
		auto o = std::make_shared<Obj>(); o->base = g->addr; o->size = std::max<u64>(g->ty->sizeB, 1); o->kind = g->konst ? 0 : 1; o->name = &g->name;
		o->c.resize(o->size);
		if (!g->ext) { Lexer L(g->text); L.p = g->initPos; Val v = parseConst(L, g->ty); putConst(o->c, 0, g->ty, v); }
		g_baseMem[g->addr] = o;
	}
}

// --------------------------------------------------------- builtins
enum BI : int {
	B_NONE = 0, B_ignore, B_memcpy, B_memmove, B_memset, B_umin, B_umax, B_smin, B_smax, B_usubsat, B_uaddsat, B_ssubsat, B_saddsat, B_ctlz, B_cttz, B_ctpop, B_fshl, B_fshr, B_abs,
	B_uaddo, B_usubo, B_umulo, B_saddo, B_ssubo, B_smulo, B_ucmp, B_scmp, B_trap, B_bswap, B_bitreverse, B_isconst, B_tls, B_expect, B_loadrel, B_redand, B_redor, B_redadd, B_ptrmask,
	B_malloc, B_calloc, B_realloc, B_free, B_posix_memalign, B_bcmp, B_memcmp, B_strlen, B_abort, B_panic, B_unwindpanic, B_zeroret, B_errno, B_hashkeys,
	N_sym, N_assume, N_assert, N_cover, N_choose, N_concretize, N_obs, N_uf, N_utf8, N_prune, N_end, B_memchr, B_memrchr, B_ralloc, B_ralloc_zeroed, B_rdealloc, B_rrealloc, B_unknown
};
static bool has(const std::string &s, const char *x) { return s.find(x) != s.npos; }
static bool pre(const std::string &s, const char *x) { return s.compare(0, strlen(x), x) == 0; }
static bool suf(const std::string &s, const char *x) { size_t n = strlen(x); return s.size() >= n && s.compare(s.size() - n, n, x) == 0; }
static int builtinOf(Func *f) {
	if (f->bi >= 0) return f->bi;
	const std::string &n = f->name;
	int r = B_NONE;
	if (pre(n, "llvm.")) {
		struct { const char *p; int b; } tab[] = {
			{"llvm.memcpy", B_memcpy}, {"llvm.memmove", B_memmove}, {"llvm.memset", B_memset}, {"llvm.umin", B_umin}, {"llvm.umax", B_umax}, {"llvm.smin", B_smin}, {"llvm.smax", B_smax},
			{"llvm.usub.sat", B_usubsat}, {"llvm.uadd.sat", B_uaddsat}, {"llvm.ssub.sat", B_ssubsat}, {"llvm.sadd.sat", B_saddsat}, {"llvm.ctlz", B_ctlz}, {"llvm.cttz", B_cttz}, {"llvm.ctpop", B_ctpop}, {"llvm.fshl", B_fshl}, {"llvm.fshr", B_fshr}, {"llvm.abs", B_abs},
			{"llvm.uadd.with", B_uaddo}, {"llvm.usub.with", B_usubo}, {"llvm.umul.with", B_umulo}, {"llvm.sadd.with", B_saddo}, {"llvm.ssub.with", B_ssubo}, {"llvm.smul.with", B_smulo},
			{"llvm.ucmp", B_ucmp}, {"llvm.scmp", B_scmp}, {"llvm.trap", B_trap}, {"llvm.ubsantrap", B_trap}, {"llvm.bswap", B_bswap}, {"llvm.bitreverse", B_bitreverse}, {"llvm.is.constant", B_isconst}, {"llvm.threadlocal.address", B_tls},
			{"llvm.expect", B_expect}, {"llvm.load.relative", B_loadrel}, {"llvm.vector.reduce.and", B_redand}, {"llvm.vector.reduce.or", B_redor}, {"llvm.vector.reduce.add", B_redadd}, {"llvm.ptrmask", B_ptrmask},
			{"llvm.lifetime", B_ignore}, {"llvm.assume", B_ignore}, {"llvm.experimental.noalias", B_ignore}, {"llvm.dbg", B_ignore}, {"llvm.x86.sse2.pause", B_ignore}, {"llvm.prefetch", B_ignore}, {"llvm.invariant", B_ignore}, {"llvm.donothing", B_ignore}};
		r = B_unknown;
		for (auto &t : tab) if (pre(n, t.p)) { r = t.b; break; }
	}
	else if (n == "nsx_sym") r = N_sym;
	else if (n == "nsx_assume") r = N_assume;
	else if (n == "nsx_assert") r = N_assert;
	else if (n == "nsx_cover") r = N_cover;
	else if (n == "nsx_choose") r = N_choose;
	else if (n == "nsx_concretize") r = N_concretize;
	else if (n == "nsx_obs") r = N_obs;
	else if (n == "nsx_uf") r = N_uf;
	else if (n == "nsx_prune") r = N_prune;
	else if (n == "nsx_end") r = N_end;
	else if (n == "memchr") r = B_memchr;
	else if (n == "memrchr") r = B_memrchr;
	else if (n == "malloc") r = B_malloc;
	else if (n == "calloc") r = B_calloc;
	else if (n == "realloc") r = B_realloc;
	else if (n == "free") r = B_free;
	else if (n == "posix_memalign") r = B_posix_memalign;
	else if (n == "bcmp") r = B_bcmp;
	else if (n == "memcmp") r = B_memcmp;
	else if (n == "memcpy") r = B_memcpy;
	else if (n == "memmove") r = B_memmove;
	else if (n == "memset") r = B_memset;
	else if (n == "strlen") r = B_strlen;
	else if (n == "abort") r = B_abort;
	else if (n == "__errno_location") r = B_errno;
	else if (suf(n, "4core9panicking9panic_fmt")) r = B_panic;
	else if (suf(n, "4core9panicking14panic_nounwind") || suf(n, "18panic_nounwind_fmt") || suf(n, "9panicking16panic_in_cleanup") || suf(n, "19panic_cannot_unwind")) r = B_panic;
	else if (has(n, "9panicking20rust_panic_with_hook") || suf(n, "rust_begin_unwind") || suf(n, "17rust_begin_unwind") || suf(n, "9panicking11begin_panic")) r = B_unwindpanic;
	else if (has(n, "18handle_alloc_error") || has(n, "14rust_oom") || has(n, "15default_alloc_error_hook")) r = B_unwindpanic;
	else if (has(n, "19hashmap_random_keys")) r = B_hashkeys;
	else if (suf(n, "3str8converts9from_utf8") || suf(n, "3str11validations19run_utf8_validation")) r = N_utf8;
	else if (suf(n, "12___rust_alloc")) r = B_ralloc;
	else if (suf(n, "19___rust_alloc_zeroed")) r = B_ralloc_zeroed;
	else if (suf(n, "14___rust_dealloc")) r = B_rdealloc;
	else if (suf(n, "14___rust_realloc")) r = B_rrealloc;
	else if (n == "sched_yield" || n == "pthread_self" || n == "gnu_get_libc_version" || n == "__cxa_thread_atexit_impl" || n == "getauxval") r = B_zeroret;
	else if (!f->defined) r = B_unknown;
	f->bi = r;
	return r;
}

// --------------------------------------------------------- function body parsing
struct FP {
	Func *f;
	std::unordered_map<std::string, int> regs;
	std::unordered_map<std::string, int> labels;
	int reg(const std::string &n) { auto it = regs.find(n); if (it != regs.end()) return it->second; int r = f->nregs++; regs[n] = r; return r; }
	Operand operand(Lexer &L, Type *t) {
		Operand o;
		char c = L.peekc();
		if (c == '%') { o.reg = reg(L.next()); return o; }
		o.c = parseConst(L, t); return o;
	}
	Operand typed(Lexer &L, Type **tt = nullptr) { Type *t = parseType(L); if (tt) *tt = t; return operand(L, t); }
	int label(Lexer &L) { L.expect("label"); auto n = L.next(); return lab(n.substr(1)); }
	int lab(const std::string &n) { auto it = labels.find(n); if (it == labels.end()) fatal("label " + n + " in " + f->name); return it->second; }
};
static void skipAttrs(Lexer &L) {
	// parameter / return attributes up to a value or type
	while (true) {
		size_t q = L.p; char c = L.peekc();
		if (c == '"') { L.next(); if (L.eat("=")) L.next(); continue; }
		if (!isalpha((u8)c)) return;
		auto w = L.next();
		static const std::set<std::string> vals = {"undef", "poison", "zeroinitializer", "null", "none", "true", "false", "getelementptr", "inttoptr", "ptrtoint", "ptrtoaddr", "splat", "void", "ptr", "half", "float", "double", "metadata", "token", "label", "sub", "add", "bitcast", "asm", "trunc", "fp128", "dso_local_equivalent"};
		if (vals.count(w) || w[0] == '@' || (w[0] == 'i' && w.size() > 1 && isdigit((u8)w[1])) || (w[0] == 'c' && w.size() > 1 && w[1] == '"')) { L.p = q; return; }
		if (w == "align") { if (L.peekc() == '(') L.skipParens(); else L.next(); continue; }
		if (w == "addrspace" || L.peekc() == '(') { L.skipParens(); }
	}
}
static int dbgOf(std::string_view l) {
	size_t p = l.rfind("!dbg !");
	if (p == l.npos) return -1;
	return atoi(l.data() + p + 6);
}
static const std::map<std::string, EK> g_binops = {{"add", EK::Add}, {"sub", EK::Sub}, {"mul", EK::Mul}, {"udiv", EK::UDiv}, {"sdiv", EK::SDiv}, {"urem", EK::URem}, {"srem", EK::SRem}, {"shl", EK::Shl}, {"lshr", EK::LShr}, {"ashr", EK::AShr}, {"and", EK::And}, {"or", EK::Or}, {"xor", EK::Xor}};
static const char *g_preds[] = {"eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"};

static void parseInst(FP &P, Func *f, const std::string &text, Block &blk) {
	Lexer L(text);
	Inst I; I.op = Op::Unsupported; I.dbg = dbgOf(text);
	g_where = f->name + ": " + text.substr(0, 200);
	std::string dst;
	if (L.peekc() == '%') { dst = L.next(); L.expect("="); I.dst = P.reg(dst); }
	auto op = L.next();
	auto bin = g_binops.find(op);
	if (bin != g_binops.end()) {
		while (true) { auto w = L.peek(); if (w == "nuw" || w == "nsw" || w == "exact" || w == "disjoint") L.next(); else break; }
		I.op = Op::Bin; I.sub = (u8)bin->second; I.ty = parseType(L);
		I.ops.push_back(P.operand(L, I.ty)); L.expect(","); I.ops.push_back(P.operand(L, I.ty));
	} else if (op == "icmp") {
		auto w = L.next(); if (w == "samesign") w = L.next();
		I.op = Op::ICmp; for (int i = 0; i < 10; i++) if (w == g_preds[i]) I.sub = i;
		I.ty = parseType(L); I.ops.push_back(P.operand(L, I.ty)); L.expect(","); I.ops.push_back(P.operand(L, I.ty));
	} else if (op == "trunc" || op == "zext" || op == "sext" || op == "bitcast" || op == "inttoptr" || op == "ptrtoint" || op == "ptrtoaddr") {
		while (true) { auto w = L.peek(); if (w == "nuw" || w == "nsw" || w == "nneg") L.next(); else break; }
		I.ops.push_back(P.typed(L, &I.ty)); L.expect("to"); I.ty2 = parseType(L);
		I.op = op == "trunc" ? Op::Trunc : op == "zext" ? Op::ZExt : op == "sext" ? Op::SExt : op == "bitcast" ? Op::Bitcast : scalarBits(I.ty) == scalarBits(I.ty2) ? Op::Copy : scalarBits(I.ty) > scalarBits(I.ty2) ? Op::Trunc : Op::ZExt;
	} else if (op == "freeze") {
		I.op = Op::Copy; I.ops.push_back(P.typed(L, &I.ty));
	} else if (op == "load") {
		while (L.peek() == "volatile" || L.peek() == "atomic") L.next();
		I.op = Op::Load; I.ty = parseType(L); L.expect(","); I.ops.push_back(P.typed(L));
	} else if (op == "store") {
		while (L.peek() == "volatile" || L.peek() == "atomic") L.next();
		I.op = Op::Store; I.ops.push_back(P.typed(L, &I.ty)); L.expect(","); I.ops.push_back(P.typed(L));
	} else if (op == "getelementptr") {
		while (true) { auto w = L.peek(); if (w == "inbounds" || w == "nuw" || w == "nusw") L.next(); else if (w == "inrange") { L.next(); L.skipParens(); } else break; }
		I.op = Op::Gep; Type *st = parseType(L); L.expect(","); Type *bt; I.ops.push_back(P.typed(L, &bt)); I.ty = bt;
		if (bt->k == Type::Vector) goto unsupported;
		{
			Type *cur = st; bool first = true;
			while (L.eat(",")) {
				if (L.peekc() == '!') break;
				Type *it; Operand o = P.typed(L, &it);
				u64 scale; Type *nx = cur;
				if (first) scale = st->sizeB;
				else if (cur->k == Type::Struct) { u64 k = (u64)o.c.c; I.off += cur->offs[k]; cur = cur->el[k]; continue; }
				else { scale = cur->el[0]->sizeB; nx = cur->el[0]; }
				first = false; cur = nx;
				if (o.reg < 0) { i128 v = (i128)o.c.c; u32 w = o.c.w; if (w < 128 && ((o.c.c >> (w - 1)) & 1)) v -= (i128)1 << w; I.off += (u64)(v * (i128)scale); }
				else { I.ops.push_back(o); I.idx.push_back(scale); }
			}
		}
	} else if (op == "alloca") {
		if (L.peek() == "inalloca") L.next();
		I.op = Op::Alloca; I.ty = parseType(L); I.off = 16; I.ops.push_back(Operand{-1, cv(64, 1)});
		while (L.eat(",")) { auto w = L.peek(); if (w == "align") { L.next(); I.off = strtoull(L.next().c_str(), nullptr, 10); } else if (w[0] == '!') break; else if (w == "addrspace") { L.next(); L.skipParens(); } else I.ops[0] = P.typed(L); }
	} else if (op == "br") {
		if (L.peek() == "label") { I.op = Op::Br; I.tgt.push_back(P.label(L)); }
		else { I.op = Op::CondBr; I.ops.push_back(P.typed(L)); L.expect(","); I.tgt.push_back(P.label(L)); L.expect(","); I.tgt.push_back(P.label(L)); }
	} else if (op == "switch") {
		I.op = Op::Switch; I.ops.push_back(P.typed(L, &I.ty)); L.expect(","); I.tgt.push_back(P.label(L)); L.expect("[");
		while (!L.eat("]")) { Type *ct = parseType(L); Val v = parseConst(L, ct); L.expect(","); I.cases.push_back(v.c); I.tgt.push_back(P.label(L)); }
	} else if (op == "ret") {
		I.op = Op::Ret; I.ty = parseType(L); if (I.ty->k != Type::Void) I.ops.push_back(P.operand(L, I.ty));
	} else if (op == "unreachable") I.op = Op::Unreachable;
	else if (op == "fence") I.op = Op::Nop;
	else if (op == "phi") {
		I.op = Op::Phi; I.ty = parseType(L);
		do { if (L.peekc() != '[') break; L.expect("["); I.ops.push_back(P.operand(L, I.ty)); L.expect(","); I.tgt.push_back(P.lab(L.next().substr(1))); L.expect("]"); } while (L.eat(","));
		blk.nphi++;
	} else if (op == "select") {
		I.op = Op::Select; I.ops.push_back(P.typed(L, &I.ty2)); L.expect(","); I.ops.push_back(P.typed(L, &I.ty)); L.expect(","); I.ops.push_back(P.typed(L));
	} else if (op == "extractvalue") {
		I.op = Op::ExtractV; I.ops.push_back(P.typed(L, &I.ty)); while (L.eat(",")) { if (L.peekc() == '!') break; I.idx.push_back(strtoull(L.next().c_str(), nullptr, 10)); }
	} else if (op == "insertvalue") {
		I.op = Op::InsertV; I.ops.push_back(P.typed(L, &I.ty)); L.expect(","); I.ops.push_back(P.typed(L)); while (L.eat(",")) { if (L.peekc() == '!') break; I.idx.push_back(strtoull(L.next().c_str(), nullptr, 10)); }
	} else if (op == "extractelement") { I.op = Op::ExtractE; I.ops.push_back(P.typed(L, &I.ty)); L.expect(","); I.ops.push_back(P.typed(L)); }
	else if (op == "insertelement") { I.op = Op::InsertE; I.ops.push_back(P.typed(L, &I.ty)); L.expect(","); I.ops.push_back(P.typed(L)); L.expect(","); I.ops.push_back(P.typed(L)); }
	else if (op == "shufflevector") {
		I.op = Op::Shuffle; I.ops.push_back(P.typed(L, &I.ty)); L.expect(","); I.ops.push_back(P.typed(L)); L.expect(","); Type *mt; Operand m = P.typed(L, &mt);
		for (auto &x : *m.c.agg) I.idx.push_back((u64)x.c);
	} else if (op == "atomicrmw") {
		if (L.peek() == "volatile") L.next();
		I.name = L.next(); I.op = Op::RMW; I.ops.push_back(P.typed(L)); L.expect(","); I.ops.push_back(P.typed(L, &I.ty));
	} else if (op == "cmpxchg") {
		while (L.peek() == "volatile" || L.peek() == "weak") L.next();
		I.op = Op::CmpXchg; I.ops.push_back(P.typed(L)); L.expect(","); I.ops.push_back(P.typed(L, &I.ty)); L.expect(","); I.ops.push_back(P.typed(L));
	} else if (op == "call" || op == "tail" || op == "musttail" || op == "notail" || op == "invoke") {
		if (op != "call" && op != "invoke") L.expect("call");
		static const std::set<std::string> cc = {"fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "nnan", "ninf", "nsz", "fast", "contract", "reassoc", "afn", "arcp"};
		while (cc.count(L.peek())) L.next();
		skipAttrs(L);
		I.op = Op::Call; I.ty = parseType(L);
		skipAttrs(L);
		if (L.peekc() == '(') L.skipParens(); // function type
		skipAttrs(L);
		bool isAsm = false; std::string callee;
		if (L.peek() == "asm") { isAsm = true; while (L.peekc() != '(') L.next(); I.bi = -2; }
		else if (L.peekc() == '%') { I.ops.push_back(Operand{P.reg(L.next()), Val()}); I.bi = -1; }
		else if (L.peekc() == '@') {
			callee = L.next().substr(1);
			auto al = g_alias.find(callee); if (al != g_alias.end()) callee = al->second;
			auto it = g_fmap.find(callee); if (it == g_fmap.end()) fatal("callee " + callee);
			I.callee = it->second; I.bi = builtinOf(I.callee); I.name = callee;
		} else { Operand o; o.c = parseConst(L, prim(Type::Ptr, 64)); I.ops.push_back(o); I.bi = -1; }
		L.expect("(");
		if (!L.eat(")")) {
			do {
				Type *t = parseType(L);
				if (t->k == Type::Meta) { // skip to , or ) at depth 0
					int d = 0; while (true) { auto w = L.peek(); if (d == 0 && (w == "," || w == ")")) break; L.next(); if (w == "(" || w == "{") d++; if (w == ")" || w == "}") d--; }
					I.ops.push_back(Operand()); continue;
				}
				size_t q = L.p; skipAttrs(L);
				if (text.compare(q, L.p - q, "byval") != 0 && std::string(text.substr(q, L.p - q)).find("byval") != std::string::npos) goto unsupported;
				I.ops.push_back(P.operand(L, t));
			} while (L.eat(","));
			L.expect(")");
		}
		(void)isAsm;
		if (op == "invoke") { size_t q = text.find(" to label ", L.p); if (q == text.npos) fatal("invoke"); L.p = q + 4; I.tgt.push_back(P.label(L)); }
	} else {
	unsupported:
		I.op = Op::Unsupported; I.name = text;
	}
	f->ins.push_back(std::move(I));
}
static void parseBody(Func *f) {
	f->parsed = true;
	std::string save = g_where;
	FP P; P.f = f;
	Lexer L(f->header);
	L.expect("define");
	f->dbg = dbgOf(f->header);
	size_t at = f->header.find('@');
	{ L.p = at; L.next(); }
	L.expect("(");
	int unnamed = 0;
	if (!L.eat(")")) {
		do {
			if (L.peek() == ".") { while (L.peek() == ".") L.next(); break; }
			if (L.peek() == "...") { L.next(); break; }
			Type *t = parseType(L); skipAttrs(L);
			std::string n;
			if (L.peekc() == '%') n = L.next(); else n = "%" + std::to_string(unnamed);
			if (isdigit((u8)n[1])) unnamed = atoi(n.c_str() + 1) + 1;
			f->params.push_back(P.reg(n)); f->ptypes.push_back(t);
		} while (L.eat(","));
	}
	// join continuation lines and find labels
	std::vector<std::string> ls; std::vector<std::pair<int, std::string>> labs;
	for (size_t i = 0; i < f->lines.size(); i++) {
		const std::string &l = f->lines[i];
		if (l.empty() || l[0] == ';') continue;
		if (l[0] != ' ') {
			Lexer q(l); std::string n;
			if (l[0] == '"') n = q.next().substr(1); else n = q.next();
			labs.push_back({(int)ls.size(), n}); continue;
		}
		size_t a = l.find_first_not_of(' ');
		if (l[a] == '#' || l[a] == ';') continue;
		if (a >= 8 && !ls.empty()) { ls.back() += " " + l.substr(a); continue; } // continuation (invoke / landingpad)
		std::string t = l;
		if (l.find("switch ") == a && l.back() == '[') { while (true) { i++; t += " " + f->lines[i]; if (f->lines[i].find(']') != std::string::npos) break; } }
		ls.push_back(t);
	}
	if (labs.empty() || labs[0].first != 0) labs.insert(labs.begin(), {0, std::to_string(unnamed)});
	for (size_t i = 0; i < labs.size(); i++) P.labels[labs[i].second] = i;
	f->blocks.resize(labs.size());
	for (size_t i = 0; i < labs.size(); i++) {
		f->blocks[i].name = labs[i].second; f->blocks[i].first = f->ins.size();
		int e = i + 1 < labs.size() ? labs[i + 1].first : (int)ls.size();
		for (int k = labs[i].first; k < e; k++) parseInst(P, f, ls[k], f->blocks[i]);
	}
	f->lines.clear(); f->lines.shrink_to_fit();
	g_where = save;
}

// --------------------------------------------------------- debug info
static std::string metaField(std::string_view m, const char *key) {
	std::string k = std::string(key) + ": ";
	size_t p = m.find(k);
	while (p != m.npos && p > 0 && m[p - 1] != '(' && m[p - 1] != ' ') p = m.find(k, p + 1);
	if (p == m.npos) return "";
	p += k.size();
	if (m[p] == '"') { size_t e = m.find('"', p + 1); return std::string(m.substr(p + 1, e - p - 1)); }
	size_t e = m.find_first_of(",)", p);
	return std::string(m.substr(p, e - p));
}
static std::string_view metaOf(int id) { auto it = g_meta.find(id); return it == g_meta.end() ? std::string_view() : it->second; }
static int metaRef(std::string_view m, const char *k) { auto s = metaField(m, k); return s.size() > 1 && s[0] == '!' ? atoi(s.c_str() + 1) : -1; }
static std::string fileOf(int id) {
	auto m = metaOf(id); if (m.empty()) return "";
	auto fn = metaField(m, "filename"), d = metaField(m, "directory");
	if (!fn.empty() && fn[0] == '/') return fn;
	fn = d + "/" + fn;
	for (size_t q; (q = fn.find("/../")) != fn.npos;) { size_t b = q ? fn.rfind('/', q - 1) : fn.npos; fn.erase(b == fn.npos ? 0 : b, q + 3 - (b == fn.npos ? 0 : b)); }
	return fn;
}
static int subprogramOf(int scope) {
	for (int i = 0; i < 50 && scope >= 0; i++) { auto m = metaOf(scope); if (m.find("!DISubprogram(") != m.npos) return scope; scope = metaRef(m, "scope"); }
	return -1;
}
static std::string locStr(int dbg) {
	auto m = metaOf(dbg); if (m.empty()) return "?";
	int sp = subprogramOf(metaRef(m, "scope"));
	std::string file = sp >= 0 ? fileOf(metaRef(metaOf(sp), "file")) : "?";
	return file + ":" + metaField(m, "line");
}
static std::string scopeChain(int sp) {
	std::string r; int s = metaRef(metaOf(sp), "scope");
	for (int i = 0; i < 20 && s >= 0; i++) { auto m = metaOf(s); auto n = metaField(m, "name"); if (!n.empty()) r = n + "::" + r; s = metaRef(m, "scope"); }
	return r;
}
// innermost location in the inlining chain that lies in /repo or harness
static std::vector<std::string> g_roots;
static size_t inRoot(const std::string &f) { for (auto &r : g_roots) if (f.compare(0, r.size(), r) == 0) return r.size(); return 0; }
static std::string userLoc(int dbg) {
	for (int i = 0; i < 60 && dbg >= 0; i++) { auto l = locStr(dbg); if (inRoot(l)) return l; dbg = metaRef(metaOf(dbg), "inlinedAt"); }
	return "";
}

// --------------------------------------------------------- state
struct Frame {
	Func *f; int blk = 0, ip = 0, prev = -1; int retDst = -1; int normDest = -1;
	std::vector<Val> r;
	std::vector<u64> allocas;
};
struct UfCall { u64 fid; std::vector<E> in, out; };
struct State {
	std::vector<std::shared_ptr<Frame>> fr;
	std::map<u64, OP> mem;
	std::vector<E> pc;
	std::vector<u8> model;
	u32 nvars = 0;
	u64 heapNext = 0x100000000ull, stackNext = 0x700000000000ull;
	std::vector<Val> obs;
	std::vector<std::shared_ptr<UfCall>> ufs;
	std::vector<std::string> covers;
	u64 steps = 0;
	u32 depth = 0;
	Frame &top() { auto &p = fr.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
};
typedef std::unique_ptr<State> SP;
struct Killed {}; // current path ends
struct Ended {}; // current path ends as if the entry had returned
static std::vector<SP> g_work;
static u64 g_maxSteps = 20000000;
static double g_timeLimit = 600;
static std::chrono::steady_clock::time_point g_t0;
static std::map<std::string, u64> g_covers;
struct Viol { std::string kind, loc, msg; std::vector<u8> stream; };
static std::vector<Viol> g_viols;
static std::map<std::string, int> g_violCount;
struct Sample { std::vector<u8> stream; std::vector<u64> obs; };
static std::vector<Sample> g_samples;
static u64 g_sampleSeen = 0;
static int g_maxSamples = 12;
static bool g_incomplete = false;
static std::string g_incompleteWhy;
static u64 g_pruned = 0, g_assumedAway = 0, g_ufLemmas = 0;
static std::set<int> g_dbgSeen;

static void violation(State &s, const std::string &kind, const std::string &loc, const std::string &msg, const std::vector<u8> &model) {
	std::string key = kind + "|" + loc + "|" + msg;
	if (g_violCount[key]++ == 0) {
		Viol v{kind, loc, msg, model}; v.stream.resize(s.nvars, 0); g_viols.push_back(v);
	}
}
static const Inst *g_cur; static Func *g_curF;
static std::string stackLoc(State &s) {
	std::string r;
	if (g_cur) r = userLoc(g_cur->dbg);
	for (size_t i = s.fr.size(); r.empty() && i-- > 0;) { // callers
		auto &f = *s.fr[i];
		int ip = f.ip > 0 ? f.ip - 1 : 0;
		if (ip < (int)f.f->ins.size()) r = userLoc(f.f->ins[ip].dbg);
	}
	if (r.empty() && g_cur) r = locStr(g_cur->dbg);
	return r;
}
[[noreturn]] static void die(State &s, const std::string &kind, const std::string &msg) {
	violation(s, kind, stackLoc(s), msg, s.model);
	throw Killed();
}
static bool evalB(E e, State &s) { return evalE(e, s.model) != 0; }
// Satisfiability of the path condition and `extra`, with uninterpreted functions
// handled lazily: a model under which two calls agree on their inputs but not on
// their outputs is excluded by adding that pair's congruence constraint.
static std::string stackLoc(State &s);
static std::map<std::string, std::pair<u64, double>> g_prof; // where queries come from, with NSX_PROF set
static int qcheck1(State &s, E extra, std::vector<u8> *m);
static int qcheck(State &s, E extra, std::vector<u8> *m) {
	static bool prof = getenv("NSX_PROF");
	if (!prof) return qcheck1(s, extra, m);
	double t0 = g_stats.solverS; int r = qcheck1(s, extra, m);
	auto &p = g_prof[stackLoc(s) + (r ? " sat" : " unsat")]; p.first++; p.second += g_stats.solverS - t0;
	return r;
}
static int qcheck1(State &s, E extra, std::vector<u8> *m) {
	E neg = mkNot(extra);
	for (E p : s.pc) if (p == neg) { g_stats.syntactic++; return 0; } // the path condition states the opposite
	for (;;) {
		*m = s.model; m->resize(s.nvars, 0);
		int r = g_solver.check(s.pc, extra, m, s.nvars);
		if (r != 1 || s.ufs.empty()) return r;
		bool bad = false; newEvalStamp();
		std::map<std::string, UfCall *> seen;
		for (auto &u : s.ufs) {
			std::string k = std::to_string(u->fid) + ":" + std::to_string(u->out.size()) + ":"; size_t k0 = k.size(); k.resize(k0 + u->in.size());
			for (size_t i = 0; i < u->in.size(); i++) k[k0 + i] = (char)evalStamped(u->in[i], *m);
			auto it = seen.emplace(k, u.get()); if (it.second) continue;
			UfCall *v = it.first->second; bool eq = true;
			for (size_t i = 0; i < u->out.size() && eq; i++) eq = evalStamped(u->out[i], *m) == evalStamped(v->out[i], *m);
			if (eq) continue;
			E ie = mkConst(1, 1), oe = mkConst(1, 1);
			for (size_t i = 0; i < u->in.size(); i++) ie = mkBin(EK::And, mkBin(EK::Eq, u->in[i], v->in[i]), ie);
			for (size_t i = 0; i < u->out.size(); i++) oe = mkBin(EK::And, mkBin(EK::Eq, u->out[i], v->out[i]), oe);
			s.pc.push_back(mkBin(EK::Or, mkNot(ie), oe)); bad = true; g_ufLemmas++;
		}
		if (!bad) return 1;
	}
}
static bool hasArith(E e, int d) {
	if (!e || d < 0 || e->k == EK::Const || e->k == EK::Var) return false;
	if (e->k == EK::Add || e->k == EK::Sub || e->k == EK::Ite) return true;
	return hasArith(e->a, d - 1) || hasArith(e->b, d - 1) || hasArith(e->d, d - 1);
}
static SP clone(State &s) { return std::make_unique<State>(s); }
static void unknownResult(const char *w) { g_incomplete = true; g_incompleteWhy = std::string("solver unknown at ") + w; }

// Called before any side effect of the current instruction; siblings re-execute it.
static u128 concretize(State &s, const Val &v, const char *what) {
	if (v.agg) fatal("concretize aggregate");
	if (!v.e) return v.c;
	u128 c = evalE(v.e, s.model);
	E eq = mkBin(EK::Eq, v.e, mkConst(v.w, c));
	std::vector<u8> m;
	int r = qcheck(s, mkNot(eq), &m);
	if (r < 0) unknownResult(what);
	if (r == 1) {
		auto o = clone(s); o->pc.push_back(mkNot(eq)); o->model = m; o->fr.back() = std::make_shared<Frame>(*o->fr.back()); o->fr.back()->ip--; o->depth++;
		g_work.push_back(std::move(o)); g_stats.forks++;
		s.pc.push_back(eq);
	}
	return c;
}
// fork on a boolean; returns the side taken by this state. Sibling re-executes.
static bool decide(State &s, E c, const char *what) {
	if (isC(c)) return c->c;
	bool v = evalB(c, s);
	E side = v ? c : mkNot(c);
	std::vector<u8> m;
	int r = qcheck(s, mkNot(side), &m);
	if (r < 0) unknownResult(what);
	if (r == 1) {
		auto o = clone(s); o->pc.push_back(mkNot(side)); o->model = m; o->fr.back() = std::make_shared<Frame>(*o->fr.back()); o->fr.back()->ip--; o->depth++;
		g_work.push_back(std::move(o)); g_stats.forks++;
		s.pc.push_back(side);
	}
	return v;
}

// --------------------------------------------------------- memory
static OP *findObj(State &s, u64 a) {
	auto it = s.mem.upper_bound(a);
	if (it != s.mem.begin()) { --it; if (a >= it->second->base && a < it->second->base + std::max<u64>(it->second->size, 1)) return &it->second; }
	auto b = g_baseMem.upper_bound(a);
	if (b != g_baseMem.begin()) { --b; if (a >= b->second->base && a < b->second->base + std::max<u64>(b->second->size, 1)) return &b->second; }
	return nullptr;
}
static Obj &writable(State &s, OP *p) {
	Obj &o = **p;
	if (o.kind == 0) die(s, "memory", "write to constant");
	if (o.kind == 1 && g_baseMem.count(o.base) && !s.mem.count(o.base)) { auto n = std::make_shared<Obj>(o); s.mem[o.base] = n; return *n; }
	if (p->use_count() > 1) *p = std::make_shared<Obj>(o);
	return **p;
}
static Obj &objFor(State &s, u64 a, u64 n, bool write) {
	OP *p = findObj(s, a);
	if (!p) die(s, "memory", "access to invalid address");
	Obj &o = **p;
	if (o.freed) die(s, "memory", "use after free");
	if (a + n > o.base + o.size) die(s, "memory", "out of bounds access");
	return write ? writable(s, p) : o;
}
static u64 g_iteLimit = 512;
static E byteE(const Obj &o, u64 i) { return !o.s.empty() && o.s[i] ? o.s[i] : mkConst(8, o.c[i]); }
static Val readBytes(const Obj &o, u64 off, u32 bits) {
	u64 n = (bits + 7) / 8;
	bool sym = false;
	if (!o.s.empty()) for (u64 i = 0; i < n; i++) if (o.s[off + i]) { sym = true; break; }
	if (!sym && bits <= 128) { u128 c = 0; for (u64 i = 0; i < n; i++) c |= (u128)o.c[off + i] << (8 * i); return cv(bits, c); }
	E r = byteE(o, off);
	for (u64 i = 1; i < n; i++) r = mkConcat(byteE(o, off + i), r);
	if (bits < n * 8) r = mkExtract(r, 0, bits);
	return ev(r);
}
static void writeBytes(Obj &o, u64 off, const Val &v) {
	u64 n = (v.w + 7) / 8;
	if (!v.e) {
		for (u64 i = 0; i < n; i++) o.c[off + i] = (u8)(v.c >> (8 * i));
		if (!o.s.empty()) for (u64 i = 0; i < n; i++) o.s[off + i] = nullptr;
		return;
	}
	if (o.s.empty()) o.s.resize(o.size, nullptr);
	E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
	for (u64 i = 0; i < n; i++) { E b = mkExtract(e, i * 8, 8); if (isC(b)) { o.c[off + i] = (u8)b->c; o.s[off + i] = nullptr; } else o.s[off + i] = b; }
}
static Val loadScalar(State &s, const Val &addr, u32 bits) {
	u64 n = (bits + 7) / 8;
	if (addr.e) {
		// table lookup in a small constant object: ITE over offsets
		u64 a0 = (u64)evalE(addr.e, s.model);
		OP *p = findObj(s, a0);
		if (p && (*p)->kind == 0 && (*p)->size <= g_iteLimit * 4 && (*p)->size >= n) {
			Obj &o = **p;
			E off = mkBin(EK::Sub, addr.e, mkConst(64, o.base));
			E in = mkBin(EK::Ule, off, mkConst(64, o.size - n));
			if (decide(s, in, "load-bounds")) {
				u64 step = (n > 1 && o.size % n == 0) ? 1 : 1;
				E r = nullptr;
				for (u64 i = 0; i + n <= o.size; i += step) { E b = ex(readBytes(o, i, bits)); r = r ? mkIte(mkBin(EK::Eq, off, mkConst(64, i)), b, r) : b; }
				return ev(r);
			}
		}
	}
	u64 a = (u64)concretize(s, addr, "load-addr");
	Obj &o = objFor(s, a, n, false);
	return readBytes(o, a - o.base, bits);
}
static Val loadVal(State &s, const Val &addr, Type *t) {
	switch (t->k) {
	case Type::Int: case Type::Ptr: case Type::Float: return loadScalar(s, addr, scalarBits(t));
	default: {
		u64 a = (u64)concretize(s, addr, "load-addr");
		Obj &o = objFor(s, a, t->sizeB, false);
		std::function<Val(Type *, u64)> go = [&](Type *t, u64 off) -> Val {
			if (!t->isAgg()) return readBytes(o, off, scalarBits(t));
			std::vector<Val> x;
			if (t->k == Type::Struct) for (size_t i = 0; i < t->el.size(); i++) x.push_back(go(t->el[i], off + t->offs[i]));
			else if (t->k == Type::Vector && t->el[0]->bits % 8 && t->el[0]->k == Type::Int) { Val all = readBytes(o, off, t->n * t->el[0]->bits); for (u64 i = 0; i < t->n; i++) x.push_back(ev(mkExtract(ex(all), i * t->el[0]->bits, t->el[0]->bits))); }
			else for (u64 i = 0; i < t->n; i++) x.push_back(go(t->el[0], off + i * t->el[0]->sizeB));
			return mkAgg(x);
		};
		return go(t, a - o.base);
	}
	}
}
static void storeVal(State &s, const Val &addr, Type *t, const Val &v) {
	u64 a = (u64)concretize(s, addr, "store-addr");
	u64 n = t->isAgg() ? t->sizeB : (scalarBits(t) + 7) / 8;
	Obj &o = objFor(s, a, n, true);
	std::function<void(Type *, u64, const Val &)> go = [&](Type *t, u64 off, const Val &v) {
		if (!t->isAgg()) { writeBytes(o, off, v); return; }
		if (t->k == Type::Struct) for (size_t i = 0; i < t->el.size(); i++) go(t->el[i], off + t->offs[i], (*v.agg)[i]);
		else if (t->k == Type::Vector && t->el[0]->bits % 8 && t->el[0]->k == Type::Int) { E r = ex((*v.agg)[0]); for (u64 i = 1; i < t->n; i++) r = mkConcat(ex((*v.agg)[i]), r); writeBytes(o, off, ev(r)); }
		else for (u64 i = 0; i < t->n; i++) go(t->el[0], off + i * t->el[0]->sizeB, (*v.agg)[i]);
	};
	go(t, a - o.base, v);
}
static u64 allocObj(State &s, u64 size, u64 align, u8 kind) {
	u64 &nx = kind == 3 ? s.stackNext : s.heapNext;
	if (align < 16) align = 16;
	nx = (nx + align - 1) / align * align;
	auto o = std::make_shared<Obj>(); o->base = nx; o->size = size; o->kind = kind; o->c.assign(size, 0);
	s.mem[nx] = o; u64 a = nx; nx += size + 64; return a;
}
static void freeObj(State &s, u64 a) {
	if (!a) return;
	auto it = s.mem.find(a);
	if (it == s.mem.end() || it->second->kind != 2) die(s, "memory", "free of invalid pointer");
	if (it->second->freed) die(s, "memory", "double free");
	auto o = std::make_shared<Obj>(); o->base = it->second->base; o->size = it->second->size; o->kind = 2; o->freed = true; it->second = o;
}
static void copyMem(State &s, u64 d, u64 src, u64 n) {
	if (!n) return;
	OP sp = *([&]() { objFor(s, src, n, false); return findObj(s, src); }()); // hold source (COW safe)
	Obj &D = objFor(s, d, n, true);
	const Obj &S = *sp; bool self = &S == &D;
	u64 so = src - S.base, dof = d - D.base;
	if (self) {
		std::vector<u8> c(S.c.begin() + so, S.c.begin() + so + n); std::vector<E> e; if (!S.s.empty()) e.assign(S.s.begin() + so, S.s.begin() + so + n);
		memcpy(&D.c[dof], c.data(), n); if (!e.empty()) memcpy(&D.s[dof], e.data(), n * sizeof(E));
		return;
	}
	memcpy(&D.c[dof], &S.c[so], n);
	if (!S.s.empty()) {
		bool any = !D.s.empty();
		if (!any) for (u64 i = 0; i < n; i++) if (S.s[so + i]) { any = true; break; }
		if (any) { if (D.s.empty()) D.s.resize(D.size, nullptr); memcpy(&D.s[dof], &S.s[so], n * sizeof(E)); }
	} else if (!D.s.empty()) for (u64 i = 0; i < n; i++) D.s[dof + i] = nullptr;
}
static E byteAt(State &s, u64 a) { Obj &o = objFor(s, a, 1, false); return byteE(o, a - o.base); }
static std::string readStr(State &s, u64 a, u64 n) { std::string r; for (u64 i = 0; i < n; i++) { E e = byteAt(s, a + i); r += isC(e) ? (char)e->c : '?'; } return r; }

// --------------------------------------------------------- scalar ops
static Val bin(EK k, const Val &a, const Val &b) {
	if (a.agg) { std::vector<Val> x; for (size_t i = 0; i < a.agg->size(); i++) x.push_back(bin(k, (*a.agg)[i], (*b.agg)[i])); return mkAgg(x); }
	if (!a.e && !b.e) { bool cmp = k >= EK::Eq && k <= EK::Sle; return cv(cmp ? 1 : a.w, foldBin(k, a.c, b.c, a.w)); }
	return ev(mkBin(k, ex(a), ex(b)));
}
static Val icmp(int p, const Val &a, const Val &b) {
	if (a.agg) { std::vector<Val> x; for (size_t i = 0; i < a.agg->size(); i++) x.push_back(icmp(p, (*a.agg)[i], (*b.agg)[i])); return mkAgg(x); }
	switch (p) {
	case 0: return bin(EK::Eq, a, b);
	case 1: { Val r = bin(EK::Eq, a, b); return r.e ? ev(mkNot(r.e)) : cv(1, !r.c); }
	case 2: return bin(EK::Ult, a, b);
	case 3: return bin(EK::Ule, a, b);
	case 4: return bin(EK::Ult, b, a);
	case 5: return bin(EK::Ule, b, a);
	case 6: return bin(EK::Slt, a, b);
	case 7: return bin(EK::Sle, a, b);
	case 8: return bin(EK::Slt, b, a);
	default: return bin(EK::Sle, b, a);
	}
}
static Val cast(Op op, const Val &a, u32 w) {
	if (a.agg) { std::vector<Val> x; for (auto &v : *a.agg) x.push_back(cast(op, v, w)); return mkAgg(x); }
	if (op == Op::Trunc) return a.e ? ev(mkExtract(a.e, 0, w)) : cv(w, a.c);
	if (op == Op::ZExt) return a.e || w > 128 ? ev(mkZExt(ex(a), w)) : cv(w, a.c);
	if (!a.e && w <= 128) { u128 c = a.c; if ((c >> (a.w - 1)) & 1) c |= ~maskw(a.w); return cv(w, c); }
	return ev(mkSExt(ex(a), w));
}
static Val ite(const Val &c, const Val &a, const Val &b) {
	if (c.agg) { std::vector<Val> x; for (size_t i = 0; i < c.agg->size(); i++) x.push_back(ite((*c.agg)[i], (*a.agg)[i], (*b.agg)[i])); return mkAgg(x); }
	if (!c.e) return c.c ? a : b;
	if (a.agg) { std::vector<Val> x; for (size_t i = 0; i < a.agg->size(); i++) x.push_back(ite(c, (*a.agg)[i], (*b.agg)[i])); return mkAgg(x); }
	return ev(mkIte(c.e, ex(a), ex(b)));
}
static Val bitcast(const Val &v, Type *from, Type *to) {
	if (!from->isAgg() && !to->isAgg()) return v;
	E all;
	if (from->k == Type::Vector) { all = ex((*v.agg)[0]); for (u64 i = 1; i < from->n; i++) all = mkConcat(ex((*v.agg)[i]), all); }
	else all = ex(v);
	if (to->k != Type::Vector) return ev(all);
	u32 w = scalarBits(to->el[0]); std::vector<Val> x;
	for (u64 i = 0; i < to->n; i++) x.push_back(ev(mkExtract(all, i * w, w)));
	return mkAgg(x);
}
static Val map1(const Val &a, const std::function<Val(const Val &)> &f) { if (a.agg) { std::vector<Val> x; for (auto &v : *a.agg) x.push_back(f(v)); return mkAgg(x); } return f(a); }

static void reportPanic(State &s, const std::vector<Val> &args) {
	// last pointer argument that decodes as a core::panic::Location
	std::string loc;
	for (size_t k = args.size(); k-- > 0 && loc.empty();) {
		if (args[k].e || args[k].agg || args[k].w != 64) continue;
		u64 a = (u64)args[k].c; OP *p = findObj(s, a);
		if (!p || (*p)->freed || a + 24 > (*p)->base + (*p)->size) continue;
		Obj &o = **p; Val fp = readBytes(o, a - o.base, 64), fl = readBytes(o, a - o.base + 8, 64), ln = readBytes(o, a - o.base + 16, 32);
		if (fp.e || fl.e || ln.e || fl.c > 400) continue;
		OP *q = findObj(s, (u64)fp.c); if (!q || (u64)fp.c + fl.c > (*q)->base + (*q)->size) continue;
		loc = readStr(s, (u64)fp.c, (u64)fl.c) + ":" + std::to_string((u32)ln.c);
	}
	std::string ul = stackLoc(s);
	violation(s, "panic", ul.empty() ? loc : ul, loc, s.model);
	throw Killed();
}

static u32 newVars(State &s, u32 n) { u32 b = s.nvars; s.nvars += n; s.model.resize(s.nvars, 0); return b; }

static bool g_goOn = false; // explore a path further after a violation on it
static void doAssert(State &s, const Val &c, const std::string &msg) {
	g_stats.asserts++;
	if (!c.e) { if (!c.c) { violation(s, "assert", "", msg, s.model); throw Killed(); } return; }
	if (!evalB(c.e, s)) {
		violation(s, "assert", "", msg, s.model);
		if (!g_goOn) throw Killed();
		std::vector<u8> m; int r = qcheck(s, c.e, &m);
		if (r < 0) unknownResult("assert");
		if (r != 1) throw Killed();
		s.model = m; s.pc.push_back(c.e); return;
	}
	std::vector<u8> m; g_stats.assertQ++;
	int r = qcheck(s, mkNot(c.e), &m);
	if (r < 0) unknownResult("assert");
	if (r == 1) { violation(s, "assert", "", msg, m); if (!g_goOn) throw Killed(); s.pc.push_back(c.e); }
}

// returns true if handled in place (value in out), false if frame pushed
static Val builtin(State &s, Inst &I, int bi, std::vector<Val> &a) {
	auto C = [&](int i) { return (u64)concretize(s, a[i], "builtin-arg"); };
	switch (bi) {
	case B_ignore: return Val();
	case B_memcpy: case B_memmove: { u64 n = C(2), d = C(0), sr = C(1); copyMem(s, d, sr, n); return a[0]; }
	case B_memset: {
		u64 n = C(2), d = C(0); if (!n) return a[0];
		Obj &o = objFor(s, d, n, true); u64 off = d - o.base; Val b = cast(Op::Trunc, a[1], 8);
		if (!b.e) { memset(&o.c[off], (int)b.c, n); if (!o.s.empty()) for (u64 i = 0; i < n; i++) o.s[off + i] = nullptr; }
		else for (u64 i = 0; i < n; i++) writeBytes(o, off + i, b);
		return a[0];
	}
	case B_umin: return ite(icmp(2, a[0], a[1]), a[0], a[1]);
	case B_umax: return ite(icmp(4, a[0], a[1]), a[0], a[1]);
	case B_smin: return ite(icmp(6, a[0], a[1]), a[0], a[1]);
	case B_smax: return ite(icmp(8, a[0], a[1]), a[0], a[1]);
	case B_usubsat: return ite(icmp(5, a[0], a[1]), bin(EK::Sub, a[0], a[1]), map1(a[0], [](const Val &v) { return cv(v.w, 0); }));
	case B_uaddsat: { Val r = bin(EK::Add, a[0], a[1]); return ite(icmp(2, r, a[0]), map1(r, [](const Val &v) { return cv(v.w, ~(u128)0); }), r); }
	case B_ctpop: case B_ctlz: case B_cttz: return map1(a[0], [&](const Val &v) -> Val {
		u32 w = v.w;
		if (!v.e) { u32 n = 0; if (bi == B_ctpop) { for (u32 i = 0; i < w; i++) n += (v.c >> i) & 1; } else if (bi == B_cttz) { while (n < w && !((v.c >> n) & 1)) n++; } else { while (n < w && !((v.c >> (w - 1 - n)) & 1)) n++; } return cv(w, n); }
		if (bi == B_ctpop) { E r = mkConst(w, 0); for (u32 i = 0; i < w; i++) r = mkBin(EK::Add, r, mkZExt(mkExtract(v.e, i, 1), w)); return ev(r); }
		E r = mkConst(w, w);
		if (bi == B_cttz) { for (u32 i = w; i-- > 0;) r = mkIte(mkExtract(v.e, i, 1), mkConst(w, i), r); }
		else for (u32 i = 0; i < w; i++) r = mkIte(mkExtract(v.e, i, 1), mkConst(w, w - 1 - i), r);
		return ev(r); });
	case B_fshl: case B_fshr: {
		auto f = [&](const Val &x, const Val &y, const Val &z) -> Val {
			u32 w = x.w; Val sh = bin(EK::URem, z, cv(w, w)); Val inv = bin(EK::Sub, cv(w, w), sh);
			Val l, r; if (bi == B_fshl) { l = bin(EK::Shl, x, sh); r = bin(EK::LShr, y, inv); } else { l = bin(EK::Shl, x, inv); r = bin(EK::LShr, y, sh); }
			return bin(EK::Or, l, r); };
		if (a[0].agg) { std::vector<Val> x; for (size_t i = 0; i < a[0].agg->size(); i++) x.push_back(f((*a[0].agg)[i], (*a[1].agg)[i], (*a[2].agg)[i])); return mkAgg(x); }
		return f(a[0], a[1], a[2]);
	}
	case B_abs: return map1(a[0], [&](const Val &v) { Val z = cv(v.w, 0); return ite(icmp(6, v, z), bin(EK::Sub, z, v), v); });
	case B_uaddo: { Val r = bin(EK::Add, a[0], a[1]); return mkAgg({r, icmp(2, r, a[0])}); }
	case B_usubo: return mkAgg({bin(EK::Sub, a[0], a[1]), icmp(2, a[0], a[1])});
	case B_umulo: { u32 w = a[0].w; if (w > 64) fatal("umulo wide"); Val r = bin(EK::Mul, cast(Op::ZExt, a[0], 2 * w), cast(Op::ZExt, a[1], 2 * w)); return mkAgg({cast(Op::Trunc, r, w), icmp(4, r, cv(2 * w, maskw(w)))}); }
	case B_saddo: case B_ssubo: case B_smulo: {
		u32 w = a[0].w; if (w > 64) fatal("saddo wide"); EK k = bi == B_saddo ? EK::Add : bi == B_ssubo ? EK::Sub : EK::Mul;
		Val r = bin(k, cast(Op::SExt, a[0], 2 * w), cast(Op::SExt, a[1], 2 * w)); Val t = cast(Op::Trunc, r, w); return mkAgg({t, icmp(1, r, cast(Op::SExt, t, 2 * w))}); }
	case B_ucmp: case B_scmp: { u32 w = scalarBits(I.ty); return ite(icmp(bi == B_ucmp ? 2 : 6, a[0], a[1]), cv(w, ~(u128)0), ite(icmp(0, a[0], a[1]), cv(w, 0), cv(w, 1))); }
	case B_bswap: return map1(a[0], [](const Val &v) -> Val { if (!v.e) { u128 r = 0; for (u32 i = 0; i < v.w; i += 8) r |= ((v.c >> i) & 0xff) << (v.w - 8 - i); return cv(v.w, r); }
		E r = mkExtract(v.e, 0, 8); for (u32 i = 8; i < v.w; i += 8) r = mkConcat(r, mkExtract(v.e, i, 8)); return ev(r); });
	case B_bitreverse: return map1(a[0], [](const Val &v) -> Val { E x = ex(v); E r = mkExtract(x, 0, 1); for (u32 i = 1; i < v.w; i++) r = mkConcat(r, mkExtract(x, i, 1)); return ev(r); });
	case B_isconst: return cv(1, 0);
	case B_tls: case B_expect: return a[0];
	case B_ptrmask: return bin(EK::And, a[0], a[1]);
	case B_loadrel: { Val p = bin(EK::Add, a[0], a[1]); Val o = loadScalar(s, p, 32); return bin(EK::Add, a[0], cast(Op::SExt, o, 64)); }
	case B_redand: case B_redor: case B_redadd: { Val r = (*a[0].agg)[0]; for (size_t i = 1; i < a[0].agg->size(); i++) r = bin(bi == B_redand ? EK::And : bi == B_redor ? EK::Or : EK::Add, r, (*a[0].agg)[i]); return r; }
	case B_trap: case B_abort: die(s, "abort", "abort/trap reached");
	case B_panic: case B_unwindpanic: reportPanic(s, a); return Val();
	case B_malloc: { u64 n = C(0); if (n > (1ull << 30)) die(s, "memory", "huge allocation"); return cv(64, allocObj(s, n, 16, 2)); }
	case B_calloc: { u64 n = C(0), m = C(1); if (n * m > (1ull << 30)) die(s, "memory", "huge allocation"); return cv(64, allocObj(s, n * m, 16, 2)); }
	case B_ralloc: case B_ralloc_zeroed: { u64 n = C(0), al = C(1); if (n > (1ull << 30)) die(s, "memory", "huge allocation"); return cv(64, allocObj(s, n, al, 2)); }
	case B_rdealloc: freeObj(s, C(0)); return Val();
	case B_rrealloc: case B_realloc: {
		u64 p = C(0), n = bi == B_realloc ? C(1) : C(3); if (n > (1ull << 30)) die(s, "memory", "huge allocation");
		u64 q = allocObj(s, n, bi == B_realloc ? 16 : (u64)a[2].c, 2);
		if (p) { Obj &o = objFor(s, p, 0, false); copyMem(s, q, p, std::min(n, o.size)); freeObj(s, p); }
		return cv(64, q);
	}
	case B_posix_memalign: { u64 p = C(0), al = C(1), n = C(2); u64 q = allocObj(s, n, al, 2); storeVal(s, cv(64, p), prim(Type::Int, 64), cv(64, q)); return cv(32, 0); }
	case B_free: freeObj(s, C(0)); return Val();
	case B_bcmp: {
		u64 n = C(2), p = C(0), q = C(1); E eq = mkConst(1, 1);
		for (u64 i = 0; i < n; i++) { eq = mkBin(EK::And, mkBin(EK::Eq, byteAt(s, p + i), byteAt(s, q + i)), eq); if (isC(eq) && !eq->c) break; }
		return ev(mkIte(eq, mkConst(32, 0), mkConst(32, 1)));
	}
	case B_memcmp: {
		u64 n = C(2), p = C(0), q = C(1); E r = mkConst(32, 0);
		for (u64 i = n; i-- > 0;) { E x = byteAt(s, p + i), y = byteAt(s, q + i); r = mkIte(mkBin(EK::Eq, x, y), r, mkIte(mkBin(EK::Ult, x, y), mkConst(32, ~(u128)0), mkConst(32, 1))); }
		return ev(r);
	}
	case B_strlen: { u64 p = C(0), n = 0; while (true) { E b = byteAt(s, p + n); if (!isC(b)) fatal("symbolic strlen"); if (!b->c) break; n++; } return cv(64, n); }
	case B_memchr: case B_memrchr: {
		u64 p = C(0), n = C(2); E c = mkExtract(ex(a[1]), 0, 8);
		for (u64 k = 0; k < n; k++) { u64 i = bi == B_memchr ? k : n - 1 - k; if (decide(s, mkBin(EK::Eq, byteAt(s, p + i), c), "memchr")) return cv(64, p + i); }
		return cv(64, 0);
	}
	case B_errno: { static u64 key = 0; (void)key; auto it = s.mem.find(0x600000000ull); if (it == s.mem.end()) { auto o = std::make_shared<Obj>(); o->base = 0x600000000ull; o->size = 4; o->kind = 2; o->c.assign(4, 0); s.mem[o->base] = o; } return cv(64, 0x600000000ull); }
	case B_zeroret: return undefOf(I.ty);
	case B_hashkeys: return mkAgg({cv(64, 0x0123456789abcdefull), cv(64, 0xfedcba9876543210ull)});
	// ---- harness API
	case N_sym: {
		u64 p = C(0), n = C(1); u32 b = newVars(s, n); if (!n) return Val();
		Obj &o = objFor(s, p, n, true); for (u64 i = 0; i < n; i++) writeBytes(o, p - o.base + i, ev(mkVar(b + i)));
		return Val();
	}
	case N_assume: {
		Val c = a[0]; if (c.w > 1) c = cast(Op::Trunc, c, 1);
		if (!c.e) { if (!c.c) { g_assumedAway++; throw Killed(); } return Val(); }
		if (!evalB(c.e, s)) { std::vector<u8> m; int r = qcheck(s, c.e, &m); if (r < 0) unknownResult("assume"); if (r != 1) { g_assumedAway++; throw Killed(); } s.model = m; }
		s.pc.push_back(c.e); return Val();
	}
	case N_assert: { u64 p = C(1), n = C(2); Val c = a[0]; if (c.w > 1) c = cast(Op::Trunc, c, 1); doAssert(s, c, readStr(s, p, n)); return Val(); }
	case N_cover: { u64 p = C(0), n = C(1); auto k = readStr(s, p, n); g_covers[k]++; return Val(); }
	case N_choose: {
		u64 n = C(0); if (!n) { g_assumedAway++; throw Killed(); }
		u32 b = newVars(s, 4);
		E v = mkConcat(mkVar(b + 3), mkConcat(mkVar(b + 2), mkConcat(mkVar(b + 1), mkVar(b))));
		for (u64 k = n; k-- > 1;) {
			auto o = clone(s); o->pc.push_back(mkBin(EK::Eq, v, mkConst(32, k)));
			for (int i = 0; i < 4; i++) o->model[b + i] = (u8)(k >> (8 * i));
			o->depth++;
			o->top().r[I.dst] = cv(32, k);
			if (!I.tgt.empty()) fatal("choose via invoke");
			g_work.push_back(std::move(o)); g_stats.forks++;
		}
		s.pc.push_back(mkBin(EK::Eq, v, mkConst(32, 0)));
		return cv(32, 0);
	}
	case N_concretize: return cv(a[0].w, concretize(s, a[0], "nsx_concretize"));
	case N_prune: g_pruned++; throw Killed();
	case N_end: throw Ended();
	case N_obs: s.obs.push_back(a[0]); return Val();
	case N_uf: {
		u64 fid = C(0), ip = C(1), il = C(2), op = C(3), ol = C(4);
		auto call = std::make_shared<UfCall>(); call->fid = fid;
		for (u64 i = 0; i < il; i++) {
			E e = byteAt(s, ip + i), x = e;
			if (hasArith(e, 6)) {
				while (x->k == EK::Extract) x = x->a;
				// constant plus one bit (a branch turned into arithmetic): split, for inputs that compare by syntax
				if (x->k == EK::Add && isC(x->b) && x->a->k == EK::Concat && isC(x->a->a) && x->a->b->w == 1) e = mkConst(8, concretize(s, ev(e), "uf input"));
				else { E c = mkConst(8, evalE(e, s.model)); std::vector<u8> m; if (qcheck(s, mkNot(mkBin(EK::Eq, e, c)), &m) == 0) e = c; }
			}
			call->in.push_back(e);
		}
		u32 b = newVars(s, ol);
		for (u64 i = 0; i < ol; i++) { u64 h = (fid + 1) * 1000003 + (s.ufs.size() + 1) * 7919 + i * 131; s.model[b + i] = (u8)(h ^ (h >> 8)); }
		bool same = false;
		for (auto &u : s.ufs) {
			if (u->fid != fid || u->in.size() != il || u->out.size() != ol) continue;
			if (u->in == call->in) { call->out = u->out; same = true; break; }
		}
		if (!same) {
			for (u64 i = 0; i < ol; i++) call->out.push_back(mkVar(b + i));
			// model consistency first
			for (auto &u : s.ufs) {
				if (u->fid != fid || u->in.size() != il || u->out.size() != ol) continue;
				bool eq = true; for (u64 i = 0; i < il && eq; i++) eq = evalE(u->in[i], s.model) == evalE(call->in[i], s.model);
				if (eq) { for (u64 i = 0; i < ol; i++) s.model[b + i] = (u8)evalE(u->out[i], s.model); break; }
			}
			s.ufs.push_back(call);
		}
		if (ol) { Obj &o = objFor(s, op, ol, true); for (u64 i = 0; i < ol; i++) writeBytes(o, op - o.base + i, ev(call->out[i])); }
		return Val();
	}
	default: break;
	}
	fatal("unknown external function " + I.name + " in " + g_curF->name);
}

static void gotoBlock(Frame &f, int b) {
	f.prev = f.blk; f.blk = b; Block &B = f.f->blocks[b]; f.ip = B.first;
	if (!B.nphi) return;
	std::vector<Val> tmp(B.nphi);
	for (int i = 0; i < B.nphi; i++) {
		Inst &P = f.f->ins[B.first + i]; bool ok = false;
		for (size_t k = 0; k < P.tgt.size(); k++) if (P.tgt[k] == f.prev) { tmp[i] = P.ops[k].reg >= 0 ? f.r[P.ops[k].reg] : P.ops[k].c; ok = true; break; }
		if (!ok) fatal("phi");
	}
	for (int i = 0; i < B.nphi; i++) f.r[f.f->ins[B.first + i].dst] = std::move(tmp[i]);
	f.ip += B.nphi;
}
static void branchOther(State &s, std::vector<u8> m, E cond, int tgt) {
	auto o = clone(s); o->pc.push_back(cond); o->model = std::move(m); o->depth++; gotoBlock(o->top(), tgt);
	g_work.push_back(std::move(o)); g_stats.forks++;
}
static void pushCall(State &s, Func *fn, std::vector<Val> args, int dst, int norm) {
	if (!fn->parsed) parseBody(fn);
	auto nf = std::make_shared<Frame>(); nf->f = fn; nf->r.resize(fn->nregs); nf->retDst = dst; nf->normDest = norm;
	for (size_t i = 0; i < fn->params.size() && i < args.size(); i++) nf->r[fn->params[i]] = args[i];
	if (s.fr.size() > 400) fatal("stack depth");
	s.fr.push_back(nf);
	gotoBlock(*nf, 0);
}

// run one state until it ends (throws Killed) or the entry function returns
static void run(State &s) {
	while (true) {
		Frame &f = s.top();
		Inst &I = f.f->ins[f.ip++];
		g_cur = &I; g_curF = f.f;
		if (!I.seen) { I.seen = true; if (I.dbg >= 0) g_dbgSeen.insert(I.dbg); }
		g_stats.insts++;
		if (++s.steps > g_maxSteps) die(s, "steps", "step limit exceeded (possible non-termination)");
		auto V = [&](int i) -> const Val & { auto &o = I.ops[i]; return o.reg >= 0 ? f.r[o.reg] : o.c; };
		switch (I.op) {
		case Op::Bin: {
			EK k = (EK)I.sub; const Val &a = V(0), &b = V(1);
			if (!a.agg && (k == EK::UDiv || k == EK::SDiv || k == EK::URem || k == EK::SRem)) {
				if (decide(s, mkBin(EK::Eq, ex(b), mkConst(b.w, 0)), "div0")) die(s, "memory", "division by zero");
			}
			f.r[I.dst] = bin(k, a, b); break;
		}
		case Op::ICmp: f.r[I.dst] = icmp(I.sub, V(0), V(1)); break;
		case Op::Trunc: case Op::ZExt: case Op::SExt: f.r[I.dst] = cast(I.op, V(0), I.ty2->k == Type::Vector ? scalarBits(I.ty2->el[0]) : scalarBits(I.ty2)); break;
		case Op::Bitcast: f.r[I.dst] = bitcast(V(0), I.ty, I.ty2); break;
		case Op::Copy: f.r[I.dst] = V(0); break;
		case Op::Load: { Val v = loadVal(s, V(0), I.ty); s.top().r[I.dst] = std::move(v); break; }
		case Op::Store: storeVal(s, V(1), I.ty, V(0)); break;
		case Op::Gep: {
			Val a = V(0);
			if (I.off) a = bin(EK::Add, a, cv(64, I.off));
			for (size_t i = 0; i < I.idx.size(); i++) { Val x = V(i + 1); if (x.w < 64) x = cast(Op::SExt, x, 64); else if (x.w > 64) x = cast(Op::Trunc, x, 64); if (I.idx[i] != 1) x = bin(EK::Mul, x, cv(64, I.idx[i])); a = bin(EK::Add, a, x); }
			f.r[I.dst] = a; break;
		}
		case Op::Alloca: { u64 n = (u64)concretize(s, V(0), "alloca"); u64 a = allocObj(s, n * I.ty->sizeB, I.off, 3); Frame &g = s.top(); g.allocas.push_back(a); g.r[I.dst] = cv(64, a); break; }
		case Op::Br: gotoBlock(f, I.tgt[0]); break;
		case Op::CondBr: {
			const Val &c = V(0);
			if (!c.e) { gotoBlock(f, I.tgt[c.c ? 0 : 1]); break; }
			if (I.tgt[0] == I.tgt[1]) { gotoBlock(f, I.tgt[0]); break; }
			E ce = c.e; bool v = evalB(ce, s); E side = v ? ce : mkNot(ce), oth = mkNot(side);
			std::vector<u8> m; int r = qcheck(s, oth, &m);
			if (r < 0) unknownResult("branch");
			if (r == 1) { branchOther(s, std::move(m), oth, I.tgt[v ? 1 : 0]); s.pc.push_back(side); }
			gotoBlock(s.top(), I.tgt[v ? 0 : 1]); break;
		}
		case Op::Switch: {
			Val c = V(0);
			if (!c.e) { int t = I.tgt[0]; for (size_t i = 0; i < I.cases.size(); i++) if ((I.cases[i] & maskw(c.w)) == c.c) { t = I.tgt[i + 1]; break; } gotoBlock(f, t); break; }
			// group by target
			std::map<int, E> conds; E def = mkConst(1, 1);
			for (size_t i = 0; i < I.cases.size(); i++) { E q = mkBin(EK::Eq, c.e, mkConst(c.w, I.cases[i])); auto &x = conds[I.tgt[i + 1]]; x = x ? mkBin(EK::Or, x, q) : q; def = mkBin(EK::And, def, mkNot(q)); }
			{ auto &x = conds[I.tgt[0]]; x = x ? mkBin(EK::Or, x, def) : def; }
			int mine = -1; E mc = nullptr;
			for (auto &kv : conds) if (evalB(kv.second, s)) { mine = kv.first; mc = kv.second; break; }
			if (mine < 0) fatal("switch");
			bool forked = false;
			for (auto &kv : conds) {
				if (kv.first == mine) continue;
				if (isC(kv.second) && !kv.second->c) continue;
				std::vector<u8> m; int r = qcheck(s, kv.second, &m);
				if (r < 0) unknownResult("switch");
				if (r == 1) { branchOther(s, std::move(m), kv.second, kv.first); forked = true; }
			}
			if (forked) s.pc.push_back(mc);
			gotoBlock(s.top(), mine); break;
		}
		case Op::Select: {
			const Val &c = V(0);
			f.r[I.dst] = ite(c, V(1), V(2)); break;
		}
		case Op::ExtractV: { Val v = V(0); for (auto i : I.idx) { Val t = (*v.agg)[i]; v = t; } f.r[I.dst] = v; break; }
		case Op::InsertV: {
			Val v = V(0); Val x = V(1);
			std::function<Val(const Val &, size_t)> ins = [&](const Val &b, size_t d) -> Val { if (d == I.idx.size()) return x; std::vector<Val> c = *b.agg; c[I.idx[d]] = ins(c[I.idx[d]], d + 1); return mkAgg(std::move(c)); };
			f.r[I.dst] = ins(v, 0); break;
		}
		case Op::ExtractE: { u64 i = (u64)concretize(s, V(1), "ee"); Frame &g = s.top(); Val v = I.ops[0].reg >= 0 ? g.r[I.ops[0].reg] : I.ops[0].c; g.r[I.dst] = Val((*v.agg)[i]); break; }
		case Op::InsertE: { u64 i = (u64)concretize(s, V(2), "ie"); Frame &g = s.top(); Val v = I.ops[0].reg >= 0 ? g.r[I.ops[0].reg] : I.ops[0].c; Val x = I.ops[1].reg >= 0 ? g.r[I.ops[1].reg] : I.ops[1].c; std::vector<Val> c = *v.agg; c[i] = x; g.r[I.dst] = mkAgg(std::move(c)); break; }
		case Op::Shuffle: {
			const Val a = V(0), b = V(1); std::vector<Val> x; u64 n = a.agg->size();
			for (auto i : I.idx) { i &= 0xffffffff; x.push_back(i < n ? (*a.agg)[i] : i < 2 * n ? (*b.agg)[i - n] : (*a.agg)[0]); }
			f.r[I.dst] = mkAgg(std::move(x)); break;
		}
		case Op::RMW: {
			Val p = cv(64, concretize(s, V(0), "rmw")); Val x = V(1); Val old = loadVal(s, p, I.ty); Val nw;
			const std::string &n = I.name;
			if (n == "xchg") nw = x; else if (n == "add") nw = bin(EK::Add, old, x); else if (n == "sub") nw = bin(EK::Sub, old, x); else if (n == "and") nw = bin(EK::And, old, x); else if (n == "or") nw = bin(EK::Or, old, x); else if (n == "xor") nw = bin(EK::Xor, old, x);
			else if (n == "umax") nw = ite(icmp(4, old, x), old, x); else if (n == "umin") nw = ite(icmp(2, old, x), old, x); else fatal("rmw " + n);
			storeVal(s, p, I.ty, nw); s.top().r[I.dst] = old; break;
		}
		case Op::CmpXchg: {
			Val p = cv(64, concretize(s, V(0), "cx")); Val ex_ = V(1), nw = V(2); Val old = loadVal(s, p, I.ty); Val eq = icmp(0, old, ex_);
			storeVal(s, p, I.ty, ite(eq, nw, old)); s.top().r[I.dst] = mkAgg({old, eq}); break;
		}
		case Op::Nop: break;
		case Op::Unreachable: die(s, "unreachable", "unreachable code executed");
		case Op::Ret: {
			Val v; if (!I.ops.empty()) v = V(0);
			for (auto a : f.allocas) s.mem.erase(a);
			int dst = f.retDst, norm = f.normDest;
			s.fr.pop_back();
			if (s.fr.empty()) return;
			Frame &c = s.top(); if (dst >= 0) c.r[dst] = v;
			if (norm >= 0) gotoBlock(c, norm);
			break;
		}
		case Op::Call: {
			if (I.bi == -2) { if (I.dst >= 0) f.r[I.dst] = undefOf(I.ty); if (!I.tgt.empty()) gotoBlock(f, I.tgt[0]); break; }
			Func *fn = I.callee; size_t st = 0; int bi = I.bi;
			if (bi == -1) { u64 a = (u64)concretize(s, V(0), "indirect call"); auto it = g_faddr.find(a); if (it == g_faddr.end()) die(s, "memory", "call through invalid pointer"); fn = it->second; st = 1; bi = builtinOf(fn); }
			Frame &g = s.top();
			std::vector<Val> args; for (size_t i = st; i < I.ops.size(); i++) args.push_back(I.ops[i].reg >= 0 ? g.r[I.ops[i].reg] : I.ops[i].c);
			if (bi == N_utf8) {
				// concrete or fork-free fast path: all bytes provably ASCII -> run natively otherwise
				bi = B_NONE;
			}
			if (bi != B_NONE) {
				if (bi == B_unknown) { I.name = fn->name; }
				Val r = builtin(s, I, bi, args);
				Frame &h = s.top();
				if (I.dst >= 0) h.r[I.dst] = r;
				if (!I.tgt.empty()) gotoBlock(h, I.tgt[0]);
				break;
			}
			pushCall(s, fn, std::move(args), I.dst, I.tgt.empty() ? -1 : I.tgt[0]);
			break;
		}
		case Op::Phi: fatal("phi executed");
		case Op::Unsupported: fatal("unsupported instruction: " + I.name);
		}
	}
}

// --------------------------------------------------------- output
static std::string jstr(const std::string &s) {
	std::string r = "\""; char b[8];
	for (u8 c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; }
	return r + "\"";
}
static std::string hex(const std::vector<u8> &v) { std::string r; char b[4]; for (auto c : v) { snprintf(b, 4, "%02x", c); r += b; } return r; }
static void writeOut() {
	std::string p = g_outPath + ".part." + std::to_string(getpid());
	FILE *f = fopen((p + ".tmp").c_str(), "w"); if (!f) _exit(4);
	for (auto &p : g_prof) fprintf(stderr, "PROF %7.1fs %6llu %s\n", p.second.second, (unsigned long long)p.second.first, p.first.c_str());
	fprintf(f, "{\"paths\":%llu,\"forks\":%llu,\"insts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"solver_s\":%.3f,\"pruned\":%llu,\"assumed_away\":%llu,\n", (unsigned long long)g_stats.paths, (unsigned long long)g_stats.forks, (unsigned long long)g_stats.insts, (unsigned long long)g_stats.queries, (unsigned long long)g_stats.sat, (unsigned long long)g_stats.unsat, (unsigned long long)g_stats.unknown, (unsigned long long)g_stats.asserts, (unsigned long long)g_stats.assertQ, g_stats.solverS, (unsigned long long)g_pruned, (unsigned long long)g_assumedAway);
	fprintf(f, "\"incomplete\":%s,\"incomplete_why\":%s,\n\"covers\":{", g_incomplete ? "true" : "false", jstr(g_incompleteWhy).c_str());
	bool first = true;
	for (auto &kv : g_covers) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
	fprintf(f, "},\n\"violations\":["); first = true;
	for (auto &v : g_viols) { fprintf(f, "%s{\"kind\":%s,\"loc\":%s,\"msg\":%s,\"stream\":\"%s\"}", first ? "" : ",\n", jstr(v.kind).c_str(), jstr(v.loc).c_str(), jstr(v.msg).c_str(), hex(v.stream).c_str()); first = false; }
	fprintf(f, "],\n\"samples\":["); first = true;
	for (auto &v : g_samples) { fprintf(f, "%s{\"stream\":\"%s\",\"obs\":[", first ? "" : ",\n", hex(v.stream).c_str()); for (size_t i = 0; i < v.obs.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)v.obs[i]); fprintf(f, "]}"); first = false; }
	fprintf(f, "],\n\"functions\":{"); first = true;
	// functions and lines of the repository that were executed symbolically
	std::map<std::string, std::set<int>> fl; std::set<int> done;
	for (int d : g_dbgSeen) {
		int x = d;
		for (int i = 0; i < 80 && x >= 0; i++) {
			if (!done.insert(x).second) break;
			auto m = metaOf(x); int sp = subprogramOf(metaRef(m, "scope"));
			if (sp >= 0) { auto fi = fileOf(metaRef(metaOf(sp), "file")); if (size_t rn = inRoot(fi)) fl[fi.substr(rn) + " " + scopeChain(sp) + metaField(metaOf(sp), "name")].insert(atoi(metaField(m, "line").c_str())); }
			x = metaRef(m, "inlinedAt");
		}
	}
	for (auto &kv : fl) { fprintf(f, "%s%s:[", first ? "" : ",\n", jstr(kv.first).c_str()); bool q = true; for (int l : kv.second) { fprintf(f, "%s%d", q ? "" : ",", l); q = false; } fprintf(f, "]"); first = false; }
	fprintf(f, "}}\n"); fclose(f);
	rename((p + ".tmp").c_str(), p.c_str());
}

struct Shared { std::atomic<int> tokens; std::atomic<int> stop; };
static Shared *g_sh;
static bool takeToken() { int t = g_sh->tokens.load(); while (t > 0) if (g_sh->tokens.compare_exchange_weak(t, t - 1)) return true; return false; }

int main(int argc, char **argv) {
	{ // deep expression recursion: run with a large stack
		struct rlimit r; getrlimit(RLIMIT_STACK, &r); rlim_t want = 1ull << 30;
		if (r.rlim_cur != RLIM_INFINITY && r.rlim_cur < want && !getenv("NSX_STACK")) {
			r.rlim_cur = r.rlim_max == RLIM_INFINITY || r.rlim_max > want ? want : r.rlim_max;
			if (!setrlimit(RLIMIT_STACK, &r)) { setenv("NSX_STACK", "1", 1); execv("/proc/self/exe", argv); }
		}
	}
	std::string ll, entry, tokens; int maxViol = 12; u64 rss = 3000;
	(void)rss;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "--ll") ll = nx(); else if (a == "--entry") entry = nx(); else if (a == "--out") g_outPath = nx(); else if (a == "--tokens") tokens = nx();
		else if (a == "--max-steps") g_maxSteps = strtoull(nx().c_str(), nullptr, 10); else if (a == "--time") g_timeLimit = atof(nx().c_str()); else if (a == "--root") g_roots.push_back(nx());
		else if (a == "--solver-timeout") g_solver.timeoutMs = atoi(nx().c_str()); else if (a == "--samples") g_maxSamples = atoi(nx().c_str()); else if (a == "--go-on") g_goOn = true; else if (a == "--max-viol") maxViol = atoi(nx().c_str());
		else fatal("arg " + a);
	}
	g_t0 = std::chrono::steady_clock::now();
	if (!tokens.empty()) {
		int fd = open(tokens.c_str(), O_RDWR); if (fd < 0) fatal("tokens");
		g_sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	} else { g_sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_sh->tokens = 1; }
	Shared *loc = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); // stop flag for this harness
	while (!takeToken()) usleep(20000);
	parseModule(ll.c_str()); initGlobals(); g_solver.init();
	auto it = g_fmap.find(entry); if (it == g_fmap.end() || !it->second->defined) fatal("entry " + entry);
	auto s0 = std::make_unique<State>();
	pushCall(*s0, it->second, {}, -1, -1);
	g_work.push_back(std::move(s0));
	std::vector<pid_t> kids; bool root = true;
	std::vector<SP> keep;
	u64 seed = 88172645463325252ull;
	double lastFork = 0;
	while (!g_work.empty()) {
		double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count();
		if (t > g_timeLimit) { g_incomplete = true; g_incompleteWhy = "time limit"; break; }
		if (loc->stop.load() >= maxViol) { g_incomplete = true; g_incompleteWhy = "stopped after violations"; break; }
		if (g_work.size() >= 2 && t - lastFork > 0.05 && g_sh->tokens.load() > 0 && takeToken()) {
			lastFork = t;
			fflush(nullptr);
			pid_t p = fork();
			if (p == 0) {
				root = false; kids.clear();
				std::vector<SP> mine; for (size_t i = 0; i < g_work.size(); i += 2) mine.push_back(std::move(g_work[i]));
				g_work = std::move(mine);
				g_stats = Stats(); g_covers.clear(); g_viols.clear(); g_violCount.clear(); g_samples.clear(); g_sampleSeen = 0; g_pruned = g_assumedAway = 0; g_dbgSeen.clear(); g_incomplete = false;
				seed ^= (u64)getpid() * 0x9E3779B97F4A7C15ull;
				// mark instructions unseen again so that this worker reports its own coverage
				for (auto fn : g_funcs) for (auto &I : fn->ins) I.seen = false;
			} else if (p > 0) {
				kids.push_back(p);
				std::vector<SP> mine; for (size_t i = 1; i < g_work.size(); i += 2) mine.push_back(std::move(g_work[i]));
				g_work = std::move(mine);
			} else g_sh->tokens++;
			continue;
		}
		SP s = std::move(g_work.back()); g_work.pop_back();
		size_t vb = g_viols.size();
		try {
			try { run(*s); } catch (Ended &) {}
			g_stats.paths++;
			// reservoir of completed paths for native replay
			g_sampleSeen++; seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
			int slot = -1;
			if ((int)g_samples.size() < g_maxSamples) { g_samples.emplace_back(); slot = g_samples.size() - 1; }
			else { u64 r = seed % g_sampleSeen; if (r < (u64)g_maxSamples) slot = (int)r; }
			if (slot >= 0) { Sample sm; sm.stream = s->model; sm.stream.resize(s->nvars, 0); for (auto &o : s->obs) sm.obs.push_back((u64)(o.e ? evalE(o.e, s->model) : o.c)); g_samples[slot] = sm; }
		} catch (Killed &) { g_stats.paths++; }
		if (g_viols.size() > vb) loc->stop += (int)(g_viols.size() - vb);
	}
	writeOut();
	g_sh->tokens++;
	for (auto k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { FILE *f = fopen((g_outPath + ".fatal.k" + std::to_string(k)).c_str(), "w"); if (f) { fprintf(f, "worker died: status %d\n", st); fclose(f); } } }
	(void)root;
	return 0;
}
