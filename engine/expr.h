// Hash-consed bit-vector expressions and the z3 back end.
#pragma once
#include "ir.h"
#include <z3.h>
#include <chrono>

enum class EK : u8 { Const, Var, Concat, Extract, SExt, Not, And, Or, Xor, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite };

struct Expr {
	EK k;
	u32 w;
	u32 p = 0; // Extract: low bit; Var: index
	u128 c = 0;
	const Expr *a = nullptr, *b = nullptr, *d = nullptr;
	u32 id = 0;
	mutable Z3_ast zbv = nullptr, zbool = nullptr;
	mutable u32 stamp = 0;
	mutable u128 ev = 0;
	u32 hasVar = 0;
	u32 size = 1;
};
typedef const Expr *E;

static inline u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

struct EKey {
	EK k;
	u32 w, p;
	u128 c;
	E a, b, d;
	bool operator==(const EKey &o) const { return k == o.k && w == o.w && p == o.p && c == o.c && a == o.a && b == o.b && d == o.d; }
};
struct EHash {
	size_t operator()(const EKey &k) const {
		size_t h = (size_t)k.k * 0x9E3779B97F4A7C15ull;
		auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
		mix(k.w); mix(k.p); mix((u64)k.c); mix((u64)(k.c >> 64)); mix((u64)k.a); mix((u64)k.b); mix((u64)k.d);
		return h;
	}
};
extern std::unordered_map<EKey, E, EHash> g_exprs;

E mkConst(u32 w, u128 c); // w<=128
E mkVar(u32 idx);          // 8 bits
E mkConcat(E hi, E lo);
E mkExtract(E x, u32 lo, u32 w);
E mkZExt(E x, u32 w);
E mkSExt(E x, u32 w);
E mkBin(EK k, E a, E b); // And..AShr, Eq..Sle
E mkNot(E a);
E mkIte(E c, E a, E b);
inline bool isC(E e) { return e->k == EK::Const; }

struct Assign { // values for Var indices
	std::vector<u8> v;
};
u128 evalStamped(E e, const std::vector<u8> &m);
void newEvalStamp();
u128 evalE(E e, const std::vector<u8> &m); // w<=128 results
u128 foldBin(EK k, u128 a, u128 b, u32 w);
void newEvalStamp();

struct Stats {
	u64 queries = 0, sat = 0, unsat = 0, unknown = 0, paths = 0, forks = 0, insts = 0, asserts = 0, assertQ = 0, modelHits = 0, syntactic = 0;
	double solverS = 0;
};
extern Stats g_stats;

struct Solver {
	Z3_context ctx;
	Z3_solver sol;
	std::vector<E> stack;
	std::vector<Z3_ast> varAst;
	unsigned timeoutMs = 120000;
	void init();
	Z3_ast toBV(E e);
	Z3_ast toBool(E e);
	// 1 sat 0 unsat -1 unknown. extra may be null
	int check(const std::vector<E> &pc, E extra, std::vector<u8> *model, u32 nvars);
};
extern Solver g_solver;
