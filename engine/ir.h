// LLVM textual IR reader for nsx (the symbolic executor used by /verif).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

[[noreturn]] void fatal(const std::string &msg);

// ---------------------------------------------------------------- types
struct Type {
	enum K { Void, Int, Ptr, Float, Array, Struct, Vector, Label, Meta, Opaque } k = Void;
	u32 bits = 0; // Int / Float
	u64 n = 0;    // Array / Vector
	bool packed = false;
	std::vector<Type *> el;
	u64 sizeB = 0, alignB = 1;
	std::vector<u64> offs;
	bool laid = false;
	bool isAgg() const { return k == Array || k == Struct || k == Vector; }
};

struct Lexer {
	std::string_view s;
	size_t p = 0;
	Lexer(std::string_view s) : s(s) {}
	void ws() {
		while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++;
	}
	bool end() {
		ws();
		return p >= s.size() || s[p] == ';' || s[p] == '\n';
	}
	char peekc() {
		ws();
		return p < s.size() ? s[p] : 0;
	}
	static bool wordc(char c) {
		return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-';
	}
	// token text; locals keep '%', globals '@', meta '!', quoted names are unquoted
	std::string next() {
		ws();
		if (p >= s.size()) return "";
		char c = s[p];
		if (c == '%' || c == '@' || c == '!' || c == '#') {
			std::string r(1, c);
			p++;
			if (p < s.size() && s[p] == '"') {
				p++;
				while (s[p] != '"') r += s[p++];
				p++;
				return r;
			}
			while (p < s.size() && wordc(s[p])) r += s[p++];
			return r;
		}
		if (c == '"') {
			std::string r = "\"";
			p++;
			while (s[p] != '"') r += s[p++];
			p++;
			return r;
		}
		if (wordc(c)) {
			size_t b = p;
			while (p < s.size() && wordc(s[p])) p++;
			// c"..." constant
			if (p - b == 1 && c == 'c' && p < s.size() && s[p] == '"') {
				std::string r = "c\"";
				p++;
				while (s[p] != '"') r += s[p++];
				p++;
				return r;
			}
			return std::string(s.substr(b, p - b));
		}
		p++;
		return std::string(1, c);
	}
	std::string peek() {
		size_t q = p;
		auto r = next();
		p = q;
		return r;
	}
	bool eat(const char *t) {
		size_t q = p;
		if (next() == t) return true;
		p = q;
		return false;
	}
	void expect(const char *t) {
		size_t q = p;
		auto r = next();
		if (r != t) fatal(std::string("parse: expected '") + t + "' got '" + r + "' in: " + std::string(s) + " at " + std::to_string(q));
	}
	void skipParens() { // at '('
		expect("(");
		int d = 1;
		while (d) {
			auto t = next();
			if (t.empty()) fatal("unbalanced parens: " + std::string(s));
			if (t == "(") d++;
			if (t == ")") d--;
		}
	}
};

std::string unescape(const std::string &s);
