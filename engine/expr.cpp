#include "expr.h"
#include <z3.h>
#include <chrono>
#include <deque>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <unordered_set>

static std::deque<Expr> g_arena;
struct Key { Op op; uint8_t w; uint64_t k; E a, b, c; bool operator==(const Key& o) const { return op == o.op && w == o.w && k == o.k && a == o.a && b == o.b && c == o.c; } };
struct KeyH { size_t operator()(const Key& x) const {
	uint64_t h = (uint64_t)x.op * 0x9E3779B97F4A7C15ull + x.w; auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
	mix(x.k); mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.c); return h; } };
static std::unordered_map<Key, E, KeyH> g_tab;
static std::unordered_map<uint32_t, Leaves> g_leaves;
std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, E> g_varByName;
static const unsigned MAXLEAVES = 96;
size_t exprCount() { return g_arena.size(); }

static E mk(Op op, unsigned w, uint64_t k, E a, E b, E c) {
	Key key{op, (uint8_t)w, k, a, b, c};
	auto it = g_tab.find(key);
	if (it != g_tab.end()) return it->second;
	Expr e; e.op = op; e.w = w; e.k = k; e.a = a; e.b = b; e.c = c; e.id = g_arena.size(); e.nl = (op == Op::CONST) ? 1 : 0;
	g_arena.push_back(e);
	E r = &g_arena.back();
	g_tab.emplace(key, r);
	return r;
}
E mkConst(uint64_t v, unsigned w) { return mk(Op::CONST, w, v & maskw(w), nullptr, nullptr, nullptr); }
static E g_t, g_f;
E mkTrue() { if (!g_t) g_t = mkConst(1, 1); return g_t; }
E mkFalse() { if (!g_f) g_f = mkConst(0, 1); return g_f; }
E mkBool(bool b) { return b ? mkTrue() : mkFalse(); }
E mkVar(const std::string& name, unsigned w) {
	std::string key = name + "#" + std::to_string(w);
	auto it = g_varByName.find(key);
	if (it != g_varByName.end()) return it->second;
	E e = mk(Op::VAR, w, g_vars.size(), nullptr, nullptr, nullptr);
	g_vars.push_back({name, w});
	g_varByName[key] = e;
	return e;
}
E mkNot(E a) {
	if (a->isConst()) return mkConst(~a->k, a->w);
	if (a->op == Op::NOT) return a->a;
	if (a->w > 1 && a->nl) { Leaves l = leavesOf(a); for (auto& p : l) p.first = ~p.first & maskw(a->w); return fromLeaves(l, a->w); }
	if (a->w == 1) {
		if (a->op == Op::ULT) return mk(Op::ULE, 1, 0, a->b, a->a, nullptr);
		if (a->op == Op::ULE) return mk(Op::ULT, 1, 0, a->b, a->a, nullptr);
		if (a->op == Op::SLT) return mk(Op::SLE, 1, 0, a->b, a->a, nullptr);
		if (a->op == Op::SLE) return mk(Op::SLT, 1, 0, a->b, a->a, nullptr);
	}
	return mk(Op::NOT, a->w, 0, a, nullptr, nullptr);
}
static bool isNeg(E a, E b) { return (a->op == Op::NOT && a->a == b) || (b->op == Op::NOT && b->a == a); }
E mkAnd(E a, E b) {
	if (a->w > 1) return mkBin(Op::AND, a, b);
	if (a == b) return a;
	if (a->isFalse() || b->isFalse()) return mkFalse();
	if (a->isTrue()) return b;
	if (b->isTrue()) return a;
	if (isNeg(a, b)) return mkFalse();
	auto one = [](E x, E y) -> E { // simplify using x as known true; y composite
		if (y->op == Op::AND) { if (y->a == x || y->b == x) return y; if (isNeg(y->a, x) || isNeg(y->b, x)) return mkFalse(); }
		if (y->op == Op::OR) { if (y->a == x || y->b == x) return x; if (isNeg(y->a, x)) return mkAnd(x, y->b); if (isNeg(y->b, x)) return mkAnd(x, y->a); }
		return nullptr;
	};
	if (E r = one(a, b)) return r;
	if (E r = one(b, a)) return r;
	// EQ(x,c1) && EQ(x,c2) conflict
	if (a->op == Op::EQ && b->op == Op::EQ && a->a == b->a && a->b->isConst() && b->b->isConst() && a->b != b->b) return mkFalse();
	if (a->id > b->id) std::swap(a, b);
	return mk(Op::AND, 1, 0, a, b, nullptr);
}
E mkOr(E a, E b) {
	if (a->w > 1) return mkBin(Op::OR, a, b);
	if (a == b) return a;
	if (a->isTrue() || b->isTrue()) return mkTrue();
	if (a->isFalse()) return b;
	if (b->isFalse()) return a;
	if (isNeg(a, b)) return mkTrue();
	auto one = [](E x, E y) -> E {
		if (y->op == Op::OR) { if (y->a == x || y->b == x) return y; if (isNeg(y->a, x) || isNeg(y->b, x)) return mkTrue(); }
		if (y->op == Op::AND) { if (y->a == x || y->b == x) return x; if (isNeg(y->a, x)) return mkOr(x, y->b); if (isNeg(y->b, x)) return mkOr(x, y->a); }
		return nullptr;
	};
	if (E r = one(a, b)) return r;
	if (E r = one(b, a)) return r;
	if (a->op == Op::AND && b->op == Op::AND) { // (x&y)|(x&~y) = x ; (x&y)|(x&z) = x&(y|z)
		E x[2] = {a->a, a->b}, y[2] = {b->a, b->b};
		for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (x[i] == y[j]) return mkAnd(x[i], mkOr(x[1 - i], y[1 - j]));
	}
	if (a->id > b->id) std::swap(a, b);
	return mk(Op::OR, 1, 0, a, b, nullptr);
}
static E mkIteRaw(E c, E a, E b) {
	E r = mk(Op::ITE, a->w, 0, c, a, b);
	if (r->nl == 0 && a->nl && b->nl) {
		// count distinct leaves
		Leaves l;
		const Leaves la = leavesOf(a), lb = leavesOf(b);
		std::map<uint64_t, E> m;
		E nc = mkNot(c);
		for (auto& p : la) { E g = mkAnd(c, p.second); auto& s = m[p.first]; s = s ? mkOr(s, g) : g; }
		for (auto& p : lb) { E g = mkAnd(nc, p.second); auto& s = m[p.first]; s = s ? mkOr(s, g) : g; }
		for (auto& p : m) if (!p.second->isFalse()) l.push_back({p.first, p.second});
		if (l.size() <= MAXLEAVES) { const_cast<Expr*>(r)->nl = l.size(); g_leaves[r->id] = std::move(l); }
	}
	return r;
}
E mkIte(E c, E a, E b) {
	if (a == b) return a;
	if (c->isTrue()) return a;
	if (c->isFalse()) return b;
	if (c->op == Op::NOT) return mkIte(c->a, b, a);
	if (a->w == 1) {
		if (a->isTrue()) return mkOr(c, b);
		if (a->isFalse()) return mkAnd(mkNot(c), b);
		if (b->isTrue()) return mkOr(mkNot(c), a);
		if (b->isFalse()) return mkAnd(c, a);
		return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
	}
	if (a->op == Op::ITE && a->a == c) a = a->b;
	if (b->op == Op::ITE && b->a == c) b = b->c;
	if (a == b) return a;
	if (b->op == Op::ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);   // c?a:(d?a:e)
	if (a->op == Op::ITE && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);  // c?(d?x:b):b
	return mkIteRaw(c, a, b);
}
const Leaves& leavesOf(E e) {
	auto it = g_leaves.find(e->id);
	if (it != g_leaves.end()) return it->second;
	if (e->isConst()) return g_leaves[e->id] = Leaves{{e->k, mkTrue()}};
	fprintf(stderr, "internal: leavesOf\n"); abort();
}
E fromLeaves(const Leaves& l0, unsigned w) {
	std::map<uint64_t, E> m;
	for (auto& p : l0) { if (p.second->isFalse()) continue; auto& s = m[p.first & maskw(w)]; s = s ? mkOr(s, p.second) : p.second; }
	if (m.empty()) return mkConst(0, w);
	if (m.size() == 1) return mkConst(m.begin()->first, w);
	if (w == 1) return m[1];
	E r = nullptr;
	Leaves l;
	for (auto& p : m) { E c = mkConst(p.first, w); if (!r) r = c; else r = mk(Op::ITE, w, 0, p.second, c, r); l.push_back(p); }
	if (r->nl == 0 && l.size() <= MAXLEAVES) { const_cast<Expr*>(r)->nl = l.size(); g_leaves[r->id] = std::move(l); }
	return r;
}
uint64_t foldBin(Op op, uint64_t x, uint64_t y, unsigned w, bool& ok) {
	ok = true; uint64_t M = maskw(w); x &= M; y &= M;
	switch (op) {
	case Op::AND: return x & y; case Op::OR: return x | y; case Op::XOR: return x ^ y;
	case Op::ADD: return (x + y) & M; case Op::SUB: return (x - y) & M; case Op::MUL: return (x * y) & M;
	case Op::UDIV: if (!y) return M; return x / y;
	case Op::UREM: if (!y) return x; return x % y;
	case Op::SDIV: if (!y) return sx(x, w) < 0 ? 1 : M; if (sx(y, w) == -1) return (0 - x) & M; return (uint64_t)(sx(x, w) / sx(y, w)) & M;
	case Op::SREM: if (!y) return x; if (sx(y, w) == -1) return 0; return (uint64_t)(sx(x, w) % sx(y, w)) & M;
	case Op::SHL: return y >= w ? 0 : (x << y) & M; case Op::LSHR: return y >= w ? 0 : x >> y;
	case Op::ASHR: return (uint64_t)(sx(x, w) >> (y >= w ? (w - 1) : y)) & M;
	case Op::EQ: return x == y; case Op::ULT: return x < y; case Op::ULE: return x <= y;
	case Op::SLT: return sx(x, w) < sx(y, w); case Op::SLE: return sx(x, w) <= sx(y, w);
	default: ok = false; return 0;
	}
}
static bool isCmp(Op o) { return o == Op::EQ || o == Op::ULT || o == Op::ULE || o == Op::SLT || o == Op::SLE; }
static std::unordered_map<Key, E, KeyH> g_binMemo;
// sums are kept in a canonical linear form, so that the order of additions does not matter
static bool linear(E e, uint64_t mul, std::map<uint32_t, std::pair<E, uint64_t>>& m, uint64_t& c, int& budget) {
	if (e->isConst()) { c += mul * e->k; return true; }
	if (e->nl == 0 && e->op == Op::ADD) return linear(e->a, mul, m, c, budget) && linear(e->b, mul, m, c, budget);
	if (e->nl == 0 && e->op == Op::SUB) return linear(e->a, mul, m, c, budget) && linear(e->b, 0 - mul, m, c, budget);
	if (e->nl == 0 && e->op == Op::MUL && e->b->isConst()) return linear(e->a, mul * e->b->k, m, c, budget);
	if (e->nl == 0 && e->op == Op::NOT) { c -= mul; return linear(e->a, 0 - mul, m, c, budget); }
	if (--budget < 0) return false;
	auto& x = m[e->id]; x.first = e; x.second += mul; return true;
}
static E rebuild(const std::map<uint32_t, std::pair<E, uint64_t>>& m, uint64_t c, unsigned w) {
	E r = nullptr; uint64_t M = maskw(w); std::vector<E> neg; size_t n = 0; E only = nullptr; for (auto& p : m) if (p.second.second & M) { n++; only = p.second.first; if ((p.second.second & M) != M) n++; }
	if (n == 0) return mkConst(c, w); if (n == 1 && (c & M) == M) return mk(Op::NOT, w, 0, only, nullptr, nullptr);
	for (auto& p : m) { uint64_t k = p.second.second & M; if (!k) continue; E t = p.second.first; if (k == M) { neg.push_back(t); continue; } if (k != 1) t = mk(Op::MUL, w, 0, t, mkConst(k, w), nullptr); r = r ? mk(Op::ADD, w, 0, r, t, nullptr) : t; }
	if (!r) r = mkConst(c, w), c = 0; for (E t : neg) r = mk(Op::SUB, w, 0, r, t, nullptr);
	if (c & M) r = mk(Op::ADD, w, 0, r, mkConst(c, w), nullptr);
	return r;
}
static E linearOp(Op op, E a, E b) { // ADD, SUB, EQ; null if not applicable
	unsigned w = a->w; std::map<uint32_t, std::pair<E, uint64_t>> m; uint64_t c = 0, M = maskw(w); int budget = 24;
	if (!linear(a, 1, m, c, budget) || !linear(b, op == Op::ADD ? 1 : 0 - 1ull, m, c, budget)) return nullptr;
	if (op != Op::EQ) return rebuild(m, c, w);
	std::map<uint32_t, std::pair<E, uint64_t>> l, r; bool flip = false, first = true;
	for (auto& p : m) { uint64_t k = p.second.second & M; if (!k) continue; if (first) { first = false; if (k > M / 2) flip = true; } if (flip) k = (0 - k) & M; if (k > M / 2) r[p.first] = {p.second.first, (0 - k) & M}; else l[p.first] = {p.second.first, k}; }
	if (flip) c = 0 - c; if (first) return mkBool((c & M) == 0);
	E x, y; if (r.empty()) { x = rebuild(l, 0, w); y = mkConst(0 - c, w); } else { x = rebuild(l, 0, w); y = rebuild(r, 0 - c, w); if (x->id > y->id) std::swap(x, y); }
	if (y->isConst() && (x->nl || x->op == Op::ZEXT || x->op == Op::XOR)) return nullptr; // the generic rules do better
	if (x->nl && y->nl) return nullptr;
	return mk(Op::EQ, 1, 0, x, y, nullptr);
}
E mkBin(Op op, E a, E b) {
	unsigned w = a->w;
	if (b->w != w) { fprintf(stderr, "internal: width mismatch op %d %d %d\n", (int)op, a->w, b->w); abort(); }
	bool ok;
	unsigned rw = isCmp(op) ? 1 : w;
	if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->k, b->k, w, ok), rw);
	if (w == 1) {
		switch (op) {
		case Op::AND: return mkAnd(a, b); case Op::OR: return mkOr(a, b);
		case Op::XOR: case Op::ADD: case Op::SUB: if (a->isConst()) std::swap(a, b); if (b->isConst()) return b->k ? mkNot(a) : a; if (a == b) return mkFalse(); return mkOr(mkAnd(a, mkNot(b)), mkAnd(mkNot(a), b));
		case Op::EQ: if (a->isConst()) std::swap(a, b); if (b->isConst()) return b->k ? a : mkNot(a); if (a == b) return mkTrue(); return mkOr(mkAnd(a, b), mkAnd(mkNot(a), mkNot(b)));
		case Op::ULT: return mkAnd(mkNot(a), b); case Op::ULE: return mkOr(mkNot(a), b);
		case Op::SLT: return mkAnd(a, mkNot(b)); case Op::SLE: return mkOr(a, mkNot(b));
		case Op::MUL: return mkAnd(a, b);
		default: break;
		}
	}
	if (a == b) switch (op) { case Op::EQ: case Op::ULE: case Op::SLE: return mkTrue(); case Op::ULT: case Op::SLT: return mkFalse();
		case Op::XOR: case Op::SUB: return mkConst(0, w); case Op::AND: case Op::OR: return a; default: break; }
	if (w > 1 && (op == Op::ADD || op == Op::SUB || op == Op::EQ) && !(a->nl && b->nl)) {
		auto lin = [](E e) { return e->nl == 0 && (e->op == Op::ADD || e->op == Op::SUB || e->op == Op::NOT || (e->op == Op::MUL && e->b->isConst())); };
		if (op != Op::EQ || lin(a) || lin(b)) if (E r = linearOp(op, a, b)) return r;
	}
	bool comm = op == Op::ADD || op == Op::MUL || op == Op::AND || op == Op::OR || op == Op::XOR || op == Op::EQ;
	if (comm && a->isConst()) std::swap(a, b);
	else if (comm && !b->isConst() && a->id > b->id) std::swap(a, b);
	if (b->isConst()) {
		uint64_t k = b->k, M = maskw(w);
		switch (op) {
		case Op::ADD: case Op::SUB: case Op::OR: case Op::XOR: case Op::SHL: case Op::LSHR: case Op::ASHR:
			if (k == 0) return a;
			if (op == Op::OR && k == M) return b;
			if (op == Op::XOR && k == M) return mkNot(a);
			if (op == Op::SUB) return mkBin(Op::ADD, a, mkConst(0 - k, w));
			if (op == Op::ADD && a->op == Op::ADD && a->b->isConst()) return mkBin(Op::ADD, a->a, mkConst(a->b->k + k, w));
			break;
		case Op::AND: if (k == 0) return b; if (k == M) return a; 
			if (a->op == Op::ZEXT) { uint64_t m2 = maskw(a->a->w); if ((k & m2) == m2) return a; }
			break;
		case Op::MUL: if (k == 0) return b; if (k == 1) return a; break;
		case Op::UDIV: if (k == 1) return a; break;
		case Op::ULT: if (k == 0) return mkFalse(); if (k == 1) return mkEq(a, mkConst(0, w)); break;
		case Op::ULE: if (k == M) return mkTrue(); break;
		case Op::EQ:
			if (a->op == Op::ADD && a->b->isConst()) return mkEq(a->a, mkConst(k - a->b->k, w));
			if (a->op == Op::ZEXT) { if (k > maskw(a->a->w)) return mkFalse(); return mkEq(a->a, mkConst(k, a->a->w)); }
			if (a->op == Op::XOR && a->b->isConst()) return mkEq(a->a, mkConst(k ^ a->b->k, w));
			break;
		default: break;
		}
	}
	if (a->nl && b->nl) {
		size_t prod = (size_t)a->nl * b->nl;
		if (prod <= 1024) {
			Key key{op, (uint8_t)w, ~0ull, a, b, nullptr};
			auto it = g_binMemo.find(key);
			if (it != g_binMemo.end()) return it->second;
			const Leaves la = leavesOf(a), lb = leavesOf(b);
			E res = nullptr;
			if (rw == 1) {
				// choose the smaller polarity
				E t = mkFalse();
				if (op == Op::EQ) {
					std::map<uint64_t, E> m; for (auto& p : lb) m[p.first] = p.second;
					for (auto& p : la) { auto f = m.find(p.first); if (f != m.end()) t = mkOr(t, mkAnd(p.second, f->second)); }
				} else {
					size_t nt = 0, nf = 0; for (auto& p : la) for (auto& q : lb) (foldBin(op, p.first, q.first, w, ok) ? nt : nf)++;
					if (nt == 0) res = mkFalse(); else if (nf == 0) res = mkTrue();
					else { for (auto& p : la) { E sub = mkFalse(); size_t cnt = 0; for (auto& q : lb) if (foldBin(op, p.first, q.first, w, ok)) { sub = mkOr(sub, q.second); cnt++; } if (cnt == lb.size()) sub = mkTrue(); t = mkOr(t, mkAnd(p.second, sub)); } }
				}
				if (!res) res = t;
			} else {
				std::map<uint64_t, E> m; bool all = true;
				for (auto& p : la) for (auto& q : lb) { uint64_t v = foldBin(op, p.first, q.first, w, ok); if (!ok) { all = false; break; } E g = mkAnd(p.second, q.second); if (g->isFalse()) continue; auto& s = m[v]; s = s ? mkOr(s, g) : g; }
				if (all && m.size() <= MAXLEAVES) { Leaves l; for (auto& p : m) l.push_back(p); res = fromLeaves(l, rw); }
			}
			if (res) { g_binMemo[key] = res; return res; }
		}
	}
	return mk(op, rw, 0, a, b, nullptr);
}
E mkEq(E a, E b) { return mkBin(Op::EQ, a, b); }
E mkExtract(E a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	if (a->isConst()) return mkConst(a->k >> lo, w);
	if (a->nl) { Leaves l = leavesOf(a); for (auto& p : l) p.first = (p.first >> lo) & maskw(w); return fromLeaves(l, w); }
	if (a->op == Op::EXTRACT) return mkExtract(a->a, lo + a->k, w);
	if (a->op == Op::CONCAT) { unsigned lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w); }
	if (a->op == Op::ZEXT) { unsigned iw = a->a->w; if (lo + w <= iw) return mkExtract(a->a, lo, w); if (lo >= iw) return mkConst(0, w); }
	if (w == 1 && a->op == Op::ITE) return mkIte(a->a, mkExtract(a->b, lo, 1), mkExtract(a->c, lo, 1));
	if (a->op == Op::AND || a->op == Op::OR || a->op == Op::XOR) if (a->a->isConst() || a->b->isConst()) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
	return mk(Op::EXTRACT, w, lo, a, nullptr, nullptr);
}
E mkConcat(E hi, E lo) {
	unsigned w = hi->w + lo->w;
	if (hi->isConst() && lo->isConst()) return mkConst((hi->k << lo->w) | lo->k, w);
	if (hi->isConst() && hi->k == 0) return mkZext(lo, w);
	if (hi->op == Op::EXTRACT && lo->op == Op::EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return mkExtract(hi->a, lo->k, w);
	if (hi->op == Op::EXTRACT && hi->a == lo && hi->k == lo->w) return mkExtract(lo, 0, w); // cannot happen, kept for safety
	if (hi->w > 1 && lo->w > 1 && hi->nl && lo->nl && (size_t)hi->nl * lo->nl <= MAXLEAVES) {
		const Leaves lh = leavesOf(hi), ll = leavesOf(lo); Leaves r;
		for (auto& p : lh) for (auto& q : ll) { E g = mkAnd(p.second, q.second); if (!g->isFalse()) r.push_back({(p.first << lo->w) | q.first, g}); }
		return fromLeaves(r, w);
	}
	return mk(Op::CONCAT, w, 0, hi, lo, nullptr);
}
E mkZext(E a, unsigned w) {
	if (w == a->w) return a;
	if (a->isConst()) return mkConst(a->k, w);
	if (a->w == 1) return mkIte(a, mkConst(1, w), mkConst(0, w));
	if (a->nl) { Leaves l = leavesOf(a); return fromLeaves(l, w); }
	if (a->op == Op::ZEXT) return mkZext(a->a, w);
	return mk(Op::ZEXT, w, 0, a, nullptr, nullptr);
}
E mkSext(E a, unsigned w) {
	if (w == a->w) return a;
	if (a->isConst()) return mkConst((uint64_t)sx(a->k, a->w), w);
	if (a->w == 1) return mkIte(a, mkConst(~0ull, w), mkConst(0, w));
	if (a->nl) { Leaves l = leavesOf(a); for (auto& p : l) p.first = (uint64_t)sx(p.first, a->w) & maskw(w); return fromLeaves(l, w); }
	return mk(Op::SEXT, w, 0, a, nullptr, nullptr);
}

// ---------------------------------------------------------------- evaluation
static std::vector<uint32_t> g_stamp; static std::vector<uint64_t> g_val; static uint32_t g_epoch;
uint64_t evalModel(E root, const Model& m) {
	if (root->isConst()) return root->k;
	if (g_stamp.size() < g_arena.size()) { g_stamp.resize(g_arena.size() * 2, 0); g_val.resize(g_arena.size() * 2); }
	g_epoch++;
	static std::vector<E> st; st.clear(); st.push_back(root);
	auto done = [&](E e) { return e->isConst() || g_stamp[e->id] == g_epoch; };
	auto val = [&](E e) { return e->isConst() ? e->k : g_val[e->id]; };
	while (!st.empty()) {
		E e = st.back();
		if (done(e)) { st.pop_back(); continue; }
		uint64_t r = 0;
		if (e->op == Op::VAR) { r = e->k < m.size() ? m[e->k] & maskw(e->w) : 0; }
		else if (e->op == Op::ITE) {
			if (!done(e->a)) { st.push_back(e->a); continue; }
			E s = val(e->a) ? e->b : e->c; if (!done(s)) { st.push_back(s); continue; } r = val(s);
		} else if (e->w == 1 && (e->op == Op::AND || e->op == Op::OR)) {
			if (!done(e->a)) { st.push_back(e->a); continue; }
			if ((val(e->a) != 0) == (e->op == Op::OR)) r = val(e->a);
			else { if (!done(e->b)) { st.push_back(e->b); continue; } r = val(e->b); }
		} else {
			bool w8 = false;
			if (e->a && !done(e->a)) { st.push_back(e->a); w8 = true; }
			if (e->b && !done(e->b)) { st.push_back(e->b); w8 = true; }
			if (w8) continue;
			bool ok;
			switch (e->op) {
			case Op::NOT: r = ~val(e->a) & maskw(e->w); break;
			case Op::CONCAT: r = (val(e->a) << e->b->w) | val(e->b); break;
			case Op::EXTRACT: r = (val(e->a) >> e->k) & maskw(e->w); break;
			case Op::ZEXT: r = val(e->a); break;
			case Op::SEXT: r = (uint64_t)sx(val(e->a), e->a->w) & maskw(e->w); break;
			default: r = foldBin(e->op, val(e->a), val(e->b), e->a->w, ok);
			}
		}
		g_stamp[e->id] = g_epoch; g_val[e->id] = r; st.pop_back();
	}
	return g_val[root->id];
}

// ---------------------------------------------------------------- z3
static Z3_context C; static Z3_solver S; static std::vector<Z3_ast> g_z; static std::vector<Z3_ast> g_lit;
SolverStats g_sstats;
static unsigned g_timeout = 60000;
static void onerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(4); }
static unsigned g_seed = 0, g_sinceReset = 0;
static void freshSolver() { // the incremental solver carries every formula it has seen; start over now and then
	if (S) Z3_solver_dec_ref(C, S);
	S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FD"));
	Z3_solver_inc_ref(C, S);
	Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
	Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_timeout);
	Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), g_seed);
	Z3_solver_set_params(C, S, p);
	g_lit.assign(g_lit.size(), nullptr); g_sinceReset = 0;
}
void solverInit(unsigned timeout_ms, unsigned seed) {
	Z3_config cfg = Z3_mk_config();
	C = Z3_mk_context(cfg); // non-rc: ASTs live as long as the context
	Z3_set_error_handler(C, onerr);
	g_timeout = timeout_ms; g_seed = seed; freshSolver();
}
static Z3_ast z(E root) {
	if (g_z.size() < g_arena.size()) g_z.resize(g_arena.size() * 2 + 16, nullptr);
	std::vector<E> st{root};
	while (!st.empty()) {
		E e = st.back();
		if (g_z[e->id]) { st.pop_back(); continue; }
		bool w8 = false;
		for (E x : {e->a, e->b, e->c}) if (x && !g_z[x->id]) { st.push_back(x); w8 = true; }
		if (w8) continue;
		Z3_ast a = e->a ? g_z[e->a->id] : nullptr, b = e->b ? g_z[e->b->id] : nullptr, c = e->c ? g_z[e->c->id] : nullptr, r = nullptr;
		switch (e->op) {
		case Op::CONST: r = e->w == 1 ? (e->k ? Z3_mk_true(C) : Z3_mk_false(C)) : Z3_mk_unsigned_int64(C, e->k, Z3_mk_bv_sort(C, e->w)); break;
		case Op::VAR: r = Z3_mk_const(C, Z3_mk_string_symbol(C, g_vars[e->k].name.c_str()), e->w == 1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, e->w)); break;
		case Op::NOT: r = e->w == 1 ? Z3_mk_not(C, a) : Z3_mk_bvnot(C, a); break;
		case Op::AND: { Z3_ast x[2] = {a, b}; r = e->w == 1 ? Z3_mk_and(C, 2, x) : Z3_mk_bvand(C, a, b); break; }
		case Op::OR: { Z3_ast x[2] = {a, b}; r = e->w == 1 ? Z3_mk_or(C, 2, x) : Z3_mk_bvor(C, a, b); break; }
		case Op::XOR: r = e->w == 1 ? Z3_mk_xor(C, a, b) : Z3_mk_bvxor(C, a, b); break;
		case Op::ADD: r = Z3_mk_bvadd(C, a, b); break; case Op::SUB: r = Z3_mk_bvsub(C, a, b); break; case Op::MUL: r = Z3_mk_bvmul(C, a, b); break;
		case Op::UDIV: r = Z3_mk_bvudiv(C, a, b); break; case Op::SDIV: r = Z3_mk_bvsdiv(C, a, b); break;
		case Op::UREM: r = Z3_mk_bvurem(C, a, b); break; case Op::SREM: r = Z3_mk_bvsrem(C, a, b); break;
		case Op::SHL: r = Z3_mk_bvshl(C, a, b); break; case Op::LSHR: r = Z3_mk_bvlshr(C, a, b); break; case Op::ASHR: r = Z3_mk_bvashr(C, a, b); break;
		case Op::EQ: r = e->a->w == 1 ? Z3_mk_iff(C, a, b) : Z3_mk_eq(C, a, b); break;
		case Op::ULT: r = Z3_mk_bvult(C, a, b); break; case Op::ULE: r = Z3_mk_bvule(C, a, b); break;
		case Op::SLT: r = Z3_mk_bvslt(C, a, b); break; case Op::SLE: r = Z3_mk_bvsle(C, a, b); break;
		case Op::ITE: r = Z3_mk_ite(C, a, b, c); break;
		case Op::CONCAT: {
			auto bv = [&](E x, Z3_ast y) { return x->w == 1 ? Z3_mk_ite(C, y, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1))) : y; };
			r = Z3_mk_concat(C, bv(e->a, a), bv(e->b, b)); break; }
		case Op::EXTRACT: r = Z3_mk_extract(C, e->k + e->w - 1, e->k, a); if (e->w == 1) r = Z3_mk_eq(C, r, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); break;
		case Op::ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a->w, a); break;
		case Op::SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, a); break;
		}
		g_z[e->id] = r; st.pop_back();
	}
	return g_z[root->id];
}
static Z3_ast lit(E e) {
	if (e->op == Op::VAR && e->w == 1) return z(e);
	if (e->op == Op::NOT) return Z3_mk_not(C, lit(e->a));
	if (g_lit.size() <= e->id) g_lit.resize(g_arena.size() * 2 + 16, nullptr);
	if (g_lit[e->id]) return g_lit[e->id];
	std::string n = "p!" + std::to_string(e->id);
	Z3_ast p = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bool_sort(C));
	Z3_solver_assert(C, S, Z3_mk_iff(C, p, z(e)));
	return g_lit[e->id] = p;
}
int solverCheck(E a, E b, Model* out) {
	E c = mkAnd(a, b);
	if (c->isFalse()) { g_sstats.syntactic++; return 0; }
	if (c->isTrue()) { g_sstats.syntactic++; if (out) out->clear(); return 1; }
	auto t0 = std::chrono::steady_clock::now();
	static double lastS = 0; static unsigned RQ = getenv("VP_RQ") ? atoi(getenv("VP_RQ")) : 8; static double RT = getenv("VP_RT") ? atof(getenv("VP_RT")) : 0.003; if (++g_sinceReset > RQ && lastS > RT) freshSolver();
	Z3_ast as[2]; unsigned n = 0;
	if (!a->isTrue()) as[n++] = lit(a);
	if (!b->isTrue()) as[n++] = lit(b);
	Z3_lbool r = Z3_solver_check_assumptions(C, S, n, as);
	g_sstats.queries++;
	int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
	if (res == 1) g_sstats.sat++; else if (res == 0) g_sstats.unsat++; else g_sstats.unknown++;
	if (res == 1 && out) {
		Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m);
		out->assign(g_vars.size(), 0);
		unsigned nc = Z3_model_get_num_consts(C, m);
		static std::unordered_map<std::string, unsigned> idx; static size_t built = 0;
		for (; built < g_vars.size(); built++) idx[g_vars[built].name] = built;
		for (unsigned i = 0; i < nc; i++) {
			Z3_func_decl d = Z3_model_get_const_decl(C, m, i);
			const char* nm = Z3_get_symbol_string(C, Z3_get_decl_name(C, d));
			if (nm[0] == 'p' && nm[1] == '!') continue;
			auto it = idx.find(nm); if (it == idx.end()) continue;
			Z3_ast v = Z3_model_get_const_interp(C, m, d); uint64_t u = 0;
			if (g_vars[it->second].w == 1) u = Z3_get_bool_value(C, v) == Z3_L_TRUE; else Z3_get_numeral_uint64(C, v, &u);
			(*out)[it->second] = u;
		}
		Z3_model_dec_ref(C, m);
		if (!evalModel(c, *out)) { fprintf(stderr, "internal: solver model does not satisfy formula\n"); exit(4); }
	}
	lastS = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_sstats.seconds += lastS;
	return res;
}
std::string smtlibOf(E e) {
	return Z3_benchmark_to_smtlib_string(C, "vp", "QF_BV", "unknown", "", 0, nullptr, z(e));
}
std::string exprStr(E e, int depth) {
	static const char* n[] = {"c", "v", "not", "and", "or", "xor", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext"};
	if (!e) return "null";
	if (e->isConst()) { char b[32]; snprintf(b, 32, "%llx", (unsigned long long)e->k); return b; }
	if (e->op == Op::VAR) return g_vars[e->k].name;
	if (!depth) return "..";
	std::string s = std::string("(") + n[(int)e->op];
	for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, depth - 1);
	return s + ")";
}
