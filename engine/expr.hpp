// Hash-consed bit-vector expression DAG with eager simplification and known-bits folding.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <tuple>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Kind : uint8_t {
	K_CONST, K_SYM,
	K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
	K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
	K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
	K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
	K_ITE,
	K_UMULNO, // unsigned multiplication does not overflow (1 bit)
	K_SMULNO, // signed multiplication does not over/underflow (1 bit)
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sxt(u128 v, unsigned w) {
	if (w >= 128) return (s128)v;
	v &= maskw(w);
	if ((v >> (w - 1)) & 1) v |= ~maskw(w);
	return (s128)v;
}

struct Expr {
	Kind k;
	bool uninit = false; // depends on uninitialised memory
	uint32_t w;
	uint32_t id;
	uint32_t aux; // extract: low bit; sym: index
	u128 c;       // constant value
	u128 k0, k1;  // known zero / known one bits
	Expr const *op[3];
};

struct SymInfo {
	std::string name;
	unsigned w;
	bool uninit;
};

struct V { // a scalar value: concrete when e == nullptr
	Expr const *e = nullptr;
	u128 c = 0;
	uint32_t w = 0;
	V() = default;
	V(u128 c_, uint32_t w_) : c(c_ & maskw(w_)), w(w_) {}
	V(Expr const *x) : e(x), w(x->w) {
		if (x->k == K_CONST) { e = nullptr; c = x->c; }
	}
	bool conc() const { return e == nullptr; }
	uint64_t u() const { return (uint64_t)c; }
};

class ExprPool {
	struct Key {
		Kind k; uint32_t w, aux; u128 c; Expr const *a, *b, *d;
		bool operator==(Key const &o) const { return k == o.k && w == o.w && aux == o.aux && c == o.c && a == o.a && b == o.b && d == o.d; }
	};
	struct KH {
		size_t operator()(Key const &x) const {
			uint64_t h = x.k * 0x9E3779B97F4A7C15ull ^ ((uint64_t)x.w << 32 | x.aux);
			auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
			mix((uint64_t)x.c); mix((uint64_t)(x.c >> 64)); mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.d);
			return h;
		}
	};
	std::deque<Expr> arena;
	std::unordered_map<Key, Expr const *, KH> tab;

	Expr const *raw(Kind k, uint32_t w, uint32_t aux, u128 c, Expr const *a = nullptr, Expr const *b = nullptr, Expr const *d = nullptr) {
		Key key{k, w, aux, c, a, b, d};
		auto it = tab.find(key);
		if (it != tab.end()) return it->second;
		Expr e;
		e.k = k; e.w = w; e.aux = aux; e.c = c; e.op[0] = a; e.op[1] = b; e.op[2] = d;
		e.uninit = (a && a->uninit) || (b && b->uninit) || (d && d->uninit);
		e.id = (uint32_t)arena.size();
		computeKnown(e);
		u128 m = maskw(w);
		if (k != K_CONST && ((e.k0 | e.k1) & m) == m) {
			Expr const *r = cst(e.k1 & m, w);
			tab.emplace(key, r);
			return r;
		}
		arena.push_back(e);
		Expr const *r = &arena.back();
		tab.emplace(key, r);
		return r;
	}
	static u128 lowmask_trailing(u128 known) { // mask of trailing ones
		u128 n = ~known;
		if (n == 0) return ~(u128)0;
		return (n & -n) - 1;
	}
	void computeKnown(Expr &e) {
		u128 m = maskw(e.w);
		e.k0 = ~m; e.k1 = 0;
		Expr const *a = e.op[0], *b = e.op[1];
		switch (e.k) {
			case K_CONST: e.k1 = e.c; e.k0 = ~e.c; break;
			case K_AND: e.k1 = a->k1 & b->k1; e.k0 |= a->k0 | b->k0; break;
			case K_OR: e.k1 = a->k1 | b->k1; e.k0 |= a->k0 & b->k0; break;
			case K_XOR: e.k1 = (a->k1 & b->k0) | (a->k0 & b->k1); e.k1 &= m; e.k0 |= (a->k0 & b->k0) | (a->k1 & b->k1); break;
			case K_ZEXT: e.k1 = a->k1; e.k0 |= a->k0 & ~(u128)0; break;
			case K_SEXT: {
				u128 am = maskw(a->w), top = (u128)1 << (a->w - 1);
				e.k1 = a->k1; e.k0 |= a->k0 & am;
				if (a->k1 & top) e.k1 |= m & ~am;
				else if (a->k0 & top) e.k0 |= m & ~am;
				else e.k0 = (e.k0 & (am | ~m));
				break;
			}
			case K_EXTRACT: e.k1 = (a->k1 >> e.aux) & m; e.k0 |= (a->k0 >> e.aux) & m; break;
			case K_CONCAT: e.k1 = ((a->k1 << b->w) | b->k1) & m; e.k0 |= (((a->k0 & maskw(a->w)) << b->w) | (b->k0 & maskw(b->w))) & m; break;
			case K_ITE: e.k1 = b->k1 & e.op[2]->k1; e.k0 |= b->k0 & e.op[2]->k0; break;
			case K_SHL:
				if (b->k == K_CONST && b->c < e.w) {
					unsigned s = (unsigned)b->c;
					e.k1 = (a->k1 << s) & m; e.k0 |= (((a->k0 & maskw(a->w)) << s) | maskw(s)) & m;
				}
				break;
			case K_LSHR:
				if (b->k == K_CONST && b->c < e.w) {
					unsigned s = (unsigned)b->c;
					e.k1 = (a->k1 & m) >> s; e.k0 |= ((a->k0 & m) >> s) | (m & ~(m >> s));
				}
				break;
			case K_ADD: case K_SUB: {
				// trailing known bits
				u128 kn = lowmask_trailing((a->k0 | a->k1) & (b->k0 | b->k1));
				kn &= m;
				u128 r = (e.k == K_ADD ? (a->k1 + b->k1) : (a->k1 - b->k1)) & kn;
				e.k1 = r; e.k0 |= ~r & kn;
				if (e.k == K_ADD) {
					u128 za = ~a->k0 & m, zb = ~b->k0 & m; // upper bounds
					if (za + zb <= m && za + zb >= za) {
						u128 mx = za + zb; u128 sm = mx; for (int i = 1; i < 128; i <<= 1) sm |= sm >> i;
						e.k0 |= m & ~sm;
						// no carries if bits disjoint
						if ((za & zb) == 0) { e.k1 |= a->k1 | b->k1; e.k0 |= (a->k0 & b->k0); }
					}
				}
				break;
			}
			case K_MUL: {
				u128 ta = lowmask_trailing(a->k0), tb = lowmask_trailing(b->k0);
				unsigned na = __builtin_popcountll((uint64_t)ta) + __builtin_popcountll((uint64_t)(ta >> 64));
				unsigned nb = __builtin_popcountll((uint64_t)tb) + __builtin_popcountll((uint64_t)(tb >> 64));
				unsigned n = std::min<unsigned>(na + nb, e.w);
				e.k0 |= maskw(n);
				u128 za = ~a->k0 & m, zb = ~b->k0 & m;
				if (za < ((u128)1 << 64) && zb < ((u128)1 << 64)) {
					u128 mx = za * zb; if (mx <= m) { u128 sm = mx; for (int i = 1; i < 128; i <<= 1) sm |= sm >> i; e.k0 |= m & ~sm; }
				}
				break;
			}
			case K_UREM:
				if (b->k == K_CONST && b->c) { u128 sm = b->c - 1; for (int i = 1; i < 128; i <<= 1) sm |= sm >> i; e.k0 |= m & ~sm; }
				break;
			case K_UDIV:
				if (b->k == K_CONST && b->c) { u128 sm = (~a->k0 & m) / b->c; for (int i = 1; i < 128; i <<= 1) sm |= sm >> i; e.k0 |= m & ~sm; }
				break;
			default: break;
		}
		e.k0 |= ~m; e.k1 &= m;
	}

public:
	std::vector<SymInfo> syms;
	std::vector<std::vector<uint32_t>> symsets; // per expr id, lazily
	size_t size() const { return arena.size(); }

	Expr const *cst(u128 v, uint32_t w) { return raw(K_CONST, w, 0, v & maskw(w)); }
	Expr const *sym(std::string const &name, uint32_t w, bool uninit = false) {
		syms.push_back({name, w, uninit});
		Expr const *e = raw(K_SYM, w, (uint32_t)syms.size() - 1, 0);
		if (uninit) const_cast<Expr *>(e)->uninit = true;
		return e;
	}
	Expr const *E(V const &v) { return v.e ? v.e : cst(v.c, v.w); }
	static bool isC(Expr const *e) { return e->k == K_CONST; }
	static u128 umin(Expr const *e) { return e->k1; }
	static u128 umax(Expr const *e) { return ~e->k0 & maskw(e->w); }

	static u128 fold2(Kind k, u128 a, u128 b, unsigned w, bool &ok) {
		u128 m = maskw(w);
		ok = true;
		switch (k) {
			case K_ADD: return (a + b) & m;
			case K_SUB: return (a - b) & m;
			case K_MUL: return (a * b) & m;
			case K_UDIV: return b == 0 ? m : a / b;
			case K_UREM: return b == 0 ? a : a % b;
			case K_SDIV: { s128 x = sxt(a, w), y = sxt(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
			case K_SREM: { s128 x = sxt(a, w), y = sxt(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
			case K_AND: return a & b;
			case K_OR: return a | b;
			case K_XOR: return a ^ b;
			case K_SHL: return b >= w ? 0 : (a << b) & m;
			case K_LSHR: return b >= w ? 0 : (a & m) >> b;
			case K_ASHR: { s128 x = sxt(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
			case K_EQ: return a == b;
			case K_ULT: return a < b;
			case K_ULE: return a <= b;
			case K_SLT: return sxt(a, w) < sxt(b, w);
			case K_SLE: return sxt(a, w) <= sxt(b, w);
			case K_UMULNO: { if (a == 0 || b == 0) return 1; u128 p = a * b; if (p / a != b) return 0; return p <= m; }
			case K_SMULNO: {
				s128 x = sxt(a, w), y = sxt(b, w), p;
				if (__builtin_mul_overflow(x, y, &p)) return 0;
				if (w >= 128) return 1;
				return p >= -((s128)1 << (w - 1)) && p < ((s128)1 << (w - 1));
			}
			default: ok = false; return 0;
		}
	}
	static bool is1(Kind k) { return k == K_EQ || k == K_ULT || k == K_ULE || k == K_SLT || k == K_SLE || k == K_UMULNO || k == K_SMULNO; }

	Expr const *tru() { return cst(1, 1); }
	Expr const *fls() { return cst(0, 1); }
	Expr const *lnot(Expr const *a) {
		assert(a->w == 1);
		if (isC(a)) return cst(!a->c, 1);
		if (a->k == K_XOR && isC(a->op[0]) && a->op[0]->c == 1) return a->op[1];
		if (a->k == K_ULT) return bin(K_ULE, a->op[1], a->op[0]);
		if (a->k == K_ULE) return bin(K_ULT, a->op[1], a->op[0]);
		if (a->k == K_SLT) return bin(K_SLE, a->op[1], a->op[0]);
		if (a->k == K_SLE) return bin(K_SLT, a->op[1], a->op[0]);
		return raw(K_XOR, 1, 0, 0, tru(), a);
	}

	// sums in linear normal form: constant + sum of coefficient * term
	struct Lin { Expr const *t[10]; u128 f[10]; unsigned n = 0; u128 c = 0; };
	static bool isSum(Expr const *e) { return e->k == K_ADD || e->k == K_SUB; }
	bool linCollect(Expr const *e, u128 f, Lin &l) {
		switch (e->k) {
			case K_CONST: l.c += f * e->c; return true;
			case K_ADD: return linCollect(e->op[0], f, l) && linCollect(e->op[1], f, l);
			case K_SUB: return linCollect(e->op[0], f, l) && linCollect(e->op[1], (u128)0 - f, l);
			case K_SHL: if (isC(e->op[1]) && e->op[1]->c < e->w) return linCollect(e->op[0], f << (unsigned)e->op[1]->c, l); break;
			case K_MUL: if (isC(e->op[0])) return linCollect(e->op[1], f * e->op[0]->c, l); break;
			default: break;
		}
		for (unsigned i = 0; i < l.n; ++i) if (l.t[i] == e) { l.f[i] += f; return true; }
		if (l.n == 10) return false;
		l.t[l.n] = e; l.f[l.n] = f; l.n++;
		return true;
	}
	Expr const *linSum(Kind k, Expr const *a, Expr const *b) {
		uint32_t w = a->w;
		u128 m = maskw(w);
		Lin l;
		if (!linCollect(a, 1, l) || !linCollect(b, k == K_ADD ? (u128)1 : (u128)0 - (u128)1, l)) return nullptr;
		std::pair<Expr const *, u128> v[10];
		unsigned n = 0;
		for (unsigned i = 0; i < l.n; ++i) if (l.f[i] & m) v[n++] = {l.t[i], l.f[i] & m};
		std::sort(v, v + n, [](auto &x, auto &y) { return x.first->id < y.first->id; });
		u128 c = l.c & m;
		Expr const *pos = nullptr, *neg = nullptr;
		u128 top = (u128)1 << (w - 1);
		for (unsigned i = 0; i < n; ++i) {
			bool ng = w > 1 && (v[i].second & top) && v[i].second != top;
			u128 f = ng ? ((u128)0 - v[i].second) & m : v[i].second;
			Expr const *t = f == 1 ? v[i].first : bin(K_MUL, cst(f, w), v[i].first);
			Expr const *&d = ng ? neg : pos;
			d = d ? raw(K_ADD, w, 0, 0, d, t) : t;
		}
		if (!pos && !neg) return cst(c, w);
		if (!pos) return raw(K_SUB, w, 0, 0, cst(c, w), neg);
		Expr const *r = neg ? raw(K_SUB, w, 0, 0, pos, neg) : pos;
		if (c == 0) return r;
		if (isC(r)) return cst(c + r->c, w);
		if (r->k == K_ITE && (isC(r->op[1]) || isC(r->op[2]))) return ite(r->op[0], bin(K_ADD, cst(c, w), r->op[1]), bin(K_ADD, cst(c, w), r->op[2]));
		return raw(K_ADD, w, 0, 0, cst(c, w), r);
	}
	// signed bounds of a term of up to 64 bits
	std::unordered_map<uint32_t, std::pair<s128, s128>> rangeMemo;
	std::pair<s128, s128> srange(Expr const *e) {
		if (isC(e)) return {sxt(e->c, e->w), sxt(e->c, e->w)};
		s128 lo = -((s128)1 << (e->w - 1)), hi = ((s128)1 << (e->w - 1)) - 1;
		u128 top = (u128)1 << (e->w - 1);
		if (e->k0 & top) { lo = (s128)umin(e); hi = (s128)umax(e); }
		auto it = rangeMemo.find(e->id);
		if (it != rangeMemo.end()) return it->second;
		s128 l = lo, h = hi;
		switch (e->k) {
			case K_ZEXT: l = (s128)umin(e->op[0]); h = (s128)umax(e->op[0]); break;
			case K_SEXT: std::tie(l, h) = srange(e->op[0]); break;
			case K_ADD: { auto a = srange(e->op[0]), b = srange(e->op[1]); l = a.first + b.first; h = a.second + b.second; break; }
			case K_SUB: { auto a = srange(e->op[0]), b = srange(e->op[1]); l = a.first - b.second; h = a.second - b.first; break; }
			case K_ITE: {
				auto a = srangeIf(e->op[0], true, e->op[1]), b = srangeIf(e->op[0], false, e->op[2]);
				l = std::min(a.first, b.first); h = std::max(a.second, b.second);
				break;
			}
			default: break;
		}
		if (l < lo || h > hi) { // may wrap
			bool wraps = e->k == K_ADD || e->k == K_SUB;
			if (wraps) { l = lo; h = hi; } else { l = std::max(l, lo); h = std::min(h, hi); }
		}
		rangeMemo[e->id] = {l, h};
		return {l, h};
	}
	static Expr const *unext(Expr const *e) { while (e->k == K_SEXT) e = e->op[0]; return e; }
	// bounds of e where the condition c is known to be v; knows differences of compared values
	std::pair<s128, s128> srangeIf(Expr const *c, bool v, Expr const *e) {
		auto r = srange(e);
		if (c->k == K_XOR && isC(c->op[0]) && c->op[0]->c == 1) return srangeIf(c->op[1], !v, e);
		if ((c->k == K_SLT || c->k == K_SLE) && e->k == K_SUB) {
			auto x = srange(e->op[0]), y = srange(e->op[1]);
			s128 const big = (s128)1 << (e->w - 1);
			if (x.first - y.second < -big || x.second - y.first >= big) return r; // may wrap
			Expr const *p = c->op[0], *q = c->op[1]; // v: p < q, !v: q <= p
			int const gap = (c->k == K_SLT) == v; // strict
			if (!v) std::swap(p, q);
			auto same = [](Expr const *s, Expr const *t) { return unext(s) == unext(t) || (isC(s) && isC(t) && sxt(s->c, s->w) == sxt(t->c, t->w)); };
			if (same(e->op[0], q) && same(e->op[1], p)) r.first = std::max<s128>(r.first, gap);
		}
		if ((c->k == K_ULT || c->k == K_ULE) && e->k == K_SUB && e->op[0]->k == K_ZEXT && e->op[1]->k == K_ZEXT) {
			auto x = srange(e->op[0]), y = srange(e->op[1]);
			s128 const big = (s128)1 << (e->w - 1);
			if (x.first - y.second < -big || x.second - y.first >= big) return r;
			Expr const *p = c->op[0], *q = c->op[1];
			int const gap = (c->k == K_ULT) == v;
			if (!v) std::swap(p, q);
			auto unz = [](Expr const *s) { while (s->k == K_ZEXT) s = s->op[0]; return s; };
			if (unz(e->op[0]) == unz(q) && unz(e->op[1]) == unz(p)) r.first = std::max<s128>(r.first, gap);
		}
		if (c->k == K_SLT || c->k == K_SLE) { // the value itself compared with a constant
			Expr const *p = c->op[0], *q = c->op[1];
			int const gap = (c->k == K_SLT) == v;
			if (!v) std::swap(p, q);
			if (isC(p) && unext(q) == unext(e)) r.first = std::max<s128>(r.first, sxt(p->c, p->w) + gap);
			if (isC(q) && unext(p) == unext(e)) r.second = std::min<s128>(r.second, sxt(q->c, q->w) - gap);
		}
		return r;
	}
	Expr const *rawExtract(Expr const *a, uint32_t lo, uint32_t w) { return lo == 0 && w == a->w ? a : isC(a) ? cst(a->c >> lo, w) : raw(K_EXTRACT, w, lo, 0, a); }

	// constant * sum, distributed
	Expr const *linScale(u128 f, Expr const *e) {
		Lin l;
		if (!linCollect(e, f, l)) return nullptr;
		Expr const *r = cst(l.c, e->w);
		for (unsigned i = 0; i < l.n; ++i) r = bin(K_ADD, r, bin(K_MUL, cst(l.f[i], e->w), l.t[i]));
		return r;
	}
	// multiplication of operands that are known to be small
	Expr const *narrowMul(Expr const *a, Expr const *b) {
		uint32_t w = a->w;
		if (w > 64 || w <= 8) return nullptr;
		auto x = srange(a), y = srange(b);
		s128 const lim = (s128)1 << 31;
		if (x.first < -lim || x.second >= lim || y.first < -lim || y.second >= lim) return nullptr;
		s128 const c[4] = {x.first * y.first, x.first * y.second, x.second * y.first, x.second * y.second};
		s128 const lo = std::min({c[0], c[1], c[2], c[3], x.first, y.first}), hi = std::max({c[0], c[1], c[2], c[3], x.second, y.second});
		uint32_t n = 1; // signed width
		while (n < w && (lo < -((s128)1 << (n - 1)) || hi >= ((s128)1 << (n - 1)))) ++n;
		if (n >= w) return nullptr;
		return sext(bin(K_MUL, extract(a, 0, n), extract(b, 0, n)), w);
	}
	// unsigned division of operands that are known to be small
	Expr const *narrowDiv(Kind k, Expr const *a, Expr const *b) {
		uint32_t w = a->w;
		if (w > 64 || w <= 8) return nullptr;
		auto x = srange(a), y = srange(b);
		if (x.first < 0 || y.first < 0) return nullptr;
		if (y.first == 0 && k == K_UDIV) return y.second == 0 ? nullptr : narrowDivGuarded(a, b);
		s128 mx = std::max(x.second, y.second);
		uint32_t n = 1;
		while (n < 64 && (mx >> n)) ++n;
		if (n >= w) return nullptr;
		return zext(bin(k, extract(a, 0, n), extract(b, 0, n)), w);
	}
	Expr const *narrowDivGuarded(Expr const *a, Expr const *b) {
		uint32_t w = a->w;
		auto x = srange(a), y = srange(b);
		s128 mx = std::max(x.second, y.second);
		uint32_t n = 1;
		while (n < 64 && (mx >> n)) ++n;
		if (n >= w) return nullptr;
		return ite(bin(K_EQ, cst(0, w), b), cst(maskw(w), w), zext(bin(K_UDIV, extract(a, 0, n), extract(b, 0, n)), w));
	}

	Expr const *bin(Kind k, Expr const *a, Expr const *b) {
		uint32_t w = a->w;
		if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %u vs %u\n", k, a->w, b->w); abort(); }
		bool ok;
		if (isC(a) && isC(b)) { u128 r = fold2(k, a->c, b->c, w, ok); return cst(r, is1(k) ? 1 : w); }
		u128 m = maskw(w);
		// canonical: constant on the left for commutative
		bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ || k == K_UMULNO || k == K_SMULNO;
		if (comm) {
			if (isC(b)) std::swap(a, b);
			else if (!isC(a) && a->id > b->id) std::swap(a, b);
		}
		if ((k == K_AND || k == K_OR || k == K_XOR) && a->k == K_ZEXT && b->k == K_ZEXT && a->op[0]->w == b->op[0]->w) return zext(bin(k, a->op[0], b->op[0]), w);
		switch (k) {
			case K_ADD:
				if (w > 1) if (auto *r = linSum(k, a, b)) return r;
				if (isC(a)) {
					if (a->c == 0) return b;
					if (b->k == K_ADD && isC(b->op[0])) return bin(K_ADD, cst(a->c + b->op[0]->c, w), b->op[1]);
					if (b->k == K_SUB && isC(b->op[0])) return bin(K_SUB, cst(a->c + b->op[0]->c, w), b->op[1]);
					if (b->k == K_ITE && (isC(b->op[1]) || isC(b->op[2]))) return ite(b->op[0], bin(k, a, b->op[1]), bin(k, a, b->op[2]));
				} else {
					if (a->k == K_ADD && isC(a->op[0])) return bin(K_ADD, a->op[0], bin(K_ADD, a->op[1], b));
					if (b->k == K_ADD && isC(b->op[0])) return bin(K_ADD, b->op[0], bin(K_ADD, a, b->op[1]));
					// x + (y - x) = y
					if (b->k == K_SUB && b->op[1] == a) return b->op[0];
					if (a->k == K_SUB && a->op[1] == b) return a->op[0];
				}
				break;
			case K_SUB:
				if (a == b) return cst(0, w);
				if (w > 1) if (auto *r = linSum(k, a, b)) return r;
				if (isC(b)) return bin(K_ADD, cst((u128)0 - b->c, w), a);
				if (a->k == K_ADD && isC(a->op[0])) return bin(K_ADD, a->op[0], bin(K_SUB, a->op[1], b));
				if (b->k == K_ADD && isC(b->op[0])) return bin(K_ADD, cst((u128)0 - b->op[0]->c, w), bin(K_SUB, a, b->op[1]));
				if (a->k == K_ADD) { if (a->op[0] == b) return a->op[1]; if (a->op[1] == b) return a->op[0]; }
				break;
			case K_MUL:
				if (!isC(a)) if (Expr const *n = narrowMul(a, b)) return n;
				if (isC(a)) {
					if (a->c == 0) return a;
					if (a->c == 1) return b;
					if (isSum(b)) if (Expr const *r = linScale(a->c, b)) return r;
					if ((a->c & (a->c - 1)) == 0) { unsigned s = 0; while (!((a->c >> s) & 1)) s++; return bin(K_SHL, b, cst(s, w)); }
					if (b->k == K_ITE && (isC(b->op[1]) || isC(b->op[2]))) return ite(b->op[0], bin(k, a, b->op[1]), bin(k, a, b->op[2]));
				}
				break;
			case K_UDIV:
				if (umax(a) < umin(b)) return cst(0, w);
				if (Expr const *n = narrowDiv(k, a, b)) return n;
				if (isC(b)) {
					if (b->c == 1) return a;
					if (b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return bin(K_LSHR, a, cst(s, w)); }
				}
				break;
			case K_SDIV:
				if (isC(b) && b->c == 1) return a;
				// exact division of a shifted value: (x << s) / 2^s handled only when sign known non-negative
				if (isC(b) && b->c && (b->c & (b->c - 1)) == 0 && ((a->k0 >> (w - 1)) & 1) && sxt(b->c, w) > 0) return bin(K_UDIV, a, b);
				break;
			case K_UREM:
				if (umax(a) < umin(b)) return a;
				if (Expr const *n = narrowDiv(k, a, b)) return n;
				if (isC(b)) {
					if (b->c == 1) return cst(0, w);
					if (b->c && (b->c & (b->c - 1)) == 0) return bin(K_AND, cst(b->c - 1, w), a);
				}
				break;
			case K_AND:
				if (a == b) return a;
				if (isC(a)) {
					if (a->c == 0) return a;
					if (a->c == m) return b;
					if (b->k == K_AND && isC(b->op[0])) return bin(K_AND, cst(a->c & b->op[0]->c, w), b->op[1]);
					// mask covers every possibly-set bit
					if ((~b->k0 & m & ~a->c) == 0) return b;
					if (b->k == K_OR && isC(b->op[0]) && ((~b->op[1]->k0 & m) & a->c) == 0) return cst(a->c & b->op[0]->c, w);
					if (b->k == K_ADD && isC(b->op[0]) && ((~b->op[1]->k0 & m) & b->op[0]->c) == 0) return bin(K_OR, cst(a->c & b->op[0]->c, w), bin(K_AND, a, b->op[1]));
					if (b->k == K_ITE && (isC(b->op[1]) || isC(b->op[2]))) return ite(b->op[0], bin(k, a, b->op[1]), bin(k, a, b->op[2]));
				}
				if (w == 1) { if (a == lnot(b)) return fls(); }
				break;
			case K_OR:
				if (a == b) return a;
				if (isC(a)) {
					if (a->c == 0) return b;
					if (a->c == m) return a;
					if (b->k == K_OR && isC(b->op[0])) return bin(K_OR, cst(a->c | b->op[0]->c, w), b->op[1]);
					if (b->k == K_ITE && (isC(b->op[1]) || isC(b->op[2]))) return ite(b->op[0], bin(k, a, b->op[1]), bin(k, a, b->op[2]));
				}
				if (w == 1) { if (a == lnot(b)) return tru(); }
				for (int i = 0; i < 2; ++i) { // x << s | y with y < 2^s
					Expr const *x = i ? b : a, *y = i ? a : b;
					if (x->k == K_SHL && isC(x->op[1]) && x->op[1]->c && x->op[1]->c < w && umax(y) <= maskw((unsigned) x->op[1]->c)) {
						unsigned const sh = (unsigned) x->op[1]->c;
						return concat(extract(x->op[0], 0, w - sh), extract(y, 0, sh));
					}
				}
				break;
			case K_XOR:
				if (a == b) return cst(0, w);
				if (isC(a)) {
					if (a->c == 0) return b;
					if (w == 1) return lnot(b);
					if (b->k == K_XOR && isC(b->op[0])) return bin(K_XOR, cst(a->c ^ b->op[0]->c, w), b->op[1]);
				}
				break;
			case K_SHL: case K_LSHR: case K_ASHR:
				if (isC(b)) {
					if (b->c == 0) return a;
					if (b->c >= w && k != K_ASHR) return cst(0, w);
					if (k == K_SHL && a->k == K_SHL && isC(a->op[1])) return bin(K_SHL, a->op[0], cst(std::min<u128>(a->op[1]->c + b->c, w), w));
					if (k == K_LSHR && a->k == K_LSHR && isC(a->op[1])) return bin(K_LSHR, a->op[0], cst(std::min<u128>(a->op[1]->c + b->c, w), w));
					if (b->c < w) {
						unsigned s = (unsigned)b->c;
						if (k == K_LSHR && a->k == K_SHL && isC(a->op[1]) && a->op[1]->c == s) { // (x<<s)>>s
							return bin(K_AND, cst(m >> s, w), a->op[0]);
						}
						if (k == K_ASHR && (a->k0 >> (w - 1)) & 1) return bin(K_LSHR, a, b);
						if (k == K_LSHR && s) return zext(extract(a, s, w - s), w);
					}
					if (a->k == K_ITE && (isC(a->op[1]) || isC(a->op[2]))) return ite(a->op[0], bin(k, a->op[1], b), bin(k, a->op[2], b));
				}
				if (isC(a) && a->c == 0) return a;
				break;
			case K_EQ:
				if (a == b) return tru();
				if ((a->k1 & b->k0 & m) || (a->k0 & b->k1 & m)) return fls();
				if (w == 1) { if (isC(a)) return a->c ? b : lnot(b); }
				if (isC(a)) {
					u128 c = a->c;
					if (b->k == K_ADD && isC(b->op[0])) return bin(K_EQ, cst(c - b->op[0]->c, w), b->op[1]);
					if (b->k == K_XOR && isC(b->op[0])) return bin(K_EQ, cst(c ^ b->op[0]->c, w), b->op[1]);
					if (b->k == K_SUB && c == 0) return bin(K_EQ, b->op[0], b->op[1]);
					if (b->k == K_ZEXT) { uint32_t iw = b->op[0]->w; if (c & ~maskw(iw)) return fls(); return bin(K_EQ, cst(c, iw), b->op[0]); }
					if (b->k == K_SEXT) { uint32_t iw = b->op[0]->w; if ((u128)(sxt(c, iw) & (s128)m) != c) return fls(); return bin(K_EQ, cst(c, iw), b->op[0]); }
					if (b->k == K_CONCAT) return bin(K_AND, bin(K_EQ, cst(c >> b->op[1]->w, b->op[0]->w), b->op[0]), bin(K_EQ, cst(c, b->op[1]->w), b->op[1]));
					if (b->k == K_SHL && isC(b->op[1]) && b->op[1]->c < w) {
						unsigned s = (unsigned)b->op[1]->c;
						if (c & maskw(s)) return fls();
						return bin(K_EQ, cst(c >> s, w - s), extract(b->op[0], 0, w - s));
					}
					if (b->k == K_ITE) {
						Expr const *t = b->op[1], *f = b->op[2];
						bool tc = isC(t) || ((t->k1 & ~c) | (t->k0 & c & m)), fc = isC(f) || ((f->k1 & ~c) | (f->k0 & c & m));
						if (tc || fc) {
							Expr const *et = bin(K_EQ, a, t), *ef = bin(K_EQ, a, f);
							return ite(b->op[0], et, ef);
						}
					}
				} else {
					if (a->k == K_ZEXT && b->k == K_ZEXT && a->op[0]->w == b->op[0]->w) return bin(K_EQ, a->op[0], b->op[0]);
					if (a->k == K_SEXT && b->k == K_SEXT && a->op[0]->w == b->op[0]->w) return bin(K_EQ, a->op[0], b->op[0]);
					if (a->k == K_ADD && b->k == K_ADD && isC(a->op[0]) && isC(b->op[0]) && a->op[0] == b->op[0]) return bin(K_EQ, a->op[1], b->op[1]);
					if (a->k == K_ADD && b->k == K_ADD && isC(a->op[0]) && isC(b->op[0]) && a->op[1] == b->op[1]) return fls();
					if (a->k == K_ADD && isC(a->op[0]) && a->op[1] == b) return fls();
					if (b->k == K_ADD && isC(b->op[0]) && b->op[1] == a) return fls();
				}
				break;
			case K_ULT:
				if (a == b) return fls();
				if (umax(a) < umin(b)) return tru();
				if (umin(a) >= umax(b)) return fls();
				if (isC(b) && b->c == 1) return bin(K_EQ, cst(0, w), a);
				if (w == 1) return bin(K_AND, lnot(a), b);
				if (a->k == K_ZEXT && b->k == K_ZEXT && a->op[0]->w == b->op[0]->w) return bin(k, a->op[0], b->op[0]);
				if (a->k == K_ZEXT && isC(b)) { if (b->c > maskw(a->op[0]->w)) return tru(); return bin(k, a->op[0], cst(b->c, a->op[0]->w)); }
				if (b->k == K_ZEXT && isC(a)) { if (a->c > maskw(b->op[0]->w)) return fls(); return bin(k, cst(a->c, b->op[0]->w), b->op[0]); }
				break;
			case K_ULE:
				if (a == b) return tru();
				if (umax(a) <= umin(b)) return tru();
				if (umin(a) > umax(b)) return fls();
				if (isC(b) && b->c == 0) return bin(K_EQ, b, a);
				if (w == 1) return bin(K_OR, lnot(a), b);
				if (a->k == K_ZEXT && b->k == K_ZEXT && a->op[0]->w == b->op[0]->w) return bin(k, a->op[0], b->op[0]);
				if (a->k == K_ZEXT && isC(b)) { if (b->c >= maskw(a->op[0]->w)) return tru(); return bin(k, a->op[0], cst(b->c, a->op[0]->w)); }
				if (b->k == K_ZEXT && isC(a)) { if (a->c > maskw(b->op[0]->w)) return fls(); return bin(k, cst(a->c, b->op[0]->w), b->op[0]); }
				break;
			case K_SLT: case K_SLE: {
				if (a == b) return cst(k == K_SLE, 1);
				u128 top = (u128)1 << (w - 1);
				bool an = a->k1 & top, ap = a->k0 & top, bn = b->k1 & top, bp = b->k0 & top;
				if (an && bp) return tru();
				if (ap && bn) return fls();
				if ((ap && bp) || (an && bn)) return bin(k == K_SLT ? K_ULT : K_ULE, a, b);
				if (a->k == K_SEXT && b->k == K_SEXT && a->op[0]->w == b->op[0]->w) return bin(k, a->op[0], b->op[0]);
				if (a->k == K_SEXT && isC(b)) { uint32_t iw = a->op[0]->w; if ((u128)(sxt(b->c, iw)) == (u128)sxt(b->c, w)) return bin(k, a->op[0], cst(b->c, iw)); return cst(sxt(b->c, w) > 0, 1); }
				if (b->k == K_SEXT && isC(a)) { uint32_t iw = b->op[0]->w; if ((u128)(sxt(a->c, iw)) == (u128)sxt(a->c, w)) return bin(k, cst(a->c, iw), b->op[0]); return cst(sxt(a->c, w) < 0, 1); }
				break;
			}
			case K_UMULNO:
				if (isC(a) && a->c <= 1) return tru();
				if (isC(a)) return bin(K_ULE, b, cst(m / a->c, w));
				break;
			default: break;
		}
		// comparisons of ite-with-constants against a constant
		if ((k == K_ULT || k == K_ULE || k == K_SLT || k == K_SLE)) {
			if (isC(b) && a->k == K_ITE && isC(a->op[1]) && isC(a->op[2])) return ite(a->op[0], bin(k, a->op[1], b), bin(k, a->op[2], b));
			if (isC(a) && b->k == K_ITE && isC(b->op[1]) && isC(b->op[2])) return ite(b->op[0], bin(k, a, b->op[1]), bin(k, a, b->op[2]));
		}
		return raw(k, is1(k) ? 1 : w, 0, 0, a, b);
	}
	Expr const *ite(Expr const *c, Expr const *t, Expr const *f) {
		assert(c->w == 1 && t->w == f->w);
		if (isC(c)) return c->c ? t : f;
		if (t == f) return t;
		if (c->k == K_XOR && isC(c->op[0])) return ite(c->op[1], f, t);
		if (t->w == 1) {
			if (isC(t)) return t->c ? bin(K_OR, c, f) : bin(K_AND, lnot(c), f);
			if (isC(f)) return f->c ? bin(K_OR, lnot(c), t) : bin(K_AND, c, t);
		}
		if (t->k == K_ITE && t->op[0] == c) return ite(c, t->op[1], f);
		if (f->k == K_ITE && f->op[0] == c) return ite(c, t, f->op[2]);
		return raw(K_ITE, t->w, 0, 0, c, t, f);
	}
	Expr const *extract(Expr const *a, uint32_t lo, uint32_t w) {
		if (lo == 0 && w == a->w) return a;
		assert(lo + w <= a->w);
		if (isC(a)) return cst(a->c >> lo, w);
		switch (a->k) {
			case K_EXTRACT: return extract(a->op[0], a->aux + lo, w);
			case K_CONCAT: {
				uint32_t lw = a->op[1]->w;
				if (lo + w <= lw) return extract(a->op[1], lo, w);
				if (lo >= lw) return extract(a->op[0], lo - lw, w);
				return concat(extract(a->op[0], 0, lo + w - lw), extract(a->op[1], lo, lw - lo));
			}
			case K_ZEXT: {
				uint32_t iw = a->op[0]->w;
				if (lo >= iw) return cst(0, w);
				if (lo + w <= iw) return extract(a->op[0], lo, w);
				return zext(extract(a->op[0], lo, iw - lo), w);
			}
			case K_SEXT: {
				uint32_t iw = a->op[0]->w;
				if (lo >= iw && w > 1) return sext(extract(a->op[0], iw - 1, 1), w);
				if (lo + w <= iw) return extract(a->op[0], lo, w);
				if (lo < iw) return sext(extract(a->op[0], lo, iw - lo), w);
				break;
			}
			case K_ITE:
				if (isC(a->op[1]) || isC(a->op[2])) return ite(a->op[0], extract(a->op[1], lo, w), extract(a->op[2], lo, w));
				break;
			case K_AND: case K_OR: case K_XOR:
				if (a->k != K_AND) for (int i = 0; i < 2; ++i) if (((~a->op[i]->k0 >> lo) & maskw(w)) == 0) return extract(a->op[1 - i], lo, w);
				if (isC(a->op[0])) return bin(a->k, extract(a->op[0], lo, w), extract(a->op[1], lo, w));
				break;
			case K_ADD: case K_SUB: case K_MUL:
				if (lo == 0) return bin(a->k, extract(a->op[0], 0, w), extract(a->op[1], 0, w));
				break;
			case K_SHL:
				if (isC(a->op[1]) && a->op[1]->c < a->w) {
					uint32_t s = (uint32_t)a->op[1]->c;
					if (lo >= s) return extract(a->op[0], lo - s, w);
					if (lo + w <= s) return cst(0, w);
				}
				break;
			default: break;
		}
		return raw(K_EXTRACT, w, lo, 0, a);
	}
	Expr const *concat(Expr const *hi, Expr const *lo) {
		uint32_t w = hi->w + lo->w;
		if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
		if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, w);
		if (isC(hi) && hi->c == 0) return zext(lo, w);
		if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->op[0] == lo->op[0] && hi->aux == lo->aux + lo->w) return extract(hi->op[0], lo->aux, w);
		if (hi->k == K_EXTRACT && hi->op[0]->k == K_SEXT && hi->aux == lo->w && lo == sext(hi->op[0]->op[0], lo->w)) return sext(lo, w);
		if (hi->k == K_EXTRACT && hi->aux >= lo->w && extract(hi->op[0], hi->aux - lo->w, lo->w) == lo) return extract(hi->op[0], hi->aux - lo->w, w);
		// hi = extract(x, n), lo = (concat a b) where a is adjacent: reassociate
		if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->op[0]->k == K_EXTRACT && lo->op[0]->op[0] == hi->op[0] && hi->aux == lo->op[0]->aux + lo->op[0]->w)
			return concat(extract(hi->op[0], lo->op[0]->aux, hi->w + lo->op[0]->w), lo->op[1]);
		if (hi->k == K_ITE && lo->k == K_ITE && hi->op[0] == lo->op[0]) return ite(hi->op[0], concat(hi->op[1], lo->op[1]), concat(hi->op[2], lo->op[2]));
		return raw(K_CONCAT, w, 0, 0, hi, lo);
	}
	Expr const *zext(Expr const *a, uint32_t w) {
		if (w == a->w) return a;
		if (isC(a)) return cst(a->c, w);
		if (a->k == K_ZEXT) return zext(a->op[0], w);
		if (a->k == K_ITE && (isC(a->op[1]) || isC(a->op[2]))) return ite(a->op[0], zext(a->op[1], w), zext(a->op[2], w));
		return raw(K_ZEXT, w, 0, 0, a);
	}
	Expr const *sext(Expr const *a, uint32_t w) {
		if (w == a->w) return a;
		if (isC(a)) return cst((u128)sxt(a->c, a->w), w);
		if (a->k == K_SEXT) return sext(a->op[0], w);
		if (a->k == K_ZEXT) return zext(a->op[0], w);
		if ((a->k0 >> (a->w - 1)) & 1) return zext(a, w);
		if (a->k == K_ITE && (isC(a->op[1]) || isC(a->op[2]))) return ite(a->op[0], sext(a->op[1], w), sext(a->op[2], w));
		return raw(K_SEXT, w, 0, 0, a);
	}

	// --- V level (fast concrete path)
	V vbin(Kind k, V const &a, V const &b) {
		if (a.conc() && b.conc()) { bool ok; u128 r = fold2(k, a.c, b.c, a.w, ok); return V(r, is1(k) ? 1 : a.w); }
		return V(bin(k, E(a), E(b)));
	}
	V vnot(V const &a) { return a.conc() ? V(!a.c, 1) : V(lnot(a.e)); }
	V vite(V const &c, V const &t, V const &f) { if (c.conc()) return c.c ? t : f; return V(ite(c.e, E(t), E(f))); }
	V vextract(V const &a, uint32_t lo, uint32_t w) { return a.conc() ? V(a.c >> lo, w) : V(extract(a.e, lo, w)); }
	V vzext(V const &a, uint32_t w) { return a.conc() ? V(a.c, w) : V(zext(a.e, w)); }
	V vsext(V const &a, uint32_t w) { return a.conc() ? V((u128)sxt(a.c, a.w), w) : V(sext(a.e, w)); }
	V vand(V const &a, V const &b) { return vbin(K_AND, a, b); }
	V vor(V const &a, V const &b) { return vbin(K_OR, a, b); }
	V vzt(V const &a, uint32_t w) { return w <= a.w ? vextract(a, 0, w) : vzext(a, w); }

	std::vector<uint32_t> const &symset(Expr const *e) {
		if (symsets.size() < arena.size()) symsets.resize(arena.size() * 2 + 64);
		static std::vector<char> done;
		if (done.size() < symsets.size()) done.resize(symsets.size(), 0);
		if (done[e->id]) return symsets[e->id];
		std::vector<uint32_t> r;
		if (e->k == K_SYM) r.push_back(e->aux);
		else for (auto *o : e->op) if (o) {
			auto const &s = symset(o);
			std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(t)); r.swap(t);
		}
		if (symsets.size() < arena.size()) symsets.resize(arena.size() * 2 + 64);
		if (done.size() < symsets.size()) done.resize(symsets.size(), 0);
		symsets[e->id] = std::move(r); done[e->id] = 1;
		return symsets[e->id];
	}
};

extern ExprPool P;

typedef std::vector<uint64_t> Model; // by symbol index, missing = 0

// evaluate under a model, memoised per call
struct Evaluator {
	Model const &m;
	std::unordered_map<uint32_t, u128> memo;
	explicit Evaluator(Model const &m_) : m(m_) {}
	u128 eval(Expr const *e) {
		switch (e->k) {
			case K_CONST: return e->c;
			case K_SYM: return e->aux < m.size() ? (u128)m[e->aux] & maskw(e->w) : 0;
			default: break;
		}
		auto it = memo.find(e->id);
		if (it != memo.end()) return it->second;
		u128 r;
		switch (e->k) {
			case K_ITE: r = eval(e->op[0]) ? eval(e->op[1]) : eval(e->op[2]); break;
			case K_EXTRACT: r = (eval(e->op[0]) >> e->aux) & maskw(e->w); break;
			case K_CONCAT: r = (eval(e->op[0]) << e->op[1]->w) | eval(e->op[1]); break;
			case K_ZEXT: r = eval(e->op[0]); break;
			case K_SEXT: r = (u128)sxt(eval(e->op[0]), e->op[0]->w) & maskw(e->w); break;
			default: { bool ok; r = ExprPool::fold2(e->k, eval(e->op[0]), eval(e->op[1]), e->op[0]->w, ok); assert(ok); }
		}
		memo.emplace(e->id, r);
		return r;
	}
};
