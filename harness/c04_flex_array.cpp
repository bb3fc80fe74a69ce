// flex_array: sequence semantics in all modes, bounds never exceeded.
// @bound static extent 3, limited dynamic extent 4, dynamic extent up to 5 elements; source sequences of 0..6 elements (random access ranges of every length below 2^62 for the bounded modes); every element value; histories of 3 operations
// @reach limited_ init_ok init_len iter_ok iter_len resize_ok resize_bad grow shrink
// @reach static_ init_ok init_len iter_ok iter_len
// @reach dynamic_ init_ok iter_ok
// @reach lengths_limited length_ok length_bad
// @reach lengths_static length_ok length_bad
// @reach convert_ ok len
// @reach cmp_limited less equal greater
// @reach cmp_static less equal greater
// @reach cmp_dynamic less equal greater
#include "sym.hpp"
#include <dice/template-library/flex_array.hpp>
#include <algorithm>
#include <iterator>

namespace dtl = dice::template_library;
using dtl::flex_array, dtl::dynamic_extent;

// a single pass input iterator over bytes
struct InIt {
	using value_type = uint8_t;
	using difference_type = std::ptrdiff_t;
	using iterator_category = std::input_iterator_tag;
	using reference = uint8_t;
	using pointer = void;
	uint8_t const *p;
	uint8_t operator*() const { return *p; }
	InIt &operator++() { ++p; return *this; }
	InIt operator++(int) { InIt o = *this; ++p; return o; }
	bool operator==(InIt const &) const = default;
};

// a random access iterator over the bytes of a counter: ranges of any length
struct Cnt {
	using value_type = uint8_t;
	using difference_type = int64_t;
	using iterator_category = std::random_access_iterator_tag;
	using reference = uint8_t;
	using pointer = void;
	int64_t i = 0;
	uint8_t operator*() const { return (uint8_t) (i * 3 + 1); }
	uint8_t operator[](int64_t n) const { return *(*this + n); }
	Cnt &operator++() { ++i; return *this; }
	Cnt operator++(int) { Cnt o = *this; ++i; return o; }
	Cnt &operator--() { --i; return *this; }
	Cnt operator--(int) { Cnt o = *this; --i; return o; }
	Cnt &operator+=(int64_t n) { i += n; return *this; }
	Cnt &operator-=(int64_t n) { i -= n; return *this; }
	friend Cnt operator+(Cnt c, int64_t n) { c.i += n; return c; }
	friend Cnt operator+(int64_t n, Cnt c) { c.i += n; return c; }
	friend Cnt operator-(Cnt c, int64_t n) { c.i -= n; return c; }
	friend int64_t operator-(Cnt a, Cnt b) { return a.i - b.i; }
	auto operator<=>(Cnt const &) const = default;
};
static_assert(std::random_access_iterator<Cnt> && std::input_iterator<InIt> && !std::forward_iterator<InIt>);

struct Src { uint8_t d[6]; unsigned n; };
static Src source(unsigned max, char const *name = "n") {
	Src s;
	s.n = dtl_choice(max + 1, name);
	for (unsigned i = 0; i < 6; ++i) s.d[i] = i < s.n ? sym<uint8_t>("e") : 0;
	return s;
}
template<typename F>
static void same(F &f, uint8_t const *d, size_t n) {
	F const &c = f;
	CHECKM(f.size() == n, "size");
	CHECKM(f.empty() == (n == 0), "empty");
	CHECKM((size_t) (f.end() - f.begin()) == n && (size_t) (c.end() - c.begin()) == n && (size_t) (f.cend() - f.cbegin()) == n, "begin/end span exactly the elements");
	CHECKM(n == 0 || (f.data() == &*f.begin() && c.data() == &*c.begin()), "data points at the first element");
	for (size_t i = 0; i < n; ++i) {
		CHECKM(f[i] == d[i] && c[i] == d[i], "operator[] yields element i");
		CHECKM(&f[i] == f.begin() + i && &c[i] == c.begin() + i, "elements are contiguous");
		CHECKM(*(f.rbegin() + i) == d[n - 1 - i] && *(c.rbegin() + i) == d[n - 1 - i] && *(c.crbegin() + i) == d[n - 1 - i], "reverse iteration");
	}
	CHECKM((size_t) (f.rend() - f.rbegin()) == n && (size_t) (c.crend() - c.crbegin()) == n, "reverse iteration spans the elements");
	if constexpr (F::has_dynamic_extent) {
		std::span<uint8_t> s{f}; std::span<uint8_t const> cs{c};
		CHECKM(s.size() == n && cs.size() == n && s.data() == f.data() && cs.data() == c.data(), "span conversion");
	} else {
		std::span<uint8_t, F::extent> s{f}; std::span<uint8_t const, F::extent> cs{c};
		CHECKM(s.size() == n && cs.size() == n && s.data() == f.data() && cs.data() == c.data(), "span conversion");
	}
	OBS(n);
	for (size_t i = 0; i < n; ++i) OBS(f[i]);
}
template<typename F>
static F from_list(Src const &s) {
	auto const *d = s.d;
	switch (s.n) {
		case 0: { std::initializer_list<uint8_t> l{}; return F(l); }
		case 1: return F{d[0]};
		case 2: return F{d[0], d[1]};
		case 3: return F{d[0], d[1], d[2]};
		case 4: return F{d[0], d[1], d[2], d[3]};
		case 5: return F{d[0], d[1], d[2], d[3], d[4]};
		default: return F{d[0], d[1], d[2], d[3], d[4], d[5]};
	}
}
template<typename F>
static F build(unsigned how, Src const &s) {
	if (how == 0) return from_list<F>(s);
	if (how == 1) return F(s.d, s.d + s.n);
	return F(InIt{s.d}, InIt{s.d + s.n});
}
template<typename F>
static void construct(size_t minn, size_t maxn, bool exact_iter) {
	Src s = source(6);
	unsigned how = dtl_choice(3, "how");
	bool threw = false;
	bool const fits = s.n <= maxn && (how ? (!exact_iter || s.n == minn) : s.n >= minn);
	if (how && exact_iter && s.n < minn) return; // a shorter range leaves the rest of a static array unspecified
	try {
		F f = build<F>(how, s);
		CHECKM(fits, "a source of the wrong length is rejected");
		same(f, s.d, s.n);
		REACH(how ? "iter_ok" : "init_ok");
		F g = f; same(g, s.d, s.n); same(f, s.d, s.n);
		F h = std::move(g); same(h, s.d, s.n);
		CHECKM(h == f && !(h != f) && (h <=> f) == 0, "copies compare equal");
	} catch (std::length_error const &) {
		threw = true;
		REACH(how ? "iter_len" : "init_len");
	}
	CHECKM(threw == !fits, "exactly the sources of the wrong length are rejected with length_error");
	OBS(threw);
}
using L = flex_array<uint8_t, dynamic_extent, 4>;
using S = flex_array<uint8_t, 3>;
using D = flex_array<uint8_t, dynamic_extent>;
static_assert(L::max_size() == 4 && S::max_size() == 3 && L::mode == dtl::flex_array_mode::direct_dynamic_limited_size && S::mode == dtl::flex_array_mode::direct_static_size && D::mode == dtl::flex_array_mode::dynamic_size);
static_assert(L::has_dynamic_extent && D::has_dynamic_extent && !S::has_dynamic_extent && L::has_max_extent && S::has_max_extent && !D::has_max_extent);

// ranges of every length: the maximum counts, whatever the length
template<typename F>
static void lengths() {
	uint64_t const n = sym<uint64_t>("length");
	dtl_assume(n < 1ull << 62);
	if (!F::has_dynamic_extent) dtl_assume(n >= F::max_size()); // a shorter range leaves the rest of a static array unspecified
	bool threw = false;
	try {
		F f(Cnt{0}, Cnt{(int64_t) n});
		uint8_t d[8];
		uint64_t const m = dtl_fork(f.size());
		CHECKM((m <= F::max_size()) & (m == n), "size");
		for (uint64_t i = 0; i < m; ++i) d[i] = (uint8_t) (i * 3 + 1);
		same(f, d, m);
		REACH("length_ok");
	} catch (std::length_error const &) { threw = true; REACH("length_bad"); }
	CHECKM(threw == (n > F::max_size()), "exactly the ranges longer than the maximum are rejected");
	OBS(threw);
}
HARNESS(lengths_limited) { lengths<L>(); }
HARNESS(lengths_static) { lengths<S>(); }

// a history of operations on a resizable array against a plain array
template<typename F>
static void history(size_t maxn, int ops) {
	Src s = source((unsigned) maxn);
	uint8_t ref[8]; bool known[8];
	F f(s.d, s.d + s.n);
	size_t n = s.n;
	for (size_t i = 0; i < n; ++i) { ref[i] = s.d[i]; known[i] = true; }
	for (int k = 0; k < ops; ++k) {
		switch (dtl_choice(5, "op")) {
			case 0: {
				size_t m = sym<uint64_t>("new_size");
				if (!F::has_max_extent) dtl_assume(m <= maxn);
				bool threw = false;
				size_t keep;
				try { f.resize(m); } catch (std::invalid_argument const &) { threw = true; }
				if (F::has_max_extent) CHECKM(threw == (m > maxn), "resize rejects exactly the sizes above the maximum");
				else CHECKM(!threw, "resize succeeds");
				if (threw) REACH("resize_bad"); else {
					REACH("resize_ok");
					m = dtl_fork(m);
					if (m > n) { REACH("grow"); for (size_t i = n; i < m; ++i) { f[i] = (uint8_t) (i + 100); ref[i] = (uint8_t) (i + 100); } }
					else REACH("shrink");
					n = m;
				}
				break;
			}
			case 1: { if (n == 0) break; size_t i = dtl_choice((uint32_t) n, "at"); uint8_t v = sym<uint8_t>("v"); f[i] = v; ref[i] = v; break; }
			case 2: { // swap with another
				Src t = source((unsigned) maxn, "m");
				F g(t.d, t.d + t.n);
				swap(f, g);
				same(g, ref, n);
				n = t.n;
				for (size_t i = 0; i < n; ++i) ref[i] = t.d[i];
				break;
			}
			case 3: { F g; g = f; f = g; same(g, ref, n); break; }
			case 4: { F g; CHECKM(F::has_max_extent || g.size() == 0, "default is empty"); g = std::move(f); same(g, ref, n); f = std::move(g); break; }
		}
		same(f, ref, n);
	}
}
#ifdef THOROUGH
constexpr int K = 3;
#else
constexpr int K = 2;
#endif
HARNESS(limited_) { if (dtl_choice(2, "what")) construct<L>(0, 4, false); else history<L>(4, K); }
HARNESS(static_) { construct<S>(3, 3, true); }
HARNESS(dynamic_) { if (dtl_choice(2, "what")) construct<D>(0, 100, false); else history<D>(3, K); }
HARNESS(short_static_) { // the given elements come first whatever the length
	Src s = source(3);
	unsigned how = dtl_choice(2, "how");
	S f = how ? S(InIt{s.d}, InIt{s.d + s.n}) : S(s.d, s.d + s.n);
	CHECK(f.size() == 3);
	for (unsigned i = 0; i < s.n; ++i) CHECKM(f[i] == s.d[i], "leading elements");
	S g{1, 2, 3}; S h{4, 5, 6};
	swap(g, h);
	CHECKM(g[0] == 4 && g[2] == 6 && h[1] == 2, "swap of static arrays");
	g[s.n % 3] = s.d[0]; h = g;
	CHECKM(h[s.n % 3] == s.d[0], "assignment of static arrays");
}
HARNESS(convert_) {
	Src s = source(4);
	bool threw = false;
	unsigned which = dtl_choice(4, "which");
	if (which == 0) { L l(s.d, s.d + s.n); try { S f{l}; same(f, s.d, 3); REACH("ok"); } catch (std::length_error const &) { threw = true; REACH("len"); } CHECKM(threw == (s.n != 3), "dynamic to static needs the exact size"); }
	else if (which == 1) { D l(s.d, s.d + s.n); try { S f{l}; same(f, s.d, 3); } catch (std::length_error const &) { threw = true; } CHECKM(threw == (s.n != 3), "dynamic to static needs the exact size"); }
	else if (which == 2) { S f{s.d[0], s.d[1], s.d[2]}; L l = f; same(l, s.d, 3); }
	else { S f{s.d[0], s.d[1], s.d[2]}; D l = f; same(l, s.d, 3); }
	OBS(threw);
}
template<typename F>
static void cmp(unsigned fixed) {
	Src a, b;
	if (fixed) { a.n = b.n = fixed; for (unsigned i = 0; i < fixed; ++i) { a.d[i] = sym<uint8_t>("a"); b.d[i] = sym<uint8_t>("b"); } }
	else { a = source(3, "na"); b = source(3, "nb"); }
	F x(a.d, a.d + a.n), y(b.d, b.d + b.n);
	// whatever was stored beyond the current size must not matter
	if constexpr (F::has_dynamic_extent) {
		unsigned grow = dtl_choice(2, "stale");
		if (grow) { x.resize(4); x[3] = sym<uint8_t>("stale"); x.resize(a.n); }
	}
	int want = 0; // by definition of lexicographical order
	for (unsigned i = 0; i < 3 && want == 0; ++i) {
		if (i >= a.n || i >= b.n) { want = a.n == b.n ? 0 : a.n < b.n ? -1 : 1; break; }
		if (a.d[i] != b.d[i]) want = a.d[i] < b.d[i] ? -1 : 1;
	}
	CHECKM((x == y) == (want == 0) && (x != y) == (want != 0), "equality is elementwise");
	CHECKM((x < y) == (want < 0) && (x > y) == (want > 0) && (x <= y) == (want <= 0) && (x >= y) == (want >= 0), "ordering is lexicographical");
	auto o = x <=> y;
	CHECKM((o < 0) == (want < 0) && (o > 0) == (want > 0) && (o == 0) == (want == 0), "three-way comparison is lexicographical");
	if (want < 0) REACH("less"); else if (want > 0) REACH("greater"); else REACH("equal");
	OBS(want + 1);
}
HARNESS(cmp_limited) { cmp<L>(0); }
HARNESS(cmp_static) { cmp<S>(3); }
HARNESS(cmp_dynamic) { cmp<D>(0); }
