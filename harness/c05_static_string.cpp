// static_string: content, allocator discipline, failing allocations.
// @bound strings of 0..3 characters (every character value) of 1, 2 and 4 byte character types, histories of 2 operations over two strings; allocators of every propagation kind with equal or unequal identities; any one allocation may fail
// @reach char_plain alloc_fail copy move self
// @reach char_pocca alloc_fail copy move
// @reach u32_noprop alloc_fail copy move
// @reach cmp_ less equal greater
#include "sym.hpp"
#include <dice/template-library/static_string.hpp>
#include <new>

namespace dtl = dice::template_library;

// heap bookkeeping shared by all allocators
struct Blk { void *p; size_t n; int owner; };
static Blk blks[16];
static int nlive, budget;

template<typename T, bool POCCA, bool POCMA, bool POCS, bool EQ>
struct Al {
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<POCCA>;
	using propagate_on_container_move_assignment = std::bool_constant<POCMA>;
	using propagate_on_container_swap = std::bool_constant<POCS>;
	using is_always_equal = std::bool_constant<EQ>;
	template<typename U> struct rebind { using other = Al<U, POCCA, POCMA, POCS, EQ>; };
	int id = 0;
	Al(int i = 0) : id{EQ ? 0 : i} {}
	T *allocate(size_t n) {
		CHECKM(n > 0, "no empty allocations");
		if (budget > 0 && dtl_choice(2, "alloc_fails")) { --budget; throw std::bad_alloc{}; }
		T *p = (T *) ::operator new(n * sizeof(T));
		for (auto &b : blks) if (!b.p) { b = {p, n, id}; ++nlive; return p; }
		dtl_kill(); return nullptr;
	}
	void deallocate(T *p, size_t n) {
		for (auto &b : blks) if (b.p == p) {
			CHECKM(b.n == n, "released with the size it was allocated with");
			CHECKM(b.owner == id, "released by the allocator that allocated it");
			b = {}; --nlive; ::operator delete(p); return;
		}
		CHECKM(false, "only live blocks are released");
	}
	bool operator==(Al const &o) const noexcept { return id == o.id; }
};
template<typename C> struct Ref { C d[3]; size_t n; };

template<typename C>
static Ref<C> src(char const *name) {
	Ref<C> r;
	r.n = dtl_choice(4, name);
	for (size_t i = 0; i < 3; ++i) r.d[i] = i < r.n ? sym<C>("c") : C{};
	return r;
}
template<typename Str, typename C>
static void same(Str &s, Ref<C> const &r) {
	Str const &c = s;
	std::basic_string_view<C> v = s;
	CHECKM(s.size() == r.n && s.empty() == (r.n == 0) && v.size() == r.n, "length");
	CHECKM((size_t) (s.end() - s.begin()) == r.n && (size_t) (c.end() - c.begin()) == r.n && (size_t) (c.cend() - c.cbegin()) == r.n, "iterators span the characters");
	CHECKM((size_t) (s.rend() - s.rbegin()) == r.n && (size_t) (c.crend() - c.crbegin()) == r.n && (size_t) (c.rend() - c.rbegin()) == r.n, "reverse iterators span the characters");
	for (size_t i = 0; i < r.n; ++i) {
		CHECKM(s[i] == r.d[i] && c[i] == r.d[i] && v[i] == r.d[i] && s.data()[i] == r.d[i] && c.data()[i] == r.d[i], "characters");
		CHECKM(*(s.begin() + i) == r.d[i] && *(c.cbegin() + i) == r.d[i], "forward iteration");
		CHECKM(*(s.rbegin() + i) == r.d[r.n - 1 - i] && *(c.crbegin() + i) == r.d[r.n - 1 - i], "reverse iteration");
	}
	if (r.n) CHECKM(s.front() == r.d[0] && c.front() == r.d[0] && s.back() == r.d[r.n - 1] && c.back() == r.d[r.n - 1], "front and back");
	OBS(r.n);
	for (size_t i = 0; i < r.n; ++i) OBS(s[i]);
}
template<typename Str, typename C>
static Ref<C> observe(Str &s) {
	Ref<C> r{};
	CHECKM(s.size() <= 3, "length");
	r.n = s.size();
	for (size_t i = 0; i < r.n && i < 3; ++i) r.d[i] = s[i];
	return r;
}
template<typename F>
static bool armed(F &&f) {
	budget = 1;
	bool threw = false;
	try { f(); } catch (std::bad_alloc const &) { threw = true; REACH("alloc_fail"); CHECKM(budget == 0, "only an allocation failure comes out"); }
	if (!threw) CHECKM(budget == 1, "an allocation failure comes out");
	budget = 0;
	return threw;
}
template<typename C, typename A>
static void run(int ops) {
	using Str = dtl::basic_static_string<C, std::char_traits<C>, A>;
	using View = std::basic_string_view<C>;
	int const ida = 1, idb = 1 + (int) dtl_choice(2, "other_allocator");
	{
		Ref<C> ra = src<C>("na"), rb = src<C>("nb");
		C buf[3];
		for (size_t i = 0; i < 3; ++i) buf[i] = ra.d[i];
		Str a{View{buf, ra.n}, A{ida}};
		for (size_t i = 0; i < 3; ++i) buf[i] = C{}; // the string owns its characters
		Str b{View{rb.d, rb.n}, A{idb}};
		same(a, ra); same(b, rb);
		for (int k = 0; k < ops; ++k) {
			switch (dtl_choice(9, "op")) {
				case 0: if (!armed([&] { Str &r = (a = static_cast<Str const &>(b)); CHECK(&r == &a); })) ra = rb; REACH("copy"); break; // unchanged if it fails
				case 1: if (!armed([&] { Str &r = (a = std::move(b)); CHECK(&r == &a); })) { ra = rb; rb = observe<Str, C>(b); } REACH("move"); break;
				case 2: swap(a, b); std::swap(ra, rb); break;
				case 3: { Str const &self = a; a = self; REACH("self"); break; }
				case 4: armed([&] { Str c{static_cast<Str const &>(b)}; budget = 1; same(c, rb); if (rb.n) { c[0] = (C) (rb.d[0] ^ 1); CHECKM(b[0] == rb.d[0], "a copy is independent"); } }); break;
				case 5: { Str c{std::move(b)}; same(c, rb); rb = Ref<C>{}; rb.n = 0; break; }
				case 6: if (ra.n) { size_t i = dtl_choice((uint32_t) ra.n, "at"); C v = sym<C>("v"); a[i] = v; ra.d[i] = v; } else { Str e; same(e, ra); } break;
				case 7: if (ra.n) { C v = sym<C>("v"); a.front() = v; ra.d[0] = v; v = sym<C>("w"); a.back() = v; ra.d[ra.n - 1] = v; } else swap(a, a); break;
				case 8: armed([&] { Str c{View{rb.d, rb.n}, A{3}}; budget = 1; same(c, rb); CHECKM(c == b, "equal content"); }); break;
			}
			same(a, ra); same(b, rb);
		}
	}
	CHECKM(nlive == 0, "every block is released");
}
#ifdef THOROUGH
constexpr int N = 2, N1 = 3;
#else
constexpr int N = 1, N1 = 2;
#endif
HARNESS(char_plain) { run<char, Al<char, false, false, false, true>>(N1); }
HARNESS(char_pocca) { run<char, Al<char, true, false, true, false>>(N); }
HARNESS(char_pocma) { run<char, Al<char, false, true, false, false>>(N); }
HARNESS(u16_prop) { run<char16_t, Al<char16_t, true, true, true, false>>(N); }
HARNESS(u32_noprop) { run<char32_t, Al<char32_t, false, false, false, false>>(N); }
HARNESS(wide_noprop) { run<wchar_t, Al<wchar_t, false, false, true, false>>(N); }

template<typename C>
static void cmp() {
	using Str = dtl::basic_static_string<C>;
	Ref<C> ra = src<C>("na"), rb = src<C>("nb");
	std::basic_string_view<C> va{ra.d, ra.n}, vb{rb.d, rb.n};
	Str a{va}, b{vb};
	int want = 0; // lexicographical by character value (characters compare as unsigned values)
	using U = std::make_unsigned_t<C>;
	for (size_t i = 0; i < 3 && want == 0; ++i) {
		if (i >= ra.n || i >= rb.n) { want = ra.n == rb.n ? 0 : ra.n < rb.n ? -1 : 1; break; }
		if (ra.d[i] != rb.d[i]) want = std::is_same_v<C, char> ? ((U) ra.d[i] < (U) rb.d[i] ? -1 : 1) : ra.d[i] < rb.d[i] ? -1 : 1;
	}
	auto o = a <=> b;
	CHECKM((o < 0) == (want < 0) && (o > 0) == (want > 0) && (o == 0) == (want == 0), "three-way comparison is that of the characters");
	CHECKM((a == b) == (want == 0) && (a != b) == (want != 0) && (a < b) == (want < 0) && (a >= b) == (want >= 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0), "comparison operators");
	CHECKM((a == vb) == (want == 0) && (vb == a) == (want == 0) && (a != vb) == (want != 0) && (a < vb) == (want < 0) && (a > vb) == (want > 0) && (vb < a) == (want > 0), "comparison with a string view");
	if (want < 0) REACH("less"); else if (want > 0) REACH("greater"); else REACH("equal");
	OBS(want + 1);
}
HARNESS(cmp_) { cmp<char>(); }
HARNESS(cmp_16) { cmp<char16_t>(); }
HARNESS(cmp_8) { cmp<char8_t>(); }
HARNESS(cmp_w) { cmp<wchar_t>(); }
