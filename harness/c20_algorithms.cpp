// range algorithms and adaptors of ranges.hpp
// @bound every sequence of up to 4 (thorough: 5) elements (hash and tree based algorithms: 3, thorough 4; comparisons: 3 and 3 elements), given as a contiguous range, a forward range, a single-pass range that overwrites its current element, and a single-pass range with a move-only iterator, through the call with a range, with an iterator pair, and with the pipe operator; default and other predicates, comparators and projections
// @parts of 4
// @reach of done yes no
// @reach empties done
// @parts equal 4
// @reach equal done yes no
// @parts distinct 4
// @reach distinct done yes no
// @parts uniq 4
// @reach uniq done dropped
// @parts removed 4
// @reach removed done dropped
// @parts sorted 4
// @reach sorted done yes no
// @parts compare 4
// @reach compare done less equal greater unordered
// @reach proxies done yes no
#include "src.hpp"
#include <dice/template-library/ranges.hpp>
#include <forward_list>
#include <vector>

namespace dtl = dice::template_library;
#ifdef THOROUGH
constexpr size_t N = 5, M = 4, L = 3;
#else
constexpr size_t N = 4, M = 3, L = 3;
#endif

template<typename T>
static size_t fill(T *a, size_t max) {
	size_t const n = dtl_choice(max + 1, "n");
	for (size_t i = 0; i < n; ++i) a[i] = T{sym<uint8_t>("element")};
	return n;
}

HARNESS_PART(of) {
	each_kind(part, []<Kind K>() {
		uint8_t a[N]; size_t const n = fill(a, N);
		uint8_t const limit = sym<uint8_t>("limit");
		auto const pred = [limit](uint8_t x) { return x < limit; };
		bool all = true, any = false;
		for (size_t i = 0; i < n; ++i) { all = all & (a[i] < limit); any = any | (a[i] < limit); }
		bool got;
		switch (dtl_choice(3, "algorithm")) {
			case 0: got = call<K>(dtl::all_of, a, n, pred); CHECKM(got == all, "all_of: every element fulfils the predicate"); break;
			case 1: got = call<K>(dtl::any_of, a, n, pred); CHECKM(got == any, "any_of: some element fulfils the predicate"); break;
			default: got = call<K>(dtl::none_of, a, n, pred); CHECKM(got == !any, "none_of: no element fulfils the predicate");
		}
		OBS(got);
		if (got) REACH("yes"); else REACH("no");
		REACH("done");
	});
}
HARNESS(empties) {
	uint8_t a[N]; size_t const n = fill(a, N);
	Src<uint8_t, FORWARD> f{a, n};
	Src<uint8_t, CONTIGUOUS> c{a, n};
	bool const want = n == 0;
	CHECKM((dtl::empty(f) == want) & (dtl::empty(c) == want) & (dtl::empty(f.begin(), f.end()) == want) & (dtl::empty(a, a + n) == want), "empty tells whether there is no element");
	CHECKM(((f | dtl::empty) == want) & ((c | dtl::empty) == want), "empty tells whether there is no element");
	CHECKM((dtl::non_empty(f) != want) & (dtl::non_empty(c) != want) & (dtl::non_empty(f.begin(), f.end()) != want) & (dtl::non_empty(a, a + n) != want), "non_empty tells whether there is an element");
	CHECKM(((f | dtl::non_empty) != want) & ((c | dtl::non_empty) != want) & ((dtl::range((int) n) | dtl::empty) == want) & ((dtl::range(3) | dtl::non_empty)), "non_empty tells whether there is an element");
	REACH("done");
}
HARNESS_PART(equal) {
	each_kind(part, []<Kind K>() {
		uint8_t a[N]; size_t const n = fill(a, N);
		bool got;
		if (dtl_choice(2, "predicate") == 0) {
			bool want = true;
			for (size_t i = 1; i < n; ++i) want = want & (a[i] == a[0]);
			if (dtl_choice(2, "default")) got = call<K>(dtl::all_equal, a, n); else got = call<K>(dtl::all_equal, a, n, std::ranges::equal_to{});
			CHECKM(got == want, "all_equal: every element equals the first");
		} else {
			bool want = true;
			for (size_t i = 1; i < n; ++i) want = want & (a[i] / 4 == a[0] / 4);
			got = call<K>(dtl::all_equal, a, n, [](uint8_t x, uint8_t y) { return x / 4 == y / 4; });
			CHECKM(got == want, "all_equal: every element equals the first, as the predicate says");
		}
		if (got) REACH("yes"); else REACH("no");
		REACH("done");
	});
}
// elements for hash sets and for trees
struct Hashed { uint8_t v = 0; bool operator==(Hashed const &) const = default; };
template<> struct std::hash<Hashed> { size_t operator()(Hashed const &h) const noexcept { return dtl_fork(h.v & 1); } };
struct Less { uint8_t v = 0; bool operator<(Less const &o) const { return v < o.v; } bool operator==(Less const &) const = default; };
struct Small { // an integer with the standard hash
	static size_t fill(int *a, size_t max) {
		size_t const n = dtl_choice(max + 1, "n");
		for (size_t i = 0; i < n; ++i) a[i] = (int) dtl_choice(3, "element") - 1;
		return n;
	}
};
static uint32_t val(uint8_t x) { return x; }
static uint32_t val(int x) { return (uint32_t) x; }
static uint32_t val(Hashed const &x) { return x.v; }
static uint32_t val(Less const &x) { return x.v; }
template<Kind K, typename T>
static void distinct(T *a, size_t n) {
	bool want = true;
	for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < i; ++k) want = want & (val(a[i]) != val(a[k]));
	bool const got = call<K>(dtl::all_distinct, a, n);
	CHECKM(got == want, "all_distinct: no two elements are equal");
	if (got) REACH("yes"); else REACH("no");
	REACH("done");
}
HARNESS_PART(distinct) {
	each_kind(part, []<Kind K>() {
		switch (dtl_choice(4, "type")) {
			case 0: { Hashed a[M]; distinct<K>(a, fill(a, M)); break; }
			case 1: { Less a[M]; distinct<K>(a, fill(a, M)); break; }
			case 2: { int a[M]; distinct<K>(a, Small::fill(a, M)); break; }
			default: { // a coarser equality
				Hashed a[M]; size_t const n = fill(a, M);
				bool want = true;
				for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < i; ++k) want = want & (a[i].v % 8 != a[k].v % 8);
				bool const got = call<K>(dtl::all_distinct, a, n, [](Hashed const &x, Hashed const &y) { return x.v % 8 == y.v % 8; });
				CHECKM(got == want, "all_distinct: no two elements are equal, as the predicate says");
				REACH("done");
			}
		}
	});
}
template<Kind K, typename T>
static void uniq(T *a, size_t n) {
	// first occurrences, in order
	size_t at[M], m = 0;
	for (size_t i = 0; i < n; ++i) {
		bool first = true;
		for (size_t k = 0; k < i; ++k) first = first & (val(a[i]) != val(a[k]));
		if (dtl_fork(first)) at[m++] = i;
	}
	Src<T, K> src{a, n};
	size_t k = 0;
	auto look = [&](auto &&view) {
		for (auto &&x : view) {
			CHECKM(k < m && val(x) == val(a[at[k]]), "unique gives the first occurrences in order");
			if constexpr (K == CONTIGUOUS || K == FORWARD) CHECKM(&x == &a[at[k]], "unique gives the elements themselves");
			++k;
		}
	};
	if (dtl_choice(2, "form") == 0) look(dtl::unique(src));
	else look(src | dtl::unique);
	CHECKM(k == m, "unique gives all first occurrences");
	if (m < n) REACH("dropped");
	if constexpr (K == FORWARD) { // composes, and can be iterated again
		auto v = src | dtl::unique;
		size_t c = 0, d = 0;
		for (auto &x : v) { (void) x; ++c; }
		for (auto x : v | std::views::transform([](T const &t) { return val(t); })) { (void) x; ++d; }
		CHECKM((c == m) & (d == m), "a unique view can be iterated again");
	}
	REACH("done");
}
HARNESS_PART(uniq) {
	each_kind(part, []<Kind K>() {
		switch (dtl_choice(3, "type")) {
			case 0: { Hashed a[M]; uniq<K>(a, fill(a, M)); break; }
			case 1: { Less a[M]; uniq<K>(a, fill(a, M)); break; }
			default: { int a[M]; uniq<K>(a, Small::fill(a, M)); }
		}
	});
}
HARNESS_PART(removed) {
	each_kind(part, []<Kind K>() {
		uint8_t a[N]; size_t const n = fill(a, N);
		uint8_t const v = sym<uint8_t>("value");
		bool const coarse = dtl_choice(2, "predicate");
		size_t at[N], m = 0;
		for (size_t i = 0; i < n; ++i) if (dtl_fork(coarse ? a[i] / 8 != v / 8 : a[i] != v)) at[m++] = i;
		Src<uint8_t, K> src{a, n};
		size_t k = 0;
		auto look = [&](auto &&view) {
			for (auto &&x : view) {
				CHECKM(k < m && x == a[at[k]], "remove_element keeps the other elements in order");
				if constexpr (K == CONTIGUOUS || K == FORWARD) CHECKM(&x == &a[at[k]], "remove_element gives the elements themselves");
				++k;
			}
		};
		if (coarse) look(src | dtl::remove_element(v, [](uint8_t x, uint8_t y) { return x / 8 == y / 8; }));
		else look(src | dtl::remove_element(v));
		CHECKM(k == m, "remove_element keeps all other elements");
		if (m < n) REACH("dropped");
		REACH("done");
	});
}
HARNESS_PART(sorted) {
	each_kind(part, []<Kind K>() {
		uint8_t a[N]; size_t const n = fill(a, N);
		bool want = true, got;
		switch (dtl_choice(3, "order")) {
			case 0: for (size_t i = 1; i < n; ++i) want = want & (a[i - 1] < a[i]);
				got = call<K>(dtl::is_sorted_unique, a, n); break;
			case 1: for (size_t i = 1; i < n; ++i) want = want & (a[i - 1] > a[i]);
				got = call<K>(dtl::is_sorted_unique, a, n, std::ranges::greater{}); break;
			default: for (size_t i = 1; i < n; ++i) want = want & ((uint8_t) (a[i - 1] * 3) < (uint8_t) (a[i] * 3));
				got = call<K>(dtl::is_sorted_unique, a, n, std::ranges::less{}, [](uint8_t x) { return (uint8_t) (x * 3); });
		}
		CHECKM(got == want, "is_sorted_unique: every element is before the next one");
		if (got) REACH("yes"); else REACH("no");
		REACH("done");
	});
}
struct Part { // partially ordered: 255 is not comparable
	uint8_t v = 0;
	bool operator==(Part const &o) const { return v == o.v && v != 255; }
	std::partial_ordering operator<=>(Part const &o) const { return v == 255 || o.v == 255 ? std::partial_ordering::unordered : std::partial_ordering{v <=> o.v}; }
};
template<Kind K, Kind K2, typename T, typename... Args>
static auto lex(T *a, size_t n, T *b, size_t m, Args... args) {
	Src<T, K> x{a, n}; Src<T, K2> y{b, m};
	if (dtl_choice(2, "form") == 0) return dtl::lexicographical_compare_three_way(x, y, args...);
	return dtl::lexicographical_compare_three_way(x.begin(), x.end(), y.begin(), y.end(), args...);
}
template<typename T>
static bool unordered(T x, T y) { if constexpr (std::is_same_v<T, Part>) return (x.v == 255) | (y.v == 255); else return false; }
HARNESS_PART(compare) {
	each_kind(part, []<Kind K>() {
		constexpr Kind K2 = K == CONTIGUOUS ? STREAM : K == FORWARD ? ONCE : K == STREAM ? CONTIGUOUS : FORWARD;
		auto run = [](auto *a, auto *b, auto proj, auto proj2, auto algo) {
			size_t const n = fill(a, L), m = fill(b, L);
			int want = 2; // -1, 0, 1; 3: unordered; decided by the first difference
			bool open = true;
			for (size_t i = 0; i < n && i < m; ++i) {
				uint32_t const x = proj(a[i]), y = proj2(b[i]);
				bool const un = unordered(a[i], b[i]);
				int const r = un ? 3 : x < y ? -1 : 1;
				bool const differs = un | (x != y);
				want = open & differs ? r : want;
				open = open & !differs;
			}
			want = open ? (n < m ? -1 : n == m ? 0 : 1) : want;
			auto const got = algo(a, n, b, m);
			int const g = got < 0 ? -1 : got > 0 ? 1 : got == 0 ? 0 : 3;
			CHECKM(g == want, "the first difference, or else the length decides");
			if (g == -1) REACH("less"); else if (g == 0) REACH("equal"); else if (g == 1) REACH("greater"); else REACH("unordered");
			REACH("done");
		};
		switch (dtl_choice(4, "order")) {
			case 0: {
				uint8_t a[L], b[L];
				auto id = [](uint8_t x) -> uint32_t { return x; };
				run(a, b, id, id, [](auto *a, size_t n, auto *b, size_t m) { auto r = lex<K, K2>(a, n, b, m); static_assert(std::is_same_v<decltype(r), std::strong_ordering>); return r; });
				break;
			}
			case 1: {
				Part a[L], b[L];
				auto id = [](Part x) -> uint32_t { return x.v; };
				run(a, b, id, id, [](auto *a, size_t n, auto *b, size_t m) { auto r = lex<K, K2>(a, n, b, m); static_assert(std::is_same_v<decltype(r), std::partial_ordering>); return r; });
				break;
			}
			case 2: { // the other way around and weak
				uint8_t a[L], b[L];
				auto down = [](uint8_t x) -> uint32_t { return 255 - x / 4; };
				run(a, b, down, down, [](auto *a, size_t n, auto *b, size_t m) { auto r = lex<K, K2>(a, n, b, m, [](uint8_t x, uint8_t y) -> std::weak_ordering { return y / 4 <=> x / 4; }); static_assert(std::is_same_v<decltype(r), std::weak_ordering>); return r; });
				break;
			}
			default: { // different projections
				uint8_t a[L], b[L];
				auto half = [](uint8_t x) -> uint32_t { return x / 2; };
				auto inv = [](uint8_t x) -> uint32_t { return 255 - x; };
				run(a, b, half, inv, [half, inv](auto *a, size_t n, auto *b, size_t m) { return lex<K, K2>(a, n, b, m, std::compare_three_way{}, half, inv); });
			}
		}
	});
}
// elements that are proxies for what the iterator holds
HARNESS(proxies) {
	uint8_t a[3]; size_t const n = fill(a, 3);
	Src<uint8_t, STREAM> x{a, n}; Src<uint8_t, FORWARD> y{a, n};
	bool want = true;
	for (size_t i = 1; i < n; ++i) want = want & (a[i] == a[0]);
	bool const got = std::views::zip(x, y) | dtl::all_equal();
	CHECKM(got == want, "all_equal: every element equals the first");
	if (got) REACH("yes"); else REACH("no");
	std::vector<bool> bits;
	for (size_t i = 0; i < n; ++i) bits.push_back(dtl_fork(a[i] & 1));
	bool same = true;
	for (size_t i = 1; i < n; ++i) same = same & ((a[i] & 1) == (a[0] & 1));
	CHECKM((bits | dtl::all_equal()) == same, "all_equal: every element equals the first");
	auto const r = dtl::range((int) n);
	CHECKM((std::views::zip(r, r) | dtl::all_equal()) == (n < 2), "all_equal: every element equals the first");
	REACH("done");
}
