// opt_min, opt_max, opt_minmax and the versions for ranges
// @bound every sequence of up to 4 (thorough: 5) elements with every key, present or absent, given as a contiguous, forward, single-pass or move-only range through the call with a range, an iterator pair and the pipe operator, as initializer lists of up to 3 elements, and as two arguments; default comparison, another comparator and one that only looks at a part of the element
// @parts ranges 4
// @reach ranges done some none
// @parts plain 4
// @reach plain done some none
// @reach lists done some none
// @reach pairs done some none
// @reach floats done
#include "src.hpp"
#include <dice/template-library/opt_minmax.hpp>
#include <dice/template-library/ranges.hpp>
#include <functional>

namespace dtl = dice::template_library;
#ifdef THOROUGH
constexpr size_t N = 5;
#else
constexpr size_t N = 4;
#endif
struct E {
	uint8_t key = 0, id = 0; // id: position
	auto operator<=>(E const &o) const { return key <=> o.key; }
	bool operator==(E const &o) const { return key == o.key; }
};
struct Other { bool operator()(E const &x, E const &y) const { return x.key / 8 > y.key / 8; } }; // the other way around, ignoring some bits
// the best element under less, the first of equal ones; -1: none
template<typename Less>
static int best(E const *e, bool const *has, size_t n, bool max, Less less) {
	int b = -1;
	for (size_t i = 0; i < n; ++i) {
		if (!has[i]) continue; // concrete
		if (b < 0) { b = (int) i; continue; }
		if (dtl_fork(max ? less(e[b], e[i]) : less(e[i], e[b]))) b = (int) i;
	}
	return b;
}
static void expect(std::optional<E> const &got, int want, E const *e, char const *msg) {
	dtl_check(got.has_value() == (want >= 0), "there is a result exactly if some element has a value");
	if (want >= 0) { dtl_check((got->key == e[want].key) & (got->id == e[want].id), msg); REACH("some"); } else REACH("none");
}
template<typename Less>
static void expect(std::optional<dtl::opt_minmax_result<E>> const &got, E const *e, bool const *has, size_t n, Less less) {
	int const lo = best(e, has, n, false, less), hi = best(e, has, n, true, less);
	CHECKM(got.has_value() == (lo >= 0), "there is a result exactly if some element has a value");
	if (lo < 0) { REACH("none"); return; }
	CHECKM((got->min.key == e[lo].key) & (got->min.id == e[lo].id), "opt_minmax: min is the smallest element, the first of equal ones");
	CHECKM(!less(got->max, e[hi]) & !less(e[hi], got->max), "opt_minmax: max is the largest element");
	bool elem = false;
	for (size_t i = 0; i < n; ++i) elem = elem | (has[i] & (got->max.id == e[i].id) & (got->max.key == e[i].key));
	CHECKM(elem, "opt_minmax: max is one of the elements");
	REACH("some");
}
template<bool Opt>
static void ranges(uint64_t part) {
	size_t const n = dtl_choice(N + 1, "n");
	using T = std::conditional_t<Opt, std::optional<E>, E>;
	T a[N]; E e[N]; bool has[N];
	for (size_t i = 0; i < n; ++i) {
		has[i] = !Opt || dtl_choice(2, "present");
		e[i] = E{sym<uint8_t>("key"), (uint8_t) i};
		if (has[i]) a[i] = e[i];
	}
	each_kind(part, [&]<Kind K>() {
		auto with = [&](auto less, auto... cmp) {
			switch (dtl_choice(3, "function")) {
				case 0: expect(call<K>(dtl::opt_min_element, a, n, cmp...), best(e, has, n, false, less), e, "opt_min_element gives the smallest element, the first of equal ones"); break;
				case 1: expect(call<K>(dtl::opt_max_element, a, n, cmp...), best(e, has, n, true, less), e, "opt_max_element gives the largest element, the first of equal ones"); break;
				default: expect(call<K>(dtl::opt_minmax_element, a, n, cmp...), e, has, n, less);
			}
		};
		if (dtl_choice(2, "comparator") == 0) with(std::less<E>{}); else with(Other{}, Other{});
	});
	for (size_t i = 0; i < n; ++i) if constexpr (Opt) CHECKM(a[i].has_value() == has[i] && (!has[i] || ((a[i]->key == e[i].key) & (a[i]->id == i))), "the range is left alone"); else CHECKM((a[i].key == e[i].key) & (a[i].id == i), "the range is left alone");
	REACH("done");
}
HARNESS_PART(ranges) { ranges<true>(part); }
HARNESS_PART(plain) { ranges<false>(part); }
HARNESS(lists) {
	size_t const n = dtl_choice(4, "n");
	std::optional<E> a[3]; E e[3]; bool has[3];
	for (size_t i = 0; i < n; ++i) {
		has[i] = dtl_choice(2, "present");
		e[i] = E{sym<uint8_t>("key"), (uint8_t) i};
		if (has[i]) a[i] = e[i];
	}
	using L = std::initializer_list<std::optional<E>>;
	auto list = [&](auto f) {
		switch (n) {
			case 0: return f(L{});
			case 1: return f(L{a[0]});
			case 2: return f(L{a[0], a[1]});
			default: return f(L{a[0], a[1], a[2]});
		}
	};
	bool const other = dtl_choice(2, "comparator");
	auto with = [&](auto less, auto... cmp) {
		switch (dtl_choice(3, "function")) {
			case 0: expect(list([&](L l) { return dtl::opt_min(l, cmp...); }), best(e, has, n, false, less), e, "opt_min gives the smallest element, the first of equal ones"); break;
			case 1: expect(list([&](L l) { return dtl::opt_max(l, cmp...); }), best(e, has, n, true, less), e, "opt_max gives the largest element, the first of equal ones"); break;
			default: expect(list([&](L l) { return dtl::opt_minmax(l, cmp...); }), e, has, n, less);
		}
	};
	if (!other) with(std::less<E>{}); else with(Other{}, Other{});
	REACH("done");
}
HARNESS(pairs) {
	std::optional<E> a[2]; E e[2]; bool has[2];
	for (size_t i = 0; i < 2; ++i) {
		has[i] = dtl_choice(2, "present");
		e[i] = E{sym<uint8_t>("key"), (uint8_t) i};
		if (has[i]) a[i] = e[i];
	}
	auto with = [&](auto less, auto... cmp) {
		switch (dtl_choice(3, "function")) {
			case 0: expect(dtl::opt_min(a[0], a[1], cmp...), best(e, has, 2, false, less), e, "opt_min gives the smaller argument, the first of equal ones"); break;
			case 1: expect(dtl::opt_max(a[0], a[1], cmp...), best(e, has, 2, true, less), e, "opt_max gives the larger argument, the first of equal ones"); break;
			default: expect(dtl::opt_minmax(a[0], a[1], cmp...), e, has, 2, less);
		}
	};
	if (dtl_choice(2, "comparator") == 0) with(std::less<E>{}); else with(Other{}, Other{});
	// plain arguments and nullopt
	int32_t const x = sym<int32_t>("x"), y = sym<int32_t>("y");
	CHECKM((*dtl::opt_min<int32_t>(x, y) == (x < y ? x : y)) & (*dtl::opt_max<int32_t>(x, y) == (x < y ? y : x)), "plain arguments");
	CHECKM((dtl::opt_min<int32_t>(x, std::nullopt) == x) & (dtl::opt_max<int32_t>(std::nullopt, y) == y) & (dtl::opt_min<int32_t>(std::nullopt, std::nullopt) == std::nullopt), "nullopt arguments");
	auto const mm = dtl::opt_minmax<int32_t>(std::nullopt, y);
	CHECKM(mm && (mm->min == y) & (mm->max == y), "nullopt arguments");
	auto const l = dtl::opt_minmax<int32_t>({x, std::nullopt, y});
	CHECKM(l && (l->min == (x < y ? x : y)) & (l->max == (x < y ? y : x)), "plain and nullopt elements of a list");
	REACH("done");
}
HARNESS(floats) { // ranges of views, of computed elements
	double a[3];
	size_t const n = dtl_choice(4, "n");
	constexpr double values[] = {-1, 0, 0.5, 1e300};
	for (size_t i = 0; i < n; ++i) a[i] = values[dtl_choice(4, "element")];
	auto view = std::views::iota((size_t) 0, n) | std::views::transform([&](size_t i) -> std::optional<double> { return a[i] < 0 ? std::nullopt : std::optional<double>{a[i]}; });
	bool any = false; double lo = 0, hi = 0;
	for (size_t i = 0; i < n; ++i) if (a[i] >= 0) { if (!any || a[i] < lo) lo = a[i]; if (!any || a[i] > hi) hi = a[i]; any = true; }
	auto const mn = view | dtl::opt_min_element();
	auto const mx = dtl::opt_max_element(view);
	auto const mm = dtl::opt_minmax_element(view.begin(), view.end());
	CHECKM((mn.has_value() == any) & (mx.has_value() == any) & (mm.has_value() == any), "there is a result exactly if some element has a value");
	if (any) CHECKM((*mn == lo) & (*mx == hi) & (mm->min == lo) & (mm->max == hi), "computed elements");
	REACH("done");
}
