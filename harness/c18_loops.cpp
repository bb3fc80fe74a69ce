// for_types, for_values, for_range, make_integer_sequence and the tuple algorithms
// @bound eleven integer ranges (ascending, descending, empty, negative, at the limits of narrow types, up to 40 elements), every element value of tuples of up to 4 elements of four tuple kinds, lists of up to 6 types and values, functions that throw at any step
// @parts range 13
// @reach range done
// @reach types done
// @reach values done
// @reach partly done
// @parts tuples 4
// @reach tuples done
// @reach types2 done
#include "../runtime/sym.hpp"
#include <memory>
#include <array>
#include <concepts>
#include <dice/template-library/for.hpp>
#include <dice/template-library/integral_sequence.hpp>
#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
#include <limits>
#include <tuple>

namespace dtl = dice::template_library;
struct stop { int at; };

template<auto first, auto last>
static void range() {
	using T = decltype(first);
	uint32_t const salt = sym<uint32_t>("salt"), cut = sym<uint32_t>("cut");
	uint32_t sum = 0, want = 0;
	int calls = 0;
	__int128 at = first;
	bool order = true;
	int const n = (int) ((__int128) first < (__int128) last ? (__int128) last - (__int128) first : (__int128) first - (__int128) last);
	__int128 const step = first < last ? 1 : -1;
	dtl::for_range<first, last>([&]<T v>(std::integral_constant<T, v>) {
		order = order & ((__int128) v == at);
		at += step; ++calls;
		sum = sum * 3 + (uint32_t) v + salt;
	});
	CHECKM(order & (calls == n), "for_range goes through the range once, in order");
	for (__int128 i = first; i != (__int128) last; i += step) want = want * 3 + (uint32_t) (T) i + salt;
	CHECKM(sum == want, "for_range computes the same as a loop");
	// exceptions stop it
	int seen = 0; bool threw = false;
	try { dtl::for_range<first, last>([&](auto) { if ((uint32_t) seen == cut) throw stop{seen}; ++seen; }); } catch (stop const &s) { threw = true; CHECKM(s.at == seen, "the exception comes out"); }
	CHECKM((threw == (cut < (uint32_t) n)) & (seen == (threw ? (int) cut : n)), "an exception ends the loop");
	// the same range as a sequence and as a list of types
	auto seq = []<T... xs>(std::integer_sequence<T, xs...>) { return std::array<T, sizeof...(xs)>{xs...}; }(dtl::make_integer_sequence<T, first, last>{});
	bool same = seq.size() == (size_t) n;
	__int128 e = first;
	for (T x : seq) { same = same & ((__int128) x == e); e += step; }
	CHECKM(same, "make_integer_sequence is the range in order");
	static_assert(dtl::type_list::size_v<dtl::make_integral_constant_list<T, first, last>> == (size_t) ((__int128) first < (__int128) last ? (__int128) last - (__int128) first : (__int128) first - (__int128) last));
	OBS(sum);
	REACH("done");
}
HARNESS_PART(range) {
	switch (part) {
		case 0: range<0, 9>(); break;
		case 1: range<5, -5>(); break;
		case 2: range<-7, -2>(); break;
		case 3: range<3, 3>(); break;
		case 4: range<uint8_t{250}, uint8_t{255}>(); break;
		case 5: range<uint8_t{40}, uint8_t{0}>(); break;
		case 6: range<int8_t{-128}, int8_t{-120}>(); break;
		case 7: range<int8_t{127}, int8_t{120}>(); break;
		case 8: range<std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::min() + 3>(); break;
		case 9: range<std::numeric_limits<uint64_t>::max(), std::numeric_limits<uint64_t>::max() - 3>(); break;
		case 11: range<130, -120>(); break;
		case 12: range<uint8_t{0}, uint8_t{255}>(); break;
		default: range<uint16_t{3}, uint16_t{12}>(); break;
	}
}
struct Types { // keeps state between the calls
	int n = 0; uint32_t acc = 0;
	Types() = default; Types(Types const &) = delete;
	template<typename T> void operator()() { ++n; acc = acc * 7 + (uint32_t) sizeof(T); }
};
HARNESS(types) {
	uint32_t const k = sym<uint32_t>("k");
	uint32_t sum = 0; int calls = 0;
	dtl::for_types<uint8_t, uint16_t, uint8_t, uint64_t, uint32_t>([&]<typename T>() { sum = sum * k + (uint32_t) sizeof(T); ++calls; });
	CHECKM((calls == 5) & (sum == (((1 * k + 2) * k + 1) * k + 8) * k + 4), "for_types goes through all types once, in order");
	dtl::for_types<>([&]<typename T>() { ++calls; });
	CHECKM(calls == 5, "no types, no calls");
	uint32_t const cut = sym<uint32_t>("cut");
	int seen = 0; bool threw = false;
	try { dtl::for_types<char, int, long>([&]<typename T>() { if ((uint32_t) seen == cut) throw stop{seen}; ++seen; }); } catch (stop const &) { threw = true; }
	CHECKM((threw == (cut < 3)) & (seen == (threw ? (int) cut : 3)), "an exception ends the loop");
	Types c;
	dtl::for_types<uint8_t, uint64_t, uint16_t>(c);
	CHECKM((c.n == 3) & (c.acc == (1 * 7 + 8) * 7 + 2), "the function is called, not copied");
	REACH("done");
}
struct Some { // declares itself noexcept for one type or value only, and throws for the others
	uint32_t cut; int n = 0;
	template<typename T> void operator()() noexcept(sizeof(T) == 1) { if constexpr (sizeof(T) != 1) if (cut == sizeof(T)) throw stop{n}; ++n; }
	template<int v> void operator()(std::integral_constant<int, v>) noexcept(v == 1) { if constexpr (v != 1) if (cut == (uint32_t) v) throw stop{n}; ++n; }
};
HARNESS(partly) {
	uint32_t const cut = sym<uint32_t>("cut");
	Some f{cut}, g{cut}, h{cut};
	bool threw = false;
	try { dtl::for_types<uint32_t, uint8_t, uint64_t>(f); } catch (stop const &) { threw = true; }
	CHECKM((threw == ((cut == 4) | (cut == 8))) & (f.n == (cut == 4 ? 0 : cut == 8 ? 2 : 3)), "exceptions come out even if some of the calls cannot throw");
	threw = false;
	try { dtl::for_values<0, 1, 2>(g); } catch (stop const &) { threw = true; }
	CHECKM((threw == ((cut == 0) | (cut == 2))) & (g.n == (cut == 0 ? 0 : cut == 2 ? 2 : 3)), "exceptions come out even if some of the calls cannot throw");
	threw = false;
	try { dtl::for_range<2, -1>(h); } catch (stop const &) { threw = true; }
	CHECKM((threw == ((cut == 0) | (cut == 2))) & (h.n == (cut == 0 ? 2 : cut == 2 ? 0 : 3)), "exceptions come out even if some of the calls cannot throw");
	REACH("done");
}
struct Counter { // must not be copied and stays the same object
	int n = 0; uint32_t acc = 0;
	Counter() = default; Counter(Counter const &) = delete;
	void operator()(auto x) { ++n; acc = acc * 7 + (uint32_t) decltype(x)::value; }
};
struct Once { // notices when it is called after it was moved from
	int *kept, *gone; bool taken = false;
	Once(int *k, int *g) : kept{k}, gone{g} {}
	Once(Once &&o) noexcept : kept{o.kept}, gone{o.gone} { o.taken = true; }
	void operator()(auto) { taken ? ++*gone : ++*kept; }
};
HARNESS(values) {
	uint32_t const k = sym<uint32_t>("k");
	uint32_t sum = 0; int calls = 0;
	dtl::for_values<-5, 2ul, 'c', true, int8_t{-1}>([&](auto x) { sum = sum * k + (uint32_t) x; ++calls; });
	CHECKM((calls == 5) & (sum == ((((uint32_t) -5 * k + 2) * k + 'c') * k + 1) * k + (uint32_t) -1), "for_values goes through all values once, in order");
	Counter c;
	dtl::for_values<1, 2, 3>(c);
	CHECKM((c.n == 3) & (c.acc == (1 * 7 + 2) * 7 + 3), "the function is called, not copied");
	dtl::for_range<4, 1>(c);
	CHECKM((c.n == 6) & (c.acc == ((((1 * 7 + 2) * 7 + 3) * 7 + 4) * 7 + 3) * 7 + 2), "the function is called, not copied");
	uint32_t const cut = sym<uint32_t>("cut");
	int seen = 0; bool threw = false;
	try { dtl::for_values<7, 8, 9>([&](auto) { if ((uint32_t) seen == cut) throw stop{seen}; ++seen; }); } catch (stop const &) { threw = true; }
	CHECKM((threw == (cut < 3)) & (seen == (threw ? (int) cut : 3)), "an exception ends the loop");
	// a function that is given away is still the same one for every value
	int kept = 0, gone = 0;
	dtl::for_values<1, 2, 3>(Once{&kept, &gone});
	dtl::for_range<0, 3>(Once{&kept, &gone}); dtl::for_range<3, 0>(Once{&kept, &gone});
	CHECKM((kept == 9) & (gone == 0), "a function object is not taken away between the calls");
	REACH("done");
}
template<typename T>
static void tuple(T &t, uint32_t const (&v)[4]) {
	uint32_t const init = sym<uint32_t>("init");
	auto const f = [](uint32_t acc, auto const &x) { return acc * 5 + (uint32_t) x; };
	uint32_t want = init;
	for (uint32_t x : v) want = want * 5 + x;
	CHECKM(dtl::tuple_fold(t, init, f) == want, "tuple_fold folds all elements in order");
	CHECKM(dtl::tuple_fold(std::as_const(t), uint32_t{init}, f) == want, "tuple_fold of a const tuple");
	uint32_t keep = init;
	CHECKM((dtl::tuple_fold(t, keep, f) == want) & (keep == init), "the initial value is left alone");
	struct Held { std::unique_ptr<uint32_t> p; };
	Held const h = dtl::tuple_fold(t, Held{std::make_unique<uint32_t>(init)}, [](Held acc, auto const &x) { *acc.p = *acc.p * 5 + (uint32_t) x; return acc; });
	CHECKM(*h.p == want, "the accumulator is handed on, not copied");
	uint32_t cell = init;
	uint32_t &same = dtl::tuple_for_each(t, [&](auto &) -> uint32_t & { return cell; });
	CHECKM(&same == &cell, "the last result is passed on as it is");
	uint32_t const &r = dtl::tuple_fold(t, init, f);
	CHECKM(r == want, "the result is a value");
	int at = 0; bool order = true;
	uint32_t const last = dtl::tuple_for_each(t, [&](auto &x) { order = order & ((uint32_t) x == v[at]); ++at; x = (std::remove_reference_t<decltype(x)>) (x + 1); return (uint32_t) x; });
	CHECKM(order & (at == 4), "tuple_for_each goes through all elements once, in order");
	CHECKM(last == v[3] + 1, "tuple_for_each returns the last result");
	at = 0;
	dtl::tuple_for_each(std::as_const(t), [&](auto const &x) { order = order & ((uint32_t) x == v[at] + 1); ++at; });
	CHECKM(order & (at == 4), "tuple_for_each passes references to the elements");
	uint32_t const cut = sym<uint32_t>("cut");
	int seen = 0; bool threw = false;
	try { dtl::tuple_for_each(t, [&](auto &) { if ((uint32_t) seen == cut) throw stop{seen}; ++seen; }); } catch (stop const &) { threw = true; }
	CHECKM((threw == (cut < 4)) & (seen == (threw ? (int) cut : 4)), "an exception ends the loop");
	OBS(want);
	REACH("done");
}
template<int ix> struct Num { uint32_t v; Num() : v{0} {} Num(uint32_t x) : v{x} {} explicit operator uint32_t() const { return v; } Num operator+(int i) const { return Num{v + (uint32_t) i}; } };
HARNESS_PART(tuples) {
	uint8_t const a = sym<uint8_t>("a"); uint16_t const b = sym<uint16_t>("b"); uint32_t const c = sym<uint32_t>("c"), d = sym<uint32_t>("d");
	dtl_assume((a < 255) & (b < 65535));
	uint32_t const v[4] = {a, b, c, d};
	if (part == 0) { std::tuple<uint8_t, uint16_t, uint32_t, uint32_t> t{a, b, c, d}; tuple(t, v); }
	else if (part == 1) { dtl::standard_layout_tuple<uint8_t, uint16_t, uint32_t, uint32_t> t{a, b, c, d}; tuple(t, v); }
	else if (part == 2) { std::array<uint32_t, 4> t{a, b, c, d}; tuple(t, v); }
	else {
		std::pair<uint8_t, uint16_t> p{a, b};
		uint32_t const init = sym<uint32_t>("init");
		CHECKM(dtl::tuple_fold(p, init, [](uint32_t acc, auto x) { return acc * 5 + x; }) == (init * 5 + a) * 5 + b, "pairs are tuples");
		uint32_t sum = 0;
		dtl::tuple_for_each(std::move(p), [&](auto x) { sum = sum * 9 + x; });
		CHECKM(sum == (uint32_t) a * 9 + b, "temporaries can be visited");
		std::tuple<> e;
		CHECKM(dtl::tuple_fold(e, init, [](uint32_t acc, auto) { return acc + 1; }) == init, "folding nothing gives the initial value");
		dtl::tuple_for_each(e, [&](auto) { sum = 0; });
		CHECKM(sum == (uint32_t) a * 9 + b, "nothing to visit");
		REACH("done");
	}
}
HARNESS(types2) {
	uint32_t const init = sym<uint32_t>("init"), k = sym<uint32_t>("k");
	using T = std::tuple<uint8_t, uint64_t, uint16_t>;
	auto const f = [k]<typename E>(uint32_t acc) { return acc * k + (uint32_t) sizeof(E); };
	CHECKM(dtl::tuple_type_fold<T>(init, f) == ((init * k + 1) * k + 8) * k + 2, "tuple_type_fold folds all types in order");
	uint32_t keep = init;
	CHECKM((dtl::tuple_type_fold<dtl::standard_layout_tuple<uint8_t, uint64_t, uint16_t>>(keep, f) == ((init * k + 1) * k + 8) * k + 2) & (keep == init), "the initial value is left alone");
	CHECKM(dtl::tuple_type_fold<std::tuple<>>(init, f) == init, "folding nothing gives the initial value");
	uint32_t sum = 0; int calls = 0;
	size_t const last = dtl::tuple_type_for_each<T>([&]<typename E>() { ++calls; sum = sum * k + (uint32_t) sizeof(E); return sizeof(E); });
	CHECKM((calls == 3) & (sum == (k + 8) * k + 2) & (last == 2), "tuple_type_for_each goes through all types once, in order, and returns the last result");
	REACH("done");
}
