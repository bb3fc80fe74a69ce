// switch_cases and switch_bool: a runtime value selects exactly its compile-time case
// @bound every runtime value of 14 integer types and ranges (up to 300 cases; ascending, descending, empty, one-element, touching the limits of the type, negative, bool, character types), nested two-dimensional switches, value, reference and void results, throwing cases, lvalue, const and rvalue callables
// @parts ranges 14
// @reach ranges hit miss
// @parts empty 3
// @reach empty done
// @reach grid done
// @parts results 4
// @reach results done
// @reach callables done
// @reach booleans done
#include "../runtime/sym.hpp"
#include <dice/template-library/switch_cases.hpp>
#include <limits>
#include <tuple>
#include <type_traits>

namespace dtl = dice::template_library;

// every case must be a constant of exactly the condition's type
template<typename T>
struct Visit {
	int *calls; uint64_t *got;
	template<T v>
	int operator()(std::integral_constant<T, v>) const { *calls += 1; *got = static_cast<uint64_t>(v); return static_cast<int>(v) ^ 0x55; }
};
template<typename T, T lo, T hi, T a, T b>
static void range() {
	T const v = sym<T>("value");
	bool const in = (lo <= v) & (v < hi);
	int calls = 0, defaults = 0;
	uint64_t got = 0;
	int const r = dtl::switch_cases<a, b>(v, Visit<T>{&calls, &got}, [&] { ++defaults; return -7; });
	if (in) {
		CHECKM((calls == 1) & (defaults == 0), "a value in the range calls exactly one case");
		CHECKM(got == static_cast<uint64_t>(v), "the case called is the one of the value");
		CHECKM(r == (static_cast<int>(v) ^ 0x55), "the result is the result of that case");
		REACH("hit");
		calls = 0;
		int const r2 = dtl::switch_cases<a, b>(v, Visit<T>{&calls, &got});
		CHECKM((calls == 1) & (got == static_cast<uint64_t>(v)) & (r2 == r), "without a default function the same case is called");
	} else {
		CHECKM((calls == 0) & (defaults == 1), "a value outside the range calls only the default function");
		CHECKM(r == -7, "the result is the result of the default function");
		REACH("miss");
	}
	if constexpr (a == 0) {
		calls = defaults = 0;
		int const s = dtl::switch_cases<b>(v, Visit<T>{&calls, &got}, [&] { ++defaults; return -7; });
		CHECKM((s == r) & (calls == (int) in) & (defaults == (int) !in), "the range starts at zero if only one end is given");
		if (in) {
			calls = 0;
			CHECKM(dtl::switch_cases<b>(v, Visit<T>{&calls, &got}) == r, "one end without a default function");
			CHECKM((calls == 1) & (got == static_cast<uint64_t>(v)), "one end without a default function calls the case of the value");
		}
	}
	OBS(r);
}
HARNESS_PART(ranges) {
	switch (part) {
		case 0: range<int, 0, 5, 0, 5>(); break;
		case 1: range<int, -5, 5, 5, -5>(); break;
		case 2: range<int, -3, 0, 0, -3>(); break;
		case 3: range<uint8_t, 250, 255, 250, 255>(); break;
		case 4: range<int8_t, -128, -120, -120, -128>(); break;
		case 5: range<int8_t, 120, 127, 120, 127>(); break;
		case 6: range<uint16_t, 0, 300, 0, 300>(); break;
		case 7: range<int64_t, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::min() + 4, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::min() + 4>(); break;
		case 8: range<uint64_t, std::numeric_limits<uint64_t>::max() - 4, std::numeric_limits<uint64_t>::max(), std::numeric_limits<uint64_t>::max(), std::numeric_limits<uint64_t>::max() - 4>(); break;
		case 9: range<int, 7, 8, 7, 8>(); break;
		case 10: range<char, 'a', 'z', 'a', 'z'>(); break;
		case 11: range<bool, false, true, false, true>(); break;
		case 12: range<short, -40, 60, -40, 60>(); break;
		default: range<char32_t, 0, 33, 0, 33>(); break;
	}
}
HARNESS_PART(empty) {
	int calls = 0; uint64_t got = 0;
	if (part == 0) { int const v = sym<int>("value"); CHECKM((dtl::switch_cases<4, 4>(v, Visit<int>{&calls, &got}, [] { return 3; }) == 3), "an empty range always takes the default"); }
	else if (part == 1) { uint8_t const v = sym<uint8_t>("value"); CHECKM((dtl::switch_cases<uint8_t{0}>(v, Visit<uint8_t>{&calls, &got}, [] { return 3; }) == 3), "an empty range always takes the default"); }
	else { int64_t const v = sym<int64_t>("value"); constexpr auto m = std::numeric_limits<int64_t>::max(); CHECKM((dtl::switch_cases<m, m>(v, Visit<int64_t>{&calls, &got}, [] { return 3; }) == 3), "an empty range always takes the default"); }
	CHECKM(calls == 0, "an empty range has no case");
	REACH("done");
}
HARNESS(grid) {
	int const x = sym<int>("x"), y = sym<int>("y");
	int const r = dtl::switch_cases<-2, 3>(
			x,
			[&](auto X) {
				return dtl::switch_cases<4, 0>(
						y, [&](auto Y) { return decltype(X)::value * 100 + decltype(Y)::value; }, [] { return 9000; });
			},
			[] { return 8000; });
	if ((x < -2) | (x >= 3)) CHECKM(r == 8000, "outside of the outer range");
	else if ((y < 0) | (y >= 4)) CHECKM(r == 9000, "outside of the inner range");
	else CHECKM(r == x * 100 + y, "nested switches select both values");
	OBS(r);
	REACH("done");
}
struct err { uint64_t v; };
HARNESS_PART(results) {
	unsigned const v = sym<unsigned>("value");
	if (part == 0) { // references
		int arr[6] = {}, other = 0;
		int &r = dtl::switch_cases<6u>(v, [&](auto i) -> int & { return arr[decltype(i)::value]; }, [&]() -> int & { return other; });
		r = 5;
		for (unsigned k = 0; k < 6; ++k) CHECKM(arr[k] == (k == v ? 5 : 0), "a reference result refers to the original object");
		CHECKM(other == (v >= 6 ? 5 : 0), "a reference result of the default function refers to the original object");
		if (v < 6) { int &s = dtl::switch_cases<6u>(v, [&](auto i) -> int & { return arr[decltype(i)::value]; }); CHECKM(&s == arr + v, "a reference result refers to the original object"); }
	} else if (part == 1) { // void, by effect; tuple access needs cases only in the range
		std::tuple<int, int, int> t{10, 20, 30};
		int sum = 0;
		dtl::switch_cases<3u>(v, [&](auto i) { sum += std::get<decltype(i)::value>(t); }, [&] { sum = -1; });
		CHECKM(sum == (v < 3 ? (int) (v + 1) * 10 : -1), "void cases run");
		if (v < 3) CHECKM(dtl::switch_cases<3u>(v, [&](auto i) { return std::get<decltype(i)::value>(t); }) == (int) (v + 1) * 10, "cases outside of the range are not instantiated");
		if (v < 3) CHECKM((dtl::switch_cases<3u, 0u>(v, [&](auto i) { return std::get<decltype(i)::value>(t); }) == (int) (v + 1) * 10), "cases outside of the range are not instantiated");
	} else if (part == 2) { // exceptions, through every overload
		uint64_t got = 1000;
		int calls = 0;
		unsigned const form = dtl_choice(5, "form");
		unsigned const lo = form < 2 ? 2 : 0, hi = form == 4 ? 2 : 9;
		if (form % 2 == 1 || form == 4) dtl_assume((v >= lo) & (v < hi));
		auto const f = [&](auto i) { ++calls; throw err{(uint64_t) decltype(i)::value}; };
		auto const d = [&] { ++calls; throw err{77}; };
		try {
			switch (form) {
				case 0: dtl::switch_cases<2u, 9u>(v, f, d); break;
				case 1: dtl::switch_cases<2u, 9u>(v, f); break;
				case 2: dtl::switch_cases<9u>(v, f, d); break;
				case 3: dtl::switch_cases<9u>(v, f); break;
				default: dtl::switch_bool(v == 1, f);
			}
		} catch (err const &e) { got = e.v; }
		CHECKM((got == ((v >= lo) & (v < hi) ? v : 77)) & (calls == 1), "exceptions of the case come out");
	} else { // large results
		struct Big { uint64_t a, b, c; };
		uint64_t const salt = sym<uint64_t>("salt");
		Big const r = dtl::switch_cases<5u>(v, [&](auto i) { return Big{decltype(i)::value, salt, salt + decltype(i)::value}; }, [&] { return Big{99, salt, 1}; });
		CHECKM((r.b == salt) & (r.a == (v < 5 ? v : 99)) & (r.c == (v < 5 ? salt + v : 1)), "results are passed through unchanged");
	}
	REACH("done");
}
struct Cat {
	int n = 0;
	Cat() = default;
	Cat(Cat const &) = delete;
	int operator()(auto i) & { return 10 + (int) decltype(i)::value; }
	int operator()(auto i) const & { return 20 + (int) decltype(i)::value; }
	int operator()(auto i) && { return 30 + (int) decltype(i)::value; }
	int operator()() & { return 1; }
	int operator()() const & { return 2; }
	int operator()() && { return 3; }
};
HARNESS(callables) {
	unsigned const v = sym<unsigned>("value");
	Cat c, d; Cat const k, m;
	CHECKM(dtl::switch_cases<4u>(v, c, d) == (v < 4 ? 10 + (int) v : 1), "lvalue functions are called as lvalues, uncopied");
	CHECKM(dtl::switch_cases<4u>(v, k, m) == (v < 4 ? 20 + (int) v : 2), "const functions are called as const");
	CHECKM(dtl::switch_cases<4u>(v, Cat{}, Cat{}) == (v < 4 ? 30 + (int) v : 3), "rvalue functions are called as rvalues");
	CHECKM((dtl::switch_cases<1u, 4u>(v, c, d) == (v >= 1 && v < 4 ? 10 + (int) v : 1)) & (dtl::switch_cases<1u, 4u>(v, k, m) == (v >= 1 && v < 4 ? 20 + (int) v : 2)), "lvalue functions are called as lvalues, const ones as const");
	CHECKM((dtl::switch_cases<1u, 4u>(v, Cat{}, Cat{}) == (v >= 1 && v < 4 ? 30 + (int) v : 3)), "rvalue functions are called as rvalues");
	if (v < 4) {
		CHECKM((dtl::switch_cases<4u>(v, c) == 10 + (int) v) & (dtl::switch_cases<4u>(v, k) == 20 + (int) v) & (dtl::switch_cases<4u>(v, Cat{}) == 30 + (int) v), "functions are called as they are without a default as well");
		CHECKM((dtl::switch_cases<4u, 0u>(v, c) == 10 + (int) v) & (dtl::switch_cases<4u, 0u>(v, k) == 20 + (int) v) & (dtl::switch_cases<4u, 0u>(v, Cat{}) == 30 + (int) v), "functions are called as they are without a default as well");
	}
	bool const b = sym<bool>("b");
	CHECKM(dtl::switch_bool(b, c) == 10 + (int) b, "lvalue functions are called as lvalues, uncopied");
	CHECKM(dtl::switch_bool(b, k) == 20 + (int) b, "const functions are called as const");
	CHECKM(dtl::switch_bool(b, Cat{}) == 30 + (int) b, "rvalue functions are called as rvalues");
	static_assert(dtl::switch_cases<0, 9>(4, [](auto i) { return decltype(i)::value * 2; }, [] { return -1; }) == 8, "usable in constant expressions");
	REACH("done");
}
HARNESS(booleans) {
	bool const b = sym<bool>("b");
	int calls = 0;
	int slots[2] = {7, 8};
	uint64_t got = 0;
	int &r = dtl::switch_bool(b, [&](auto i) -> int & {
		static_assert(std::is_same_v<decltype(i), std::true_type> || std::is_same_v<decltype(i), std::false_type>);
		++calls;
		return slots[decltype(i)::value ? 1 : 0];
	});
	CHECKM((&r == slots + (b ? 1 : 0)) & (calls == 1), "switch_bool calls exactly the case of the value");
	CHECKM(dtl::switch_bool(b, Visit<bool>{&calls, &got}) == ((int) b ^ 0x55), "the result is passed through");
	REACH("done");
}
