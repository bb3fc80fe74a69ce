// variant2: equality, ordering and hashing.
// @bound any two or three variant2 values over: (int8,uint16), (double,int64), (weakly ordered type, partially ordered type), valueless states included; every payload value
// @reach ints equal less greater valueless
// @reach floats equal less greater unordered
// @reach cats equal less greater unordered valueless
// @reach order chain
#include "sym.hpp"
#include <dice/template-library/variant2.hpp>
#include <cmath>

namespace dtl = dice::template_library;
struct boom {};

struct Weak { // compares ignoring the low bit
	uint16_t v;
	Weak(uint16_t x) : v{x} {}
	Weak(boom) { throw boom{}; }
	bool operator==(Weak const &o) const { return v / 2 == o.v / 2; }
	std::weak_ordering operator<=>(Weak const &o) const { return v / 2 <=> o.v / 2; }
};
struct Part { // 255 is unordered
	uint8_t v;
	Part(uint8_t x) : v{x} {}
	Part(boom) { throw boom{}; }
	bool operator==(Part const &o) const { return v != 255 && v == o.v; }
	std::partial_ordering operator<=>(Part const &o) const {
		if (v == 255 || o.v == 255) return std::partial_ordering::unordered;
		return v <=> o.v;
	}
};
struct I8 {
	int8_t v;
	I8(int8_t x) : v{x} {}
	I8(boom) { throw boom{}; }
	bool operator==(I8 const &) const = default;
	auto operator<=>(I8 const &) const = default;
};
template<> struct std::hash<I8> { size_t operator()(I8 const &x) const noexcept { return (size_t) x.v * 31; } };

enum { LESS, EQ, GREATER, UNORD };
static int code(std::partial_ordering o) { return o < 0 ? LESS : o > 0 ? GREATER : o == 0 ? EQ : UNORD; }

template<typename A, typename B>
static dtl::variant2<A, B> make(char const *n, auto a, auto b) {
	using V = dtl::variant2<A, B>;
	constexpr bool can = std::is_constructible_v<A, boom>;
	uint32_t st = dtl_choice(can ? 3 : 2, n);
	if (st == 1) return V{std::in_place_index<1>, b};
	V v{std::in_place_index<0>, a};
	if constexpr (can) if (st == 2) { try { v.template emplace<0>(boom{}); } catch (boom const &) {} }
	return v;
}
template<typename A, typename B>
static int ref(dtl::variant2<A, B> const &x, dtl::variant2<A, B> const &y) {
	// valueless < first < second
	int const ix = x.valueless_by_exception() ? -1 : (int) x.index(), iy = y.valueless_by_exception() ? -1 : (int) y.index();
	if (ix != iy) return ix < iy ? LESS : GREATER;
	if (ix < 0) return EQ;
	if (ix == 0) return code(dtl::get<0>(x) <=> dtl::get<0>(y));
	return code(dtl::get<1>(x) <=> dtl::get<1>(y));
}
template<typename A, typename B>
static bool refeq(dtl::variant2<A, B> const &x, dtl::variant2<A, B> const &y) {
	if (x.index() != y.index()) return false;
	if (x.valueless_by_exception()) return true;
	if (x.index() == 0) return dtl::get<0>(x) == dtl::get<0>(y);
	return dtl::get<1>(x) == dtl::get<1>(y);
}
template<typename V>
static void pair(V const &x, V const &y) {
	int const want = ref(x, y), got = code(x <=> y);
	CHECKM(got == want, "three-way comparison orders by valueless < first < second, then by value");
	CHECKM((x < y) == (want == LESS) && (x > y) == (want == GREATER), "less and greater");
	CHECKM((x <= y) == (want == LESS || want == EQ) && (x >= y) == (want == GREATER || want == EQ), "less-equal and greater-equal");
	bool const eq = refeq(x, y);
	CHECKM((x == y) == eq && (x != y) == !eq, "equality compares alternative and value");
	CHECKM((y == x) == eq, "equality is symmetric");
	CHECKM(code(y <=> x) == (want == LESS ? GREATER : want == GREATER ? LESS : want), "ordering is antisymmetric");
	if (want == EQ) REACH("equal");
	if (want == LESS) REACH("less");
	if (want == GREATER) REACH("greater");
	if (want == UNORD) REACH("unordered");
	if (x.valueless_by_exception()) REACH("valueless");
	OBS(want);
}
HARNESS(ints) {
	auto xa = sym<int8_t>("xa"); auto xb = sym<uint16_t>("xb"); auto x = make<I8, uint16_t>("x", xa, xb);
	auto ya = sym<int8_t>("ya"); auto yb = sym<uint16_t>("yb"); auto y = make<I8, uint16_t>("y", ya, yb);
	static_assert(std::is_same_v<decltype(x <=> y), std::strong_ordering>);
	pair(x, y);
	std::hash<decltype(x)> h;
	size_t const hx = h(x), hy = h(y);
	CHECKM(hx == h(x), "hash is a function of the value");
	if (x == y) CHECKM(hx == hy, "equal values hash alike");
	if (x.index() == 0) CHECKM(hx == std::hash<size_t>{}(0) + std::hash<I8>{}(dtl::get<0>(x)), "hash of the first alternative");
	if (x.index() == 1) CHECKM(hx == std::hash<size_t>{}(1) + std::hash<uint16_t>{}(dtl::get<1>(x)), "hash of the second alternative");
}
HARNESS(floats) {
	auto xa = sym<double>("xa"); auto xb = sym<int64_t>("xb"); auto x = make<double, int64_t>("x", xa, xb);
	auto ya = sym<double>("ya"); auto yb = sym<int64_t>("yb"); auto y = make<double, int64_t>("y", ya, yb);
	static_assert(std::is_same_v<decltype(x <=> y), std::partial_ordering>);
	pair(x, y);
}
HARNESS(cats) {
	auto xa = sym<uint16_t>("xa"); auto xb = sym<uint8_t>("xb"); auto x = make<Weak, Part>("x", xa, xb);
	auto ya = sym<uint16_t>("ya"); auto yb = sym<uint8_t>("yb"); auto y = make<Weak, Part>("y", ya, yb);
	static_assert(std::is_same_v<decltype(x <=> y), std::partial_ordering>);
	pair(x, y);
	static_assert(std::is_same_v<decltype(std::declval<dtl::variant2<Weak, int> &>() <=> std::declval<dtl::variant2<Weak, int> &>()), std::weak_ordering>);
}
HARNESS(order) { // transitivity
	auto xa = sym<int8_t>("xa"); auto xb = sym<uint16_t>("xb"); auto x = make<I8, uint16_t>("x", xa, xb);
	auto ya = sym<int8_t>("ya"); auto yb = sym<uint16_t>("yb"); auto y = make<I8, uint16_t>("y", ya, yb);
	auto za = sym<int8_t>("za"); auto zb = sym<uint16_t>("zb"); auto z = make<I8, uint16_t>("z", za, zb);
	if (x <= y && y <= z) { CHECKM(x <= z, "ordering is transitive"); REACH("chain"); }
	if (x == y && y == z) CHECKM(x == z, "equality is transitive");
}
