// standard_layout_tuple and integral_template_tuple
// @bound tuples of 0 to 5 elements of mixed and equal types with every element value, 16 combinations of construction, access through every reference category, comparison, copy, move, assignment and swap; every subtuple of four 4- and 5-element tuples; element operations that throw at any point; integral tuples ascending, descending, negative and of narrow index types
// @reach values done
// @reach compare done
// @parts subtuples 6
// @reach subtuples done
// @parts integral 7
// @reach integral done
// @parts objects 8
// @reach objects done threw
#include "tracked.hpp"
#include <dice/template-library/integral_template_tuple.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
#include <compare>
#include <utility>

namespace dtl = dice::template_library;
using dtl::standard_layout_tuple, dtl::integral_template_tuple;

HARNESS(values) {
	uint8_t const a = sym<uint8_t>("a"); int32_t const b = sym<int32_t>("b"); uint64_t const c = sym<uint64_t>("c"); uint16_t const d = sym<uint16_t>("d");
	using T = standard_layout_tuple<uint8_t, int32_t, uint64_t, uint16_t>;
	static_assert(T::size() == 4 && std::tuple_size_v<T> == 4 && standard_layout_tuple<>::size() == 0);
	static_assert(std::is_same_v<std::tuple_element_t<0, T>, uint8_t> && std::is_same_v<std::tuple_element_t<1, T>, int32_t> && std::is_same_v<std::tuple_element_t<2, T>, uint64_t> && std::is_same_v<std::tuple_element_t<3, T>, uint16_t>);
	static_assert(std::is_standard_layout_v<T> && std::is_trivially_copyable_v<T>);
	T t{a, b, c, d};
	T const k{dtl::individual_construct, a, b, c, d};
	auto holds = [&](auto &x, uint8_t A, int32_t B, uint64_t C, uint16_t D) {
		CHECKM((x.template get<0>() == A) & (x.template get<1>() == B) & (x.template get<2>() == C) & (x.template get<3>() == D), "get gives the element at the index");
		CHECKM((x.template get<uint8_t>() == A) & (x.template get<int32_t>() == B) & (x.template get<uint64_t>() == C) & (x.template get<uint16_t>() == D), "get gives the element of the type");
	};
	holds(t, a, b, c, d); holds(k, a, b, c, d);
	static_assert(std::is_same_v<decltype(t.get<1>()), int32_t &> && std::is_same_v<decltype(k.get<1>()), int32_t const &> && std::is_same_v<decltype(T{}.get<1>()), int32_t &&> && std::is_same_v<decltype(std::move(k).get<3>()), uint16_t const &&>);
	static_assert(std::is_same_v<decltype(t.get<uint64_t>()), uint64_t &> && std::is_same_v<decltype(k.get<uint64_t>()), uint64_t const &> && std::is_same_v<decltype(T{}.get<uint64_t>()), uint64_t &&>);
	T m{t};
	uint64_t const c2 = sym<uint64_t>("c2");
	m.get<2>() = c2;
	holds(m, a, b, c2, d); holds(t, a, b, c, d);
	m.get<uint16_t>() ^= 1;
	holds(m, a, b, c2, (uint16_t) (d ^ 1));
	t = m; holds(t, a, b, c2, (uint16_t) (d ^ 1));
	T n{std::move(t)}; holds(n, a, b, c2, (uint16_t) (d ^ 1));
	T o{dtl::individual_construct, uint8_t{1}, int32_t{2}, uint64_t{3}, uint16_t{4}};
	std::swap(n, o); holds(n, 1, 2, 3, 4); holds(o, a, b, c2, (uint16_t) (d ^ 1));
	standard_layout_tuple<uint32_t, uint32_t, uint32_t> const u{dtl::uniform_construct, (uint32_t) b};
	CHECKM((u.get<0>() == (uint32_t) b) & (u.get<1>() == (uint32_t) b) & (u.get<2>() == (uint32_t) b), "uniform construction gives every element the same value");
	T const z{};
	(void) z;
	uint64_t const sum = dtl::tuple_fold(k, uint64_t{0}, [](uint64_t acc, auto x) { return acc * 3 + (uint64_t) x; });
	CHECKM(sum == ((((uint64_t) a) * 3 + (uint64_t) b) * 3 + c) * 3 + d, "elements are folded in order");
	// every element lies inside the tuple, aligned, in order and without overlap
	auto const at = [&](auto &e) { return reinterpret_cast<uintptr_t>(&e) - reinterpret_cast<uintptr_t>(&o); };
	CHECKM((at(o.get<0>()) == 0) & (at(o.get<1>()) >= 1) & (at(o.get<2>()) >= at(o.get<1>()) + 4) & (at(o.get<3>()) >= at(o.get<2>()) + 8) & (at(o.get<3>()) + 2 <= sizeof(T)), "elements do not overlap");
	OBS(c2);
	REACH("done");
}
struct Pt { // partially ordered by both coordinates
	int8_t x, y;
	bool operator==(Pt const &) const = default;
	std::partial_ordering operator<=>(Pt const &o) const {
		if ((x == o.x) & (y == o.y)) return std::partial_ordering::equivalent;
		if ((x <= o.x) & (y <= o.y)) return std::partial_ordering::less;
		if ((x >= o.x) & (y >= o.y)) return std::partial_ordering::greater;
		return std::partial_ordering::unordered;
	}
};
HARNESS(compare) {
	int8_t const a1 = sym<int8_t>("a1"), a2 = sym<int8_t>("a2"); uint16_t const b1 = sym<uint16_t>("b1"), b2 = sym<uint16_t>("b2"); int64_t const c1 = sym<int64_t>("c1"), c2 = sym<int64_t>("c2");
	using T = standard_layout_tuple<int8_t, uint16_t, int64_t>;
	T const l{a1, b1, c1}, r{a2, b2, c2};
	bool const eq = (a1 == a2) & (b1 == b2) & (c1 == c2);
	bool const lt = (a1 < a2) | ((a1 == a2) & ((b1 < b2) | ((b1 == b2) & (c1 < c2))));
	static_assert(std::is_same_v<decltype(l <=> r), std::strong_ordering>);
	CHECKM((l == r) == eq, "tuples are equal exactly if all elements are");
	CHECKM(((l <=> r) == 0) == eq, "<=> agrees with ==");
	CHECKM(((l <=> r) < 0) == lt, "tuples are ordered lexicographically");
	CHECKM(((l < r) == lt) & ((l > r) == (!lt & !eq)) & ((l <= r) == (lt | eq)) & ((l >= r) == !lt) & ((l != r) == !eq), "relational operators agree");
	using P = standard_layout_tuple<uint8_t, Pt>;
	uint8_t const p1 = sym<uint8_t>("p1"), p2 = sym<uint8_t>("p2");
	int8_t const x1 = sym<int8_t>("x1"), y1 = sym<int8_t>("y1"), x2 = sym<int8_t>("x2"), y2 = sym<int8_t>("y2");
	P const pl{p1, Pt{x1, y1}}, pr{p2, Pt{x2, y2}};
	static_assert(std::is_same_v<decltype(pl <=> pr), std::partial_ordering>);
	std::partial_ordering const want = p1 != p2 ? std::partial_ordering{p1 <=> p2} : (Pt{x1, y1} <=> Pt{x2, y2});
	CHECKM((pl <=> pr) == want || (want == std::partial_ordering::unordered && (pl <=> pr) == std::partial_ordering::unordered), "partial orders stay partial");
	CHECKM((pl == pr) == ((p1 == p2) & (x1 == x2) & (y1 == y2)), "equality of partially ordered tuples");
	standard_layout_tuple<> const e1, e2;
	CHECKM((e1 == e2) & ((e1 <=> e2) == 0), "empty tuples are equal");
	REACH("done");
}

// every subtuple refers to the very same elements
template<size_t off, size_t n, typename T, size_t... Is>
static bool sub_same(T &t, std::index_sequence<Is...>) {
	auto &&s = t.template subtuple<off, n>();
	static_assert(std::remove_cvref_t<decltype(s)>::size() == n);
	static_assert((std::is_same_v<std::tuple_element_t<Is, std::remove_cvref_t<decltype(s)>>, std::tuple_element_t<off + Is, std::remove_cvref_t<T>>> && ...));
	static_assert(std::is_const_v<std::remove_reference_t<decltype(s)>> == std::is_const_v<T>);
	return ((static_cast<void const *>(&s.template get<Is>()) == static_cast<void const *>(&t.template get<off + Is>())) & ... & true);
}
template<typename T, size_t off = 0, size_t n = 0>
static bool subs(T &t) {
	bool ok = sub_same<off, n>(t, std::make_index_sequence<n>{}) & sub_same<off, n>(std::as_const(t), std::make_index_sequence<n>{});
	if constexpr (off + n < T::size()) ok = ok & subs<T, off, n + 1>(t);
	else if constexpr (off + 1 < T::size()) ok = ok & subs<T, off + 1, 0>(t);
	return ok;
}
struct E {};
HARNESS_PART(subtuples) {
	uint32_t const v = sym<uint32_t>("v"), w = sym<uint32_t>("w");
	if (part == 0) {
		standard_layout_tuple<uint32_t, uint32_t, uint32_t, uint32_t, uint32_t> t{1u, 2u, 3u, 4u, 5u};
		CHECKM(subs(t), "a subtuple refers to the elements of the tuple");
		t.subtuple<1, 3>().get<1>() = v;
		CHECKM((t.get<2>() == v) & (t.get<1>() == 2) & (t.get<3>() == 4), "writing through a subtuple changes the tuple");
		t.subtuple<1, 2>() = standard_layout_tuple<uint32_t, uint32_t>{w, v};
		CHECKM((t.get<0>() == 1) & (t.get<1>() == w) & (t.get<2>() == v) & (t.get<3>() == 4) & (t.get<4>() == 5), "assigning to a subtuple changes exactly its elements");
		CHECKM((t.subtuple<1, 2>() == standard_layout_tuple<uint32_t, uint32_t>{w, v}), "subtuples compare by their elements");
	} else if (part == 1) { // falling alignments
		standard_layout_tuple<uint64_t, uint32_t, uint16_t, uint8_t> t{uint64_t{v}, v, uint16_t{3}, uint8_t{4}};
		CHECKM(subs(t), "a subtuple refers to the elements of the tuple");
		t.subtuple<0, 2>() = standard_layout_tuple<uint64_t, uint32_t>{uint64_t{9}, w};
		CHECKM((t.get<0>() == 9) & (t.get<1>() == w) & (t.get<2>() == 3) & (t.get<3>() == 4), "assigning to a subtuple changes exactly its elements");
		t.subtuple<1, 2>() = standard_layout_tuple<uint32_t, uint16_t>{v, uint16_t{7}};
		CHECKM((t.get<0>() == 9) & (t.get<1>() == v) & (t.get<2>() == 7) & (t.get<3>() == 4), "assigning to a subtuple changes exactly its elements");
	} else if (part == 2) {
		standard_layout_tuple<uint32_t, uint8_t, uint8_t, uint8_t> t{v, uint8_t{1}, uint8_t{2}, uint8_t{3}};
		CHECKM(subs(t), "a subtuple refers to the elements of the tuple");
		t.subtuple<0, 2>() = standard_layout_tuple<uint32_t, uint8_t>{w, uint8_t{9}};
		CHECKM((t.get<0>() == w) & (t.get<1>() == 9) & (t.get<2>() == 2) & (t.get<3>() == 3), "assigning to a subtuple changes exactly its elements");
	} else if (part == 3) { // growing alignments
		standard_layout_tuple<uint8_t, uint8_t, uint32_t> t{uint8_t{1}, uint8_t{2}, v};
		using I0 = std::index_sequence<>; using I1 = std::index_sequence<0>; using I2 = std::index_sequence<0, 1>; using I3 = std::index_sequence<0, 1, 2>;
		CHECKM((sub_same<0, 0>(t, I0{}) & sub_same<0, 1>(t, I1{}) & sub_same<0, 3>(t, I3{}) & sub_same<1, 0>(t, I0{}) & sub_same<1, 1>(t, I1{}) & sub_same<1, 2>(t, I2{}) & sub_same<2, 1>(t, I1{})), "a subtuple refers to the elements of the tuple");
		CHECKM((sub_same<0, 2>(t, I2{})), "subtuple<0, 2> of <uint8_t, uint8_t, uint32_t> refers to the elements of the tuple");
	} else if (part == 4) {
		standard_layout_tuple<uint8_t, uint32_t, uint32_t, uint64_t> t{uint8_t{1}, v, w, uint64_t{v}};
		using I1 = std::index_sequence<0>; using I2 = std::index_sequence<0, 1>; using I3 = std::index_sequence<0, 1, 2>; using I4 = std::index_sequence<0, 1, 2, 3>;
		CHECKM((sub_same<0, 1>(t, I1{}) & sub_same<0, 4>(t, I4{}) & sub_same<1, 1>(t, I1{}) & sub_same<1, 3>(t, I3{}) & sub_same<2, 1>(t, I1{}) & sub_same<2, 2>(t, I2{}) & sub_same<3, 1>(t, I1{})), "a subtuple refers to the elements of the tuple");
	} else {
		struct B { uint8_t b[3]; };
		standard_layout_tuple<B, B, uint8_t, B> t{B{{1, 2, 3}}, B{{4, 5, 6}}, (uint8_t) v, B{{7, 8, 9}}};
		CHECKM(subs(t), "a subtuple refers to the elements of the tuple");
		t.subtuple<0, 2>() = standard_layout_tuple<B, B>{B{{(uint8_t) w, 0, 0}}, B{{0, 0, (uint8_t) w}}};
		CHECKM((t.get<0>().b[0] == (uint8_t) w) & (t.get<1>().b[2] == (uint8_t) w) & (t.get<2>() == (uint8_t) v) & (t.get<3>().b[0] == 7), "assigning to a subtuple changes exactly its elements");
	}
	OBS(v);
	REACH("done");
}

template<int ix> struct Arr { uint32_t v = 1000 + ix; bool operator==(Arr const &) const = default; auto operator<=>(Arr const &) const = default; static constexpr int index = ix; };
template<int8_t ix> struct Nar { uint16_t v = 0; static constexpr int index = ix; bool operator==(Nar const &) const = default; auto operator<=>(Nar const &) const = default; };
template<size_t ix> struct Siz { uint8_t b[ix]; static constexpr size_t index = ix; };

template<typename T, auto first, auto last, template<decltype(first)> typename E>
static void integral() {
	constexpr int n = first < last ? (int) last - (int) first : (int) first - (int) last;
	constexpr int step = first < last ? 1 : -1;
	static_assert(T::size() == (size_t) n);
	T t;
	uint32_t want[n];
	auto each = [&]<int... ks>(std::integer_sequence<int, ks...>, auto &&f) { (f.template operator()<static_cast<decltype(first)>((int) first + step * ks), ks>(), ...); };
	auto const ixs = std::make_integer_sequence<int, n>{};
	each(ixs, [&]<auto ix, int k> {
		static_assert(std::is_same_v<decltype(t.template get<ix>()), E<ix> &>);
		static_assert(std::is_same_v<decltype(std::as_const(t).template get<ix>()), E<ix> const &>);
		static_assert(std::is_same_v<decltype(std::move(t).template get<ix>()), E<ix> &&>);
		t.template get<ix>().v = sym<decltype(t.template get<ix>().v)>("v");
		want[k] = t.template get<ix>().v;
	});
	each(ixs, [&]<auto ix, int k> { CHECKM(std::as_const(t).template get<ix>().v == want[k], "every index has its own element"); });
	int at = 0; uint32_t sum = 0;
	int const seen = t.visit([&](auto &e) {
		CHECKM((std::remove_cvref_t<decltype(e)>::index == (int) first + step * at) & (e.v == want[at]), "visit goes through all elements in order");
		++at; sum = sum * 5 + e.v; e.v ^= 1;
		return at;
	});
	CHECKM((at == n) & (seen == n), "visit sees every element once and returns the last result");
	each(ixs, [&]<auto ix, int k> { CHECKM(t.template get<ix>().v == (want[k] ^ 1), "visit can change the elements"); });
	std::as_const(t).visit([&](auto const &e) { static_assert(std::is_const_v<std::remove_reference_t<decltype(e)>>); --at; (void) e; });
	CHECKM(at == 0, "visit sees every element of a const tuple once");
	if constexpr (n > 0) {
		int const stop = sym<int>("stop");
		int seen2 = 0, out = -1;
		try { t.visit([&](auto &) { if (seen2 == stop) throw seen2; ++seen2; }); } catch (int e) { out = e; }
		bool const hit = (stop >= 0) & (stop < (int) n);
		CHECKM((seen2 == (hit ? stop : (int) n)) & (out == (hit ? stop : -1)), "an exception of the visitor ends the visit and comes out");
		std::move(t).visit([&](auto &&e) { CHECKM(e.v == (want[at] ^ 1), "visit sees every element of an rvalue tuple"); ++at; });
		CHECKM(at == (int) n, "visit sees every element of an rvalue tuple once");
	}
	T u{t};
	CHECKM((u == t) & ((u <=> t) == 0), "copies are equal");
	u.template get<static_cast<decltype(first)>(first + step)>().v += 1;
	uint32_t const o = t.template get<static_cast<decltype(first)>(first + step)>().v, p = u.template get<static_cast<decltype(first)>(first + step)>().v;
	CHECKM((u != t) & (((t <=> u) < 0) == (o < p)), "tuples compare by their elements");
	if constexpr (n > 6) { // from the middle
		auto &m = t.template subtuple<static_cast<decltype(first)>(first + 5 * step), static_cast<decltype(first)>(first + 7 * step)>();
		CHECKM((&m.template get<static_cast<decltype(first)>(first + 5 * step)>() == &t.template get<static_cast<decltype(first)>(first + 5 * step)>()) & (&m.template get<static_cast<decltype(first)>(first + 6 * step)>() == &t.template get<static_cast<decltype(first)>(first + 6 * step)>()) & (m.size() == 2), "a subtuple refers to the elements of the tuple");
	}
	// all but the first element
	auto &s = t.template subtuple<static_cast<decltype(first)>(first + step), last>();
	static_assert(std::is_same_v<decltype(s), integral_template_tuple<static_cast<decltype(first)>(first + step), last, E> &>);
	each(ixs, [&]<auto ix, int k> { if constexpr (k > 0) CHECKM(&s.template get<ix>() == &t.template get<ix>(), "a subtuple refers to the elements of the tuple"); });
	auto const &r = std::as_const(t).template subtuple<first, static_cast<decltype(first)>(last - step)>();
	each(ixs, [&]<auto ix, int k> { if constexpr (k < n - 1) CHECKM(&r.template get<ix>() == &t.template get<ix>(), "a subtuple refers to the elements of the tuple"); });
	OBS(sum);
	REACH("done");
}
HARNESS_PART(integral) {
	if (part == 0) integral<integral_template_tuple<0, 4, Arr>, 0, 4, Arr>();
	else if (part == 1) integral<integral_template_tuple<3, -2, Arr>, 3, -2, Arr>();
	else if (part == 2) integral<integral_template_tuple<-3, 1, Arr>, -3, 1, Arr>();
	else if (part == 3) integral<integral_template_tuple<int8_t{125}, int8_t{127}, Nar>, int8_t{125}, int8_t{127}, Nar>();
	else if (part == 4) integral<integral_template_tuple<int8_t{-125}, int8_t{-128}, Nar>, int8_t{-125}, int8_t{-128}, Nar>();
	else if (part == 5) integral<integral_template_tuple<9, -1, Arr>, 9, -1, Arr>();
	else {
		integral_template_tuple<5ul, 9ul, Siz> t{dtl::uniform_construct, uint8_t{0}};
		static_assert(t.size() == 4);
		size_t total = 0;
		t.visit([&](auto &e) { for (size_t i = 0; i < sizeof e.b; ++i) e.b[i] = (uint8_t) (total + i); total += sizeof e.b; return total; });
		CHECKM(total == 5 + 6 + 7 + 8, "visit can accumulate");
		CHECKM((t.get<5>().b[4] == 4) & (t.get<6>().b[0] == 5) & (t.get<7>().b[0] == 11) & (t.get<8>().b[7] == 25), "elements of different sizes do not overlap");
		auto &s = t.subtuple<6, 8>();
		CHECKM((&s.get<6>() == &t.get<6>()) & (&s.get<7>() == &t.get<7>()), "a subtuple refers to the elements of the tuple");
		integral_template_tuple<4, 4, Arr> e, f; CHECKM((e.size() == 0) & (e == f), "an empty range gives an empty tuple");
		static_assert(std::tuple_size_v<standard_layout_tuple<int, int>> == 2);
		REACH("done");
	}
}

struct Sum { // takes the value out of rvalues
	uint32_t v;
	template<typename X, typename Y> Sum(X &&x, Y &&y) { El<1, F_CC | F_MC | F_CA | F_MA> a{std::forward<X>(x)}, b{std::forward<Y>(y)}; v = a.v + b.v; }
};
// element objects: constructed once, destroyed once, exceptions pass through
HARNESS_PART(objects) {
	using A = El<1, F_CC | F_MC | F_CA | F_MA>; using B = El<2, F_CC | F_MC | F_CA | F_MA>;
	using T = standard_layout_tuple<A, B, A>;
	uint32_t const x = sym<uint32_t>("x"), y = sym<uint32_t>("y"), z = sym<uint32_t>("z");
	{
		A a{x}, c{z}; B b{y};
		bool threw = false;
		trk::thrown = false;
		T other{A{5u}, B{6u}, A{7u}};
		trk::budget = 1;
		try {
			if (part == 0) { T t{std::move(a), std::move(b), std::move(c)}; trk::budget = 0; CHECKM((t.get<0>().v == x) & (t.get<1>().v == y) & (t.get<2>().v == z) & (a.v == moved_from) & (b.v == moved_from) & (c.v == moved_from), "rvalues are moved into the tuple"); A m{std::move(t).get<0>()}; CHECKM((m.v == x) & (t.get<0>().v == moved_from), "elements can be moved out"); }
			else if (part == 1) { T t{a, b, std::move(c)}; trk::budget = 0; CHECKM((t.get<0>().v == x) & (t.get<1>().v == y) & (t.get<2>().v == z) & (a.v == x) & (b.v == y) & (c.v == moved_from), "lvalues are copied, rvalues moved"); }
			else if (part == 2) { standard_layout_tuple<A, A, A> t{dtl::uniform_construct, a}; trk::budget = 0; CHECKM((t.get<0>().v == x) & (t.get<1>().v == x) & (t.get<2>().v == x) & (a.v == x), "uniform construction copies its argument"); }
			else if (part == 6) { standard_layout_tuple<A, A, A> t{dtl::uniform_construct, std::move(a)}; trk::budget = 0; CHECKM((t.get<0>().v == x) & (t.get<1>().v == x) & (t.get<2>().v == x), "uniform construction gives every element the value, also from an rvalue"); }
			else if (part == 7) { standard_layout_tuple<Sum, Sum> t{dtl::uniform_construct, std::move(a), c}; trk::budget = 0; CHECKM((t.get<0>().v == x + z) & (t.get<1>().v == x + z), "uniform construction gives every element the same arguments"); }
			else if (part == 3) { T t{other}; trk::budget = 0; CHECKM((t.get<0>().v == 5) & (t.get<1>().v == 6) & (t.get<2>().v == 7) & (other.get<1>().v == 6), "tuples can be copied"); }
			else if (part == 4) { T t{std::move(other)}; trk::budget = 0; CHECKM((t.get<0>().v == 5) & (t.get<1>().v == 6) & (t.get<2>().v == 7) & (other.get<1>().v == moved_from), "tuples can be moved"); }
			else { T t{a, b, c}; t = other; trk::budget = 0; CHECKM((t.get<0>().v == 5) & (t.get<1>().v == 6) & (t.get<2>().v == 7), "tuples can be copy assigned"); other = std::move(t); CHECKM((other.get<2>().v == 7) & (t.get<2>().v == moved_from), "tuples can be move assigned"); }
		} catch (boom const &) { threw = true; REACH("threw"); }
		trk::budget = 0;
		CHECKM(threw == trk::thrown, "exceptions of the elements come out");
	}
	CHECKM(trk::live == 0, "every element is destroyed exactly once");
	REACH("done");
}
