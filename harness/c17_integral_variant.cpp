// integral_template_variant: one alternative T<ix> per index of a range
// @bound five ranges (ascending, descending, negative, at the limits of a narrow index type, one element), every start alternative, histories of 2 (thorough: 3) operations on two variants with symbolic values, construction, copy and move of elements that throw
// @parts history 5
// @reach history done
// @reach compare done
// @parts objects 10
// @reach visitors done
// @reach objects done threw
// @reach empty done
#include "tracked.hpp"
#include <dice/template-library/integral_template_variant.hpp>
#include <compare>
#include <utility>

namespace dtl = dice::template_library;
using dtl::integral_template_variant;

template<int ix> struct A { uint32_t v = 500 + ix; static constexpr int index = ix; bool operator==(A const &) const = default; auto operator<=>(A const &) const = default; };
template<int8_t ix> struct N { uint32_t v = 0; static constexpr int index = ix; bool operator==(N const &) const = default; auto operator<=>(N const &) const = default; };
template<int ix> struct std::hash<A<ix>> { size_t operator()(A<ix> const &a) const noexcept { return a.v * 31 + ix; } };

#ifdef THOROUGH
constexpr int OPS = 3;
#else
constexpr int OPS = 2;
#endif
struct Model { int ix; uint32_t v; };

template<auto first, auto last, template<decltype(first)> typename T>
static void history() {
	using V = integral_template_variant<first, last, T>;
	constexpr int n = first < last ? (int) last - (int) first : (int) first - (int) last;
	constexpr int step = first < last ? 1 : -1;
	auto each = [&]<int... ks>(std::integer_sequence<int, ks...>, auto &&f) { (f.template operator()<static_cast<decltype(first)>((int) first + step * ks)>(), ...); };
	auto const ixs = std::make_integer_sequence<int, n>{};
	auto check = [&](V &x, Model const &m) {
		V const &c = x;
		static_assert(std::is_same_v<decltype(c.index()), decltype(first)>);
		CHECKM(c.index() == m.ix, "index names the held alternative");
		each(ixs, [&]<auto ix> {
			bool const holds = (int) ix == m.ix;
			CHECKM((c.template holds_alternative<ix>() == holds) & (c.template holds_alternative<T<ix>>() == holds), "holds_alternative is true exactly for the held alternative");
			bool threw = false;
			uint32_t got = 0;
			static_assert(std::is_same_v<decltype(x.template get<ix>()), T<ix> &> && std::is_same_v<decltype(c.template get<ix>()), T<ix> const &> && std::is_same_v<decltype(std::move(x).template get<ix>()), T<ix> &&>);
			try { got = c.template get<ix>().v; CHECKM(&x.template get<ix>() == &c.template get<ix>(), "get refers to the held value"); } catch (std::bad_variant_access const &) { threw = true; }
			CHECKM(threw == !holds, "get throws exactly if another alternative is held");
			if (holds) CHECKM(got == m.v, "get gives the held value");
		});
		int calls = 0;
		uint32_t const r = x.visit([&]<typename E>(E &e) { ++calls; CHECKM(E::index == m.ix, "visit gets the held alternative"); return e.v; });
		CHECKM((calls == 1) & (r == m.v), "visit is called once with the held value");
		CHECKM(c.visit([]<typename E>(E const &e) { return e.v; }) == m.v, "const visit");
		CHECKM((int) c.to_underlying().index() == (m.ix - (int) first) * step, "the underlying variant holds the same alternative");
	};
	V a, b;
	Model ma{(int) first, a.template get<first>().v}, mb = ma;
	CHECKM(ma.v == T<first>{}.v, "default construction holds the first alternative");
	// any alternative to start with
	auto start = [&](V &x, Model &m, unsigned how) {
		int const k = (int) dtl_choice(n, "alternative");
		each(ixs, [&]<auto ix> {
			if ((int) ix != (int) first + step * k) return;
			uint32_t const v = sym<uint32_t>("v");
			m = {(int) ix, v};
			if (how == 0) { T<ix> e{v}; x = V{e}; }
			else if (how == 1) x = V{T<ix>{v}};
			else if (how == 2) x = V{std::in_place_type<T<ix>>, v};
			else { auto &e = x.template emplace<ix>(v); static_assert(std::is_same_v<decltype(e), T<ix> &>); CHECKM(e.v == v, "emplace returns the new element"); }
		});
	};
	start(a, ma, dtl_choice(4, "how"));
	start(b, mb, 3);
	check(a, ma);
	for (int o = 0; o < OPS; ++o) {
		switch (dtl_choice(7, "op")) {
			case 0: start(a, ma, 3); break;
			case 1: b = a; mb = ma; break;
			case 2: a = std::move(b); ma = mb; break;
			case 3: { V c{a}; check(c, ma); V d{std::move(b)}; check(d, mb); break; }
			case 4: { using std::swap; swap(a, b); Model const t = ma; ma = mb; mb = t; break; }
			case 5: { uint32_t const v = sym<uint32_t>("w"); a.visit([&](auto &e) { e.v = v; }); ma.v = v; break; }
			default: each(ixs, [&]<auto ix> { if (a.template holds_alternative<ix>()) { T<ix> const t = a.template get<ix>(); b = t; mb = ma; } }); break;
		}
		check(a, ma); check(b, mb);
	}
	OBS(ma.v); OBS(mb.v);
	REACH("done");
}
HARNESS_PART(history) {
	if (part == 0) history<0, 3, A>();
	else if (part == 1) history<2, -1, A>();
	else if (part == 2) history<-5, -3, A>();
	else if (part == 3) history<int8_t{-126}, int8_t{-128}, N>();
	else history<7, 8, A>();
}
HARNESS(compare) {
	using V = integral_template_variant<4, 1, A>; // A<4>, A<3>, A<2>
	V x, y; int ix = 0, iy = 0;
	uint32_t const v = sym<uint32_t>("v"), w = sym<uint32_t>("w");
	auto set = [](V &t, unsigned k, uint32_t z) { if (k == 0) t.emplace<4>(z); else if (k == 1) t.emplace<3>(z); else t.emplace<2>(z); };
	ix = (int) dtl_choice(3, "x"); iy = (int) dtl_choice(3, "y");
	set(x, (unsigned) ix, v); set(y, (unsigned) iy, w);
	bool const eq = (ix == iy) & (v == w), lt = (ix < iy) | ((ix == iy) & (v < w));
	static_assert(std::is_same_v<decltype(x <=> y), std::strong_ordering>);
	CHECKM(((x == y) == eq) & ((x != y) == !eq), "variants are equal exactly if they hold equal values of the same alternative");
	CHECKM((((x <=> y) < 0) == lt) & (((x <=> y) == 0) == eq) & ((x < y) == lt) & ((x >= y) == !lt), "variants are ordered by alternative, in the order of the range, then by value");
	if (eq) CHECKM(std::hash<V>{}(x) == std::hash<V>{}(y), "equal variants hash alike");
	CHECKM(std::hash<V>{}(x) == std::hash<V>{}(V{x}), "a copy hashes alike");
	OBS(std::hash<V>{}(x) != 0);
	REACH("done");
}
template<int ix> struct Am : El<ix, F_CA | F_MA> { using El<ix, F_CA | F_MA>::El; }; // only assignments throw
template<int ix> struct Cm : El<ix, F_CC | F_MC> { using El<ix, F_CC | F_MC>::El; }; // only constructions throw
template<int ix> struct Th : El<ix, F_CC | F_MC | F_CA | F_MA> { using El<ix, F_CC | F_MC | F_CA | F_MA>::El; };
HARNESS_PART(objects) {
	using V = integral_template_variant<1, 3, Th>;
	uint32_t const p = sym<uint32_t>("p"), q = sym<uint32_t>("q");
	{
		V a{std::in_place_type<Th<1>>, p}, b{std::in_place_type<Th<2>>, q};
		trk::thrown = false;
		bool threw = false;
		trk::budget = 1;
		try {
			if (part == 0) { V c{a}; trk::budget = 0; CHECKM((c.index() == 1) && (c.get<1>().v == p) && (a.get<1>().v == p), "copies hold the same value"); V d{std::move(b)}; CHECKM((d.index() == 2) && (d.get<2>().v == q) && (b.get<2>().v == moved_from), "moving moves the element"); }
			else if (part == 1) { Th<2> e{q}; V c{e}; V d{std::move(e)}; trk::budget = 0; CHECKM((c.get<2>().v == q) & (d.get<2>().v == q) & (e.v == moved_from), "values are copied or moved in"); }
			else if (part == 3) { a.emplace<2>(q + 1); b = std::move(a); trk::budget = 0; CHECKM((b.get<2>().v == q + 1) & (a.get<2>().v == moved_from), "an element of the same alternative is move assigned"); }
			else if (part == 4) { b = std::move(a); trk::budget = 0; CHECKM((b.index() == 1) && (b.get<1>().v == p), "move assignment stores another alternative"); }
			else if (part == 5) {
				using W = integral_template_variant<1, 3, Am>;
				W c{std::in_place_type<Am<1>>, p}, d{std::in_place_type<Am<1>>, q};
				try { if (dtl_choice(2, "move")) c = std::move(d); else c = d; } catch (boom const &) { CHECKM((c.get<1>().v == p) & (d.get<1>().v == q), "a failed assignment keeps the elements"); throw; }
				CHECKM(c.get<1>().v == q, "an element of the same alternative is assigned");
			} else if (part == 6) {
				using W = integral_template_variant<1, 3, Cm>;
				W c{std::in_place_type<Cm<1>>, p}, d{std::in_place_type<Cm<2>>, q};
				if (dtl_choice(2, "move")) c = std::move(d); else c = d;
				CHECKM((c.index() == 2) && (c.get<2>().v == q), "another alternative is assigned");
			}
			else if (part == 7) { // emplace and in-place construction pass their arguments on unchanged
				Th<2> e{q};
				if (dtl_choice(2, "lvalue")) { a.emplace<2>(e); CHECKM((a.get<2>().v == q) & (e.v == q), "an lvalue is copied in"); V c{std::in_place_type<Th<2>>, e}; CHECKM((c.get<2>().v == q) & (e.v == q), "an lvalue is copied in"); }
				else if (dtl_choice(2, "emplace")) { a.emplace<2>(std::move(e)); CHECKM((a.get<2>().v == q) & (e.v == moved_from), "an rvalue is moved in"); }
				else { V c{std::in_place_type<Th<2>>, std::move(e)}; CHECKM((c.get<2>().v == q) & (e.v == moved_from), "an rvalue is moved in"); }
			} else if (part == 8) { // a constructor that throws by itself
				boom const no{};
				if (dtl_choice(2, "emplace")) a.emplace<2>(no); else V c{std::in_place_type<Th<1>>, no};
				CHECKM(false, "the exception of the constructor comes out");
			} else if (part == 9) { // assignment of values, through a temporary variant
				Th<2> e{q};
				if (dtl_choice(2, "lvalue")) { a = e; CHECKM((a.get<2>().v == q) & (e.v == q), "an lvalue is copied in"); }
				else { a = std::move(e); CHECKM((a.get<2>().v == q) & (e.v == moved_from), "an rvalue is moved in"); }
			}
			else { a.emplace<2>(q); b = a; trk::budget = 0; CHECKM((a.get<2>().v == q) & (b.get<2>().v == q), "emplace and assignment store the value"); Th<1> e{std::move(a.emplace<1>(p))}; CHECKM((e.v == p) & (a.get<1>().v == moved_from), "elements can be moved out"); }
		} catch (boom const &) { threw = true; REACH("threw"); }
		trk::budget = 0;
		CHECKM(threw == trk::thrown, "exceptions of the elements come out");
	}
	CHECKM(trk::live == 0, "every element is destroyed exactly once");
	REACH("done");
}
// visitors are called with their own category, their exceptions come out and their result is passed on
struct Vis {
	uint32_t *seen;
	int operator()(auto const &) & { *seen = 1; return 1; }
	int operator()(auto const &) const & { *seen = 2; return 2; }
	int operator()(auto const &) && { *seen = 3; return 3; }
};
HARNESS(visitors) {
	using V = integral_template_variant<3, 0, A>;
	uint32_t const v = sym<uint32_t>("v"), cut = sym<uint32_t>("cut");
	V a;
	switch (dtl_choice(3, "a")) { case 0: a.emplace<3>(v); break; case 1: a.emplace<2>(v); break; default: a.emplace<1>(v); }
	V const &c = a;
	uint32_t seen = 0;
	Vis vis{&seen}; Vis const &cv = vis;
	CHECKM((a.visit(vis) == 1) && (seen == 1) && (c.visit(cv) == 2) && (a.visit(Vis{&seen}) == 3) && (c.visit(std::move(vis)) == 3) && (seen == 3), "the visitor is called as the kind of object it is");
	CHECKM(&a.visit([&](auto &e) -> uint32_t & { return e.v; }) == &a.visit([&](auto &e) -> uint32_t & { return e.v; }), "references are passed on");
	a.visit([&](auto &e) -> uint32_t & { return e.v; }) ^= 1;
	CHECKM(c.visit([](auto const &e) { return e.v; }) == (v ^ 1), "the held element is visited");
	auto const kind = []<typename E>(E &&) { return (std::is_const_v<std::remove_reference_t<E>> ? 1 : 0) + (std::is_lvalue_reference_v<E> ? 2 : 0); };
	CHECKM((a.visit(kind) == 2) & (c.visit(kind) == 3) & (std::move(a).visit(kind) == 0) & (std::move(c).visit(kind) == 1), "the element is visited with the category and constness of the variant");
	bool threw = false;
	try { a.visit([&](auto &e) { if (e.v > cut) throw v; }); } catch (uint32_t x) { threw = true; CHECKM(x == v, "the exception of the visitor comes out unchanged"); }
	CHECKM(threw == ((v ^ 1) > cut), "the exception of the visitor comes out");
	REACH("done");
}
// elements that can neither be copied nor moved are built where they stay
template<int ix> struct Still {
	uint32_t v; Still *self;
	Still() : Still(7u + ix) {}
	explicit Still(uint32_t x) : v{x}, self{this} {}
	Still(Still const &) = delete;
	Still &operator=(Still const &) = delete;
	auto operator<=>(Still const &) const = default;
};
HARNESS(immovable) {
	uint32_t const x = sym<uint32_t>("x");
	integral_template_variant<4, 1, Still> a, b{std::in_place_type<Still<2>>, x};
	auto const at = [](auto &v, int ix, uint32_t x) {
		CHECKM((v.index() == ix) && v.visit([&](auto &e) { return (e.self == &e) & (e.v == x) & ((char *) &e >= (char *) &v) & ((char *) (&e + 1) <= (char *) (&v + 1)); }), "an element is built in place");
	};
	at(a, 4, 11); at(b, 2, x);
	Still<3> &r = a.template emplace<3>(x + 1);
	CHECKM(&r == &a.template get<3>(), "emplace returns the new element");
	at(a, 3, x + 1);
	a.template emplace<2>(); at(a, 2, 9);
	OBS(b.visit([](auto &e) { return e.v; }));
}
HARNESS(empty) {
	integral_template_variant<3, 3, A> a, b;
	CHECKM((a == b) & ((a <=> b) == 0), "variants over an empty range are all equal");
	CHECKM(a.visit([]<typename E>(E const &) { return std::is_same_v<E, std::monostate>; }), "variants over an empty range hold nothing");
	a = b; using std::swap; swap(a, b);
	REACH("done");
}
