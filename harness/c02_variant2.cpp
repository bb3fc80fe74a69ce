// variant2: alternative tracking and element lifetimes, including throwing elements.
// @bound every pair of start states (first/second/valueless), then two arbitrary operations (one in the quick tier for the slower element types); at most one throwing element operation per operation; payloads are arbitrary 32-bit values
// @bound element types: all-noexcept, throwing copy, throwing move, throwing both, trivially assignable with tracked lifetime, trivially assignable and destructible with counted constructions, trivial
// @reach nothrow_ first second valueless copyassign moveassign valassign emplace swap
// @reach throwcopy_ first second valueless threw copyassign moveassign valassign emplace swap
// @reach throwmove_ first second valueless threw
// @reach throwall_ first second valueless threw
// @reach trivassign_ first second
// @reach triv_ first second
// @reach made_both constructed
// @reach made_first constructed
// @reach ctors_ threw first second valueless
#include "tracked.hpp"
#include <dice/template-library/variant2.hpp>
#include <memory>

namespace dtl = dice::template_library;

// tracked lifetime but defaulted (trivial) assignment
template<int K>
struct TA {
	uint32_t v;
	explicit TA(uint32_t x = 0) noexcept : v{x} { trk::born(this, K); }
	explicit TA(boom) { trk::thrown = true; throw boom{}; }
	TA(TA const &o) noexcept : v{o.v} { trk::use(&o, K); trk::born(this, K); }
	TA &operator=(TA const &) = default;
	~TA() { trk::died(this, K); }
};
template<int K>
struct Triv { uint32_t v; };

template<typename X> inline constexpr bool is_el = false;
template<int K, unsigned F> inline constexpr bool is_el<El<K, F>> = true;

struct M { int st; uint32_t v; bool operator==(M const &) const = default; }; // 0 first, 1 second, 2 valueless

template<typename A, typename B>
struct T {
	using V = dtl::variant2<A, B>;
	static constexpr bool tracked_a = !std::is_trivially_destructible_v<A>, tracked_b = !std::is_trivially_destructible_v<B>;
	static constexpr bool fail_a = std::is_constructible_v<A, boom>, fail_b = std::is_constructible_v<B, boom>, can_fail = fail_a || fail_b;

	static M observe(V &v) {
		if (v.index() == 0) return {0, dtl::get<0>(v).v};
		if (v.index() == 1) return {1, dtl::get<1>(v).v};
		return {2, 0};
	}
	static void state(V &v, M m) {
		V const &c = v;
		CHECKM(v.index() == (m.st == 2 ? dtl::variant_npos : (size_t) m.st), "index reports the stored alternative");
		CHECKM(v.valueless_by_exception() == (m.st == 2), "valueless_by_exception reports the stored alternative");
		CHECKM(dtl::holds_alternative<A>(v) == (m.st == 0), "holds_alternative<first>");
		CHECKM(dtl::holds_alternative<B>(v) == (m.st == 1), "holds_alternative<second>");
		CHECKM(!dtl::holds_alternative<char>(v), "holds_alternative of another type");
		A *pa = dtl::get_if<A>(&v); B *pb = dtl::get_if<B>(&v);
		CHECKM((pa != nullptr) == (m.st == 0) && (pb != nullptr) == (m.st == 1), "get_if by type");
		CHECKM(dtl::get_if<0>(&v) == pa && dtl::get_if<1>(&v) == pb, "get_if by index");
		CHECKM(dtl::get_if<A>(&c) == pa && dtl::get_if<1>(&c) == pb && dtl::get_if<0>(&c) == pa && dtl::get_if<B>(&c) == pb, "get_if const");
		int got = 0;
		try { got |= &dtl::get<0>(v) == pa ? 1 : 0; } catch (std::bad_variant_access const &) { got |= 2; }
		try { got |= &dtl::get<1>(c) == pb ? 4 : 0; } catch (std::bad_variant_access const &) { got |= 8; }
		try { got |= &dtl::get<A>(c) == pa ? 16 : 0; } catch (std::bad_variant_access const &) { got |= 32; }
		try { got |= &dtl::get<B>(v) == pb ? 64 : 0; } catch (std::bad_variant_access const &) { got |= 128; }
		CHECKM(got == (m.st == 0 ? 1 + 8 + 16 + 128 : m.st == 1 ? 2 + 4 + 32 + 64 : 2 + 8 + 32 + 128), "get returns the stored element or throws");
		int vis = 0, vc = 0;
		try {
			vis = dtl::visit([&]<typename X>(X &x) { return std::is_same_v<X, A> ? ((void const *) &x == pa) : 2 * ((void const *) &x == pb); }, v);
			vc = dtl::visit([&]<typename X>(X const &x) { return std::is_same_v<X, A> ? ((void const *) &x == pa) : 2 * ((void const *) &x == pb); }, c);
		} catch (std::bad_variant_access const &) { vis = vc = 3; }
		CHECKM(vis == m.st + 1 && vc == vis, "visit calls with the stored element or throws");
		if (m.st == 0) { if constexpr (tracked_a) trk::use(pa, 1); CHECKM(pa->v == m.v, "stored first value"); REACH("first"); }
		if (m.st == 1) { if constexpr (tracked_b) trk::use(pb, 2); CHECKM(pb->v == m.v, "stored second value"); REACH("second"); }
		if (m.st == 2) REACH("valueless");
		OBS(m.st); OBS(m.v);
	}
	// puts v into state m through the public interface
	static void make(V &v, M m) {
		if (m.st == 0) v.template emplace<0>(m.v);
		else if (m.st == 1) v.template emplace<B>(m.v);
		else if constexpr (can_fail) {
			bool t = false;
			try { fail(v, dtl_choice(2, "valueless_via")); } catch (boom const &) { t = true; }
			CHECKM(t, "the element's exception comes out of emplace");
		}
	}
	static void fail(V &v, int which) {
		if constexpr (fail_a) if (which == 0 || !fail_b) v.template emplace<A>(boom{});
		if constexpr (fail_b) v.template emplace<1>(boom{});
	}
	static M pick(char const *n) {
		M m{(int) dtl_choice(can_fail ? 3 : 2, n), sym<uint32_t>("payload")};
		if (m.st == 2) m.v = 0;
		return m;
	}
	template<typename F>
	static bool armed(F &&f) {
		trk::budget = 1; trk::thrown = false;
		bool threw = false;
		try { f(); } catch (boom const &) { threw = true; CHECKM(trk::thrown, "only an element's own exception comes out"); REACH("threw"); }
		trk::budget = 0;
		if (!threw) CHECKM(!trk::thrown, "an element's exception comes out");
		return threw;
	}
	static M moved(M m) { if ((m.st == 0 && is_el<A>) || (m.st == 1 && is_el<B>)) m.v = moved_from; return m; }
	// x was `before`; an operation that was to give it alternative `st` threw
	static M failed(V &x, M before, int st, bool construct) {
		M now = observe(x);
		if (!construct && before.st == st) CHECKM(now == before, "a throwing element assignment keeps the alternative");
		else CHECKM(now == before || now.st == 2, "a throwing construction leaves the old state or valueless");
		return now;
	}
	static void op(V &x, M &mx, V &y, M &my) {
		int const o = (int) dtl_choice(can_fail ? 15 : 13, "op");
		uint32_t const p = sym<uint32_t>("value");
		switch (o) {
			case 0:
				REACH("copyassign");
				if (armed([&] { V &r = (x = static_cast<V const &>(y)); CHECK(&r == &x); })) mx = failed(x, mx, my.st, false); else mx = my;
				break;
			case 1:
				REACH("moveassign");
				if (armed([&] { V &r = (x = std::move(y)); CHECK(&r == &x); })) mx = failed(x, mx, my.st, false); else { mx = my; my = moved(my); }
				break;
			case 2: { A a{p}; REACH("valassign"); if (armed([&] { x = static_cast<A const &>(a); })) mx = failed(x, mx, 0, false); else mx = {0, p}; CHECKM(a.v == p, "copied-from value unchanged"); break; }
			case 3: { A a{p}; if (armed([&] { x = std::move(a); })) mx = failed(x, mx, 0, false); else mx = {0, p}; break; }
			case 4: { B b{p}; if (armed([&] { x = static_cast<B const &>(b); })) mx = failed(x, mx, 1, false); else mx = {1, p}; CHECKM(b.v == p, "copied-from value unchanged"); break; }
			case 5: { B b{p}; if (armed([&] { x = std::move(b); })) mx = failed(x, mx, 1, false); else mx = {1, p}; break; }
			case 6: { REACH("emplace"); A a{p}; if (armed([&] { A &r = x.template emplace<A>(static_cast<A const &>(a)); CHECKM(&r == dtl::get_if<0>(&x), "emplace returns the new element"); })) mx = failed(x, mx, 0, true); else mx = {0, p}; break; }
			case 7: { B b{p}; if (armed([&] { B &r = x.template emplace<1>(std::move(b)); CHECKM(&r == dtl::get_if<1>(&x), "emplace returns the new element"); })) mx = failed(x, mx, 1, true); else mx = {1, p}; break; }
			case 8:
				REACH("swap");
				if (armed([&] { swap(x, y); })) { mx = observe(x); my = observe(y); } else std::swap(mx, my);
				break;
			case 9: armed([&] { V z{static_cast<V const &>(y)}; trk::budget = 0; state(z, my); }); break;
			case 10: { M const by = my; if (!armed([&] { V z{std::move(y)}; trk::budget = 0; state(z, by); })) my = moved(my); break; }
			case 11: { V const &self = x; if (armed([&] { x = self; })) mx = failed(x, mx, mx.st, false); break; }
			case 12: if (armed([&] { swap(x, x); })) mx = observe(x); break;
			case 13: if constexpr (fail_a) { if (armed([&] { x.template emplace<0>(boom{}); })) mx = failed(x, mx, 0, true); else CHECK(false); } break;
			case 14: if constexpr (fail_b) { if (armed([&] { x.template emplace<B>(boom{}); })) mx = failed(x, mx, 1, true); else CHECK(false); } break;
		}
		state(x, mx); state(y, my);
	}
	static void run(int ops) {
		{
			M mx = pick("x"), my = pick("y");
			V x{A{1u}}, y{B{2u}};
			make(x, mx); make(y, my);
			state(x, mx); state(y, my);
			for (int i = 0; i < ops; ++i) { if (i == 0 || dtl_choice(2, "swap_roles") == 0) op(x, mx, y, my); else op(y, my, x, mx); }
			// values can be replaced afterwards whatever happened before
			x.template emplace<0>(7u); state(x, {0, 7});
			y = B{9u}; state(y, {1, 9});
		}
		CHECKM(trk::live == 0, "every element constructed is destroyed");
	}
};
#ifdef THOROUGH
constexpr int N = 2;
#else
constexpr int N = 1;
#endif
HARNESS(nothrow_) { T<El<1, 0>, El<2, 0>>::run(2); }
HARNESS(throwcopy_) { T<El<1, F_CC | F_CA>, El<2, F_CC | F_CA>>::run(N); }
HARNESS(throwmove_) { T<El<1, F_MC | F_MA>, El<2, F_MC | F_MA>>::run(N); }
HARNESS(throwall_) { T<El<1, F_CC | F_MC | F_CA | F_MA>, El<2, F_CC | F_MC | F_CA | F_MA>>::run(N); }
HARNESS(throwone_) { T<El<1, 0>, El<2, F_CC | F_MC | F_CA | F_MA>>::run(N); }
HARNESS(throwctor_) { T<El<1, F_CC | F_MC>, El<2, F_CC>>::run(N); }
HARNESS(throwctor2_) { T<El<1, F_CC>, El<2, F_CC | F_MC>>::run(N); }
HARNESS(throwctor3_) { T<El<1, F_MC>, El<2, F_MC>>::run(N); }
HARNESS(throwctor4_) { T<El<1, F_CC>, El<2, F_CC>>::run(N); }
HARNESS(throwassign_) { T<El<1, F_CA | F_MA>, El<2, F_CA | F_MA>>::run(N); }
HARNESS(throwassign2_) { T<El<1, F_MA>, El<2, F_CA>>::run(N); }
HARNESS(throwassign3_) { T<El<1, F_CA>, El<2, F_MA>>::run(N); }
HARNESS(trivassign_) { T<TA<1>, TA<2>>::run(2); }
HARNESS(triv_) { T<Triv<1>, Triv<2>>::run(2); }
HARNESS(mixed1_) { T<TA<1>, Triv<2>>::run(N); }
HARNESS(mixed2_) { T<Triv<1>, TA<2>>::run(N); }
HARNESS(mixed3_) { T<El<1, F_CC | F_MC>, Triv<2>>::run(N); }
HARNESS(mixed4_) { T<Triv<1>, El<2, F_MA | F_CA>>::run(N); }
HARNESS(mixed5_) { T<El<1, 0>, TA<2>>::run(N); }

// every constructor
template<typename A, typename B>
static void ctors() {
	using V = dtl::variant2<A, B>;
	using TT = T<A, B>;
	{
		uint32_t p = sym<uint32_t>("payload");
		A a{p}; B b{p};
		switch (dtl_choice(9, "ctor")) {
			case 0: { V v; M m{0, 0}; TT::state(v, m); break; }
			case 1: TT::armed([&] { V v{static_cast<A const &>(a)}; trk::budget = 0; TT::state(v, {0, p}); }); CHECK(a.v == p); break;
			case 2: TT::armed([&] { V v{std::move(a)}; trk::budget = 0; TT::state(v, {0, p}); }); break;
			case 3: TT::armed([&] { V v{static_cast<B const &>(b)}; trk::budget = 0; TT::state(v, {1, p}); }); CHECK(b.v == p); break;
			case 4: TT::armed([&] { V v{std::move(b)}; trk::budget = 0; TT::state(v, {1, p}); }); break;
			case 5: TT::armed([&] { V v{std::in_place_type<A>, static_cast<A const &>(a)}; trk::budget = 0; TT::state(v, {0, p}); }); break;
			case 6: TT::armed([&] { V v{std::in_place_type<B>, p}; trk::budget = 0; TT::state(v, {1, p}); }); break;
			case 7: TT::armed([&] { V v{std::in_place_index<0>, p}; trk::budget = 0; TT::state(v, {0, p}); }); break;
			case 8: TT::armed([&] { V v{std::in_place_index<1>, std::move(b)}; trk::budget = 0; TT::state(v, {1, p}); }); break;
		}
		V w{std::in_place_index<0>, 5u};
		try { w.template emplace<1>(boom{}); } catch (boom const &) {}
		V u{static_cast<V const &>(w)}; TT::state(u, {2, 0});
		V t{std::move(w)}; TT::state(t, {2, 0});
		TT::state(w, {2, 0});
	}
	CHECKM(trk::live == 0, "every element constructed is destroyed");
}
HARNESS(ctors_) { ctors<El<1, F_CC | F_MC>, El<2, F_CC | F_MC>>(); }
HARNESS(ctors2_) { ctors<El<1, 0>, El<2, F_MC>>(); }
HARNESS(ctors3_) { ctors<El<1, F_MC>, El<2, F_CC>>(); }

// value categories and constness of get/visit, move-only elements
HARNESS(categories_) {
	using V = dtl::variant2<std::unique_ptr<uint32_t>, uint32_t>;
	static_assert(std::is_same_v<decltype(dtl::get<0>(std::declval<V &>())), std::unique_ptr<uint32_t> &>);
	static_assert(std::is_same_v<decltype(dtl::get<0>(std::declval<V const &>())), std::unique_ptr<uint32_t> const &>);
	static_assert(std::is_same_v<decltype(dtl::get<uint32_t>(std::declval<V>())), uint32_t &&>);
	static_assert(std::is_same_v<decltype(dtl::get<1>(std::declval<V const>())), uint32_t const &&>);
	static_assert(!std::is_copy_constructible_v<V> || true);
	uint32_t p = sym<uint32_t>("p");
	V v{std::make_unique<uint32_t>(p)};
	auto u = dtl::get<0>(std::move(v));
	CHECKM(*u == p && dtl::get<0>(v) == nullptr, "get on an rvalue hands the element out as an rvalue");
	V w{std::move(u)};
	int cat = dtl::visit([]<typename X>(X &&) { return std::is_lvalue_reference_v<X> ? 1 : std::is_const_v<std::remove_reference_t<X>> ? 2 : 3; }, std::move(w));
	CHECKM(cat == 3, "visit passes an rvalue for an rvalue variant");
	V const cw{p};
	cat = dtl::visit([]<typename X>(X &&) { return std::is_lvalue_reference_v<X> ? std::is_const_v<std::remove_reference_t<X>> ? 1 : 0 : 3; }, cw);
	CHECKM(cat == 1, "visit passes a const lvalue for a const variant");
	cat = dtl::visit([]<typename X>(X &&) { return std::is_lvalue_reference_v<X> ? 0 : std::is_const_v<std::remove_reference_t<X>> ? 1 : 3; }, std::move(cw));
	CHECKM(cat == 1, "visit passes a const rvalue for a const rvalue variant");
	w = p;
	CHECKM(w.index() == 1 && dtl::get<1>(w) == p, "value assignment");
	w = std::make_unique<uint32_t>(p + 1);
	CHECKM(*dtl::get<0>(w) == p + 1, "value assignment");
	V z = std::move(w);
	CHECKM(*dtl::get<0>(z) == p + 1 && dtl::get<0>(w) == nullptr, "move construction moves the element");
	w = std::move(z);
	CHECKM(*dtl::get<0>(w) == p + 1, "move assignment moves the element");
	CHECKM(dtl::get_if<0>((V *) nullptr) == nullptr && dtl::get_if<uint32_t>((V const *) nullptr) == nullptr && dtl::get_if<0>((V const *) nullptr) == nullptr && dtl::get_if<uint32_t>((V *) nullptr) == nullptr, "get_if of a null pointer");
}

// elements that assign trivially but construct non-trivially (they count their constructions): an alternative that is
// replaced has to be constructed from the source, only one that stays may be assigned
template<int K, bool C, bool Mv>
struct Made {
	static constexpr bool counts_copy = C, counts_move = Mv;
	uint32_t v, made;
	explicit Made(uint32_t v) noexcept : v{v}, made{1} {}
	explicit Made(boom) { throw boom{}; }
	Made(Made const &o) noexcept requires C : v{o.v}, made{o.made + 1} {}
	Made(Made const &) noexcept requires (!C) = default;
	Made(Made &&o) noexcept requires Mv : v{o.v}, made{o.made + 1} {}
	Made(Made &&) noexcept requires (!Mv) = default;
	Made &operator=(Made const &) = default;
	Made &operator=(Made &&) = default;
};
template<typename A, typename B>
static void made() {
	using V = dtl::variant2<A, B>;
	static_assert(std::is_trivially_destructible_v<A> && std::is_trivially_copy_assignable_v<A> && std::is_trivially_move_assignable_v<A> && (!A::counts_copy == std::is_trivially_copy_constructible_v<A>));
	uint32_t const p = sym<uint32_t>("p"), q = sym<uint32_t>("q");
	unsigned const from = dtl_choice(2, "from"), to = dtl_choice(3, "to");
	bool const move = dtl_choice(2, "move");
	V x{std::in_place_type<A>, p};
	if (from == 1) x.template emplace<1>(p);
	V y{std::in_place_type<A>, q};
	if (to == 1) y.template emplace<1>(q);
	if (to == 2) { try { y.template emplace<1>(boom{}); CHECK(false); } catch (boom const &) {} CHECKM(y.valueless_by_exception(), "valueless after a throwing emplace"); }
	auto const count = [](V const &v) { return dtl::visit([](auto const &e) { return e.made; }, v); };
	auto const value = [](V const &v) { return dtl::visit([](auto const &e) { return e.v; }, v); };
	bool const cc = from == 0 ? A::counts_copy : B::counts_copy, cm = from == 0 ? A::counts_move : B::counts_move;
	uint32_t const had = count(x);
	if (move) y = std::move(x); else y = static_cast<V const &>(x);
	CHECKM((y.index() == from) & (value(y) == p), "assignment takes over alternative and value");
	if (from != to && (move ? cm : cc)) { CHECKM(count(y) > had, "the element of a replaced alternative is constructed, not assigned"); REACH("constructed"); }
	uint32_t const has = count(x);
	V z{static_cast<V const &>(x)};
	CHECKM((value(z) == p) & (!cc | (count(z) > has)), "copy construction constructs the element");
	V w{std::move(x)};
	CHECKM((value(w) == p) & (!cm | (count(w) > has)), "move construction constructs the element");
	OBS(value(y)); OBS(value(w));
}
HARNESS(made_both) { made<Made<1, true, true>, Made<2, true, true>>(); }
HARNESS(made_copy) { made<Made<1, true, false>, Made<2, true, false>>(); }
HARNESS(made_move) { made<Made<1, false, true>, Made<2, false, true>>(); }
HARNESS(made_first) { made<Made<1, true, true>, Made<2, false, false>>(); }
HARNESS(made_second) { made<Made<1, false, false>, Made<2, true, true>>(); }
HARNESS(made_none) { made<Made<1, false, false>, Made<2, false, false>>(); }
