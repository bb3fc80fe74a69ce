// bind_front, overloaded, match, DICE_MEMFN, forward_like, DICE_MOVE_IF_VALUE
// @bound every value of the bound and call arguments; 0 to 3 bound and 0 to 3 call arguments of every reference category, lvalue, const, rvalue and const rvalue wrappers, copies of wrappers; free, member and object functions, data members; throwing functions and throwing copies; variants with 2 to 4 alternatives
// @parts bind 4
// @reach bind done
// @reach members done
// @reach failing thrown done
// @reach match done
// @reach memfn done
// @reach likes done
#include "../runtime/sym.hpp"
#include <array>
#include <dice/template-library/functional.hpp>
#include <dice/template-library/memfn.hpp>
#include <dice/template-library/overloaded.hpp>
#include <dice/template-library/variant2.hpp>
#include <memory>
#include <variant>

namespace dtl = dice::template_library;
static int live, copies, moves, copy_throws;
struct Err {};
struct A { // an argument that knows where it comes from
	uint32_t v; bool valid = true;
	explicit A(uint32_t v) : v(v) { ++live; }
	A(A const &o) : v(o.v), valid(o.valid) { if (copy_throws > 0 && --copy_throws == 0) throw Err{}; ++live; ++copies; }
	A(A &&o) noexcept : v(o.v), valid(o.valid) { o.valid = false; ++live; ++moves; }
	A &operator=(A const &) = delete;
	~A() { --live; }
	bool is(uint32_t x) const { return (v == x) & valid; }
};
struct Seen { char kind[3]; uint32_t v[3]; void const *p[3]; int calls; uint32_t result; };
static Seen seen;
// L: A &, C: A const &, R: A &&, K: A const &&
template<typename T> static char kind() {
	if constexpr (std::is_lvalue_reference_v<T>) return std::is_const_v<std::remove_reference_t<T>> ? 'C' : 'L';
	else return std::is_const_v<std::remove_reference_t<T>> ? 'K' : 'R';
}
struct F3 {
	template<typename... T>
	uint32_t &operator()(T &&...a) const {
		seen.calls++;
		size_t i = 0;
		((seen.kind[i] = kind<T &&>(), CHECKM(a.valid, "arguments are not used up before the call"), seen.v[i] = a.v, seen.p[i] = &a, ++i), ...);
		return seen.result;
	}
};
static constexpr char other(char category, bool is_const) { return category == 'L' ? (is_const ? 'C' : 'L') : (is_const ? 'K' : 'R'); }
template<size_t B, size_t C> // B bound, C call arguments
static void bind() {
	live = copies = moves = 0;
	seen = {};
	uint32_t x[3];
	for (auto &v : x) v = sym<uint32_t>("argument");
	{
		A a0(x[0]), a1(x[1]), a2(x[2]);
		A *src[3] = {&a0, &a1, &a2};
		bool const rvalues = dtl_choice(2, "bound arguments are rvalues");
		auto run = [&](auto f) { // constructed in place
		CHECKM(seen.calls == 0, "binding does not call the function");
		for (size_t i = 0; i < B; ++i) CHECKM(src[i]->valid == !rvalues && (rvalues || src[i]->v == x[i]), "lvalues are copied, rvalues are moved into the wrapper");
		CHECKM(rvalues || B == 0 || copies >= (int) B, "the wrapper has its own copies");
		if (!rvalues) for (size_t i = 0; i < B; ++i) { src[i]->v = 0; src[i]->valid = true; } // no effect on the wrapper
		int const before = copies + moves;
		char self = 'L';
		uint32_t *res = nullptr;
		for (int round = 0; round < 2; ++round) {
			uint32_t const which = dtl_choice(4, "wrapper");
			auto with = [&](auto &&...call) {
				switch (which) {
					case 0: self = 'L'; res = &f(std::forward<decltype(call)>(call)...); break;
					case 1: self = 'C'; res = &std::as_const(f)(std::forward<decltype(call)>(call)...); break;
					case 2: self = 'R'; res = &std::move(f)(std::forward<decltype(call)>(call)...); break;
					default: self = 'K'; res = &std::move(std::as_const(f))(std::forward<decltype(call)>(call)...); break;
				}
			};
			uint32_t y[3];
			for (auto &v : y) v = sym<uint32_t>("argument");
			A b0(y[0]), b1(y[1]); A const b2(y[2]);
			void const *p[3] = {&b0, &b1, &b2};
			char const k[3] = {'L', 'R', 'C'};
			int const calls = seen.calls;
			if constexpr (C == 0) with();
			else if constexpr (C == 1) with(b0);
			else if constexpr (C == 2) with(b0, std::move(b1));
			else with(b0, std::move(b1), b2);
			CHECKM(seen.calls == calls + 1, "the function is called once");
			CHECKM(res == &seen.result, "the result is returned as it is");
			for (size_t i = 0; i < B; ++i) CHECKM((seen.v[i] == x[i]) && seen.kind[i] == self, "the bound arguments come first, with the category and constness of the wrapper");
			for (size_t i = 0; i < C; ++i) CHECKM((seen.v[B + i] == y[i]) && seen.kind[B + i] == k[i] && seen.p[B + i] == p[i], "the call arguments are forwarded behind them");
		}
		CHECKM(copies + moves == before, "calling copies and moves nothing");
		// copies of the wrapper are independent
		auto g = f;
		auto h = std::move(g);
		if (B > 0) { h(); CHECKM(seen.v[0] == x[0], "copies of the wrapper have the same bound arguments"); }
		};
		if constexpr (B == 0) run(dtl::bind_front<F3{}>());
		else if constexpr (B == 1) { if (rvalues) run(dtl::bind_front<F3{}>(std::move(a0))); else run(dtl::bind_front<F3{}>(a0)); }
		else if constexpr (B == 2) { if (rvalues) run(dtl::bind_front<F3{}>(std::move(a0), std::move(a1))); else run(dtl::bind_front<F3{}>(a0, a1)); }
		else { if (rvalues) run(dtl::bind_front<F3{}>(std::move(a0), std::move(a1), std::move(a2))); else run(dtl::bind_front<F3{}>(a0, a1, std::as_const(a2))); }
	}
	CHECKM(live == 0, "every argument is destroyed once");
	REACH("done");
}
HARNESS_PART(bind) {
	switch (part) {
		case 0: bind<0, 3>(); break;
		case 1: bind<1, 2>(); break;
		case 2: bind<2, 1>(); break;
		default: bind<3, 0>(); break;
	}
}
struct M {
	uint32_t x;
	uint32_t add(uint32_t y, uint32_t z) const { return x + 3 * y + 5 * z; }
	uint32_t set(uint32_t y) noexcept { return std::exchange(x, y); }
	uint32_t once(uint32_t y) && { return x ^ y; }
};
static uint32_t take(std::unique_ptr<uint32_t> p, uint32_t y) { return *p - y; }
static uint32_t &pick(uint32_t &a, uint32_t &b, bool first) noexcept { return first ? a : b; }
HARNESS(members) {
	uint32_t const x = sym<uint32_t>("x"), y = sym<uint32_t>("y"), z = sym<uint32_t>("z");
	M m{x};
	CHECKM(dtl::bind_front<&M::add>(&m)(y, z) == m.add(y, z), "member functions by pointer");
	CHECKM(dtl::bind_front<&M::add>(std::ref(m), y)(z) == m.add(y, z), "member functions by reference wrapper");
	CHECKM(dtl::bind_front<&M::add>(m, y, z)() == m.add(y, z), "member functions on a copy");
	CHECKM(dtl::bind_front<&M::once>(M{x})(y) == (x ^ y), "member functions on an rvalue");
	auto s = dtl::bind_front<&M::set>(&m);
	static_assert(std::is_nothrow_invocable_v<decltype(s), uint32_t> && !std::is_nothrow_invocable_v<decltype(dtl::bind_front<&M::add>(&m)), uint32_t, uint32_t>);
	CHECKM(s(y) == x && m.x == y && s(z) == y && m.x == z, "member functions change the object they are bound to");
	auto c = dtl::bind_front<&M::set>(M{x});
	CHECKM(c(y) == x && c(z) == y && m.x == z, "an object bound by value lives in the wrapper");
	CHECKM(dtl::bind_front<&M::x>(&m)() == z, "data members");
	dtl::bind_front<&M::x>(&m)() = x;
	CHECKM(m.x == x, "data members are referred to");
	CHECKM(dtl::bind_front<take>(std::make_unique<uint32_t>(x))(y) == x - y, "move-only bound arguments");
	uint32_t a = x, b = y;
	auto p = dtl::bind_front<pick>(std::ref(a));
	static_assert(std::is_same_v<decltype(p(b, true)), uint32_t &> && std::is_nothrow_invocable_v<decltype(p) &, uint32_t &, bool>);
	bool const first = sym<bool>("first");
	uint32_t &r = p(b, first);
	if (dtl_fork(first)) CHECKM(&r == &a, "references are returned"); else CHECKM(&r == &b, "references are returned");
	constexpr auto ce = dtl::bind_front<[](int i, int j) { return i * 10 + j; }>(4);
	static_assert(ce(2) == 42);
	REACH("done");
}
static int calls;
static void thrower(A const &a, uint32_t limit) { ++calls; if (a.v > limit) throw Err{}; }
static void by_value(A, A) { ++calls; }
static void by_value_noexcept(A, A) noexcept { ++calls; }
HARNESS(failing) {
	live = copies = calls = 0;
	uint32_t const v = sym<uint32_t>("v"), limit = sym<uint32_t>("limit");
	{
		A a(v);
		auto f = dtl::bind_front<thrower>(a);
		bool thrown = false;
		try { f(limit); } catch (Err const &) { thrown = true; }
		CHECKM(thrown == (v > limit) && calls == 1, "an exception of the function comes out");
		auto g = dtl::bind_front<by_value>(a);
		auto h = dtl::bind_front<by_value_noexcept>(a);
		static_assert(!noexcept(g(std::declval<A>())) && !noexcept(h(std::declval<A>())) && noexcept(std::move(h)(std::declval<A>())));
		copy_throws = (int) dtl_choice(3, "throwing copy");
		bool const will = copy_throws > 0;
		uint32_t const which = dtl_choice(2, "function");
		thrown = false;
		try { A const b(1); if (which == 0) g(b); else h(b); } catch (Err const &) { thrown = true; REACH("thrown"); }
		CHECKM(thrown == will && calls == (will ? 1 : 2), "a throwing copy of an argument comes out");
		copy_throws = 0;
		copy_throws = dtl_choice(2, "binding throws");
		bool const bindThrows = copy_throws > 0;
		thrown = false;
		try { auto k = dtl::bind_front<thrower>(a); (void) k; } catch (Err const &) { thrown = true; }
		CHECKM(thrown == bindThrows, "a throwing copy of a bound argument comes out");
		copy_throws = 0;
	}
	CHECKM(live == 0, "every argument is destroyed once");
	REACH("done");
}
struct B { uint32_t v; };
HARNESS(match) {
	uint32_t const v = sym<uint32_t>("value");
	using V = std::variant<uint32_t, B, std::unique_ptr<uint32_t>, char>;
	uint32_t const ix = dtl_choice(4, "alternative");
	V var = ix == 0 ? V{v} : ix == 1 ? V{B{v}} : ix == 2 ? V{std::make_unique<uint32_t>(v)} : V{(char) v};
	int called[4] = {};
	auto const fns = dtl::overloaded{
		[&](uint32_t x) { ++called[0]; return x; },
		[&](B const &b) { ++called[1]; return b.v; },
		[&](std::unique_ptr<uint32_t> const &p) { ++called[2]; return *p; },
		[&](auto c) { ++called[3]; return (uint32_t) (unsigned char) c; }};
	uint32_t const got = std::visit(fns, var);
	CHECKM(got == (ix == 3 ? (uint32_t) (unsigned char) v : v), "the overload of the alternative is called with its value");
	for (uint32_t i = 0; i < 4; ++i) CHECKM(called[i] == (i == ix), "exactly one overload is called, once");
	uint32_t const again = dtl::match(var, [&](uint32_t x) { return x + 1; }, [&](B b) { return b.v + 2; }, [&](std::unique_ptr<uint32_t> &p) { return *p + 3; }, [&](char) { return 4u; });
	CHECKM(again == (ix == 3 ? 4 : v + 1 + ix), "match calls the function of the alternative");
	// changes and references
	dtl::match(var, [](uint32_t &x) { x ^= 1; }, [](B &b) { b.v ^= 1; }, [](std::unique_ptr<uint32_t> &p) { *p ^= 1; }, [](char &c) { c ^= 1; });
	CHECKM(std::visit(fns, std::as_const(var)) == (ix == 3 ? (uint32_t) (unsigned char) ((char) v ^ 1) : (v ^ 1)), "match gives access to the value itself");
	char const cat = dtl::match(std::as_const(var), []<typename T>(T &&) { return kind<T &&>(); });
	char const cat2 = dtl::match(std::move(var), []<typename T>(T &&) { return kind<T &&>(); });
	char const cat3 = dtl::match(var, []<typename T>(T &&) { return kind<T &&>(); });
	CHECKM(cat == 'C' && cat2 == 'R' && cat3 == 'L', "match forwards the variant with its category and constness");
	// stateful and move-only visitors, results by reference
	auto own = std::make_unique<uint32_t>(v);
	auto const r1 = dtl::match(var, [own = std::move(own)](auto &) { return *own; });
	CHECKM(r1 == v, "visitors may be move-only");
	static uint32_t target;
	decltype(auto) ref = dtl::match(var, [](char) -> uint32_t & { return target; }, [](auto const &) -> uint32_t & { return target; });
	static_assert(std::is_same_v<decltype(ref), uint32_t &>);
	CHECKM(&ref == &target, "references are returned");
	bool thrown = false;
	try { dtl::match(var, [](uint32_t) { throw Err{}; }, [](auto const &) { throw B{1}; }); } catch (Err const &) { thrown = ix == 0; } catch (B const &) { thrown = ix != 0; }
	CHECKM(thrown, "the exception of the function comes out");
	// variant2
	using V2 = dtl::variant2<uint32_t, B>;
	V2 w = dtl_choice(2, "second") ? V2{std::in_place_index<1>, B{v}} : V2{std::in_place_index<0>, v};
	uint32_t const r2 = dtl::match(w, [](uint32_t x) { return x ^ 0x10; }, [](B &b) { return b.v ^ 0x20; });
	CHECKM(r2 == (v ^ (w.index() ? 0x20u : 0x10u)), "match works for variant2");
	REACH("done");
}
struct Obj {
	uint32_t base;
	uint32_t f0() { return base; }
	uint32_t f3(uint32_t a, uint32_t b, uint32_t c) const { return base + a * 3 + b * 5 + c * 7; }
	uint32_t &ref(uint32_t &x) { x += base; return x; }
	uint32_t take(std::unique_ptr<uint32_t> p) { return base ^ *p; }
	void fail(uint32_t x) { if (x == base) throw Err{}; }
	void run(uint32_t a, uint32_t b, uint32_t c) {
		CHECKM(DICE_MEMFN(f0)() == base, "the member function is called");
		uint32_t const want = f3(a, b, c);
		CHECKM(DICE_MEMFN(f3)(a, b, c) == want, "arguments are forwarded in order");
		CHECKM(DICE_MEMFN(f3, a)(b, c) == want, "given arguments come first");
		CHECKM(DICE_MEMFN(f3, a, b)(c) == want, "given arguments come first");
		CHECKM(DICE_MEMFN(f3, a, b, c)() == want, "given arguments come first");
		uint32_t x = a;
		decltype(auto) r = DICE_MEMFN(ref)(x);
		static_assert(std::is_same_v<decltype(r), uint32_t &>);
		CHECKM(&r == &x && x == a + base, "references are passed and returned");
		auto later = DICE_MEMFN(f3, x, b);
		x = c;
		CHECKM(later(a) == f3(c, b, a), "given arguments are referred to");
		CHECKM(DICE_MEMFN(take)(std::make_unique<uint32_t>(a)) == (base ^ a), "move-only arguments");
		bool thrown = false;
		try { DICE_MEMFN(fail)(a); } catch (Err const &) { thrown = true; }
		CHECKM(thrown == (a == base), "exceptions come out");
		base = b;
		CHECKM(DICE_MEMFN(f0)() == b, "the current object is used");
	}
};
HARNESS(memfn) {
	uint32_t const a = sym<uint32_t>("a"), b = sym<uint32_t>("b"), c = sym<uint32_t>("c"), o = sym<uint32_t>("object");
	Obj{o}.run(a, b, c);
	REACH("done");
}
HARNESS(likes) {
	using dtl::forward_like;
	uint32_t const x = sym<uint32_t>("x");
	A a(x); A const c(x);
	static_assert(std::is_same_v<decltype(forward_like<int &>(a)), A &> && std::is_same_v<decltype(forward_like<int const &>(a)), A const &> && std::is_same_v<decltype(forward_like<int>(a)), A &&> && std::is_same_v<decltype(forward_like<int &&>(a)), A &&> && std::is_same_v<decltype(forward_like<int const &&>(a)), A const &&> && std::is_same_v<decltype(forward_like<int const>(a)), A const &&>);
	static_assert(std::is_same_v<decltype(forward_like<int &>(c)), A const &> && std::is_same_v<decltype(forward_like<int>(c)), A const &&>);
	CHECKM(&forward_like<int &>(a) == &a && &forward_like<int const &>(a) == &a && &forward_like<int &>(c) == &c, "forward_like refers to its argument");
	A &&r = forward_like<int>(a);
	CHECKM(&r == &a && a.valid, "forward_like does not move by itself");
	A &lref = a; A const &cref = c; A &&rref = std::move(a);
	{ A t = DICE_MOVE_IF_VALUE(lref); CHECKM(t.is(x) && a.is(x), "references are not moved from"); }
	{ A t = DICE_MOVE_IF_VALUE(cref); CHECKM(t.is(x) && c.is(x), "references are not moved from"); }
	{ A t = DICE_MOVE_IF_VALUE(c); CHECKM(t.is(x) && c.is(x), "constants are not moved from"); }
	{ A t = DICE_MOVE_IF_VALUE(rref); CHECKM(t.is(x) && !a.valid, "rvalue references are moved from"); }
	{ A v(x); A t = DICE_MOVE_IF_VALUE(v); CHECKM(t.is(x) && !v.valid, "values are moved from"); }
	REACH("done");
}
