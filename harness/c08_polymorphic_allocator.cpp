// polymorphic_allocator, offset_ptr_stl_allocator
// @bound alternatives: 1, 2 and 3 allocator templates, 1 and 2 of them behind offset_ptr_stl_allocator; every identity (32 bit) of the wrapped allocators and every element count (64 bit) passed through; histories of 3 (thorough: 4) operations on two allocators; every allocation may fail; vectors of up to 3 elements with every pair of alternatives
// @parts one_ 3
// @parts two_ 3
// @parts three_ 3
// @parts offset_ 3
// @parts offset_two 3
// @parts vectors_ 4
// @reach one_ done failed
// @reach two_ done failed
// @reach three_ done failed
// @reach offset_ done failed
// @reach offset_two done failed
// @reach vectors_ done
#include "sym.hpp"
#include <dice/template-library/polymorphic_allocator.hpp>
#include <new>
#include <vector>

namespace dtl = dice::template_library;

struct boom { int code = 5; }; // no standard exception
// the last request that reached a wrapped allocator
static struct { int kind; uint32_t id; uint64_t n; uint64_t size; bool alloc; void *p; int calls; } last;
static bool may_fail, failed, real_memory;
static struct { void *p; int kind; uint32_t id; uint64_t n; } live[8];
static int nlive;

template<int K, typename T>
struct Base {
	using value_type = T;
	uint32_t id = 1000 + K;
	static T *take(uint32_t id, size_t n) {
		++last.calls;
		last.kind = K; last.id = id; last.n = n; last.size = sizeof(T); last.alloc = true;
		if (may_fail && dtl_choice(2, "fails")) { failed = true; throw boom{}; }
		void *p = real_memory ? ::operator new(n * sizeof(T)) : (void *) (uintptr_t) (0x10000 + 0x100 * last.calls);
		last.p = p;
		if (real_memory) live[nlive++] = {p, K, id, n};
		return (T *) p;
	}
	static void give(uint32_t id, T *p, size_t n) {
		++last.calls;
		last.kind = K; last.id = id; last.n = n; last.size = sizeof(T); last.alloc = false; last.p = p;
		if (!real_memory) return;
		for (int i = 0; i < nlive; ++i) if (live[i].p == p) {
			CHECKM((live[i].kind == K) & (live[i].id == id) & (live[i].n == n), "memory goes back to the allocator it came from");
			live[i] = live[--nlive];
			::operator delete(p);
			return;
		}
		CHECKM(false, "memory goes back to the allocator it came from");
	}
};
#define FAMILY(NAME, K, CA, MA, SW, AE, SELECT) \
	template<typename T> \
	struct NAME : Base<K, T> { \
		using propagate_on_container_copy_assignment = std::bool_constant<CA>; \
		using propagate_on_container_move_assignment = std::bool_constant<MA>; \
		using propagate_on_container_swap = std::bool_constant<SW>; \
		using is_always_equal = std::bool_constant<AE>; \
		NAME() noexcept = default; \
		explicit NAME(uint32_t i) noexcept { this->id = i; } \
		NAME(uint32_t i, uint32_t j) noexcept { this->id = i + j; } \
		template<typename U> NAME(NAME<U> const &o) noexcept { this->id = o.id; } \
		T *allocate(size_t n) { return Base<K, T>::take(this->id, n); } \
		void deallocate(T *p, size_t n) noexcept { Base<K, T>::give(this->id, p, n); } \
		SELECT \
		bool operator==(NAME const &o) const noexcept { return this->id == o.id; } \
	};
#define SEL(NAME) NAME select_on_container_copy_construction() const { return NAME{this->id + 7}; }
FAMILY(P0, 0, true, true, true, false, )
FAMILY(P1, 1, true, true, true, false, SEL(P1))
FAMILY(P2, 2, true, true, true, false, )
FAMILY(N0, 3, false, false, false, false, SEL(N0))
FAMILY(N1, 4, true, false, false, false, )
FAMILY(N2, 5, false, true, false, false, )
FAMILY(N3, 6, false, false, true, false, )
FAMILY(AE, 7, true, true, true, true, )
FAMILY(AE2, 8, true, true, true, true, )
template<typename T> using O0_ = dtl::offset_ptr_stl_allocator<T, P0>;
template<typename T> using O1_ = dtl::offset_ptr_stl_allocator<T, P1>;

template<typename P> static void *raw(P const &p) { return (void *) std::to_address(p); }

// how the alternatives of each allocator list look
struct One { template<typename T> using PA = dtl::polymorphic_allocator<T, P1>; static constexpr int n = 1; template<typename T, int I> using Alt = P1<T>; static constexpr int kind[3] = {1}; };
struct Two { template<typename T> using PA = dtl::polymorphic_allocator<T, P0, P1>; static constexpr int n = 2; template<typename T, int I> using Alt = std::conditional_t<I == 0, P0<T>, P1<T>>; static constexpr int kind[3] = {0, 1}; };
struct Three { template<typename T> using PA = dtl::polymorphic_allocator<T, P2, P1, P0>; static constexpr int n = 3; template<typename T, int I> using Alt = std::conditional_t<I == 0, P2<T>, std::conditional_t<I == 1, P1<T>, P0<T>>>; static constexpr int kind[3] = {2, 1, 0}; };
struct Off { template<typename T> using PA = dtl::offset_ptr_stl_allocator<T, P1>; static constexpr int n = 1; template<typename T, int I> using Alt = P1<T>; static constexpr int kind[3] = {1}; };
struct OffTwo { template<typename T> using PA = dtl::polymorphic_allocator<T, O0_, O1_>; static constexpr int n = 2; template<typename T, int I> using Alt = std::conditional_t<I == 0, dtl::offset_ptr_stl_allocator<T, P0>, dtl::offset_ptr_stl_allocator<T, P1>>; static constexpr int kind[3] = {0, 1}; };
template<typename W> constexpr bool is_off = std::is_same_v<W, Off>;

struct Model { int alt; uint32_t id; };

template<typename W>
struct World {
	template<typename T> using PA = typename W::template PA<T>;
	using A = PA<uint32_t>;
	struct Odd { char c[12]; };
	using B = typename std::allocator_traits<A>::template rebind_alloc<Odd>;

	template<typename T, int I>
	static PA<T> make(unsigned how, uint32_t id) {
		using X = typename W::template Alt<T, I>;
		if constexpr (is_off<W>) {
			if (how == 0) return PA<T>{X{id}};
			if (how == 1) { X const x{id}; return PA<T>{x}; }
			if (how == 2) return PA<T>{std::in_place, id};
			return PA<T>{std::in_place, id - 5, 5u};
		} else if constexpr (std::is_same_v<W, OffTwo>) {
			if (how == 0) return PA<T>{X{std::in_place, id}};
			if (how == 1) { X const x{std::in_place, id}; return PA<T>{x}; }
			if (how == 2) return PA<T>{std::in_place_type<X>, std::in_place, id};
			return PA<T>{std::in_place_index<I>, std::in_place, id - 5, 5u};
		} else {
			if (how == 0) return PA<T>{X{id}};
			if (how == 1) { X const x{id}; return PA<T>{x}; }
			if (how == 2) return PA<T>{std::in_place_type<X>, id};
			return PA<T>{std::in_place_index<I>, id - 5, 5u};
		}
	}
	template<typename T>
	static PA<T> makeAny(Model const &m, unsigned how) {
		if constexpr (W::n == 1) return make<T, 0>(how, m.id);
		else if constexpr (W::n == 2) return m.alt == 0 ? make<T, 0>(how, m.id) : make<T, 1>(how, m.id);
		else return m.alt == 0 ? make<T, 0>(how, m.id) : m.alt == 1 ? make<T, 1>(how, m.id) : make<T, 2>(how, m.id);
	}
	template<typename T>
	static void check(PA<T> &a, Model const &m) {
		if constexpr (!is_off<W>) {
			PA<T> const &c = a;
			CHECKM((c.template holds_allocator<typename W::template Alt<T, 0>>() == (m.alt == 0)), "holds_allocator tells which alternative is held");
			if constexpr (W::n > 1) CHECKM((c.template holds_allocator<typename W::template Alt<T, 1>>() == (m.alt == 1)), "holds_allocator tells which alternative is held");
			if constexpr (W::n > 2) CHECKM((c.template holds_allocator<typename W::template Alt<T, 2>>() == (m.alt == 2)), "holds_allocator tells which alternative is held");
			if constexpr (std::is_same_v<W, Three>) CHECKM((c.template holds_allocator<P2>() == (m.alt == 0)) & (c.template holds_allocator<P1>() == (m.alt == 1)) & (c.template holds_allocator<P0>() == (m.alt == 2)), "holds_allocator tells which alternative is held");
			if constexpr (std::is_same_v<W, Two>) CHECKM((c.template holds_allocator<P0>() == (m.alt == 0)) & (c.template holds_allocator<P1>() == (m.alt == 1)), "holds_allocator tells which alternative is held");
			if constexpr (std::is_same_v<W, OffTwo>) CHECKM((c.template holds_allocator<O0_>() == (m.alt == 0)) & (c.template holds_allocator<O1_>() == (m.alt == 1)), "holds_allocator tells which alternative is held");
			if constexpr (std::is_same_v<W, One>) CHECKM(c.template holds_allocator<P1>() & !c.template holds_allocator<P0>() & !(c.template holds_allocator<P0<T>>()), "holds_allocator tells which alternative is held");
		} else CHECKM((a.upstream_allocator().id == m.id) & (std::as_const(a).upstream_allocator().id == m.id), "the wrapped allocator is accessible");
	}
	template<typename T>
	static void use(PA<T> &a, Model const &m) {
		check<T>(a, m);
		uint64_t const n = sym<uint64_t>("n");
		int const c0 = last.calls;
		failed = false; may_fail = true;
		bool threw = false;
		typename std::allocator_traits<PA<T>>::pointer p{};
		try { p = a.allocate(n); } catch (boom const &) { threw = true; REACH("failed"); }
		may_fail = false;
		CHECKM(threw == failed, "the allocator's exception comes out");
		CHECKM((last.calls == c0 + 1) & last.alloc & (last.kind == W::kind[m.alt]) & (last.id == m.id) & (last.n == n) & (last.size == sizeof(T)), "allocation goes to the held allocator");
		if (threw) return;
		CHECKM(raw(p) == last.p, "the allocator's memory is handed out");
		PA<T> copy{a};
		void *const q = last.p;
		copy.deallocate(p, n);
		CHECKM((last.calls == c0 + 2) & !last.alloc & (last.kind == W::kind[m.alt]) & (last.id == m.id) & (last.n == n) & (last.size == sizeof(T)) & (last.p == q), "deallocation goes to an equal allocator");
	}
	static void step(A &a, A &b, Model &ma, Model &mb, unsigned op) {
		switch (op) {
			case 0: { A c{a}; CHECKM(c == a && !(c != a), "a copy compares equal"); check<uint32_t>(c, ma); a = c; break; }
			case 1: { A c{std::move(a)}; check<uint32_t>(c, ma); a = std::move(c); break; }
			case 2: a = b; ma = mb; break;
			case 3: b = std::move(a); mb = ma; a = b; break; // a moved-from allocator can be assigned
			case 4: { using std::swap; swap(a, b); Model const t = ma; ma = mb; mb = t; break; }
			case 5: { // through a rebound copy
				B r{a};
				use<Odd>(r, ma);
				A back{r};
				CHECKM(back == a, "rebinding there and back compares equal");
				b = back; mb = ma;
				break;
			}
			case 6: { A const s = std::allocator_traits<A>::select_on_container_copy_construction(a); b = s; mb = ma; if (W::kind[ma.alt] == 1) mb.id += 7; break; }
			case 7: { A const &self = a; a = self; using std::swap; swap(a, a); break; }
			case 8: { A d{}; Model md{0, 1000u + (unsigned) W::kind[0]}; check<uint32_t>(d, md); b = d; mb = md; break; }
		}
	}
	static void run(unsigned part) {
		may_fail = real_memory = false; nlive = 0; last.calls = 0;
		Model ma{W::n == 1 ? 0 : (int) dtl_choice(W::n, "alternative"), sym<uint32_t>("id")};
		Model mb{(int) (W::n == 1 ? 0 : dtl_choice(W::n, "alternative")), sym<uint32_t>("id")};
		unsigned const how = dtl_choice(4, "how");
		A a = makeAny<uint32_t>(ma, how), b = makeAny<uint32_t>(mb, 3 - how);
#ifdef THOROUGH
		int const ops = 4;
#else
		int const ops = 3;
#endif
		for (int k = 0; k < ops; ++k) {
			unsigned const op = k == 0 ? part * 3 + dtl_choice(3, "op") : dtl_choice(9, "op");
			step(a, b, ma, mb, op);
			CHECKM((a == b) == ((ma.alt == mb.alt) & (ma.id == mb.id)), "allocators are equal if they hold the same alternative with equal allocators");
			CHECKM((a != b) == !((ma.alt == mb.alt) & (ma.id == mb.id)), "allocators are equal if they hold the same alternative with equal allocators");
			check<uint32_t>(a, ma); check<uint32_t>(b, mb);
		}
		use<uint32_t>(a, ma);
		use<uint32_t>(b, mb);
		OBS(last.id);
		REACH("done");
	}
};
HARNESS_PART(one_) { World<One>::run(part); }
HARNESS_PART(two_) { World<Two>::run(part); }
HARNESS_PART(three_) { World<Three>::run(part); }
HARNESS_PART(offset_) { World<Off>::run(part); }
HARNESS_PART(offset_two) { World<OffTwo>::run(part); }

// propagation: only what all alternatives propagate; types
template<typename A, bool CA, bool MA, bool SW, bool EQ>
static void traits() {
	using T = std::allocator_traits<A>;
	CHECKM((T::propagate_on_container_copy_assignment::value == CA) & (T::propagate_on_container_move_assignment::value == MA) & (T::propagate_on_container_swap::value == SW), "an allocator propagates exactly when all its alternatives do");
	CHECKM(T::is_always_equal::value == EQ, "only a single always equal alternative makes allocators always equal");
}
HARNESS(traits_) {
	traits<dtl::polymorphic_allocator<int, P0>, true, true, true, false>();
	traits<dtl::polymorphic_allocator<int, AE>, true, true, true, true>();
	traits<dtl::polymorphic_allocator<int, N0>, false, false, false, false>();
	traits<dtl::polymorphic_allocator<int, N1>, true, false, false, false>();
	traits<dtl::polymorphic_allocator<int, N2>, false, true, false, false>();
	traits<dtl::polymorphic_allocator<int, N3>, false, false, true, false>();
	traits<dtl::polymorphic_allocator<int, P0, P1>, true, true, true, false>();
	traits<dtl::polymorphic_allocator<int, P0, AE>, true, true, true, false>();
	traits<dtl::polymorphic_allocator<int, AE, AE2>, true, true, true, false>();
	traits<dtl::polymorphic_allocator<int, AE, P0>, true, true, true, false>();
	traits<dtl::polymorphic_allocator<int, P0, N1>, true, false, false, false>();
	traits<dtl::polymorphic_allocator<int, N1, P0>, true, false, false, false>();
	traits<dtl::polymorphic_allocator<int, P0, N2>, false, true, false, false>();
	traits<dtl::polymorphic_allocator<int, N3, P0>, false, false, true, false>();
	traits<dtl::polymorphic_allocator<int, P0, P1, P2>, true, true, true, false>();
	traits<dtl::polymorphic_allocator<int, P0, P1, N3>, false, false, true, false>();
	traits<dtl::polymorphic_allocator<int, N1, N2, N3>, false, false, false, false>();
	traits<dtl::offset_ptr_stl_allocator<int, P0>, true, true, true, false>();
	traits<dtl::offset_ptr_stl_allocator<int, AE>, true, true, true, true>();
	traits<dtl::offset_ptr_stl_allocator<int, N1>, true, false, false, false>();
	traits<dtl::offset_ptr_stl_allocator<int, N2>, false, true, false, false>();
	traits<dtl::offset_ptr_stl_allocator<int, N3>, false, false, true, false>();
	CHECKM((std::is_same_v<typename std::allocator_traits<dtl::polymorphic_allocator<int, O0_, O1_>>::pointer, boost::interprocess::offset_ptr<int>>), "the alternatives' pointer type is used");
	CHECKM((std::is_same_v<typename std::allocator_traits<dtl::polymorphic_allocator<int, P0, P1, P2>>::template rebind_alloc<char>, dtl::polymorphic_allocator<char, P0, P1, P2>>), "rebinding keeps the list of alternatives");
	bool const a = sym<bool>("a");
	OBS(a);
}

// containers: every block goes back to the alternative and identity it came from, whatever happens to the container
template<template<typename> typename... As>
static void vectors() {
	using A = dtl::polymorphic_allocator<uint32_t, As...>;
	using V = std::vector<uint32_t, A>;
	may_fail = false; real_memory = true; nlive = 0;
	{
		uint32_t const x = sym<uint32_t>("x"), i0 = sym<uint32_t>("id"), i1 = sym<uint32_t>("id");
		auto mk = [&](uint32_t id) -> A { if (dtl_choice(2, "alternative") == 0) return A{std::in_place_index<0>, id}; return A{std::in_place_index<sizeof...(As) - 1>, id}; };
		A const a0 = mk(i0), a1 = mk(i1);
		V v{a0}, w{a1};
		unsigned const n = dtl_choice(3, "n"), m = dtl_choice(3, "m");
		for (unsigned i = 0; i < n; ++i) v.push_back(x + i);
		for (unsigned i = 0; i < m; ++i) w.push_back(x - i);
		unsigned const op = dtl_choice(4, "op");
		if (op == 0) v = w;
		else if (op == 1) v = std::move(w);
		else if (op == 2) { if (!A::propagate_on_container_swap::value && !(a0 == a1)) dtl_kill(); v.swap(w); }
		else { V u{w}; v = std::move(u); }
		bool ok = v.size() == m;
		for (unsigned i = 0; i < m; ++i) ok = ok & (v[i] == x - i);
		CHECKM(ok, "container contents");
		v.push_back(x);
		REACH("done");
	}
	CHECKM(nlive == 0 && dtl_live() == 0, "all memory goes back");
}
HARNESS_PART(vectors_) {
	if (part == 0) vectors<P0, P1>();
	else if (part == 1) vectors<P1, N0>();
	else if (part == 2) vectors<N1, P0, N2>();
	else vectors<N3>();
}
