// inplace_polymorphic
// @bound two objects in every start state (each type, valueless), every history of 2 (thorough: 3) operations out of default/in-place construction, copy/move construction, copy/move assignment, self copy assignment, emplacement; any constructor, copy_to or move_to may throw; types aligned to 8, 32 and 64 bytes in every order; bases with throwing and non-throwing copy_to/move_to, without them, and with trivially destructible types; symbolic values
// @parts throwing_ 7
// @parts nothrow_ 7
// @parts fixed_ 3
// @parts trivial_ 7
// @reach throwing_ done threw valueless first second third
// @reach nothrow_ done threw valueless first second third
// @reach fixed_ done threw valueless first second third
// @reach trivial_ done threw valueless first second third
#include "tracked.hpp"
#include <dice/template-library/inplace_polymorphic.hpp>

namespace dtl = dice::template_library;

struct Throwing { // both may throw
	Throwing() noexcept = default;
	virtual ~Throwing() = default;
	virtual int kind() const = 0;
	virtual uint32_t value() const = 0;
	virtual void set(uint32_t) = 0;
	virtual void copy_to(Throwing *dst) const = 0;
	virtual void move_to(Throwing *dst) = 0;
	static constexpr bool can_throw = true, copyable = true, tracked = true;
};
struct Nothrow {
	Nothrow() noexcept = default;
	virtual ~Nothrow() = default;
	virtual int kind() const = 0;
	virtual uint32_t value() const = 0;
	virtual void set(uint32_t) = 0;
	virtual void copy_to(Nothrow *dst) const noexcept = 0;
	virtual void move_to(Nothrow *dst) noexcept = 0;
	static constexpr bool can_throw = false, copyable = true, tracked = true;
};
struct Fixed { // neither copyable nor movable
	Fixed() noexcept = default;
	virtual ~Fixed() = default;
	virtual int kind() const = 0;
	virtual uint32_t value() const = 0;
	virtual void set(uint32_t) = 0;
	static constexpr bool can_throw = true, copyable = false, tracked = true;
};
struct Trivial { // no virtual destructor
	Trivial() noexcept = default;
	virtual int kind() const = 0;
	virtual uint32_t value() const = 0;
	virtual void set(uint32_t) = 0;
	virtual void copy_to(Trivial *dst) const = 0;
	virtual void move_to(Trivial *dst) = 0;
	static constexpr bool can_throw = true, copyable = true, tracked = false;
};
template<int K, bool Tracked, bool Thr>
struct Pay {
	uint32_t v;
	uint64_t big[K == 1 ? 5 : 1]; // the second type is larger
	void fill() noexcept { for (auto &x : big) x = v + uint64_t{0x1234500000000}; }
	void born() noexcept { fill(); if constexpr (Tracked) trk::born(this, K); }
	void use() const { if constexpr (Tracked) trk::use(this, K); }
	Pay() noexcept(!Thr) : v{77} { if constexpr (Thr) trk::may_throw(); born(); }
	explicit Pay(uint32_t x) noexcept : v{x} { born(); }
	Pay(uint32_t x, boom) : v{x} { trk::may_throw(); born(); }
	Pay(Pay const &o) noexcept(!Thr) : v{o.v} { o.use(); if constexpr (Thr) trk::may_throw(); born(); }
	Pay(Pay &&o) noexcept(!Thr) : v{o.v} { o.use(); if constexpr (Thr) trk::may_throw(); o.v = moved_from; o.fill(); born(); }
	~Pay() requires (Tracked) { trk::died(this, K); }
	~Pay() = default;
	uint32_t get() const { use(); bool ok = true; for (auto x : big) ok = ok & (x == v + uint64_t{0x1234500000000}); CHECKM(ok, "the whole object is kept"); return v; }
	void set(uint32_t x) { use(); v = x; fill(); }
};
#define COMMON(NAME, BASE, TR, TH, NX) \
	Pay<K, TR, TH> d; \
	NAME() noexcept(NX) = default; \
	explicit NAME(uint32_t x) noexcept : d{x} {} \
	NAME(uint32_t x, boom b) : d{x, b} {} \
	int kind() const override { d.use(); return K; } \
	uint32_t value() const override { return d.get(); } \
	void set(uint32_t x) override { d.set(x); }
#define COPIES(NAME, BASE, NX) \
	NAME(NAME const &o) noexcept(NX) : BASE{o}, d{o.d} {} \
	NAME(NAME &&o) noexcept(NX) : BASE{std::move(o)}, d{std::move(o.d)} {} \
	void copy_to(BASE *dst) const noexcept(NX) override { new ((void *) dst) NAME{*this}; } \
	void move_to(BASE *dst) noexcept(NX) override { new ((void *) dst) NAME{std::move(*this)}; }
template<int K> struct DT final : Throwing { COMMON(DT, Throwing, true, true, false) COPIES(DT, Throwing, false) };
template<int K> struct DN final : Nothrow { COMMON(DN, Nothrow, true, false, true) COPIES(DN, Nothrow, true) };
template<int K> struct DF final : Fixed { COMMON(DF, Fixed, true, true, false) DF(DF const &) = delete; };
template<int K> struct DV final : Trivial { COMMON(DV, Trivial, false, true, false) COPIES(DV, Trivial, false) };
static_assert(std::is_trivially_destructible_v<DV<0>> && !std::is_trivially_destructible_v<DT<0>>);

struct M { int st; uint32_t v; bool operator==(M const &) const = default; }; // st 3: valueless

template<typename B, template<int> typename T>
struct World {
	using P = dtl::inplace_polymorphic<B, T<0>, T<1>, T<2>>;
	static void check(P &p, M m) {
		P const &c = p;
		CHECKM((p.valueless_by_exception() == (m.st == 3)) & (c.valueless_by_exception() == (m.st == 3)), "valueless exactly after a throwing construction");
		int threw = 0;
		B *b = nullptr; B const *cb = nullptr;
		try { b = &p.get(); } catch (std::bad_variant_access const &) { threw |= 1; }
		try { cb = &c.get(); } catch (std::bad_variant_access const &) { threw |= 2; }
		try { CHECKM(&*p == b, "all accessors give the same object"); } catch (std::bad_variant_access const &) { threw |= 4; }
		try { CHECKM(&*c == b, "all accessors give the same object"); } catch (std::bad_variant_access const &) { threw |= 8; }
		try { CHECKM(p.operator->() == b, "all accessors give the same object"); } catch (std::bad_variant_access const &) { threw |= 16; }
		try { CHECKM(c.operator->() == b, "all accessors give the same object"); } catch (std::bad_variant_access const &) { threw |= 32; }
		CHECKM(threw == (m.st == 3 ? 63 : 0), "exactly the accesses to a valueless object throw");
		if (m.st == 3) { REACH("valueless"); return; }
		CHECKM(b == cb, "all accessors give the same object");
		CHECKM(((char *) b >= (char *) &p) & ((char *) b < (char *) (&p + 1)) & ((uintptr_t) b % alignof(T<1>) == 0), "the value lives inside, aligned");
		CHECKM(b->kind() == m.st, "virtual calls reach the stored type");
		CHECKM(c->value() == m.v, "the stored value is kept");
		if (m.st == 0) REACH("first"); else if (m.st == 1) REACH("second"); else REACH("third");
	}
	template<typename F>
	static bool armed(F &&f) {
		trk::budget = 1; trk::thrown = false;
		bool threw = false;
		try { f(); } catch (boom const &) { threw = true; CHECKM(trk::thrown, "only the element's own exception comes out"); REACH("threw"); }
		trk::budget = 0;
		CHECKM(threw == trk::thrown, "an element's exception comes out");
		return threw;
	}
	static M moved(M m) { if (m.st != 3) m.v = moved_from; return m; }
	static M pick(P &p, char const *n) {
		M m{(int) dtl_choice(4, n), sym<uint32_t>("payload")};
		if (m.st == 0) p.template emplace<T<0>>(m.v);
		else if (m.st == 1) p.template emplace<T<1>>(m.v);
		else if (m.st == 2) p.template emplace<T<2>>(m.v);
		else {
			if (!armed([&] { p.template emplace<T<1>>(1u, boom{}); })) dtl_kill();
			m.v = 0;
		}
		return m;
	}
	static void op(P &a, M &ma, P &b, M &mb, unsigned kind) {
		switch (kind) {
			case 0: {
				unsigned const t = dtl_choice(3, "type");
				uint32_t const x = sym<uint32_t>("x");
				bool const may = dtl_choice(2, "may_throw");
				bool const threw = armed([&] {
					if (t == 0) { if (may) a.template emplace<T<0>>(x, boom{}); else a.template emplace<T<0>>(x); }
					else if (t == 1) { if (may) a.template emplace<T<1>>(x, boom{}); else a.template emplace<T<1>>(x); }
					else { if (may) a.template emplace<T<2>>(x, boom{}); else a.template emplace<T<2>>(x); }
				});
				ma = threw ? M{3, 0} : M{(int) t, x};
				break;
			}
			case 1: {
				unsigned const t = dtl_choice(3, "type");
				armed([&] {
					uint32_t const x = sym<uint32_t>("x");
					if (t == 0) { P p{std::in_place_type<T<0>>, x, boom{}}; check(p, {0, x}); p->set(x + 1); check(p, {0, x + 1}); }
					else if (t == 1) { P p{std::in_place_type<T<1>>, x}; check(p, {1, x}); (*p).set(x + 1); check(p, {1, x + 1}); }
					else { P p; check(p, {0, 77}); p.get().set(x); check(p, {0, x}); }
				});
				break;
			}
			case 2: if (ma.st == 3) dtl_kill(); { uint32_t const x = sym<uint32_t>("x"); a->set(x); ma.v = x; } break;
		}
		if constexpr (requires { a = b; }) switch (kind) {
			case 3: if (armed([&] { a = b; })) ma = {3, 0}; else ma = mb; break;
			case 4: if (armed([&] { a = std::move(b); })) ma = {3, 0}; else { ma = mb; mb = moved(mb); } break;
			case 5: armed([&] { P c{a}; check(c, ma); }); armed([&] { P c{std::move(a)}; check(c, ma); ma = moved(ma); }); break;
			case 6: { P const &self = a; CHECKM(!armed([&] { a = self; }), "self assignment does nothing"); break; }
		}
	}
	static void run(unsigned part, unsigned kinds) {
		{
			P a{std::in_place_type<T<2>>, 1u}, b{std::in_place_type<T<0>>, 2u};
			M ma = pick(a, "a"), mb = pick(b, "b");
#ifdef THOROUGH
			int const ops = 3;
#else
			int const ops = 2;
#endif
			for (int k = 0; k < ops; ++k) {
				unsigned const kind = k == 0 ? part : dtl_choice(kinds, "op");
				if (k % 2 == 0) op(a, ma, b, mb, kind); else { bool const sw = dtl_choice(2, "target"); if (sw) op(b, mb, a, ma, kind); else op(a, ma, b, mb, kind); }
				check(a, ma); check(b, mb);
				OBS(ma.st); OBS(ma.v); OBS(mb.st);
			}
			REACH("done");
		}
		CHECKM(trk::live == 0, "every value is destroyed exactly once");
	}
};
HARNESS_PART(throwing_) { World<Throwing, DT>::run((unsigned) part, 7); }
HARNESS_PART(nothrow_) { World<Nothrow, DN>::run((unsigned) part, 7); }
HARNESS_PART(fixed_) { World<Fixed, DF>::run((unsigned) part, 3); }
HARNESS_PART(trivial_) { World<Trivial, DV>::run((unsigned) part, 7); }

// exception specifications follow the base's functions
HARNESS(specs) {
	using PT = World<Throwing, DT>::P; using PN = World<Nothrow, DN>::P; using PF = World<Fixed, DF>::P;
	CHECKM(!std::is_nothrow_copy_constructible_v<PT> & !std::is_nothrow_move_assignable_v<PT> & !std::is_nothrow_copy_assignable_v<PT> & !std::is_nothrow_move_constructible_v<PT>, "copies of throwing types may throw");
	CHECKM(std::is_copy_constructible_v<PN> & std::is_move_assignable_v<PN> & !std::is_copy_constructible_v<PF> & !std::is_move_constructible_v<PF> & !std::is_copy_assignable_v<PF> & !std::is_move_assignable_v<PF>, "copyable exactly with copy_to, movable exactly with move_to");
	OBS(sym<bool>("x"));
}

// a type whose Base is not its first base class
struct Other { uint64_t o = 3; virtual ~Other() = default; virtual int other() const { return 99; } };
struct Second final : Other, Throwing {
	uint32_t v;
	explicit Second(uint32_t x) : v{x} {}
	int kind() const override { return 1; }
	uint32_t value() const override { return v; }
	void set(uint32_t x) override { v = x; }
	void copy_to(Throwing *dst) const override { new ((void *) dst) Second{*this}; }
	void move_to(Throwing *dst) override { new ((void *) dst) Second{*this}; }
};
HARNESS(base_not_first) {
	uint32_t const x = sym<uint32_t>("x");
	dtl::inplace_polymorphic<Throwing, DT<0>, Second> p{std::in_place_type<Second>, x};
	CHECKM(p->kind() == 1, "virtual calls reach the stored type, wherever its Base is");
	CHECKM(p->value() == x, "the stored value is kept, wherever its Base is");
	OBS(x);
}

// over-aligned types among normal ones, at every position of the list
template<int K, size_t A>
struct alignas(A) Wide final : Nothrow {
	uint32_t v;
	unsigned char pad[K == 1 ? 100 : 1];
	explicit Wide(uint32_t x) noexcept : v{x} {}
	int kind() const override { return K; }
	uint32_t value() const override { CHECKM((uintptr_t) this % A == 0, "the value lives inside, aligned"); return v; }
	void set(uint32_t x) override { v = x; }
	void copy_to(Nothrow *dst) const noexcept override { new ((void *) dst) Wide{*this}; }
	void move_to(Nothrow *dst) noexcept override { new ((void *) dst) Wide{*this}; }
};
template<typename X, typename Y, typename Z>
static void over_aligned(unsigned which, uint32_t x) {
	using P = dtl::inplace_polymorphic<Nothrow, X, Y, Z>;
	P p[2] = {P{std::in_place_type<X>, x}, P{std::in_place_type<Y>, x}};
	if (which == 0) p[0].template emplace<X>(x + 1); else if (which == 1) p[0].template emplace<Y>(x + 1); else p[0].template emplace<Z>(x + 1);
	p[1] = p[0];
	P c{p[1]};
	CHECKM((c->value() == x + 1) & (p[0]->value() == x + 1), "the stored value is kept");
	CHECKM(c->kind() == p[0]->kind(), "the stored value is kept");
	for (P *q : {&p[0], &p[1], &c}) {
		char *const b = (char *) &q->get();
		CHECKM((b >= (char *) q) & (b + sizeof(X) <= (char *) (q + 1)), "the value lives inside, aligned");
	}
	CHECKM((alignof(P) >= alignof(X)) & (alignof(P) >= alignof(Y)) & (alignof(P) >= alignof(Z)), "the value lives inside, aligned");
	OBS(c->value());
}
HARNESS(alignment) {
	uint32_t const x = sym<uint32_t>("x");
	unsigned const which = dtl_choice(3, "type");
	using W0 = Wide<0, 64>; using W1 = Wide<1, 8>; using W2 = Wide<2, 32>;
	switch (dtl_choice(3, "order")) {
		case 0: over_aligned<W0, W1, W2>(which, x); break;
		case 1: over_aligned<W1, W2, W0>(which, x); break;
		default: over_aligned<W2, W0, W1>(which, x); break;
	}
}

// arguments of constructors are passed on as they are
struct Taker : Nothrow {
	uint32_t v; int how;
	struct Arg { uint32_t v; };
	Taker(Arg &a, Arg const &b) noexcept : v{a.v ^ b.v}, how{1} {}
	Taker(Arg &&a, Arg const &b) noexcept : v{a.v + b.v}, how{2} {}
	Taker(Arg const &a, Arg &&b) noexcept : v{a.v - b.v}, how{3} {}
	Taker(Taker const &) = default;
	int kind() const override { return how; }
	uint32_t value() const override { return v; }
	void set(uint32_t x) override { v = x; }
	void copy_to(Nothrow *dst) const noexcept override { new ((void *) dst) Taker{*this}; }
	void move_to(Nothrow *dst) noexcept override { new ((void *) dst) Taker{*this}; }
};
HARNESS(forwarding) {
	using P = dtl::inplace_polymorphic<Nothrow, Taker>;
	uint32_t const x = sym<uint32_t>("x"), y = sym<uint32_t>("y");
	Taker::Arg a{x}; Taker::Arg const b{y};
	P p{std::in_place_type<Taker>, a, b}, q{std::in_place_type<Taker>, std::move(a), b}, r{std::in_place_type<Taker>, b, std::move(a)};
	auto const check = [&] {
		CHECKM((p->kind() == 1) & (q->kind() == 2) & (r->kind() == 3), "arguments are passed on with their own category and constness");
		CHECKM((p->value() == (x ^ y)) & (q->value() == x + y) & (r->value() == y - x), "arguments are passed on in order");
	};
	check();
	p.emplace<Taker>(std::move(a), b); q.emplace<Taker>(b, std::move(a)); r.emplace<Taker>(a, b);
	P t{p}; p = r; r = q; q = t;
	check();
	OBS(p->value());
}
