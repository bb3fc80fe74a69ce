// mutex, shared_mutex: guards, sequential histories over instrumented lock types.
// @bound two mutexes with symbolic values, two exclusive (and two shared) guard slots, every history of 4 (shared: 3; thorough: 5 and 4) operations out of lock, try_lock, lock_shared, try_lock_shared, move construction, move assignment, swap, write, drop; the underlying lock may throw
// @parts excl_ 4
// @parts shared_ 7
// @reach excl_ locked refused threw moved assigned swapped dropped
// @reach shared_ locked refused threw moved assigned swapped dropped slocked srefused
// @reach construct_ ok threw
// @reach recursive_ ok
#include "sym.hpp"
#include "tracked.hpp"
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>
#include <system_error>
#include <optional>

namespace dtl = dice::template_library;

struct lock_error {};
static bool lock_fails;
static int mutexes;
struct Probe;
static Probe *probe[4];
struct Probe { // records who holds what
	bool ex = false; int sh = 0;
	Probe() noexcept { probe[mutexes++] = this; }
	Probe(Probe const &) = delete;
	~Probe() { CHECKM((!ex) & (sh == 0), "a mutex is destroyed unlocked"); }
	void lock() { if (lock_fails) throw lock_error{}; CHECKM((!ex) & (sh == 0), "locking waits for nobody here"); ex = true; }
	bool try_lock() { if (lock_fails) throw lock_error{}; if (ex || sh) return false; return ex = true; }
	void unlock() { CHECKM(ex, "only a held lock is released"); ex = false; }
	void lock_shared() { if (lock_fails) throw lock_error{}; CHECKM(!ex, "locking waits for nobody here"); ++sh; }
	bool try_lock_shared() { if (lock_fails) throw lock_error{}; if (ex) return false; ++sh; return true; }
	void unlock_shared() { CHECKM(sh > 0, "only a held lock is released"); --sh; }
};

#ifdef THOROUGH
constexpr int OPS_EX = 5, OPS_SH = 4;
#else
constexpr int OPS_EX = 4, OPS_SH = 3;
#endif
struct V { uint32_t x; };

template<typename M, bool SHARED>
struct World {
	using G = decltype(std::declval<M &>().lock());
	template<typename MM> struct SG { using type = int; };
	static auto sguard() { if constexpr (SHARED) return std::optional<decltype(std::declval<M const &>().lock_shared())>{}; else return std::optional<G>{}; }
	using S = typename decltype(sguard())::value_type;
	M a, b;
	uint32_t val[2];
	std::optional<G> g[2];
	std::optional<S> s[2];
	int own[2] = {-1, -1}, at[2]; // the mutex a guard holds, the mutex it points to (also when moved from)
	int sown[2] = {-1, -1}, sat[2];
	M &m(int i) { return i ? b : a; }
	World(uint32_t x, uint32_t y) : a{V{x}}, b{std::in_place, V{y}}, val{x, y} {}
	bool exHeld(int i) const { return own[0] == i || own[1] == i; }
	int shHeld(int i) const { return (sown[0] == i) + (sown[1] == i); }
	void check() {
		for (int i = 0; i < 2; ++i) {
			CHECKM(probe[i]->ex == exHeld(i), "a mutex is exclusively locked exactly while a guard holds it");
			CHECKM(probe[i]->sh == shHeld(i), "a mutex is locked for sharing exactly while guards hold it");
			if (own[i] >= 0) CHECKM(((**g[i]).x == val[own[i]]) & ((*g[i])->x == val[own[i]]), "a guard gives access to the value of the mutex it holds");
			if constexpr (SHARED) if (sown[i] >= 0) CHECKM(((**s[i]).x == val[sown[i]]) & ((*s[i])->x == val[sown[i]]), "a guard gives access to the value of the mutex it holds");
		}
	}
	template<bool EX, typename Slot>
	void lockOp(Slot &slot, int *o, int j, int i, bool tr) {
		if (slot[j].has_value()) dtl_kill();
		bool const busy = EX ? exHeld(i) || shHeld(i) : exHeld(i);
		lock_fails = dtl_choice(2, "lock_fails");
		if (!tr && busy && !lock_fails) dtl_kill(); // would wait forever
		bool threw = false;
		try {
			if (tr) {
				if constexpr (EX) { auto t = m(i).try_lock(); CHECKM(t.has_value() == !busy, "try_lock succeeds exactly if the mutex is free"); if (t.has_value()) { slot[j].emplace(std::move(*t)); } }
				else { M const &c = m(i); auto t = c.try_lock_shared(); CHECKM(t.has_value() == !busy, "try_lock_shared succeeds exactly if nobody holds it exclusively"); if (t.has_value()) { slot[j].emplace(std::move(*t)); } }
			} else {
				if constexpr (EX) slot[j].emplace(m(i).lock());
				else { M const &c = m(i); slot[j].emplace(c.lock_shared()); }
			}
		} catch (lock_error const &) { threw = true; }
		CHECKM(threw == lock_fails, "the lock's exception comes out");
		lock_fails = false;
		if (slot[j].has_value()) { o[j] = i; if (EX) REACH("locked"); else REACH("slocked"); }
		else if (threw) REACH("threw");
		else if (EX) REACH("refused"); else REACH("srefused");
	}
	template<typename Slot>
	void guardOp(Slot &slot, int *o, unsigned op, int j) {
		int const k = 1 - j;
		if (!slot[j].has_value()) dtl_kill();
		switch (op) {
			case 0: if (slot[k].has_value()) dtl_kill(); slot[k].emplace(std::move(*slot[j])); o[k] = o[j]; o[j] = -1; REACH("moved"); break;
			case 1: if (!slot[k].has_value()) dtl_kill(); *slot[k] = std::move(*slot[j]); o[k] = o[j]; o[j] = -1; REACH("assigned"); break;
			case 2: { if (!slot[k].has_value()) dtl_kill(); using std::swap; swap(*slot[j], *slot[k]); int const t = o[j]; o[j] = o[k]; o[k] = t; REACH("swapped"); break; }
			case 3: slot[j].reset(); o[j] = -1; REACH("dropped"); break;
		}
	}
	void step(unsigned kind, int part) { // kind: 0 lock 1 try_lock 2 guard operation 3 write; shared ones from 4
		int const j = (int) dtl_choice(2, "slot");
		if (kind == 0 || kind == 1) { int const i = (int) dtl_choice(2, "mutex"); lockOp<true>(g, own, j, i, kind == 1); }
		else if (kind == 2) { unsigned const op = dtl_choice(4, "op"); guardOp(g, own, op, j); }
		else if (kind == 3) { if (own[j] < 0) dtl_kill(); uint32_t const x = sym<uint32_t>("x"); if (j) (*g[j])->x = x; else **g[j] = V{x}; val[own[j]] = x; }
		if constexpr (SHARED) {
			if (kind == 4 || kind == 5) { int const i = (int) dtl_choice(2, "mutex"); lockOp<false>(s, sown, j, i, kind == 5); }
			else if (kind == 6) { unsigned const op = dtl_choice(4, "op"); guardOp(s, sown, op, j); }
			else if (kind == 7) dtl_kill();
		}
		check();
	}
};
template<typename M, bool SHARED>
static void history(unsigned part, int ops) {
	mutexes = 0; lock_fails = false;
	uint32_t const x = sym<uint32_t>("x0"), y = sym<uint32_t>("x1");
	World<M, SHARED> w{x, y};
	w.check();
	for (int k = 0; k < ops; ++k) {
			unsigned const kind = k == 1 ? part : dtl_choice(SHARED ? 7 : 4, "kind");
		w.step(kind, (int) part);
	}
	for (int j = 0; j < 2; ++j) { w.g[j].reset(); w.own[j] = -1; if constexpr (SHARED) { w.s[j].reset(); w.sown[j] = -1; } }
	w.check();
	auto t = w.a.try_lock();
	CHECKM(t.has_value(), "dropping a guard releases its mutex");
	OBS((*t)->x);
}
HARNESS_PART(excl_) { history<dtl::mutex<V, Probe>, false>((unsigned) part, OPS_EX); }
HARNESS_PART(shared_) { history<dtl::shared_mutex<V, Probe>, true>((unsigned) part, OPS_SH); }
// a shared_mutex used exclusively only, and a mutex over a lock that could be shared
HARNESS(excl_shared_mutex) { unsigned const p = dtl_choice(4, "second"); history<dtl::shared_mutex<V, Probe>, false>(p, OPS_EX - 1); }

// construction of the value, standard lock types
struct Boom {};
struct Val {
	int x; bool moved = false;
	static inline int alive;
	static inline bool fail;
	Val() : x{0} { ++alive; }
	explicit Val(int a, int b) : x{a + b} { if (fail) throw Boom{}; ++alive; }
	Val(Val const &o) : x{o.x} { if (fail) throw Boom{}; ++alive; }
	Val(Val &&o) : x{o.x} { if (fail) throw Boom{}; o.moved = true; ++alive; }
	~Val() { --alive; }
};
template<template<typename, typename> typename M, typename L>
static void construct() {
	using X = M<Val, L>;
	int const v = sym_range<int>(-1000, 1000, "v"), w = sym_range<int>(-1000, 1000, "w");
	unsigned const how = dtl_choice(4, "how");
	Val::alive = 0; Val::fail = false;
	bool threw = false;
	{
		Val src{v, w};
		Val::fail = how != 0 && dtl_choice(2, "fail");
		try {
			auto use = [&](X &m, int want) {
				{ auto g = m.lock(); CHECKM(g->x == want, "the mutex holds the value it was constructed from"); g->x = v - w; static_assert(std::is_same_v<typename decltype(g)::mutex_type, L>); static_assert(std::is_same_v<decltype(*g), Val &>); }
				{ auto g = m.try_lock(); CHECKM(g.has_value() && (**g).x == v - w, "a write through a guard is kept"); }
				if constexpr (requires { m.lock_shared(); }) {
					X const &c = m;
					auto g1 = c.lock_shared();
					auto g2 = c.try_lock_shared();
					CHECKM(g1->x == v - w && g2.has_value() && (*g2)->x == v - w, "readers share the value");
					static_assert(std::is_same_v<decltype(*g1), Val const &>);
					static_assert(std::is_same_v<typename decltype(g1)::mutex_type, L>);
					CHECKM(&*g1 == &**g2, "readers share the value");
					CHECKM(!m.try_lock().has_value(), "a reader keeps writers out");
				}
			};
			if (how == 0) { X m; use(m, 0); }
			else if (how == 1) { X m{src}; CHECKM(!src.moved, "copying leaves the source alone"); Val::fail = false; use(m, v + w); }
			else if (how == 2) { X m{std::move(src)}; CHECKM(src.moved, "an rvalue is moved in"); Val::fail = false; use(m, v + w); }
			else { X m{std::in_place, w, v}; Val::fail = false; use(m, v + w); }
		} catch (Boom const &) { threw = true; REACH("threw"); }
		CHECKM(threw == Val::fail, "the value's exception comes out");
		CHECKM(Val::alive == 1, "the value dies with its mutex");
	}
	static_assert(!std::is_copy_constructible_v<X> && !std::is_move_constructible_v<X> && !std::is_copy_assignable_v<X> && !std::is_move_assignable_v<X>);
	REACH("ok");
	OBS(threw);
}
HARNESS(construct_) {
	unsigned const t = dtl_choice(6, "type");
	if (t == 0) construct<dtl::mutex, std::mutex>();
	else if (t == 1) construct<dtl::mutex, std::shared_mutex>();
	else if (t == 2) construct<dtl::mutex, Probe>();
	else if (t == 3) construct<dtl::shared_mutex, std::shared_mutex>();
	else if (t == 4) construct<dtl::shared_mutex, std::shared_timed_mutex>();
	else construct<dtl::shared_mutex, Probe>();
}
// a recursive lock type: the same thread may hold several guards
HARNESS(recursive_) {
	uint32_t const x = sym<uint32_t>("x"), y = sym<uint32_t>("y");
	dtl::mutex<uint32_t, std::recursive_mutex> m{x};
	auto a = m.lock();
	auto b = m.try_lock();
	CHECKM(b.has_value() && **b == x, "a recursive mutex can be locked again");
	**b = y;
	CHECKM(*a == y && &*a == &**b, "guards of one mutex share the value");
	dtl::mutex<uint32_t> d{};
	REACH("ok");
	CHECKM(*d.lock() == 0, "a default constructed mutex holds a value-initialised value");
	dtl::shared_mutex<uint32_t> e{};
	CHECKM(*e.lock() == 0, "a default constructed mutex holds a value-initialised value");
	CHECKM(*e.lock_shared() == 0, "a default constructed mutex holds a value-initialised value");
}
