// defer: scope guards
// @bound programs of up to 3 (thorough: 4) nested scopes, each with guards of all three kinds before and after its action: nothing, throw, early return, nested scope, nested scope whose exception is caught, nested scope in a destructor run by unwinding; every condition a symbolic comparison; guards built from lvalues, const lvalues, rvalues and by the macros; success functions that throw
// @parts scopes 6
// @reach scopes done
// @reach outlives fail fine
// @reach objects done threw
#include "tracked.hpp"
#include <dice/template-library/defer.hpp>

namespace dtl = dice::template_library;

static uint8_t got[256], want[256];
static int ngot, nwant;
static void ev(int x) { if (ngot < 256) got[ngot++] = (uint8_t) x; }
static void ex(int x) { if (nwant < 256) want[nwant++] = (uint8_t) x; }

struct err { int from; };
#ifdef THOROUGH
constexpr int DEPTH = 4;
#else
constexpr int DEPTH = 3;
#endif
enum { NOTHING, THROW, RETURN, SCOPE, CAUGHT, UNWIND, KINDS };
struct Step { int kind; uint32_t x; bool succ_throws; };
static Step prog[DEPTH];

// 16 events per level: level * 16 + what
static void scope(int l) {
	Step const &p = prog[l];
	int const b = l * 16;
	int changed = 0;
	DICE_DEFER { ev(b + 1); };
	DICE_DEFER_TO_FAIL { ev(b + 2); };
	DICE_DEFER_TO_SUCCESS { ev(b + 3); if (changed != 1) ev(b + 15); };
	DICE_DEFER_TO_SUCCESS { if (p.succ_throws) { ev(b + 4); throw err{l + 8}; } };
	if (p.kind == THROW && p.x > 1000) throw err{l};
	if (p.kind == RETURN && p.x > 1000) { changed = 1; return; }
	if (l + 1 < DEPTH) {
		if (p.kind == SCOPE) scope(l + 1);
		else if (p.kind == CAUGHT) { try { scope(l + 1); } catch (err const &) { ev(b + 5); } }
		else if (p.kind == UNWIND) {
			try {
				struct Run { int l; int b; ~Run() { try { scope(l + 1); } catch (err const &) { ev(b + 6); } } } r{l, b};
				throw 1;
			} catch (int) { ev(b + 7); }
		}
	}
	DICE_DEFER { ev(b + 8); };
	DICE_DEFER_TO_FAIL { ev(b + 9); };
	auto late = dtl::make_scope_success_guard([&] { ev(b + 10); });
	changed = 1;
}
// the same, by the book: returns whether an exception leaves
static bool model(int l) {
	Step const &p = prog[l];
	int const b = l * 16;
	bool failed = false, late = true;
	if (p.kind == THROW && p.x > 1000) { failed = true; late = false; }
	else if (p.kind == RETURN && p.x > 1000) late = false;
	else if (l + 1 < DEPTH) {
		if (p.kind == SCOPE) { if (model(l + 1)) { failed = true; late = false; } }
		else if (p.kind == CAUGHT) { if (model(l + 1)) ex(b + 5); }
		else if (p.kind == UNWIND) { if (model(l + 1)) ex(b + 6); ex(b + 7); }
	}
	if (late) { ex(b + 10); ex(b + 8); }
	if (!failed && p.succ_throws) { ex(b + 4); failed = true; }
	if (!failed) ex(b + 3);
	else ex(b + 2);
	ex(b + 1);
	return failed;
}
HARNESS_PART(scopes) {
	ngot = nwant = 0;
	for (int l = 0; l < DEPTH; ++l) prog[l] = {l == 0 ? (int) part : (int) dtl_choice(l + 1 < DEPTH ? KINDS : SCOPE, "kind"), sym<uint32_t>("x"), (bool) dtl_choice(2, "success_throws")};
	bool left = false;
	try { scope(0); } catch (err const &) { left = true; }
	bool const w = model(0);
	CHECKM(left == w, "exceptions pass through scope guards");
	CHECKM(std::uncaught_exceptions() == 0, "no exception is left behind");
	bool same = ngot == nwant;
	for (int i = 0; i < nwant; ++i) same = same & (got[i] == want[i]);
	CHECKM(same, "exactly the guards whose condition is met run, once each, in reverse order");
	OBS(ngot);
	REACH("done");
}

// guards that are created while an exception is on its way and go away after it was handled: nothing failed in between
// unless something new is thrown
struct Maker {
	void (*&end)(void *, bool);
	void *&guard;
	int which; int *ran;
	~Maker() { // runs during unwinding
		auto fn = [r = ran] { ++*r; };
		auto const keep = [&]<typename G>(G *g) {
			guard = g;
			end = [](void *p, bool fail) {
				struct Kill { G *g; ~Kill() noexcept(false) { delete g; } };
				Kill const k{static_cast<G *>(p)};
				if (fail) throw err{9};
			};
		};
		if (which == 0) keep(new auto(dtl::make_scope_exit_guard(fn)));
		else if (which == 1) keep(new auto(dtl::make_scope_fail_guard(fn)));
		else keep(new auto(dtl::make_scope_success_guard(fn)));
	}
};
HARNESS(outlives) {
	int ran = 0; void *g = nullptr; void (*end)(void *, bool) = nullptr;
	int const which = (int) dtl_choice(3, "policy");
	bool const fail = dtl_fork(sym<uint32_t>("x") % 5 == 2);
	try { Maker m{end, g, which, &ran}; throw err{1}; } catch (err const &e) { CHECKM(e.from == 1, "the exception comes out"); }
	CHECKM((ran == 0) & (std::uncaught_exceptions() == 0), "nothing runs before the guard goes away");
	bool out = false;
	try { end(g, fail); } catch (err const &) { out = true; }
	CHECKM(out == fail, "exceptions pass through");
	if (!fail) CHECKM(ran == (which != 1), "a guard that outlives the exception it was created under has not failed");
	if (fail && which == 0) CHECKM(ran == 1, "an exit guard always runs");
	OBS(ran);
	REACH(fail ? "fail" : "fine");
}

// the guarded function is copied or moved into the guard, runs once, and is destroyed once
struct Fn {
	int *calls; El<1, F_CC | F_MC> e;
	Fn(int *c, uint32_t v) : calls{c}, e{v} {}
	void operator()() { *calls += (int) e.v; }
};
template<dtl::ScopeExitPolicy P, typename Make>
static void object(Make make, bool runs_on_success, bool runs_on_fail) {
	int calls = 0;
	bool const fails = sym<uint32_t>("x") % 3 == 0;
	unsigned const how = dtl_choice(3, "how");
	bool threw = false, built = false;
	{
		Fn f{&calls, 5};
		Fn const c{&calls, 7};
		trk::budget = 1; trk::thrown = false;
		try {
			using G = dtl::ScopeExitGuard<P, Fn>;
			if (how == 0) { auto g = make(f); static_assert(std::is_same_v<decltype(g), G>); built = true; trk::budget = 0; CHECKM(f.e.v == 5, "an lvalue is copied"); if (fails) throw err{0}; }
			else if (how == 1) { auto g = make(c); static_assert(std::is_same_v<decltype(g), G>); built = true; trk::budget = 0; if (fails) throw err{0}; }
			else { auto g = make(std::move(f)); static_assert(std::is_same_v<decltype(g), G>); built = true; trk::budget = 0; CHECKM(f.e.v == moved_from, "an rvalue is moved"); if (fails) throw err{0}; }
		} catch (err const &) { threw = true; } catch (boom const &) { REACH("threw"); CHECKM(trk::thrown, "the function's own exception comes out"); }
		trk::budget = 0;
		CHECKM(built != trk::thrown, "a guard is built unless copying the function throws");
		CHECKM(threw == (built & fails), "exceptions pass through");
		int const want = built && (fails ? runs_on_fail : runs_on_success) ? (how == 1 ? 7 : 5) : 0;
		CHECKM(calls == want, "the function runs exactly once, or not at all");
	}
	CHECKM(trk::live == 0, "the function object is destroyed exactly once");
	OBS(calls);
	REACH("done");
}
HARNESS(objects) {
	unsigned const p = dtl_choice(3, "policy");
	if (p == 0) object<dtl::ScopeExitPolicy::Always>([]<typename F>(F &&f) { return dtl::make_scope_exit_guard(std::forward<F>(f)); }, true, true);
	else if (p == 1) object<dtl::ScopeExitPolicy::OnFail>([]<typename F>(F &&f) { return dtl::make_scope_fail_guard(std::forward<F>(f)); }, false, true);
	else object<dtl::ScopeExitPolicy::OnSuccess>([]<typename F>(F &&f) { return dtl::make_scope_success_guard(std::forward<F>(f)); }, true, false);
	{ dtl::ScopeExitGuard<dtl::ScopeExitPolicy::Always, Fn> empty; dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnSuccess, void (*)()> empty2; }
	using G = dtl::ScopeExitGuard<dtl::ScopeExitPolicy::Always, Fn>;
	CHECKM(!std::is_copy_constructible_v<G> & !std::is_move_constructible_v<G> & !std::is_copy_assignable_v<G> & !std::is_move_assignable_v<G>, "a guard cannot be duplicated");
}
