// Element types that record their own lifetime, so that a harness can require that every object is
// constructed once, used only while alive, and destroyed once. Constructions/assignments can throw.
#pragma once
#include "sym.hpp"

struct boom {};

namespace trk {
	inline constexpr int cap = 24;
	struct slot { void const *p; int kind; };
	inline slot slots[cap]{};
	inline int live = 0;
	inline int budget = 0; // how many of the following throwing operations may throw
	inline bool thrown = false;
	inline int find(void const *p) { for (int i = 0; i < cap; ++i) if (slots[i].p == p) return i; return -1; }
	inline void born(void const *p, int kind) {
		CHECKM(find(p) < 0, "no object is constructed on top of a living one");
		int i = find(nullptr);
		if (i < 0) dtl_kill();
		slots[i] = {p, kind}; ++live;
	}
	inline void use(void const *p, int kind) {
		int i = find(p);
		CHECKM(i >= 0, "object is used only while alive");
		CHECKM(slots[i].kind == kind, "object is used with its own type");
	}
	inline void died(void const *p, int kind) {
		int i = find(p);
		CHECKM(i >= 0, "only living objects are destroyed");
		CHECKM(slots[i].kind == kind, "object is destroyed with its own type");
		slots[i] = {}; --live;
	}
	inline void may_throw() {
		if (budget > 0 && dtl_choice(2, "throws")) { --budget; thrown = true; throw boom{}; }
	}
}

enum : unsigned { F_CC = 1, F_MC = 2, F_CA = 4, F_MA = 8 }; // may throw: copy/move construct, copy/move assign
inline constexpr uint32_t moved_from = 0xdeadbeef;

template<int K, unsigned F>
struct El {
	uint32_t v;
	El() noexcept : v{0} { trk::born(this, K); }
	explicit El(uint32_t x) noexcept : v{x} { trk::born(this, K); }
	explicit El(boom) { trk::thrown = true; throw boom{}; }
	El(El const &o) noexcept(!(F & F_CC)) { trk::use(&o, K); if constexpr (F & F_CC) trk::may_throw(); v = o.v; trk::born(this, K); }
	El(El &&o) noexcept(!(F & F_MC)) { trk::use(&o, K); if constexpr (F & F_MC) trk::may_throw(); v = o.v; o.v = moved_from; trk::born(this, K); }
	El &operator=(El const &o) noexcept(!(F & F_CA)) { trk::use(this, K); trk::use(&o, K); if constexpr (F & F_CA) trk::may_throw(); v = o.v; return *this; }
	El &operator=(El &&o) noexcept(!(F & F_MA)) { trk::use(this, K); trk::use(&o, K); if constexpr (F & F_MA) trk::may_throw(); v = o.v; if (&o != this) o.v = moved_from; return *this; }
	~El() { trk::died(this, K); }
	bool operator==(El const &o) const noexcept { return v == o.v; }
};
