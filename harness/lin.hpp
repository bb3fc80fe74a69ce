// Concurrent histories and a linearizability check against a sequential specification.
// Every thread logs into its own slots; the timestamps come from a counter outside the memory model.
#pragma once
#include "sym.hpp"

namespace lin {
	struct Op { int kind; int arg; int ret; uint64_t inv, res; };
	inline constexpr int max_ops = 14, per_thread = 10;
	inline Op log_[4][per_thread];
	inline int cnt[4];
	inline uint64_t now() noexcept { return dtl_shared(0, 1); }
	struct Rec { // logs one operation
		int t, i;
		Rec(int thread, int kind, int arg) noexcept : t{thread}, i{cnt[thread]++} { log_[t][i] = {kind, arg, 0, now(), 0}; }
		void ret(int v) noexcept { log_[t][i].ret = v; log_[t][i].res = now(); }
	};
	// Spec: bool apply(Op const &) - whether the operation can happen now with the recorded result; copyable
	template<typename Spec>
	bool search(Spec const &s, Op const *o, int n, unsigned done) {
		if (done == (1u << n) - 1) return true;
		uint64_t first = ~uint64_t{0};
		for (int i = 0; i < n; ++i) if (!(done >> i & 1) && o[i].res < first) first = o[i].res;
		for (int i = 0; i < n; ++i) {
			if ((done >> i & 1) || o[i].inv > first) continue;
			Spec c = s;
			if (c.apply(o[i]) && search(c, o, n, done | 1u << i)) return true;
		}
		return false;
	}
	template<typename Spec>
	bool linearizable(Spec const &s) {
		Op o[max_ops];
		int n = 0;
		for (int t = 0; t < 4; ++t) for (int i = 0; i < cnt[t]; ++i) { if (n == max_ops) dtl_kill(); o[n++] = log_[t][i]; }
		return search(s, o, n, 0u);
	}
}
