// MT
// mutex, shared_mutex: concurrent guards.
// @qbound concurrent: 2 threads with any two sessions each, or 3 threads with any one session (mutex: lock or try_lock; shared_mutex: also lock_shared, try_lock_shared; the value read, and written if exclusive), all interleavings with up to 3 preemptions
// @tbound concurrent: as in the quick tier, with up to 6 preemptions
// @opt * --preempt 3
// @topt * --preempt 6
// @parts mutex_ 2
// @parts shared_ 16
// @parts three_ 16
// @reach mutex_ done
// @reach shared_ done
// @reach three_ done
#include "lin.hpp"
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>

namespace dtl = dice::template_library;

enum { LOCK, TRY, SLOCK, STRY, UNLOCK, SUNLOCK };
// ret of a lock: 0 refused, else the value read; arg of LOCK, TRY: the value written
struct Spec {
	bool ex = false; int sh = 0, v = 1;
	bool apply(lin::Op const &o) {
		switch (o.kind) {
			case LOCK: case TRY:
				if (!o.ret) return o.kind == TRY && (ex || sh);
				if (ex || sh || o.ret != v) return false;
				ex = true; v = o.arg;
				return true;
			case SLOCK: case STRY:
				if (!o.ret) return o.kind == STRY && ex;
				if (ex || o.ret != v) return false;
				++sh;
				return true;
			case UNLOCK: if (!ex) return false; ex = false; return true;
			case SUNLOCK: if (!sh) return false; --sh; return true;
		}
		return false;
	}
};
struct Val { int v; uint32_t payload; };
static uint32_t payload[16];
template<typename M>
struct Run {
	static inline M *m;
	static inline int prog[4][2], len[4];
	template<typename G> static void exclusive(G &g, lin::Rec &r, int write) {
		CHECKM(g->payload == payload[g->v], "a guard gives access to the last value written");
		r.ret(g->v);
		g->v = write;
		(*g).payload = payload[write];
	}
	static void body(void *a) {
		int const t = (int) (intptr_t) a;
		for (int i = 0; i < len[t]; ++i) {
			int const k = prog[t][i], write = 2 + t * 2 + i;
			if (k == LOCK) {
				lin::Rec r{t, k, write};
				auto g = m->lock();
				exclusive(g, r, write);
				lin::Rec u{t, UNLOCK, 0};
				{ auto h = std::move(g); }
				u.ret(1);
			} else if (k == TRY) {
				lin::Rec r{t, k, write};
				auto g = m->try_lock();
				if (g.has_value()) { exclusive(*g, r, write); lin::Rec u{t, UNLOCK, 0}; g.reset(); u.ret(1); }
				else r.ret(0);
			} else if constexpr (requires { m->lock_shared(); }) {
				M const &c = *m;
				lin::Rec r{t, k, 0};
				if (k == SLOCK) {
					auto g = c.lock_shared();
					CHECKM(g->payload == payload[g->v], "a guard gives access to the last value written");
					r.ret(g->v);
					lin::Rec u{t, SUNLOCK, 0};
					{ auto h = std::move(g); }
					u.ret(1);
				} else {
					auto g = c.try_lock_shared();
					if (g.has_value()) {
						CHECKM((*g)->payload == payload[(*g)->v], "a guard gives access to the last value written");
						r.ret((*g)->v); lin::Rec u{t, SUNLOCK, 0}; g.reset(); u.ret(1);
					} else r.ret(0);
				}
			}
		}
	}
	static void go(int threads) {
		for (int i = 1; i < 8; ++i) payload[i] = sym<uint32_t>("payload");
		M x{Val{1, payload[1]}};
		m = &x;
		for (int t = 1; t < threads; ++t) dtl_thread(body, (void *) (intptr_t) t);
		body(nullptr);
		dtl_join_all();
		auto g = x.try_lock();
		CHECKM(g.has_value(), "afterwards the mutex is free");
		CHECKM(lin::linearizable(Spec{}), "the history is that of a value behind a lock");
		OBS((*g)->v); OBS((*g)->payload);
		REACH("done");
	}
};
HARNESS_PART(mutex_) {
	using R = Run<dtl::mutex<Val>>;
	int const threads = part ? 3 : 2;
	for (int t = 0; t < threads; ++t) {
		R::len[t] = part ? 1 : 2;
		for (int i = 0; i < R::len[t]; ++i) R::prog[t][i] = (int) dtl_choice(2, "op");
	}
	R::go(threads);
}
HARNESS_PART(shared_) {
	using R = Run<dtl::shared_mutex<Val>>;
	for (int t = 0; t < 2; ++t) { R::len[t] = 2; R::prog[t][0] = (int) (t ? part / 4 : part % 4); R::prog[t][1] = (int) dtl_choice(4, "op"); }
	R::go(2);
}
HARNESS_PART(three_) {
	using R = Run<dtl::shared_mutex<Val>>;
	for (int t = 0; t < 3; ++t) { R::len[t] = 1; R::prog[t][0] = t == 2 ? (int) dtl_choice(4, "op") : (int) (t ? part / 4 : part % 4); }
	R::go(3);
}
