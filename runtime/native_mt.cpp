// Replay of a recorded interleaving on the real code: threads are coroutines, every synchronisation operation is a
// possible switch decided by the recorded schedule, and plain accesses (compiled with -fsanitize=thread, the hooks are
// here) are checked for data races with vector clocks. Mirrors engine.cpp's scheduler.
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <mutex>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <ucontext.h>

extern "C" void dtl_mt_fail(char const *kind, char const *msg);
extern "C" char __libc_single_threaded;

namespace {
	constexpr int MAXT = 6;
	enum St { RUN, DONE, MUTEX, RD, WR, CV, JOIN };
	struct Thr {
		ucontext_t ctx;
		St st = RUN;
		void *waitAddr = nullptr, *waitMutex = nullptr;
		int phase = 0;
		bool timed = false, woken_by_time = false;
		uint32_t vc[MAXT] = {};
		void *caught = nullptr;
		unsigned uncaught = 0;
		void (*f)(void *) = nullptr;
		void *arg = nullptr;
	};
	Thr th[MAXT];
	int nth = 1, cur = 0;
	bool active = false, multi = false, schedDone = false;
	int const *sched; size_t nsched, spos;

	void join(uint32_t *a, uint32_t const *b) { for (int i = 0; i < MAXT; ++i) if (a[i] < b[i]) a[i] = b[i]; }
	struct Mtx { void *p = nullptr; int owner = -1; int readers = 0; int depth = 0; int rd[MAXT] = {}; uint32_t rel[MAXT] = {}, rrel[MAXT] = {}; };
	Mtx mtx[64];
	Mtx &M(void *p) {
		for (auto &m : mtx) { if (m.p == p) return m; if (!m.p) { m.p = p; return m; } }
		dtl_mt_fail("internal", "too many mutexes"); abort();
	}
	struct Rel { void *p = nullptr; uint32_t vc[MAXT] = {}; bool set = false; };
	Rel rels[256];
	Rel &A(void *p) {
		for (auto &m : rels) { if (m.p == p) return m; if (!m.p) { m.p = p; return m; } }
		dtl_mt_fail("internal", "too many atomics"); abort();
	}
	void tick() { th[cur].vc[cur]++; }

	// shadow
	struct Shadow { uintptr_t a; int16_t wt, awt; uint32_t wc, awc; uint32_t r[MAXT], ar[MAXT]; };
	constexpr size_t SH = 1 << 20;
	Shadow *shadow;
	Shadow *sh(uintptr_t a, bool ins) {
		if (!shadow) shadow = (Shadow *) mmap(nullptr, SH * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		size_t h = (a * 0x9E3779B97F4A7C15ull) >> 44;
		for (size_t i = 0; i < SH; ++i) {
			Shadow &s = shadow[(h + i) & (SH - 1)];
			if (s.a == a) return &s;
			if (!s.a) { if (!ins) return nullptr; s.a = a; s.wt = s.awt = -1; return &s; }
		}
		return nullptr;
	}
	void clear(Shadow *s) { uintptr_t a = s->a; memset(s, 0, sizeof *s); s->a = a; s->wt = s->awt = -1; }
	void race(void *p, size_t n, bool write, bool atomic) {
		if (!active || !multi) return;
		auto &vc = th[cur].vc;
		auto hb = [&](int t, uint32_t c) { return t == cur || vc[t] >= c; };
		for (size_t i = 0; i < n; ++i) {
			Shadow *h = sh((uintptr_t) p + i, true);
			if (!h) return;
			bool bad = false;
			if (h->wt >= 0 && !hb(h->wt, h->wc)) bad = true;
			if (!atomic && h->awt >= 0 && !hb(h->awt, h->awc)) bad = true;
			if (write) for (int k = 0; k < MAXT; ++k) {
				if (h->r[k] && !hb(k, h->r[k])) bad = true;
				if (!atomic && h->ar[k] && !hb(k, h->ar[k])) bad = true;
			}
			if (bad) dtl_mt_fail("race", "data race");
			if (write) { if (atomic) { h->awt = (int16_t) cur; h->awc = vc[cur]; } else { h->wt = (int16_t) cur; h->wc = vc[cur]; } }
			else if (atomic) h->ar[cur] = vc[cur]; else h->r[cur] = vc[cur];
		}
	}

	bool enabled(int t, bool spur) {
		Thr &T = th[t];
		switch (T.st) {
			case RUN: return true;
			case DONE: return false;
			case MUTEX: case WR: { Mtx &m = M(T.waitAddr); return m.owner < 0 && m.readers == 0; }
			case RD: return M(T.waitAddr).owner < 0;
			case CV: if (T.phase == 2 || T.timed || spur) { Mtx &m = M(T.waitMutex); return m.owner < 0 && m.readers == 0; } return false;
			case JOIN: for (int i = 1; i < nth; ++i) if (i != t && th[i].st != DONE) return false; return true;
		}
		return false;
	}
	struct EhGlobals { void *caught; unsigned uncaught; };
	void switchTo(int t) {
		if (t == cur) return;
		auto *g = (EhGlobals *) abi::__cxa_get_globals();
		Thr &from = th[cur], &to = th[t];
		from.caught = g->caught; from.uncaught = g->uncaught;
		g->caught = to.caught; g->uncaught = to.uncaught;
		cur = t;
		swapcontext(&from.ctx, &to.ctx);
	}
	// returns when the calling thread is scheduled again
	void consult() {
		bool any = false;
		for (int t = 0; t < nth; ++t) any |= enabled(t, false);
		if (!any) dtl_mt_fail("deadlock", "no thread can make progress");
		int t = -1;
		while (spos < nsched && sched[spos] >= 100) ++spos;
		if (spos < nsched) t = sched[spos++];
		if (t < 0 || t >= nth || !enabled(t, true)) {
			t = -1;
			if (enabled(cur, false)) t = cur;
			for (int i = 0; t < 0 && i < nth; ++i) if (enabled(i, false)) t = i;
		}
		Thr &T = th[t];
		if (T.st == CV && T.phase != 2) { if (T.timed) T.woken_by_time = true; T.phase = 2; }
		T.st = RUN;
		schedDone = true;
		switchTo(t);
	}
	void enter() { if (active && multi && !schedDone) { schedDone = true; consult(); } }
	void leave() { schedDone = false; }
	void block(St st, void *addr) { th[cur].st = st; th[cur].waitAddr = addr; consult(); }

	void trampoline() {
		Thr &T = th[cur];
		T.f(T.arg);
		th[cur].st = DONE;
		tick();
		consult();
		abort();
	}
	template<typename F> F real(char const *n) { return (F) dlsym(RTLD_NEXT, n); }

	void cvWait(void *cv, void *mx, bool timed) {
		enter();
		Thr &t = th[cur];
		Mtx &m = M(mx);
		if (m.owner != cur) dtl_mt_fail("ub", "condition variable wait without owning the mutex");
		m.owner = -1;
		memcpy(m.rel, t.vc, sizeof m.rel);
		tick();
		t.phase = 1; t.st = CV; t.waitAddr = cv; t.waitMutex = mx; t.timed = timed; t.woken_by_time = false;
		consult();
		while (m.owner >= 0) { t.st = CV; consult(); }
		m.owner = cur;
		join(t.vc, m.rel);
		t.phase = 0; t.timed = false;
		leave();
	}
	void notify(void *cv, bool all) {
		enter();
		int w[MAXT], n = 0;
		for (int t = 0; t < nth; ++t) if (th[t].st == CV && th[t].phase == 1 && th[t].waitAddr == cv) w[n++] = t;
		if (all) for (int i = 0; i < n; ++i) th[w[i]].phase = 2;
		else if (n == 1) th[w[0]].phase = 2;
		else if (n > 1) {
			int pick = w[0];
			if (spos < nsched && sched[spos] >= 100) { pick = sched[spos] - 100; ++spos; }
			if (pick < 0 || pick >= nth || th[pick].st != CV) pick = w[0];
			th[pick].phase = 2;
		}
		leave();
	}
}

extern "C" {
void dtl_mt_start(int const *s, size_t n) { sched = s; nsched = n; spos = 0; active = true; th[0].vc[0] = 1; }
void dtl_mt_reset(void *p, size_t n) { if (shadow && active) for (size_t i = 0; i < n; ++i) if (Shadow *s = sh((uintptr_t) p + i, false)) clear(s); }
// exception objects come from fresh memory
void *__cxa_allocate_exception(size_t n) noexcept {
	static auto f = (void *(*)(size_t)) dlsym(RTLD_NEXT, "__cxa_allocate_exception");
	void *p = f(n);
	dtl_mt_reset(p, n);
	return p;
}
void dtl_mt_free(void *p, size_t n) { race(p, n, true, false); }
int dtl_thread(void (*f)(void *), void *arg) noexcept {
	int const id = nth++;
	if (id >= MAXT) dtl_mt_fail("internal", "too many threads");
	__libc_single_threaded = 0;
	Thr &T = th[id];
	memcpy(T.vc, th[cur].vc, sizeof T.vc);
	T.vc[id] = 1;
	T.f = f; T.arg = arg;
	getcontext(&T.ctx);
	size_t const sz = 1 << 19;
	T.ctx.uc_stack.ss_sp = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	T.ctx.uc_stack.ss_size = sz;
	T.ctx.uc_link = nullptr;
	makecontext(&T.ctx, trampoline, 0);
	tick();
	multi = true;
	return id;
}
void dtl_join_all() noexcept {
	enter();
	for (;;) {
		bool all = true;
		for (int i = 1; i < nth; ++i) all &= th[i].st == DONE;
		if (all) break;
		th[cur].st = JOIN;
		consult();
	}
	for (int i = 1; i < nth; ++i) join(th[cur].vc, th[i].vc);
	leave();
}
void dtl_yield() noexcept { enter(); leave(); }
int sched_yield() noexcept { if (active) { enter(); leave(); } return 0; }
int dtl_thread_id() noexcept { return cur; }

#define REAL(n) if (!active || !multi) { }
int pthread_mutex_lock(pthread_mutex_t *p) noexcept {
	if (!active) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock")(p);
	enter();
	Mtx &m = M(p);
	if (m.owner == cur && (p->__data.__kind & 3) == 1) { ++m.depth; leave(); return 0; }
	if (m.owner == cur) dtl_mt_fail("deadlock", "thread locks a mutex it already owns");
	while (m.owner >= 0) block(MUTEX, p);
	m.owner = cur;
	join(th[cur].vc, m.rel);
	leave();
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *p) noexcept {
	if (!active) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")(p);
	enter();
	Mtx &m = M(p);
	if (m.owner == cur && (p->__data.__kind & 3) == 1) { ++m.depth; leave(); return 0; }
	if (m.owner == cur) dtl_mt_fail("ub", "try_lock of a mutex owned by the calling thread");
	int r = EBUSY;
	if (m.owner < 0 && !m.readers) { m.owner = cur; join(th[cur].vc, m.rel); r = 0; }
	leave();
	return r;
}
int pthread_mutex_unlock(pthread_mutex_t *p) noexcept {
	if (!active) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock")(p);
	enter();
	Mtx &m = M(p);
	if (m.owner != cur) dtl_mt_fail("ub", "unlock of a mutex not owned by the calling thread");
	if (m.depth) { --m.depth; leave(); return 0; }
	m.owner = -1;
	memcpy(m.rel, th[cur].vc, sizeof m.rel);
	tick();
	leave();
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *p) noexcept {
	if (!active) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock")(p);
	enter();
	Mtx &m = M(p);
	if (m.owner == cur) dtl_mt_fail("deadlock", "thread read-locks a lock it already owns exclusively");
	while (m.owner >= 0) block(RD, p);
	m.readers++; m.rd[cur]++;
	join(th[cur].vc, m.rel);
	leave();
	return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *p) noexcept {
	if (!active) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock")(p);
	enter();
	Mtx &m = M(p);
	int r = EBUSY;
	if (m.owner < 0) { m.readers++; m.rd[cur]++; join(th[cur].vc, m.rel); r = 0; }
	leave();
	return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *p) noexcept {
	if (!active) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock")(p);
	enter();
	Mtx &m = M(p);
	if (m.owner == cur || m.rd[cur]) dtl_mt_fail("deadlock", "thread write-locks a lock it already holds");
	while (m.owner >= 0 || m.readers) block(WR, p);
	m.owner = cur;
	join(th[cur].vc, m.rel); join(th[cur].vc, m.rrel);
	leave();
	return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *p) noexcept {
	if (!active) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock")(p);
	enter();
	Mtx &m = M(p);
	int r = EBUSY;
	if (m.owner < 0 && !m.readers) { m.owner = cur; join(th[cur].vc, m.rel); join(th[cur].vc, m.rrel); r = 0; }
	leave();
	return r;
}
int pthread_rwlock_unlock(pthread_rwlock_t *p) noexcept {
	if (!active) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock")(p);
	enter();
	Mtx &m = M(p);
	if (m.owner == cur) { m.owner = -1; memcpy(m.rel, th[cur].vc, sizeof m.rel); memset(m.rrel, 0, sizeof m.rrel); }
	else {
		if (!m.rd[cur]) dtl_mt_fail("ub", "unlock of a reader/writer lock not held by the calling thread");
		m.rd[cur]--; m.readers--;
		join(m.rrel, th[cur].vc);
	}
	tick();
	leave();
	return 0;
}
static int destroyLock(void *p) {
	if (!active) return 0;
	Mtx &m = M(p);
	if (m.owner >= 0 || m.readers) dtl_mt_fail("ub", "destruction of a locked mutex");
	void *q = m.p; m = Mtx{}; m.p = q;
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *p) noexcept { return destroyLock(p); }
int pthread_rwlock_destroy(pthread_rwlock_t *p) noexcept { return destroyLock(p); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { cvWait(c, m, false); return 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *) { cvWait(c, m, true); return th[cur].woken_by_time ? ETIMEDOUT : 0; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, timespec const *) { cvWait(c, m, true); return th[cur].woken_by_time ? ETIMEDOUT : 0; }
int pthread_cond_signal(pthread_cond_t *c) noexcept { notify(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { notify(c, true); return 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
}
// the out-of-line members of std::condition_variable
void std::condition_variable::wait(std::unique_lock<std::mutex> &l) noexcept { cvWait(this, l.mutex(), false); }
void std::condition_variable::notify_one() noexcept { notify(this, false); }
void std::condition_variable::notify_all() noexcept { notify(this, true); }

// ---- compiler hooks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
	void __tsan_read##n(void *p) { race(p, n, false, false); } \
	void __tsan_write##n(void *p) { race(p, n, true, false); } \
	void __tsan_unaligned_read##n(void *p) { race(p, n, false, false); } \
	void __tsan_unaligned_write##n(void *p) { race(p, n, true, false); } \
	void __tsan_read_write##n(void *p) { race(p, n, true, false); } \
	void __tsan_unaligned_read_write##n(void *p) { race(p, n, true, false); } \
	void __tsan_volatile_read##n(void *p) { race(p, n, false, false); } \
	void __tsan_volatile_write##n(void *p) { race(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { race(p, 8, true, false); }
void __tsan_vptr_read(void **p) { race(p, 8, false, false); }
void __tsan_read_range(void *p, size_t n) { race(p, n, false, false); }
void __tsan_write_range(void *p, size_t n) { race(p, n, true, false); }
void *__tsan_memcpy(void *d, void const *s, size_t n) { race((void *) s, n, false, false); race(d, n, true, false); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, void const *s, size_t n) { race((void *) s, n, false, false); race(d, n, true, false); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { race(d, n, true, false); return memset(d, c, n); }
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; } // consume, acquire, acq_rel, seq_cst
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void pre(void *p, size_t n, bool w, int mo) {
	if (!active || !multi) return;
	race(p, n, w, true);
	if (acq(mo)) { Rel &r = A(p); if (r.set) join(th[cur].vc, r.vc); }
}
static void storeRel(void *p, int mo) {
	if (!active || !multi) return;
	Rel &r = A(p);
	if (rel(mo)) { memcpy(r.vc, th[cur].vc, sizeof r.vc); r.set = true; tick(); }
	else { memset(r.vc, 0, sizeof r.vc); r.set = false; }
}
static void rmwRel(void *p, int mo) {
	if (!active || !multi) return;
	if (rel(mo)) { Rel &r = A(p); join(r.vc, th[cur].vc); r.set = true; tick(); }
}
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(T const volatile *p, int mo) { enter(); pre((void *) p, sizeof(T), false, mo); T v = *p; leave(); return v; } \
	void __tsan_atomic##bits##_store(T volatile *p, T v, int mo) { enter(); pre((void *) p, sizeof(T), true, 0); storeRel((void *) p, mo); *p = v; leave(); } \
	T __tsan_atomic##bits##_exchange(T volatile *p, T v, int mo) { enter(); pre((void *) p, sizeof(T), true, mo); rmwRel((void *) p, mo); T o = *p; *p = v; leave(); return o; } \
	T __tsan_atomic##bits##_fetch_add(T volatile *p, T v, int mo) { enter(); pre((void *) p, sizeof(T), true, mo); rmwRel((void *) p, mo); T o = *p; *p = (T) (o + v); leave(); return o; } \
	T __tsan_atomic##bits##_fetch_sub(T volatile *p, T v, int mo) { enter(); pre((void *) p, sizeof(T), true, mo); rmwRel((void *) p, mo); T o = *p; *p = (T) (o - v); leave(); return o; } \
	T __tsan_atomic##bits##_fetch_and(T volatile *p, T v, int mo) { enter(); pre((void *) p, sizeof(T), true, mo); rmwRel((void *) p, mo); T o = *p; *p = (T) (o & v); leave(); return o; } \
	T __tsan_atomic##bits##_fetch_or(T volatile *p, T v, int mo) { enter(); pre((void *) p, sizeof(T), true, mo); rmwRel((void *) p, mo); T o = *p; *p = (T) (o | v); leave(); return o; } \
	T __tsan_atomic##bits##_fetch_xor(T volatile *p, T v, int mo) { enter(); pre((void *) p, sizeof(T), true, mo); rmwRel((void *) p, mo); T o = *p; *p = (T) (o ^ v); leave(); return o; } \
	T __tsan_atomic##bits##_fetch_nand(T volatile *p, T v, int mo) { enter(); pre((void *) p, sizeof(T), true, mo); rmwRel((void *) p, mo); T o = *p; *p = (T) ~(o & v); leave(); return o; } \
	static T cas##bits(T volatile *p, T c, T v, int mo, int fmo) { \
		enter(); T o = *p; bool eq = o == c; \
		pre((void *) p, sizeof(T), eq, eq ? mo : fmo); if (eq) { rmwRel((void *) p, mo); *p = v; } \
		leave(); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(T volatile *p, T *c, T v, int mo, int fmo) { T o = cas##bits(p, *c, v, mo, fmo); bool eq = o == *c; *c = o; return eq; } \
	int __tsan_atomic##bits##_compare_exchange_weak(T volatile *p, T *c, T v, int mo, int fmo) { T o = cas##bits(p, *c, v, mo, fmo); bool eq = o == *c; *c = o; return eq; } \
	T __tsan_atomic##bits##_compare_exchange_val(T volatile *p, T c, T v, int mo, int fmo) { return cas##bits(p, c, v, mo, fmo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
