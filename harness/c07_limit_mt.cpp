// MT
// limit_allocator: concurrent allocations and deallocations through one limit.
// @qbound concurrent: 2 threads with any 2 of {allocate, deallocate the last block, allocate with failing upstream}, 3 threads with one allocation or an allocation and a deallocation each; limits and element counts below 2^16 symbolic, all interleavings of the atomic operations with up to 2 preemptions
// @tbound concurrent: 2 threads with any 3 of {allocate, deallocate the last block, allocate with failing upstream}, 3 threads with an allocation followed by another one or a deallocation each; limits and element counts below 2^16 symbolic, all interleavings of the atomic operations with up to 3 preemptions
// @topt * --preempt 3
// @parts two_ 4
// @parts three_ 4
// @reach two_ ok refused upstream_failed done
// @reach three_ ok refused done
#include "sym.hpp"
#include <dice/template-library/limit_allocator.hpp>
#include <new>

namespace dtl = dice::template_library;

enum { ALLOC, DEALLOC, FAILING };
struct Ev { uint64_t t; uint64_t add, sub; };               // upstream took/gave memory
struct Op { int kind; uint64_t inv, res, n; bool ok; };     // n in bytes
static Ev ev[4][8];
static Op ops[4][6];
static int nev[4], nops[4];
#define me dtl_thread_id()
static uint64_t now() { return dtl_shared(0, 1); }

struct boom { int code = 5; }; // no standard exception
static bool failing[4]; // per thread
template<typename T>
struct Up {
	using value_type = T;
	Up() noexcept = default;
	template<typename U> Up(Up<U> const &) noexcept {}
	T *allocate(size_t n) {
		if (failing[me]) throw boom{};
		ev[me][nev[me]++] = {now(), n * sizeof(T), 0};
		return (T *) (uintptr_t) 0x1000;
	}
	void deallocate(T *, size_t n) noexcept { ev[me][nev[me]++] = {now(), 0, n * sizeof(T)}; }
	bool operator==(Up const &) const noexcept = default;
};
using A8 = dtl::limit_allocator<uint64_t, Up>;
using A1 = dtl::limit_allocator<uint8_t, Up>;

static A8 *shared8;
static int prog[4][3], len[4];
static uint64_t cnt[4][3];

static void body(void *arg) {
	int const t = (int) (intptr_t) arg;
	A8 a{*shared8};
	A1 b{a};
	uint64_t block = 0;
	bool have = false, small = false;
	for (int i = 0; i < len[t]; ++i) {
		Op &o = ops[t][nops[t]];
		if (prog[t][i] == DEALLOC) {
			if (!have) continue;
			o = {DEALLOC, now(), 0, block * (small ? 1 : 8), true};
			if (small) b.deallocate((uint8_t *) 0x1000, block); else a.deallocate((uint64_t *) 0x1000, block);
			o.res = now();
			++nops[t];
			have = false;
			continue;
		}
		failing[t] = prog[t][i] == FAILING;
		small = t == 0;
		uint64_t const n = cnt[t][i];
		o = {prog[t][i], now(), 0, n * (small ? 1 : 8), false};
		try {
			if (small) (void) b.allocate(n); else (void) a.allocate(n);
			o.ok = true; have = true; block = n;
			REACH("ok");
		} catch (boom const &) { REACH("upstream_failed"); o.kind = FAILING; } catch (std::bad_alloc const &) { o.kind = ALLOC; REACH("refused"); }
		o.res = now();
		++nops[t];
	}
}
// is there an order of the operations, compatible with real time, in which every result is explained?
// A failing upstream allocation reserves its bytes somewhere and gives them back somewhere later.
struct Lin {
	Op o[12]; int n = 0;
	bool any(uint64_t left, unsigned done, unsigned half) const {
		if (done == (1u << n) - 1) return true;
		uint64_t first = ~uint64_t{0};
		for (int i = 0; i < n; ++i) if (!(done >> i & 1) && o[i].res < first) first = o[i].res;
		bool r = false;
		for (int i = 0; i < n; ++i) {
			if ((done >> i & 1) || o[i].inv > first) continue;
			if (o[i].kind == DEALLOC) r |= any(left + o[i].n, done | 1u << i, half);
			else if (o[i].kind == FAILING) {
				if (half >> i & 1) r |= any(left + o[i].n, done | 1u << i, half);
				else r |= (o[i].n <= left) & any(left - o[i].n, done, half | 1u << i);
			} else if (o[i].ok) r |= (o[i].n <= left) & any(left - o[i].n, done | 1u << i, half);
			else r |= (o[i].n > left) & any(left, done | 1u << i, half);
		}
		return r;
	}
};
static void go(int threads) {
	uint64_t const lim = sym<uint16_t>("limit");
	for (int t = 0; t < threads; ++t) { nev[t] = nops[t] = 0; for (int i = 0; i < len[t]; ++i) cnt[t][i] = sym<uint16_t>("n"); }
	A8 a{lim};
	shared8 = &a;
	for (int t = 1; t < threads; ++t) dtl_thread(body, (void *) (intptr_t) t);
	body(nullptr);
	dtl_join_all();
	// outstanding bytes at every moment
	uint64_t out = 0;
	int at[4] = {};
	for (;;) {
		int best = -1;
		for (int t = 0; t < threads; ++t) if (at[t] < nev[t] && (best < 0 || ev[t][at[t]].t < ev[best][at[best]].t)) best = t;
		if (best < 0) break;
		Ev const &e = ev[best][at[best]++];
		out = out + e.add - e.sub;
		CHECKM(out <= lim, "outstanding bytes never exceed the limit");
	}
	Lin l;
	for (int t = 0; t < threads; ++t) for (int i = 0; i < nops[t]; ++i) l.o[l.n++] = ops[t][i];
	CHECKM(l.any(lim, 0, 0), "every request is accepted or refused according to the bytes left at that moment");
	// afterwards exactly limit - outstanding is left
	nev[0] = 0; failing[0] = false;
	A1 b{a};
	bool more = false, rest = false;
	try { (void) b.allocate(lim - out + 1); more = true; } catch (std::bad_alloc const &) {}
	try { (void) b.allocate(lim - out); rest = true; } catch (std::bad_alloc const &) {}
	CHECKM(!more & rest, "exactly the limit minus the outstanding bytes is left");
	OBS(out);
	REACH("done");
}
HARNESS_PART(two_) {
#ifdef THOROUGH
	int const L = 3;
#else
	int const L = 2;
#endif
	for (int t = 0; t < 2; ++t) {
		len[t] = L;
		prog[t][0] = (part >> t & 1) ? FAILING : ALLOC;
		for (int i = 1; i < L; ++i) prog[t][i] = (int) dtl_choice(3, "op");
		for (int i = 1; i < L; ++i) if (prog[t][i] == DEALLOC && prog[t][i - 1] != ALLOC) dtl_kill(); // nothing to release
	}
	go(2);
}
HARNESS_PART(three_) {
#ifdef THOROUGH
	for (int t = 0; t < 3; ++t) { len[t] = 2; prog[t][0] = ALLOC; prog[t][1] = t < 2 ? (part >> t & 1 ? DEALLOC : ALLOC) : DEALLOC; }
#else
	for (int t = 0; t < 3; ++t) { len[t] = t < 2 && (part >> t & 1) ? 2 : 1; prog[t][0] = ALLOC; prog[t][1] = DEALLOC; }
#endif
	go(3);
}
