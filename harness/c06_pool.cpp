// pool and pool_allocator: blocks are disjoint, large enough, aligned, returned where they came from.
// @bound pool<8,24,32>: histories of 5 operations (7 in the thorough tier) over up to 3 live blocks of any size 0..48 (every size symbolic, resolved per bucket); one failing upstream allocation; in every bucket and the fallback, upstream failing up to four times in a row
// @bound pool_allocator over element types of 1, 8, 12 and 16 bytes (alignments 1, 8, 4, 16) and an over-aligned one, every element count including counts whose byte size does not fit
// @reach pool_history bucket fallback reuse free fail
// @reach alloc_u64 ok overflow
// @reach alloc_odd ok overflow
// @reach growth ok
// @reach exhausted refused retried
// @reach containers ok
#include "sym.hpp"
#include <dice/template-library/pool_allocator.hpp>
#include <new>
#include <vector>

namespace dtl = dice::template_library;

struct Blk { unsigned char *p; size_t n; uint8_t tag; size_t at; }; // the first and the at-th byte are written

static void disjoint(Blk const *b, int k, unsigned char *p, size_t n) {
	uintptr_t const a = (uintptr_t) p;
	for (int i = 0; i < k; ++i) {
		if (!b[i].p) continue;
		uintptr_t const q = (uintptr_t) b[i].p;
		CHECKM(a != q, "live blocks have different addresses");
		CHECKM((a + n <= q) | (q + b[i].n <= a), "live blocks do not overlap");
	}
}
static void fill(Blk &b, uint8_t tag) { b.tag = tag; if (b.at) { b.p[0] = tag; b.p[b.at - 1] = tag; } }
static void intact(Blk const &b) { if (b.at) CHECKM((b.p[0] == b.tag) & (b.p[b.at - 1] == b.tag), "contents stay intact while a block is live"); }

#ifdef THOROUGH
constexpr int OPS = 7;
#else
constexpr int OPS = 5;
#endif
HARNESS(pool_history) {
	Blk b[3]{};
	{
		dtl::pool<8, 24, 32> pool;
		bool freed = false;
		dtl_faults_new(1);
		for (int k = 0; k < OPS; ++k) {
			unsigned const s = dtl_choice(3, "slot");
			if (!b[s].p && s > 0 && !b[s - 1].p) dtl_kill(); // blocks are interchangeable: use the first free slot
			if (b[s].p) {
				intact(b[s]);
				pool.deallocate(b[s].p, b[s].n);
				b[s] = {};
				freed = true;
				REACH("free");
			} else {
				// sizes are symbolic within one bucket (so that every fault point is visited once per bucket)
				static constexpr size_t lo[] = {0, 9, 25, 33}, hi[] = {8, 24, 32, 48};
				unsigned const c = dtl_choice(4, "class");
				size_t const n = sym_range<uint64_t>(lo[c], hi[c], "bytes");
				void *p = nullptr;
				try { p = pool.allocate(n); } catch (std::bad_alloc const &) { REACH("fail"); continue; }
				CHECKM(p != nullptr, "allocation returns a block or throws");
				CHECKM(((uintptr_t) p) % 8 == 0, "blocks are pointer aligned");
				disjoint(b, 3, (unsigned char *) p, n);
				b[s] = {(unsigned char *) p, n, 0, lo[c]};
				fill(b[s], (uint8_t) (k + 1));
				if (n <= 32) REACH("bucket"); else REACH("fallback");
				if (freed) REACH("reuse");
			}
			for (auto const &x : b) if (x.p) intact(x);
		}
		for (auto &x : b) if (x.p) { intact(x); pool.deallocate(x.p, x.n); }
		dtl_faults_new(0);
	}
	CHECKM(dtl_live() == 0, "destroying the pool returns all memory");
}
// upstream refuses to give memory (a bucket asks twice)
HARNESS(exhausted) {
	{
		dtl::pool<8, 24, 32> pool;
		static constexpr size_t lo[] = {0, 9, 25, 33}, hi[] = {8, 24, 32, 48};
		unsigned const c = dtl_choice(4, "class");
		size_t const n = sym_range<uint64_t>(lo[c], hi[c], "bytes");
		Blk b[3]{};
		dtl_faults_new(4);
		for (int k = 0; k < 3; ++k) {
			size_t const before = dtl_live();
			void *p = nullptr;
			bool refused = false;
			try { p = pool.allocate(n); } catch (std::bad_alloc const &) { refused = true; }
			if (refused) { REACH("refused"); CHECKM(dtl_live() == before, "a refused request changes nothing"); continue; }
			CHECKM(p != nullptr, "allocation returns a block or throws");
			disjoint(b, 3, (unsigned char *) p, n);
			if (k) REACH("retried");
			b[k] = {(unsigned char *) p, n, 0, lo[c]};
			fill(b[k], (uint8_t) (k + 1));
			for (auto const &x : b) if (x.p) intact(x);
		}
		dtl_faults_new(0);
		for (auto &x : b) if (x.p) { intact(x); pool.deallocate(x.p, x.n); }
	}
	CHECKM(dtl_live() == 0, "destroying the pool returns all memory");
}
// the same through a pool_allocator
HARNESS(exhausted_alloc) {
	{
		dtl::pool_allocator<uint64_t, 8, 16> a;
		size_t const n = dtl_choice(5, "n");
		dtl_faults_new(3);
		uint64_t *p = nullptr, *q = nullptr;
		bool refused = false;
		try { p = a.allocate(n); if (n) p[n - 1] = 7; } catch (std::bad_alloc const &) { refused = true; }
		CHECKM(refused == (p == nullptr), "allocation returns a block or throws");
		dtl_faults_new(0);
		q = a.allocate(n);
		CHECKM((q != nullptr) & (p != q), "a later request succeeds");
		if (n) q[n - 1] = 9;
		if (p) { if (n) CHECKM(p[n - 1] == 7, "contents stay intact while a block is live"); a.deallocate(p, n); }
		a.deallocate(q, n);
	}
	CHECKM(dtl_live() == 0, "destroying the pool returns all memory");
}
// more allocations than one arena chunk holds
HARNESS(growth) {
	{
		dtl::pool<8, 16> pool;
		unsigned char *p[40];
		size_t const n = sym_range<uint64_t>(1, 16, "bytes");
		for (int i = 0; i < 40; ++i) {
			p[i] = (unsigned char *) pool.allocate(n);
			for (int j = 0; j < i; ++j) CHECKM((p[j] < p[i] ? (uintptr_t) p[i] - (uintptr_t) p[j] : (uintptr_t) p[j] - (uintptr_t) p[i]) >= n, "live blocks do not overlap");
			p[i][n - 1] = (uint8_t) i;
		}
		for (int i = 0; i < 40; i += 2) pool.deallocate(p[i], n);
		for (int i = 1; i < 40; i += 2) CHECKM(p[i][n - 1] == i, "contents stay intact while a block is live");
		for (int i = 0; i < 40; i += 2) {
			p[i] = (unsigned char *) pool.allocate(n);
			for (int j = 1; j < 40; j += 2) CHECKM(p[i] != p[j], "a reused block is not live");
			p[i][n - 1] = (uint8_t) i;
		}
		for (int i = 0; i < 40; ++i) CHECKM(p[i][n - 1] == i, "contents stay intact while a block is live");
		REACH("ok");
	}
	CHECKM(dtl_live() == 0, "destroying the pool returns all memory even if blocks are still out");
}
template<typename A>
static void alloc_n() {
	using T = typename A::value_type;
	{
		A a;
		size_t const n = sym<uint64_t>("n");
		size_t const limit = (size_t) -1 / sizeof(T);
		dtl_assume(n <= 6 || n > limit);
		T *p = nullptr;
		bool threw = false;
		try { p = a.allocate(n); } catch (std::bad_alloc const &) { threw = true; }
		CHECKM(threw == (n > limit), "an element count whose byte size does not fit is refused");
		if (threw) { REACH("overflow"); return; }
		REACH("ok");
		CHECKM(p != nullptr, "allocation returns a block or throws");
		if (n) CHECKM((uintptr_t) p % alignof(T) == 0, "block is aligned for the element type");
		size_t const m = sym_range<uint64_t>(1, 3, "m");
		T *q = a.allocate(m);
		CHECKM((uintptr_t) q % alignof(T) == 0, "block is aligned for the element type");
		CHECKM((uintptr_t) p + n * sizeof(T) <= (uintptr_t) q || (uintptr_t) q + m * sizeof(T) <= (uintptr_t) p, "live blocks do not overlap");
		if (n) { ((unsigned char *) (p + n))[-1] = 1; ((unsigned char *) p)[0] = 2; }
		((unsigned char *) (q + m))[-1] = 3;
		((unsigned char *) q)[0] = 4;
		T *r = a.allocate(1);
		CHECKM((uintptr_t) r % alignof(T) == 0, "block is aligned for the element type");
		a.deallocate(r, 1);
		a.deallocate(p, n);
		a.deallocate(q, m);
	}
	CHECKM(dtl_live() == 0, "all memory is returned");
}
struct Odd { uint32_t a, b, c; };
struct alignas(16) Wide { uint64_t a, b; };
struct alignas(64) Over { uint64_t a; };
HARNESS(alloc_u8) { alloc_n<dtl::pool_allocator<uint8_t, 1, 3>>(); }
HARNESS(alloc_u64) { alloc_n<dtl::pool_allocator<uint64_t, 8, 16, 40>>(); }
HARNESS(alloc_odd) { alloc_n<dtl::pool_allocator<Odd, 12, 30>>(); }
HARNESS(alloc_wide) { alloc_n<dtl::pool_allocator<Wide, 8, 24, 40>>(); }
HARNESS(alloc_wide16) { alloc_n<dtl::pool_allocator<Wide, 8, 16, 48>>(); }
HARNESS(alloc_over) { alloc_n<dtl::pool_allocator<Over, 64, 128>>(); }

// copies, rebinds and moved-from allocators share one pool, which lives as long as any of them
HARNESS(sharing) {
	{
		using A = dtl::pool_allocator<uint64_t, 8, 32>;
		using B = dtl::pool_allocator<uint16_t, 8, 32>;
		A *a = new A;
		A other;
		CHECKM(!(*a == other) && *a != other, "different pools compare unequal");
		unsigned const how = dtl_choice(6, "how");
		A c = how == 0 ? A(*a) : how == 1 ? A(std::move(*a)) : how == 2 ? A(B(*a)) : how == 3 ? a->select_on_container_copy_construction() : how == 4 ? A(a->underlying_pool()) : other;
		if (how == 5) { unsigned k = dtl_choice(3, "assign"); if (k == 0) c = *a; else if (k == 1) c = std::move(*a); else { A t = *a; swap(c, t); CHECKM(t == other, "swap exchanges the pools"); } }
		CHECKM(c == *a && !(c != *a), "copies compare equal to the original");
		CHECKM(c.underlying_pool() == a->underlying_pool() && c.underlying_pool(), "copies share the pool");
		size_t const n = sym_range<uint64_t>(1, 5, "n");
		uint64_t *p = a->allocate(n);
		p[0] = 77;
		uint64_t *q = c.allocate(n);
		CHECKM(p != q, "live blocks have different addresses");
		q[0] = 5;
		CHECKM(p[0] == 77, "contents stay intact while a block is live");
		delete a;
		CHECKM(p[0] == 77, "memory lives as long as an allocator of the pool");
		c.deallocate(p, n); // equal allocators can release each other's memory
		c.deallocate(q, n);
		CHECK(q != nullptr);
		OBS(how);
	}
	CHECKM(dtl_live() == 0, "all memory is returned");
}
HARNESS(containers) {
	{
		using V = std::vector<uint32_t, dtl::pool_allocator<uint32_t, 8, 16, 32>>;
		V v;
		uint32_t x = sym<uint32_t>("x");
		unsigned const n = dtl_choice(5, "n");
		for (unsigned i = 0; i < n; ++i) v.push_back(x + i);
		V w = std::move(v);
		v.push_back(3u); // a moved-from container is usable
		V u = w;
		u.push_back(x);
		v = std::move(u);
		u.push_back(x);
		CHECKM(u.back() == x && v.size() == n + 1 && v.back() == x, "containers work after moves");
		for (unsigned i = 0; i < n; ++i) CHECKM(w[i] == x + i && v[i] == x + i, "container contents");
		swap(u, w);
		CHECKM(w.size() == 1 && u.size() == n, "container swap");
		REACH("ok");
	}
	CHECKM(dtl_live() == 0, "all memory is returned");
}
