// limit_allocator: sequential histories.
// @bound single allocations: every limit and every element count (64 bit) for elements of 1, 8 and 12 bytes; histories of 3 operations (4 in the thorough tier; the last one is a deallocation or a small allocation) over 3 live blocks through copies, rebinds, moved-from and copy-construction-selected allocators: limits below 2^12 and above 2^64-2^12, element counts below 2^12, and 2^12 counts around the largest that fits and around the first whose byte size wraps to a small one; every upstream allocation may fail
// @parts sync_ 6
// @parts unsync_ 6
// @reach single_ ok refused upstream_failed overflow
// @reach single_unsync ok refused upstream_failed overflow
// @reach sync_ ok refused upstream_failed overflow dealloc
// @reach unsync_ ok refused upstream_failed overflow dealloc
// @reach construct_ ok
// @reach containers_ ok full
#include "sym.hpp"
#include <dice/template-library/limit_allocator.hpp>
#include <new>
#include <vector>

namespace dtl = dice::template_library;
using dtl::limit_allocator_syncness;

struct boom { int code = 5; }; // no standard exception
static uint64_t outstanding, limit_;
static bool track, may_fail, failed;
static int last_id, calls;
static void (*on_dealloc)();

template<typename T>
struct Up { // never backs its pointers with memory: only the accounting matters
	using value_type = T;
	int id;
	Up(int i = 0) noexcept : id{i} {}
	template<typename U> Up(Up<U> const &o) noexcept : id{o.id} {}
	T *allocate(size_t n) {
		++calls; last_id = id;
		if (track) CHECKM(n <= ~uint64_t{0} / sizeof(T), "upstream is only asked for sizes that fit");
		if (may_fail && dtl_choice(2, "upstream_fails")) { failed = true; throw boom{}; }
		outstanding += n * sizeof(T);
		if (track) CHECKM(outstanding <= limit_, "outstanding bytes never exceed the limit");
		return (T *) (uintptr_t) (0x10000000 + 0x1000 * calls);
	}
	void deallocate(T *, size_t n) noexcept {
		last_id = id;
		if (on_dealloc) on_dealloc();
		outstanding -= n * sizeof(T);
	}
	bool operator==(Up const &) const noexcept = default;
};
struct Odd { uint32_t a, b, c; };
static_assert(sizeof(Odd) == 12);

template<limit_allocator_syncness S, typename T> using LA = dtl::limit_allocator<T, Up, S>;
template<limit_allocator_syncness S> static LA<S, uint8_t> *probe;

template<limit_allocator_syncness S, typename T>
static bool alloc(LA<S, T> a, size_t n, uint64_t lim) {
	uint64_t const before = outstanding;
	bool const fits = n <= ~uint64_t{0} / sizeof(T);
	bool const want = fits && (fits ? n * sizeof(T) : 0) <= lim - before;
	int const c0 = calls;
	failed = false;
	bool threw = false;
	may_fail = true;
	try { (void) a.allocate(n); } catch (boom const &) { CHECKM(failed, "the upstream failure comes out unchanged"); threw = true; }
	catch (std::bad_alloc const &) { threw = true; CHECKM(!failed, "the upstream failure comes out unchanged"); }
	may_fail = false;
	CHECKM(calls - c0 == (want ? 1 : 0), "exactly the requests within the limit reach the upstream allocator");
	CHECKM(threw == (!want || failed), "exactly the requests above the limit are refused");
	if (threw) CHECKM(outstanding == before, "a failed allocation accounts for nothing");
	if (!fits) REACH("overflow"); else if (!want) REACH("refused"); else if (failed) REACH("upstream_failed"); else REACH("ok");
	return !threw;
}
// remaining capacity is exactly limit - outstanding
template<limit_allocator_syncness S>
static void capacity(LA<S, uint8_t> a, uint64_t lim) {
	uint64_t const left = lim - outstanding;
	bool threw = false;
	if (left < ~uint64_t{0}) {
		try { (void) a.allocate(left + 1); } catch (std::bad_alloc const &) { threw = true; }
		CHECKM(threw, "not more than the remaining limit can be allocated");
	}
	threw = false;
	uint8_t *p = nullptr;
	try { p = a.allocate(left); } catch (std::bad_alloc const &) { threw = true; }
	CHECKM(!threw, "the remaining limit can be allocated");
	a.deallocate(p, left);
}
template<limit_allocator_syncness S>
static void unavailable() { // called while the upstream allocator is taking memory back
	on_dealloc = nullptr;
	uint64_t const left = limit_ - outstanding;
	if (left == ~uint64_t{0}) return;
	bool threw = false;
	try { (void) probe<S>->allocate(left + 1); } catch (std::bad_alloc const &) { threw = true; }
	CHECKM(threw, "memory is returned upstream before its bytes become available again");
}
#ifdef THOROUGH
constexpr int OPS = 4;
#else
constexpr int OPS = 3;
#endif
template<limit_allocator_syncness S>
static void history(uint64_t part) {
	uint64_t const lim0 = sym<uint64_t>("limit") & 0xfff;
	uint64_t const lim = (part & 1) == 0 ? lim0 : ~lim0;
	limit_ = lim; track = true;
	{
		LA<S, uint64_t> a{lim, Up<uint64_t>{7}};
		LA<S, uint8_t> b{a};
		LA<S, Odd> c{b};
		LA<S, uint64_t> m{std::move(a)}; // a stays usable
		auto s = m.select_on_container_copy_construction();
		CHECKM(a == m && s == m && !(a != s), "copies compare equal");
		CHECKM(a.upstream_allocator().id == 7 && b.upstream_allocator().id == 7 && c.upstream_allocator().id == 7 && m.upstream_allocator().id == 7 && s.upstream_allocator().id == 7, "copies keep the upstream allocator");
		probe<S> = &b;
		size_t n[3]; int kind[3] = {-1, -1, -1};
		for (int k = 0; k < OPS; ++k) {
			int const slot = (int) dtl_choice(3, "slot");
			if (kind[slot] < 0) {
				if (slot > 0 && kind[slot - 1] < 0) dtl_kill();
				int const via = k == 0 ? (int) (part >> 1) % 3 : (int) dtl_choice(3, "via");
#ifndef THOROUGH
				if (k == 2 && via == 2) dtl_kill();
				bool const small = k == 2;
#else
				bool const small = k == 3;
#endif
				size_t cnt = sym<uint64_t>("n") & 0xfff;
				// small counts, counts around the largest that fits, counts whose byte size wraps to a small one
				unsigned const region = small ? 0 : dtl_choice(via == 1 ? 2 : 3, "region");
				uint64_t const sz = via == 0 ? 8 : via == 1 ? 1 : 12;
				if (region == 1) cnt = ~uint64_t{0} / sz - (via == 1 ? 0xfff : 0x7ff) + cnt;
				else if (region == 2) cnt += via == 0 ? uint64_t{1} << 61 : uint64_t{1} << 62;
				bool ok = false;
				if (via == 0) { unsigned const who = (unsigned) (k % 3); ok = alloc<S, uint64_t>(who == 0 ? a : who == 1 ? m : s, cnt, lim); }
				else if (via == 1) ok = alloc<S, uint8_t>(b, cnt, lim);
				else ok = alloc<S, Odd>(c, cnt, lim);
				if (ok) { kind[slot] = via; n[slot] = cnt; }
			} else {
				REACH("dealloc");
				on_dealloc = unavailable<S>;
				uint64_t const before = outstanding;
				uint64_t sz;
				if (kind[slot] == 0) { s.deallocate((uint64_t *) 16, n[slot]); sz = n[slot] * 8; }
				else if (kind[slot] == 1) { b.deallocate((uint8_t *) 16, n[slot]); sz = n[slot]; }
				else { c.deallocate((Odd *) 16, n[slot]); sz = n[slot] * 12; }
				CHECKM(on_dealloc == nullptr, "deallocation reaches the upstream allocator");
				CHECKM(outstanding == before - sz, "deallocation passes the size on");
				kind[slot] = -1;
			}
			OBS(outstanding);
		}
		capacity<S>(b, lim);
	}
}
template<limit_allocator_syncness S, typename T>
static void single1(uint64_t lim) {
	LA<S, T> a{lim, Up<T>{7}};
	size_t const n = sym<uint64_t>("n");
	bool const ok = alloc<S, T>(a, n, lim);
	LA<S, uint8_t> b{a};
	CHECKM(!ok | (outstanding == n * sizeof(T)), "the whole block is accounted for");
	if (ok && dtl_choice(2, "release")) a.deallocate((T *) 16, n);
	capacity<S>(b, lim);
}
template<limit_allocator_syncness S>
static void single() {
	uint64_t const lim = sym<uint64_t>("limit");
	limit_ = lim; track = true;
	unsigned const t = dtl_choice(3, "type");
	if (t == 0) single1<S, uint64_t>(lim); else if (t == 1) single1<S, uint8_t>(lim); else single1<S, Odd>(lim);
}
HARNESS(single_) { single<limit_allocator_syncness::sync>(); }
HARNESS(single_unsync) { single<limit_allocator_syncness::unsync>(); }
HARNESS_PART(sync_) { history<limit_allocator_syncness::sync>(part); }
HARNESS_PART(unsync_) { history<limit_allocator_syncness::unsync>(part); }

template<limit_allocator_syncness S>
static void construct() {
	uint64_t const l1 = sym<uint64_t>("l1"), l2 = sym<uint64_t>("l2");
	track = false;
	using A = LA<S, uint8_t>;
	Up<uint8_t> const u{3};
	unsigned const how = dtl_choice(4, "how");
	A a = how == 0 ? A{l1} : how == 1 ? A{l1, u} : how == 2 ? A{l1, Up<uint8_t>{3}} : A{l1, std::in_place, 3};
	int const ida = how == 0 ? 0 : 3;
	CHECKM(a.upstream_allocator().id == ida, "the given upstream allocator is used");
	A b{l2, Up<uint8_t>{3}};
	CHECKM(!(a == b) && a != b, "allocators with separate limits compare unequal");
	outstanding = 0; track = true; limit_ = l1;
	capacity<S>(a, l1);
	CHECKM(last_id == ida, "the given upstream allocator is used");
	unsigned const op = dtl_choice(5, "op");
	A const ca{a}, cb{b};
	int want_a = ida;
	if (op == 0) { a = b; want_a = 3; CHECKM(a == b && a != ca, "copy assignment shares the limit"); }
	else if (op == 1) { a = std::move(b); want_a = 3; CHECKM(a == cb && b == cb && a != ca, "move assignment shares the limit and keeps the source usable"); }
	else if (op == 2) { swap(a, b); want_a = 3; CHECKM(a == cb && b == ca && b.upstream_allocator().id == ida, "swap exchanges limit and upstream allocator"); limit_ = l1; capacity<S>(b, l1); }
	else if (op == 3) { A const &self = a; a = self; CHECKM(a == ca, "self assignment"); swap(a, a); CHECKM(a == ca, "self swap"); }
	else { A d{std::move(a)}; CHECKM(d == ca && a == ca, "move construction shares the limit and keeps the source usable"); }
	CHECKM(a.upstream_allocator().id == want_a, "upstream allocator after assignment");
	uint64_t const now = op <= 2 ? l2 : l1;
	limit_ = now;
	capacity<S>(a, now);
	CHECKM(last_id == want_a, "the upstream allocator in use");
	if (op == 1) capacity<S>(b, l2);
	static_assert(std::is_same_v<typename std::allocator_traits<A>::template rebind_alloc<Odd>, LA<S, Odd>>);
	static_assert(!A::is_always_equal::value);
	static_assert(std::is_same_v<typename A::propagate_on_container_swap, std::false_type>);
	OBS(op);
	REACH("ok");
}
HARNESS(construct_) { construct<limit_allocator_syncness::sync>(); }
HARNESS(construct_unsync) { construct<limit_allocator_syncness::unsync>(); }

// real containers on real memory
template<limit_allocator_syncness S>
static void containers() {
	size_t const lim = sym_range<uint64_t>(0, 40, "limit");
	{
		using A = dtl::limit_allocator<uint32_t, std::allocator, S>;
		A a{lim};
		uint32_t x = sym<uint32_t>("x");
		std::vector<uint32_t, A> v{a};
		unsigned pushed = 0;
		bool full = false;
		for (unsigned i = 0; i < 4; ++i) {
			try { v.push_back(x + i); ++pushed; } catch (std::bad_alloc const &) { full = true; break; }
		}
		if (full) REACH("full");
		CHECKM(v.size() == pushed, "a refused allocation leaves the container as it was");
		for (unsigned i = 0; i < pushed; ++i) CHECKM(v[i] == x + i, "container contents");
		std::vector<uint32_t, A> w{std::move(v)};
		CHECKM(w.size() == pushed, "container contents");
		w = std::vector<uint32_t, A>{a};
		// all but the current capacity is available again
		size_t const left = lim / 4 - w.capacity();
		uint32_t *p = nullptr;
		try { p = a.allocate(left); } catch (std::bad_alloc const &) {}
		CHECKM(p != nullptr, "returned bytes are available again");
		bool threw = false;
		try { (void) a.allocate(1); } catch (std::bad_alloc const &) { threw = true; }
		CHECKM(threw, "not more than the limit");
		a.deallocate(p, left);
		REACH("ok");
	}
	CHECKM(dtl_live() == 0, "all memory is returned");
}
HARNESS(containers_) { containers<limit_allocator_syncness::sync>(); }
HARNESS(containers_unsync) { containers<limit_allocator_syncness::unsync>(); }
