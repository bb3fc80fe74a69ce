// next_to_iter, next_back_to_reverse_iter, next_to_range, next_to_view: C++ iterators and ranges out of rust-style ones
// @bound sequences of 0 to 4 (thorough: 5) elements with every value behind six kinds of rust-style iterators (with and without nth, next_back, remaining; copyable and move-only); histories of 3 (thorough: 4) operations (increment, post-increment, +=, +, peek, copy, move, assignment, going on after the end) on two iterators in both directions with every offset; next() throwing at any call; ranges and views: independent iterators, reversed, size, element access, advance, standard algorithms and views
// @parts iter 8
// @reach iter done end elem
// @parts moveonly 4
// @reach moveonly done end elem
// @parts throwing 2
// @reach throwing done thrown
// @parts ranges 4
// @reach ranges done
// @parts views 4
// @reach views done
#include "../runtime/sym.hpp"
#include <dice/template-library/next_to_range.hpp>
#include <algorithm>
#include <memory>
#include <ranges>

namespace dtl = dice::template_library;
#ifdef THOROUGH
constexpr size_t N = 5; constexpr int OPS = 4;
#else
constexpr size_t N = 4; constexpr int OPS = 3;
#endif
static int throw_at; // > 0: the throw_at-th call of next throws
struct Err {};
// what elements come from: positions lo..hi of a sequence that must outlive the iterator
enum : unsigned { NTH = 1, BACK = 2, SIZED = 4, MOVEONLY = 8 };
template<unsigned F>
struct Seq {
	using value_type = uint16_t;
	uint16_t const *a; size_t lo, hi;
	Seq(uint16_t const *a, size_t n) : a(a), lo(0), hi(n) {}
	Seq(Seq const &) requires (!(F & MOVEONLY)) = default;
	Seq &operator=(Seq const &) requires (!(F & MOVEONLY)) = default;
	Seq(Seq &&) = default;
	Seq &operator=(Seq &&) = default;
	static void maybe_throw() { if (throw_at > 0 && --throw_at == 0) throw Err{}; }
	std::optional<uint16_t> next() { maybe_throw(); return lo < hi ? std::optional<uint16_t>{a[lo++]} : std::nullopt; }
	std::optional<uint16_t> next_back() requires ((F & BACK) != 0) { maybe_throw(); return lo < hi ? std::optional<uint16_t>{a[--hi]} : std::nullopt; }
	std::optional<uint16_t> nth(size_t off) requires ((F & NTH) != 0) { if (off >= hi - lo) { lo = hi; return std::nullopt; } lo += off; return a[lo++]; }
	std::optional<uint16_t> nth_back(size_t off) requires ((F & NTH) != 0 && (F & BACK) != 0) { if (off >= hi - lo) { hi = lo; return std::nullopt; } hi -= off; return a[--hi]; }
	size_t remaining() const requires ((F & SIZED) != 0) { return hi - lo; }
};
template<unsigned F, bool Back> using Iter = std::conditional_t<Back, dtl::next_back_to_reverse_iter<std::conditional_t<Back, Seq<F>, Seq<BACK>>>, dtl::next_to_iter<Seq<F>>>;
template<typename I> concept Plus = requires (I const &i) { i + 1; };
template<typename I> concept PlusAssign = requires (I &i) { i += 1; };
static_assert(std::input_iterator<dtl::next_to_iter<Seq<0>>> && std::input_iterator<dtl::next_to_iter<Seq<MOVEONLY>>> && std::input_iterator<dtl::next_back_to_reverse_iter<Seq<BACK>>>);
static_assert(std::sentinel_for<std::default_sentinel_t, dtl::next_to_iter<Seq<0>>> && std::same_as<std::iter_reference_t<dtl::next_to_iter<Seq<0>>>, uint16_t &>);
static_assert(!Plus<dtl::next_to_iter<Seq<0>>> && !PlusAssign<dtl::next_to_iter<Seq<0>>> && Plus<dtl::next_to_iter<Seq<NTH>>> && PlusAssign<dtl::next_to_iter<Seq<NTH>>> && !Plus<dtl::next_to_iter<Seq<NTH | MOVEONLY>>> && PlusAssign<dtl::next_to_iter<Seq<NTH | MOVEONLY>>>);
static_assert(!Plus<dtl::next_back_to_reverse_iter<Seq<BACK>>> && Plus<dtl::next_back_to_reverse_iter<Seq<BACK | NTH>>>);
static_assert(std::copyable<dtl::next_to_iter<Seq<0>>> && !std::copyable<dtl::next_to_iter<Seq<MOVEONLY>>> && std::movable<dtl::next_to_iter<Seq<MOVEONLY>>>);
template<typename R> concept HasSize = requires (R const &r) { r.size(); r.empty(); static_cast<bool>(r); };
template<typename R> concept HasReverse = requires (R const &r) { r.rbegin(); r.rend(); r.crbegin(); r.crend(); r.reversed(); };
static_assert(std::ranges::input_range<dtl::next_to_range<Seq<0>>> && !std::ranges::view<dtl::next_to_range<Seq<0>>> && std::ranges::view<dtl::next_to_view<Seq<0>>> && std::ranges::input_range<dtl::next_to_range<Seq<MOVEONLY>>>);
static_assert(HasSize<dtl::next_to_range<Seq<SIZED>>> && !HasSize<dtl::next_to_range<Seq<SIZED | MOVEONLY>>> && !HasSize<dtl::next_to_range<Seq<0>>> && HasSize<dtl::next_to_view<Seq<SIZED>>> && !HasSize<dtl::next_to_view<Seq<0>>>);
static_assert(HasReverse<dtl::next_to_range<Seq<BACK>>> && !HasReverse<dtl::next_to_range<Seq<0>>> && HasReverse<dtl::next_to_view<Seq<BACK>>> && !HasReverse<dtl::next_to_view<Seq<0>>> && HasReverse<dtl::next_to_range<Seq<BACK | MOVEONLY>>>);
static_assert(std::ranges::sized_range<dtl::next_to_range<Seq<SIZED>>> && std::ranges::sized_range<dtl::next_to_view<Seq<SIZED>>>);

struct Data {
	uint16_t a[N]; size_t n;
	Data() : n(dtl_choice(N + 1, "n")) { for (size_t i = 0; i < n; ++i) a[i] = sym<uint16_t>("element"); }
	template<bool Back> uint16_t at(size_t i) const { return Back ? a[n - 1 - i] : a[i]; }
};
template<bool Back, typename I>
static void expect(Data const &d, I const &it, size_t pos) { // the iterator is at element pos
	bool const end = pos >= d.n;
	CHECKM((it == std::default_sentinel) == end && (std::default_sentinel == it) == end && (it != std::default_sentinel) == !end, "the end is reached exactly after the last element");
	if (end) { REACH("end"); return; }
	CHECKM((*it == d.at<Back>(pos)) & (*it.operator->() == d.at<Back>(pos)), "the iterator refers to the right element");
	REACH("elem");
}
static size_t offset(size_t n) { // any offset; those behind the end are all alike, and in one path
	size_t const off = sym<size_t>("offset");
	if (dtl_fork(off > n)) return off;
	return dtl_fork(off);
}
static size_t after(Data const &d, size_t pos, size_t off) { return pos >= d.n || off >= d.n - pos ? d.n : pos + off; }
template<unsigned F, bool Back>
static void history() {
	Data d;
	using It = Iter<F, Back>;
	It x{Seq<F>{d.a, d.n}}, y{d.a, d.n};
	size_t px = 0, py = 0;
	expect<Back>(d, x, px); expect<Back>(d, y, py);
	constexpr uint32_t ops = (F & NTH) ? 9 : 7;
	for (int i = 0; i < OPS; ++i) {
		switch (dtl_choice(ops, "op")) {
			case 0: { auto &r = ++x; CHECKM(&r == &x, "++ returns the iterator"); px = after(d, px, 1); break; }
			case 1: { auto const old = x++; expect<Back>(d, old, px); px = after(d, px, 1); break; }
			case 2: { // peek
				auto const &p = x.peek();
				CHECKM(p.has_value() == (px + 1 < d.n), "peek gives a value exactly if there is a next element");
				if (p) CHECKM(*p == d.at<Back>(px + 1), "peek gives the next element");
				break;
			}
			case 3: y = x; py = px; break;
			case 4: y = It{x}; py = px; break;
			case 5: { // move there and back
				It t{std::move(x)}; expect<Back>(d, t, px); x = std::move(t);
				break;
			}
			case 6: ++y; py = after(d, py, 1); break;
			case 7: if constexpr ((F & NTH) != 0) { size_t const off = offset(d.n); auto &r = (x += off); CHECKM(&r == &x, "+= returns the iterator"); px = after(d, px, off); } break;
			default: if constexpr ((F & NTH) != 0) { size_t const off = offset(d.n); expect<Back>(d, x + off, after(d, px, off)); y = x + off; py = after(d, px, off); } break;
		}
		expect<Back>(d, x, px); expect<Back>(d, y, py);
	}
	// an element may be changed through the iterator; this changes nothing else
	if (px < d.n) { *x = 77; CHECKM(*x == 77, "elements can be written"); ++x; px = after(d, px, 1); expect<Back>(d, x, px); expect<Back>(d, y, py); }
	// the rest
	for (; py < d.n; ++py, ++y) expect<Back>(d, y, py);
	expect<Back>(d, y, py); expect<Back>(d, x, px);
	REACH("done");
}
HARNESS_PART(iter) {
	switch (part) {
		case 0: history<0, false>(); break;
		case 1: history<NTH, false>(); break;
		case 2: history<NTH | BACK | SIZED, false>(); break;
		case 3: history<BACK, false>(); break;
		case 4: history<BACK, true>(); break;
		case 5: history<NTH | BACK, true>(); break;
		case 6: history<NTH | BACK | SIZED, true>(); break;
		default: history<BACK | SIZED, true>(); break;
	}
}
template<unsigned F, bool Back>
static void history_moveonly() {
	Data d;
	using It = Iter<F | MOVEONLY, Back>;
	It x{d.a, d.n};
	size_t px = 0;
	expect<Back>(d, x, px);
	for (int i = 0; i < OPS; ++i) {
		switch (dtl_choice((F & NTH) ? 5 : 4, "op")) {
			case 0: ++x; px = after(d, px, 1); break;
			case 1: x++; static_assert(std::is_void_v<decltype(x++)>); px = after(d, px, 1); break;
			case 2: {
				auto const &p = x.peek();
				CHECKM(p.has_value() == (px + 1 < d.n), "peek gives a value exactly if there is a next element");
				if (p) CHECKM(*p == d.at<Back>(px + 1), "peek gives the next element");
				break;
			}
			case 3: { It t{std::move(x)}; expect<Back>(d, t, px); x = std::move(t); break; }
			default: if constexpr ((F & NTH) != 0) { size_t const off = offset(d.n); x += off; px = after(d, px, off); } break;
		}
		expect<Back>(d, x, px);
	}
	REACH("done");
}
HARNESS_PART(moveonly) {
	switch (part) {
		case 0: history_moveonly<0, false>(); break;
		case 1: history_moveonly<NTH, false>(); break;
		case 2: history_moveonly<BACK, true>(); break;
		default: history_moveonly<NTH | BACK, true>(); break;
	}
}
template<bool Back>
static void throwing() {
	Data d;
	using It = Iter<BACK, Back>;
	throw_at = (int) dtl_choice(OPS + 2, "throwing call");
	bool thrown = false;
	try {
		It x{d.a, d.n};
		size_t px = 0;
		for (int i = 0; i < OPS; ++i) {
			try {
				switch (dtl_choice(3, "op")) {
					case 0: ++x; px = after(d, px, 1); break;
					case 1: (void) x++; px = after(d, px, 1); break;
					default: {
						auto const &p = x.peek();
						CHECKM(p.has_value() == (px + 1 < d.n) && (!p || *p == d.at<Back>(px + 1)), "peek gives the next element");
					}
				}
			} catch (Err const &) { thrown = true; REACH("thrown"); } // the iterator stays where it is
			expect<Back>(d, x, px);
		}
		for (throw_at = 0; px < d.n; ++px, ++x) expect<Back>(d, x, px);
		expect<Back>(d, x, px);
	} catch (Err const &) { CHECKM(!thrown, "the exception of next comes out once"); REACH("thrown"); }
	REACH("done");
}
HARNESS_PART(throwing) { if (part == 0) throwing<false>(); else throwing<true>(); }

template<bool Back, typename B, typename E>
static void all(Data const &d, B b, E e) {
	size_t i = 0;
	for (; i <= N && b != e; ++b, ++i) CHECKM(i < d.n && *b == d.at<Back>(i), "iterating gives every element in order");
	CHECKM(i == d.n, "iterating gives every element");
}
template<unsigned F, typename R>
static void common(Data const &d, R const &r) {
	if constexpr ((F & SIZED) && !(F & MOVEONLY)) CHECKM(r.size() == d.n && r.empty() == (d.n == 0) && static_cast<bool>(r) == (d.n != 0) && std::ranges::size(r) == d.n && std::ranges::empty(r) == (d.n == 0), "size");
	auto b = r.begin();
	all<false>(d, r.begin(), r.end());
	all<false>(d, r.cbegin(), r.cend());
	if constexpr (F & BACK) {
		auto rb = r.rbegin();
		all<true>(d, r.rbegin(), r.rend());
		all<true>(d, r.crbegin(), r.crend());
		if constexpr (!(F & MOVEONLY)) { auto rev = r.reversed(); all<true>(d, rev.begin(), rev.end()); }
		expect<true>(d, rb, 0);
	}
	expect<false>(d, b, 0); // has not moved
	if constexpr (F & SIZED) if constexpr (!(F & MOVEONLY)) CHECKM(r.size() == d.n, "iterating does not use up the range");
	// standard algorithms and views
	uint16_t const x = sym<uint16_t>("x");
	size_t cnt = 0, c = 0;
	for (size_t i = 0; i < d.n; ++i) cnt += d.a[i] == x;
	for (auto const &e : r) c += e == x;
	CHECKM(c == cnt, "range for");
	CHECKM((size_t) std::ranges::count(r, x) == cnt, "std::ranges::count");
	size_t i = 1;
	for (auto const e : r | std::views::drop(1) | std::views::transform([](uint16_t v) { return (uint16_t) (v ^ 0x5555); })) { CHECKM(i < d.n && (e == (d.a[i] ^ 0x5555)), "adaptors"); ++i; }
	CHECKM(i == (d.n ? d.n : 1), "adaptors");
}
HARNESS_PART(ranges) {
	Data d;
	auto with = [&]<unsigned F>() {
		dtl::next_to_range<Seq<F>> const r{d.a, d.n};
		common<F>(d, r);
		auto const copy = r; // also for move-only iterators
		common<F>(d, copy);
		if constexpr (!(F & MOVEONLY)) { dtl::next_to_range<Seq<F>> m{Seq<F>{d.a, d.n}}; auto m2 = m; common<F>(d, m2); }
		REACH("done");
	};
	switch (part) {
		case 0: with.operator()<0>(); break;
		case 1: with.operator()<NTH | BACK | SIZED>(); break;
		case 2: with.operator()<MOVEONLY | BACK>(); break;
		default: with.operator()<BACK>(); break;
	}
}
HARNESS_PART(views) {
	Data d;
	auto with = [&]<unsigned F>() {
		using V = dtl::next_to_view<Seq<F>>;
		V const v{d.a, d.n};
		common<F>(d, v);
		V c = v; V m = c; c = v;
		common<F>(d, m);
		if (d.n) {
			CHECKM(v.front() == d.a[0], "front");
			if constexpr (F & BACK) CHECKM(v.back() == d.a[d.n - 1], "back");
			if constexpr (F & NTH) for (size_t i = 0; i < d.n; ++i) CHECKM(v[i] == d.a[i], "operator[]");
		}
		if constexpr (F & NTH) {
			size_t const off = offset(d.n);
			auto &r = c.advance(off);
			CHECKM(&r == &c, "advance returns the view");
			size_t const from = after(d, 0, off);
			Data rest = d;
			for (size_t i = from; i < d.n; ++i) rest.a[i - from] = d.a[i];
			rest.n = d.n - from;
			common<F>(rest, c);
			common<F>(d, m);
			size_t const off2 = offset(d.n);
			c.advance(off2);
			size_t const from2 = after(d, from, off2);
			for (size_t i = from2; i < d.n; ++i) rest.a[i - from2] = d.a[i];
			rest.n = d.n - from2;
			all<false>(rest, c.begin(), c.end());
		}
		size_t i = 0;
		for (auto e : v | std::views::take(2)) { CHECKM(e == d.a[i], "piped into adaptors"); ++i; }
		CHECKM(i == (d.n < 2 ? d.n : 2), "piped into adaptors");
		REACH("done");
	};
	switch (part) {
		case 0: with.operator()<0>(); break;
		case 1: with.operator()<NTH | BACK | SIZED>(); break;
		case 2: with.operator()<NTH>(); break;
		default: with.operator()<BACK | SIZED>(); break;
	}
}
