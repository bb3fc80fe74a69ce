// range(): Python-like ranges of numbers
// @bound every start, stop and step of 8-bit types (signed, unsigned, and unsigned with a signed step), every start and stop of 16- to 64-bit types with steps from a table that includes the extreme ones (for skipping, mixed operations and complete iteration steps from tables for all types), every offset; from any such range the first 3 (thorough: 5) elements, 3 from the back, any 3 (thorough: 4) operations mixing next, next_back, nth and nth_back; complete iteration of ranges of up to 4 (thorough: 6) elements; a unit-like type with its own step type, a fixed-point type and (with bounds and steps from tables) float and double; step zero
// @parts size 9
// @reach size done none some
// @parts forward 9
// @reach forward ended more
// @parts backward 9
// @reach backward ended more
// @parts index 9
// @reach index inside outside
// @parts mixed 3
// @reach mixed done
// @parts whole 6
// @reach whole done
// @reach zero done
// @reach other done
// @reach fractions done
// @parts doubles 2
// @reach doubles done
#include "../runtime/sym.hpp"
#include <dice/template-library/ranges.hpp>
#include <limits>

namespace dtl = dice::template_library;
#ifdef THOROUGH
constexpr int STEPS = 5, MIX = 4, WHOLE = 6;
#else
constexpr int STEPS = 3, MIX = 3, WHOLE = 4;
#endif

// the mathematical sequence: element k is start + k * step, for all k with k * |step| < distance;
// distances and sizes of steps always fit into 64 bits, for 8-bit types into 32
template<typename T, typename S>
struct In { T start, stop; S step; };
template<typename T> using U = std::conditional_t<sizeof(T) == 1, uint32_t, uint64_t>;
template<typename T, typename S>
static U<T> dist(In<T, S> const &in) { // distance in the direction of the step, 0 if none
	if (in.step > S{}) return in.start < in.stop ? (U<T>) in.stop - (U<T>) in.start : 0;
	return in.stop < in.start ? (U<T>) in.start - (U<T>) in.stop : 0;
}
template<typename T, typename S>
static U<T> mag(In<T, S> const &in) { return in.step > S{} ? (U<T>) in.step : U<T>{} - (U<T>) in.step; }
// element k, if there is one
template<typename T, typename S>
static T elem(In<T, S> const &in, size_t k) { return static_cast<T>((U<T>) in.start + (U<T>) k * (U<T>) in.step); }
// is there an element k?
template<typename T, typename S>
static bool has(In<T, S> const &in, size_t k) {
	U<T> off;
	if (__builtin_mul_overflow((U<T>) k, mag(in), &off)) return false;
	return off < dist(in);
}
// is n the number of elements? (8-bit types: n < 2^16)
template<typename T, typename S>
static bool is_count(In<T, S> const &in, size_t n) {
	U<T> const d = dist(in), m = mag(in);
	if (d == 0) return n == 0;
	if (n == 0 || (sizeof(T) == 1 && n > 255)) return false;
	U<T> off;
	if (__builtin_mul_overflow((U<T>) (n - 1), m, &off)) return false;
	return (off < d) & (d - off <= m);
}

template<typename S> static S table_step() {
	constexpr S lo = std::numeric_limits<S>::min(), hi = std::numeric_limits<S>::max();
	if constexpr (std::is_signed_v<S>) { static constexpr S s[] = {1, 3, hi, -1, sizeof(S) == 1 ? -7 : -2, lo, (S) (lo + 1), 10, (S) (hi - 1)}; return s[dtl_choice(STEPS == 3 ? 6 : 9, "step")]; }
	else { static constexpr S s[] = {1, 3, hi, (S) (hi / 2 + 1), 2, 10}; return s[dtl_choice(STEPS == 3 ? 4 : 6, "step")]; }
}
template<bool Full = true, typename F>
static void dispatch(uint64_t part, F f) {
	auto full = [&]<typename T, typename S>(T, S) {
		T const start = sym<T>("start"), stop = sym<T>("stop"); S step;
		if constexpr (!Full) step = table_step<S>(); else step = sym<S>("step");
		dtl_assume(step != S{});
		if (dtl_fork(step > S{})) { if (dtl_fork(start < stop)) f(In<T, S>{start, stop, step}); else f(In<T, S>{start, stop, step}); }
		else if (dtl_fork(stop < start)) f(In<T, S>{start, stop, step});
		else f(In<T, S>{start, stop, step});
	};
	auto table = [&]<typename T, typename S>(T, S) {
		S const step = table_step<S>();
		T const start = sym<T>("start"), stop = sym<T>("stop");
		f(In<T, S>{start, stop, step});
	};
	switch (part) {
		case 0: full(int8_t{}, int8_t{}); break;
		case 1: full(uint8_t{}, uint8_t{}); break;
		case 2: full(uint8_t{}, int8_t{}); break;
		case 3: table(int32_t{}, int32_t{}); break;
		case 4: table(uint32_t{}, uint32_t{}); break;
		case 5: table(int64_t{}, int64_t{}); break;
		case 6: table(uint64_t{}, uint64_t{}); break;
		case 7: table(uint64_t{}, int32_t{}); break;
		default: table(uint16_t{}, int64_t{}); break;
	}
}
HARNESS_PART(size) {
	dispatch(part, []<typename T, typename S>(In<T, S> in) {
		auto const v = dtl::range(in.start, in.stop, in.step);
		static_assert(std::ranges::sized_range<decltype(v)> && std::ranges::view<std::remove_const_t<decltype(v)>>);
		size_t const n = v.size();
		bool const some = has(in, 0);
		CHECKM(is_count(in, n), "size is the number of elements");
		CHECKM((v.empty() == !some) & (static_cast<bool>(v) == some), "empty and bool conversion tell whether there are elements");
		CHECKM((v.begin() == v.end()) == !some, "begin is end exactly if the range is empty");
		if (some) {
			CHECKM((v.front() == in.start) & (*v.begin() == in.start) & (v[0] == in.start), "the first element is start");
			T const b = v.back(), r = *v.rbegin();
			CHECKM((r == b) & (v[n - 1] == b), "back, rbegin and the last index agree");
			CHECKM(b == elem(in, n - 1), "back is the last element");
			REACH("some");
		} else { CHECKM(v.rbegin() == v.rend(), "an empty range is empty from behind"); REACH("none"); }
		OBS(n);
		REACH("done");
	});
}
HARNESS_PART(forward) {
	dispatch(part, []<typename T, typename S>(In<T, S> in) {
		auto const v = dtl::range(in.start, in.stop, in.step);
		auto it = v.begin();
		for (size_t k = 0; k < (size_t) STEPS; ++k) {
			bool const h = has(in, k);
			CHECKM((it != v.end()) == h, "iteration ends when stop is met or passed");
			if (!h) { ++it; CHECKM(it == v.end(), "an exhausted iterator stays at the end"); REACH("ended"); return; }
			CHECKM(*it == elem(in, k), "element k is start + k * step");
			if (k == 1) { auto const &p = it.peek(); CHECKM((p.has_value() == has(in, k + 1)) && (!p || *p == elem(in, k + 1)), "peek shows the next element"); }
			if (k & 1) it++; else ++it;
		}
		REACH("more");
	});
}
HARNESS_PART(backward) {
	dispatch(part, []<typename T, typename S>(In<T, S> in) {
		auto const v = dtl::range(in.start, in.stop, in.step);
		size_t const n = v.size(); // see size
		auto const rev = v.reversed();
		auto it = rev.begin();
		for (size_t k = 0; k < (size_t) STEPS; ++k) {
			bool const h = k < n;
			CHECKM((it != v.rend()) == h, "reverse iteration has as many elements");
			if (!h) { ++it; CHECKM(it == v.rend(), "an exhausted iterator stays at the end"); REACH("ended"); return; }
			CHECKM(*it == elem(in, n - 1 - k), "reverse iteration gives the same elements");
			++it;
		}
		REACH("more");
	});
}
HARNESS_PART(index) {
	dispatch<false>(part, []<typename T, typename S>(In<T, S> in) {
		auto const v = dtl::range(in.start, in.stop, in.step);
		size_t const n = v.size(); // see size
		size_t k;
		if constexpr (sizeof(T) == 1) {
			if (dtl_choice(2, "far")) { k = sym<size_t>("offset"); dtl_assume(k > 255); }
			else k = sym<uint8_t>("offset");
		} else k = sym<size_t>("offset");
		bool const inside = k < n;
		if (dtl_fork(!inside)) {
			auto it = v.begin(); it += k;
			auto rt = v.rbegin(); rt += k;
			auto w = v; w.advance(k);
			CHECKM(it == v.end(), "skipping ends up inside or at the end");
			CHECKM(rt == v.rend(), "skipping from behind ends up inside or at the end");
			CHECKM(w.size() == 0, "advance drops elements from the front");
			REACH("outside");
			return;
		}
		switch (dtl_choice(4, "how")) {
			case 0: {
				auto it = v.begin(); it += k;
				CHECKM(it != v.end(), "skipping ends up inside or at the end");
				CHECKM(*it == elem(in, k), "element k is start + k * step");
				++it;
				CHECKM((it != v.end()) == (k + 1 < n), "iteration continues behind the skipped elements");
				if (k + 1 < n) CHECKM(*it == elem(in, k + 1), "iteration continues behind the skipped elements");
				break;
			}
			case 1: {
				auto rt = v.rbegin(); rt += k;
				CHECKM(rt != v.rend(), "skipping from behind ends up inside or at the end");
				CHECKM(*rt == elem(in, n - 1 - k), "element k from behind is element n - 1 - k");
				++rt;
				CHECKM((rt != v.rend()) == (k + 1 < n), "reverse iteration continues behind the skipped elements");
				break;
			}
			case 2: {
				auto w = v; w.advance(k);
				CHECKM(w.size() == n - k, "advance drops elements from the front");
				CHECKM(w.front() == elem(in, k), "element k is start + k * step");
				break;
			}
			default: CHECKM((v[k] == elem(in, k)) & (*(v.begin() + k) == elem(in, k)), "element k is start + k * step");
		}
		REACH("inside");
	});
}
// double-ended use of the underlying iterator
template<typename T, typename S>
static In<T, S> some_range() {
	S step;
	if constexpr (std::is_signed_v<S>) { static constexpr S s[] = {1, sizeof(S) == 1 ? -3 : -2, std::numeric_limits<S>::min(), std::numeric_limits<S>::max() - 1}; step = s[dtl_choice(4, "step")]; }
	else { static constexpr S s[] = {1, 3, std::numeric_limits<S>::max()}; step = s[dtl_choice(3, "step")]; }
	T const start = sym<T>("start"), stop = sym<T>("stop");
	return {start, stop, step};
}
HARNESS_PART(mixed) {
	auto const run = []<typename T, typename S>(In<T, S> in, int ops) {
		auto const v = dtl::range(in.start, in.stop, in.step);
		typename dtl::range_view<T, S>::iterator::base_iterator it{in.start, in.stop, in.step};
		size_t const n = v.size(); // see size
		size_t front = 0, back = 0; // elements taken from either end
		for (int o = 0; o < ops; ++o) {
			size_t const op = dtl_choice(4, "op"), sk = op & 1;
			bool const fwd = op < 2;
			std::optional<T> got;
			switch (op) {
				case 0: got = it.next(); break;
				case 1: got = it.nth(1); break;
				case 2: got = it.next_back(); break;
				default: got = it.nth_back(1);
			}
			bool const some = dtl_fork(front + back + sk < n);
			CHECKM(got.has_value() == some, "there is an element as long as front and back have not met");
			if (!some) { CHECKM(it.remaining() == 0, "remaining counts the elements between front and back"); break; }
			(fwd ? front : back) += sk + 1;
			CHECKM(*got == elem(in, fwd ? front - 1 : n - back), "elements from front and back are the elements of the range");
			CHECKM(it.remaining() == n - front - back, "remaining counts the elements between front and back");
		}
		REACH("done");
	};
	if (part == 0) run(some_range<int8_t, int8_t>(), MIX);
	else if (part == 1) run(some_range<uint8_t, int8_t>(), MIX);
	else run(some_range<int64_t, int64_t>(), MIX - 1);
}
// complete iteration, for ranges of up to WHOLE elements
template<typename T, typename S, typename... Args>
static void whole(In<T, S> in, Args... args) {
	auto const v = dtl::range<T>(args...);
	size_t n = 0;
	bool good = true;
	for (auto const x : v) {
		good = good & (x == elem(in, n));
		++n;
		if (n > WHOLE) dtl_kill();
	}
	CHECKM(good, "a for loop sees the elements in order");
	CHECKM(is_count(in, n), "a for loop sees all elements");
	CHECKM(v.size() == n, "size is the number of elements seen");
	size_t m = 0;
	for (auto const x : v.reversed()) { ++m; good = good & (x == elem(in, n - m)); if (m > n) break; }
	CHECKM(good & (m == n), "a reverse for loop sees the same elements");
	size_t t = 0;
	for (auto const x : v | std::views::drop(1) | std::views::transform([](T x) { return x; })) { ++t; good = good & (x == elem(in, t)); }
	CHECKM(good & (t == (n > 0 ? n - 1 : 0)), "ranges compose with standard views");
	OBS(n);
	REACH("done");
}
HARNESS_PART(whole) {
	if (part == 0) { uint8_t const b = sym<uint8_t>("stop"); dtl_assume(b <= WHOLE); whole(In<uint8_t, uint8_t>{0, b, 1}, b); }
	else if (part == 1) { int64_t const b = sym<int64_t>("stop"); dtl_assume(b <= WHOLE); whole(In<int64_t, int64_t>{0, b, 1}, b); }
	else if (part == 2) { int32_t const a = sym<int32_t>("start"), b = sym<int32_t>("stop"); dtl_assume((int64_t) b - a <= WHOLE); whole(In<int32_t, int32_t>{a, b, 1}, a, b); }
	else if (part == 3) { uint64_t const a = sym<uint64_t>("start"), b = sym<uint64_t>("stop"); dtl_assume((b <= a) | (b - a <= WHOLE)); whole(In<uint64_t, uint64_t>{a, b, 1}, a, b); }
	else if (part == 4) { auto const in = some_range<int8_t, int8_t>(); dtl_assume(!has(in, WHOLE)); whole(in, in.start, in.stop, in.step); }
	else { auto const in = some_range<int32_t, int32_t>(); dtl_assume(!has(in, WHOLE)); whole(in, in.start, in.stop, in.step); }
}
HARNESS(zero) {
	int32_t const a = sym<int32_t>("start"), b = sym<int32_t>("stop"), s = sym<int32_t>("step");
	bool threw = false;
	try { auto v = dtl::range(a, b, s); (void) v; } catch (std::invalid_argument const &) { threw = true; }
	CHECKM(threw == (s == 0), "exactly a zero step is rejected");
	bool threw2 = false;
	try { auto v = dtl::range(uint64_t{1}, uint64_t{9}, 0ul); (void) v; } catch (std::invalid_argument const &) { threw2 = true; }
	CHECKM(threw2, "a zero step is rejected");
	REACH("done");
}
struct Len { // a unit-like type with its own step type
	int32_t v = 0;
	struct Diff { int32_t d = 0; bool operator==(Diff const &) const = default; auto operator<=>(Diff const &) const = default; };
	bool operator==(Len const &) const = default; auto operator<=>(Len const &) const = default;
	Len &operator+=(Diff s) { v += s.d; return *this; }
	friend Len operator+(Len l, Diff s) { return l += s; }
};
HARNESS(other) {
	int32_t const a = sym<int16_t>("start"), b = sym<int16_t>("stop"), s = sym<int16_t>("step");
	dtl_assume(s != 0);
	In<int32_t, int32_t> const in{a, b, s};
	auto const v = dtl::range(Len{a}, Len{b}, Len::Diff{s});
	auto it = v.begin();
	for (int k = 0; k < STEPS; ++k) {
		bool const h = has(in, k);
		CHECKM((it != v.end()) == h, "iteration ends when stop is met or passed");
		if (!h) break;
		CHECKM(it->v == elem(in, k), "element k is start + k * step");
		++it;
	}
	bool threw = false;
	try { auto w = dtl::range(Len{a}, Len{b}, Len::Diff{0}); (void) w; } catch (std::invalid_argument const &) { threw = true; }
	CHECKM(threw, "a zero step is rejected");
	REACH("done");
}

struct Fix { // a number with a fraction, constructible from integers
	int32_t raw = 0;
	Fix() = default;
	explicit(false) constexpr Fix(int i) : raw{i * 256} {}
	static Fix of(int32_t r) { Fix f; f.raw = r; return f; }
	bool operator==(Fix const &) const = default; auto operator<=>(Fix const &) const = default;
	Fix &operator+=(Fix o) { raw += o.raw; return *this; }
	friend Fix operator+(Fix a, Fix b) { return a += b; }
};
HARNESS(fractions) {
	int32_t const a = sym<int16_t>("start"), b = sym<int16_t>("stop"), s = sym<int16_t>("step");
	dtl_assume(s != 0);
	In<int32_t, int32_t> const in{a, b, s};
	auto const v = dtl::range(Fix::of(a), Fix::of(b), Fix::of(s));
	auto it = v.begin();
	for (int k = 0; k < STEPS; ++k) {
		bool const h = has(in, k);
		CHECKM((it != v.end()) == h, "iteration ends when stop is met or passed");
		if (!h) break;
		CHECKM(it->raw == elem(in, k), "element k is start + k * step");
		++it;
	}
	// without a step: by one; without a start: from zero
	In<int32_t, int32_t> const one{a, b, 256}, zero{0, b, 256};
	auto const w = dtl::range(Fix::of(a), Fix::of(b)), z = dtl::range(Fix::of(b));
	auto iw = w.begin(), iz = z.begin();
	for (int k = 0; k < 2; ++k) {
		CHECKM((iw != w.end()) == has(one, k), "iteration by one ends when stop is met or passed");
		if (!has(one, k)) break;
		CHECKM(iw->raw == elem(one, k), "element k is start + k");
		++iw;
	}
	for (int k = 0; k < 2; ++k) {
		CHECKM((iz != z.end()) == has(zero, k), "iteration from zero ends when stop is met or passed");
		if (!has(zero, k)) break;
		CHECKM(iz->raw == elem(zero, k), "element k is k");
		++iz;
	}
	REACH("done");
}
template<typename D>
static void doubles() {
	static constexpr D steps[] = {D(0.5), D(-0.5), D(1), D(-1), D(0.25), D(1.5), D(-2.5), D(0.75)};
	static constexpr D starts[] = {D(0), D(-1.25), D(2.5), D(1e6)};
	static constexpr D ways[] = {D(0), D(1), D(-1), D(1.75), D(-1.75), D(0.125), D(-0.125)};
	D const step = steps[dtl_choice(8, "step")], start = starts[dtl_choice(4, "start")], way = ways[dtl_choice(7, "way")];
	auto const v = dtl::range(start, start + way, step);
	int n = 0; bool right = true;
	for (D x : v) { right = right & (x == start + (D) n * step); if (++n > 8) break; }
	int want = 0;
	for (D d = 0; step > 0 ? d < way : d > way; d += step) ++want;
	CHECKM(right & (n == want), "a range of floating point numbers has exactly the elements before stop");
	REACH("done");
}
HARNESS_PART(doubles) { if (part == 0) doubles<double>(); else doubles<float>(); }
