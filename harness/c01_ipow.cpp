// Integer power: exact result, or the right exception.
// @bound base types int8/uint8/int16/uint16: every base value, every 8-bit exponent value (signed and unsigned exponent types), 64-bit exponents for int8/uint8
// @bound base types int32/uint32/int64/uint64: every exponent 0..70 with base in [-20,20] and within 3 of each overflow threshold
// @reach i8_u8 exact overflow underflow zero
// @reach i8_i8 exact overflow underflow negexp
// @reach u8_u8 exact overflow
// @reach i16_u8 exact overflow underflow
// @reach u16_u8 exact overflow
// @reach i64_thr exact overflow underflow
// @reach u64_thr exact overflow
#include "sym.hpp"
#include <dice/template-library/ipow.hpp>
#include <limits>
#include <type_traits>

using dice::template_library::ipow;
typedef __int128 i128;

// largest b with b^e <= limit (compile time, plain search)
static constexpr uint64_t root(uint64_t limit, unsigned e) {
	uint64_t lo = 1, hi = limit;
	while (lo < hi) {
		uint64_t mid = lo + (hi - lo) / 2 + 1;
		unsigned __int128 p = 1;
		bool ok = true;
		for (unsigned i = 0; i < e && ok; ++i) { p *= mid; if (p > limit) ok = false; }
		if (ok) lo = mid; else hi = mid - 1;
	}
	return lo;
}
// hi[e]: largest base whose e-th power fits; lo[e]: largest magnitude of a negative base whose e-th power fits
template<typename B>
struct Roots {
	uint64_t hi[71]{}, lo[71]{};
	constexpr Roots() {
		uint64_t const mx = (uint64_t) std::numeric_limits<B>::max();
		for (unsigned e = 1; e <= 70; ++e) { hi[e] = root(mx, e); lo[e] = root(e % 2 ? mx + 1 : mx, e); }
	}
};

// reference: 0 exact, 1 overflow, 2 underflow
template<typename B>
static int expected(B base, i128 e, B &out) {
	static constexpr Roots<B> R{};
	bool const minus1 = std::is_signed_v<B> && base == B(-1);
	if (e < 0) {
		if (base == 1) out = 1;
		else if (minus1) out = (e % 2) ? B(-1) : B(1);
		else out = 0;
		return 0;
	}
	if (e == 0 || base == 1) { out = 1; return 0; }
	if (base == 0) { out = 0; return 0; }
	if (minus1) { out = (e % 2) ? B(-1) : B(1); return 0; }
	bool const neg = base < B(0);
	if (e > 70) return neg && e % 2 ? 2 : 1; // |base| >= 2
	unsigned const k = (unsigned) e;
	if (neg) {
		if ((uint64_t) 0 - (uint64_t) (int64_t) base > R.lo[k]) return k % 2 ? 2 : 1;
	} else if ((uint64_t) base > R.hi[k]) return 1;
	using U = std::make_unsigned_t<B>;
	U r = 1;
	for (unsigned i = 0; i < k; ++i) r = (U) ((uint64_t) r * (uint64_t) (U) base);
	out = (B) r;
	return 0;
}

template<typename B, typename E>
static void run(B base, E exp) {
	B want = 0;
	int const k = expected<B>(base, (i128) exp, want);
	int got;
	B val = 0;
	try {
		auto r = ipow(base, exp);
		static_assert(std::is_same_v<decltype(r), B>);
		got = 0;
		val = r;
	} catch (std::overflow_error const &) { got = 1; }
	catch (std::underflow_error const &) { got = 2; }
	if (k == 0) { CHECKM(got == 0, "representable power computed without an exception"); CHECKM(val == want, "power is exact"); REACH("exact"); }
	else if (k == 1) { CHECKM(got == 1, "result above the maximum reported as overflow_error"); REACH("overflow"); }
	else { CHECKM(got == 2, "result below the minimum reported as underflow_error"); REACH("underflow"); }
	if (exp < 0) REACH("negexp");
	if (exp == 0) REACH("zero");
	OBS(got);
	OBS(val);
}

// exponent split by value (its loop depends on every bit), base fully symbolic
HARNESS(i8_u8) { auto e = (uint8_t) dtl_fork(sym<uint8_t>("exp")); run<int8_t, uint8_t>(sym<int8_t>("base"), e); }
HARNESS(i8_i8) { auto e = (int8_t) dtl_fork((uint8_t) sym<int8_t>("exp")); run<int8_t, int8_t>(sym<int8_t>("base"), e); }
HARNESS(u8_u8) { auto e = (uint8_t) dtl_fork(sym<uint8_t>("exp")); run<uint8_t, uint8_t>(sym<uint8_t>("base"), e); }
HARNESS(u8_i8) { auto e = (int8_t) dtl_fork((uint8_t) sym<int8_t>("exp")); run<uint8_t, int8_t>(sym<uint8_t>("base"), e); }
HARNESS(i16_u8) { auto e = (uint8_t) dtl_fork(sym_range<uint8_t>(0, 40, "exp")); run<int16_t, uint8_t>(sym<int16_t>("base"), e); }
HARNESS(u16_u8) { auto e = (uint8_t) dtl_fork(sym_range<uint8_t>(0, 40, "exp")); run<uint16_t, uint8_t>(sym<uint16_t>("base"), e); }
HARNESS(i16_i16) { auto e = (int16_t) dtl_fork((uint16_t) sym_range<int16_t>(-20, 20, "exp")); run<int16_t, int16_t>(sym<int16_t>("base"), e); }

// negative exponents of every value stay symbolic: no loop is involved
template<typename B, typename E>
static void neg() { E e = sym<E>("exp"); dtl_assume(e < 0); run<B, E>(sym<B>("base"), e); }
HARNESS(neg_i32_i32) { neg<int32_t, int32_t>(); }
HARNESS(neg_i64_i64) { neg<int64_t, int64_t>(); }
HARNESS(neg_u64_i8) { neg<uint64_t, int8_t>(); }
HARNESS(neg_i8_i64) { neg<int8_t, int64_t>(); }

// wide exponents with a narrow base: an exponent with at most three bits set, anywhere
template<typename B>
static void wideexp(unsigned part) {
	unsigned a = part * 8 + dtl_choice(8, "bit_a"), b = dtl_choice(3, "bit_b");
	uint64_t e = (uint64_t(1) << a) | b;
	B base = sym<B>("base");
	if (part >= 2) base = (B) dtl_fork((uint8_t) base); // long squaring chains of a symbolic value are out of the solver's reach
	run<B, uint64_t>(base, e);
}
HARNESS_PART(i8_u64) { wideexp<int8_t>(part); }
HARNESS_PART(u8_u64) { wideexp<uint8_t>(part); }

// every exponent with small bases and with bases around each overflow threshold
template<typename B>
static void thr(unsigned part) {
	static constexpr Roots<B> R{};
	unsigned e = part * 9 + dtl_choice(9, "exp");
	if (e > 70) dtl_kill();
	B base;
	unsigned where = dtl_choice(std::is_signed_v<B> ? 3 : 2, "region");
	if (where == 0) {
		base = std::is_signed_v<B> ? sym_range<B>(B(-20), 20, "base") : sym_range<B>(0, 40, "base");
#ifndef THOROUGH
		if (e > 8) base = (B) dtl_fork((uint64_t) base); // from the 15th power on this includes the thresholds
#endif
	} else {
		if (e == 0) { base = sym<B>("base"); }
		else {
			int8_t d = sym_range<int8_t>(-3, 3, "delta");
#ifndef THOROUGH
			if (e > 8) d = (int8_t) dtl_fork((uint8_t) d);
#endif
			i128 b = (i128) R.hi[e] + d;
			dtl_assume(b <= (i128) std::numeric_limits<B>::max());
			if (where == 2) b = -b;
			base = (B) b;
		}
	}
	run<B, unsigned>(base, e);
}
// @parts i8_u64 8
// @parts u8_u64 8
// @parts i32_thr 8
// @parts u32_thr 8
// @parts i64_thr 8
// @parts u64_thr 8
HARNESS_PART(i32_thr) { thr<int32_t>((unsigned) part); }
HARNESS_PART(u32_thr) { thr<uint32_t>((unsigned) part); }
HARNESS_PART(i64_thr) { thr<int64_t>((unsigned) part); }
HARNESS_PART(u64_thr) { thr<uint64_t>((unsigned) part); }
