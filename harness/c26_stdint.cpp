// literals for integers of a fixed size
// @bound every 64-bit literal value, all twelve literals; values that fit the type
// @reach literals done
#include "../runtime/sym.hpp"
#include <dice/template-library/stdint.hpp>
#include <limits>

using namespace dice::template_library::literals;
template<typename T>
static void check(T got, unsigned long long v) {
	if (dtl_fork(v <= (unsigned long long) std::numeric_limits<T>::max())) CHECKM(got >= T{} && (unsigned long long) got == v, "the literal has the value that is written");
}
#define TYPE(T, lit) static_assert(std::is_same_v<decltype(1##lit), T> && std::is_same_v<decltype(operator""##lit(1)), T> && noexcept(operator""##lit(1)) && 0##lit == 0 && 0x7f##lit == 127)
TYPE(uint8_t, _u8); TYPE(int8_t, _i8); TYPE(uint16_t, _u16); TYPE(int16_t, _i16); TYPE(uint32_t, _u32); TYPE(int32_t, _i32);
TYPE(uint64_t, _u64); TYPE(int64_t, _i64); TYPE(size_t, _usize); TYPE(ptrdiff_t, _isize); TYPE(uintptr_t, _uptr); TYPE(intptr_t, _iptr);
HARNESS(literals) {
	unsigned long long const v = sym<unsigned long long>("value");
	switch (dtl_choice(12, "literal")) {
		case 0: check<uint8_t>(operator""_u8(v), v); break;
		case 1: check<int8_t>(operator""_i8(v), v); break;
		case 2: check<uint16_t>(operator""_u16(v), v); break;
		case 3: check<int16_t>(operator""_i16(v), v); break;
		case 4: check<uint32_t>(operator""_u32(v), v); break;
		case 5: check<int32_t>(operator""_i32(v), v); break;
		case 6: check<uint64_t>(operator""_u64(v), v); break;
		case 7: check<int64_t>(operator""_i64(v), v); break;
		case 8: check<size_t>(operator""_usize(v), v); break;
		case 9: check<ptrdiff_t>(operator""_isize(v), v); break;
		case 10: check<uintptr_t>(operator""_uptr(v), v); break;
		default: check<intptr_t>(operator""_iptr(v), v); break;
	}
	REACH("done");
}
