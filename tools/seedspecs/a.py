SEEDS = [
dict(id="ipow-exponent-narrowed", prop="C01", edits=[("ipow.hpp", "while (exp > 0) {", "for (auto left = static_cast<unsigned>(exp); left > 0;) {"),
   ("ipow.hpp", "if (exp & 1) {", "if (left & 1) {"), ("ipow.hpp", "exp >>= 1;", "left >>= 1;"), ("ipow.hpp", "            if (exp > 0) {\n                acc", "            if (left > 0) {\n                acc")],
     needs="an exponent of a 64 bit type that is at least 2^32",
     breaks="the upper half of the exponent is dropped: 2^(2^32) is 1 instead of an overflow_error",
     demo=r"""
#include <dice/template-library/ipow.hpp>
#include <cstdint>
int main() {
	using dice::template_library::ipow;
	try { (void) ipow(2, uint64_t(1) << 32); return 1; } catch (std::overflow_error const &) {}
	if (ipow(uint8_t(1), uint64_t(1) << 40) != 1 || ipow(-1, (int64_t(1) << 40) + 1) != -1) return 2;
	return 0;
}
"""),
dict(id="variant2-emplace-late-discriminant", prop="C02", edits=[("variant2.hpp", '''                        case discriminant_type::Second: {
                            b_.~U();
                            new (&b_) U{std::forward<Args>(args)...};
                            break;
                        }''', '''                        case discriminant_type::Second: {
                            if constexpr (std::is_nothrow_constructible_v<U, Args &&...> || !std::is_move_assignable_v<U>) {
                                b_.~U();
                                new (&b_) U{std::forward<Args>(args)...};
                            } else {
                                b_ = U{std::forward<Args>(args)...};
                            }
                            break;
                        }''')],
     needs="emplacing the second alternative over itself with a constructor that throws",
     breaks="the old element is neither destroyed nor reported: the variant is marked valueless while the element still lives, so it is never destroyed",
     demo=r'''
#include <dice/template-library/variant2.hpp>
#include <cstdio>
static int live = 0;
struct S {
	S(int x) { if (x < 0) throw 1; ++live; }
	S(S const &) { ++live; }
	S &operator=(S const &) { return *this; }
	~S() { --live; }
};
int main() {
	{
		dice::template_library::variant2<long, S> v{S{1}};
		try { v.emplace<S>(-1); } catch (int) {}
	}
	return live != 0;
}
'''),
dict(id="variant2-valassign-throw", prop="C02", edits=[("variant2.hpp", '''        constexpr variant2 &operator=(U &&value) noexcept(std::is_nothrow_move_assignable_v<U>
                                                            && std::is_nothrow_destructible_v<T>
                                                            && std::is_nothrow_move_constructible_v<U>) {
            switch (discriminant_) {
                case discriminant_type::First: {
                    a_.~T();
                    DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {''', '''        constexpr variant2 &operator=(U &&value) noexcept(std::is_nothrow_move_assignable_v<U>
                                                            && std::is_nothrow_destructible_v<T>
                                                            && std::is_nothrow_move_constructible_v<U>) {
            switch (discriminant_) {
                case discriminant_type::First: {
                    a_.~T();
                    DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_assignable_v<U>, {''')],
     needs="an element type whose move assignment cannot throw but whose move construction can, and a throw while replacing the first alternative by it",
     breaks="after the exception the variant still claims to hold the first alternative, which has been destroyed already: use after destruction and double destruction",
     demo=r'''
#include <dice/template-library/variant2.hpp>
static int live = 0; static bool boom = false;
struct A { A() { ++live; } A(A const &) { ++live; } ~A() { --live; } A &operator=(A const &) = default; };
struct B { B() {} B(B &&) noexcept(false) { if (boom) throw 1; } B(B const &) {} B &operator=(B &&) noexcept { return *this; } B &operator=(B const &) noexcept { return *this; } };
int main() {
	{
		dice::template_library::variant2<A, B> v{A{}};
		B b; boom = true;
		try { v = std::move(b); } catch (int) {}
		if (!v.valueless_by_exception()) return 1;
	}
	return live != 0;
}
'''),
dict(id="flex-array-input-iter-bound", prop="C04", edits=[("flex_array.hpp", "if constexpr (has_max_extent && std::random_access_iterator<Iter>) {", "if constexpr (has_max_extent && std::forward_iterator<Iter>) {"),
                                                           ("flex_array.hpp", "if (ix >= max_size()) [[unlikely]] {", "if (ix > max_size()) [[unlikely]] {"),
                                                           ("flex_array.hpp", "if constexpr (!std::random_access_iterator<Iter>) {", "if constexpr (!std::forward_iterator<Iter>) {")],
     needs="a single pass input range with exactly one element more than the maximum size",
     breaks="one element is written past the end of the storage instead of throwing length_error",
     demo=r'''
#include <dice/template-library/flex_array.hpp>
#include <sstream>
#include <iterator>
int main() {
	using F = dice::template_library::flex_array<int, std::dynamic_extent, 3>;
	std::istringstream is{"1 2 3 4"};
	try { F f(std::istream_iterator<int>{is}, std::istream_iterator<int>{}); return 1; } catch (std::length_error const &) { return 0; }
}
'''),
dict(id="static-string-unequal-move", prop="C05", edits=[("static_string.hpp", '''                if (alloc_ == other.alloc_) [[likely]] {''', '''                if (alloc_ == other.alloc_ || size_ == other.size_) [[likely]] {''')],
     needs="move assignment between strings of equal length with unequal, non-propagating allocators",
     breaks="blocks are swapped between unequal allocators and later released by the wrong one",
     demo=r'''
#include <dice/template-library/static_string.hpp>
#include <map>
static std::map<void *, int> owner; static int bad = 0;
template<typename T> struct Al {
	using value_type = T; int id;
	using propagate_on_container_move_assignment = std::false_type; using is_always_equal = std::false_type;
	Al(int i = 0) : id{i} {}
	T *allocate(size_t n) { T *p = std::allocator<T>{}.allocate(n); owner[p] = id; return p; }
	void deallocate(T *p, size_t n) { if (owner[p] != id) bad = 1; std::allocator<T>{}.deallocate(p, n); }
	bool operator==(Al const &o) const { return id == o.id; }
};
int main() {
	using S = dice::template_library::basic_static_string<char, std::char_traits<char>, Al<char>>;
	{ S a{"abc", 1}; S b{"xyz", 2}; a = std::move(b); }
	{ S a{"abc", 1}; S b{"xy", 2}; a = std::move(b); }
	return bad;
}
'''),
dict(id="pool-empty-allocation", prop="C06", edits=[("pool_allocator.hpp", """			if (n_bytes <= bucket_size) {
				// fits into bucket
				pools_[ix].free(data);""", """			if (n_bytes - 1 < bucket_size) {
				// fits into bucket
				pools_[ix].free(data);""")],
     needs="releasing an allocation of zero bytes (zero elements)",
     breaks="the block of a bucket is released with delete[] although it belongs to an arena",
     demo=r"""
#include <dice/template-library/pool_allocator.hpp>
int main() {
	dice::template_library::pool_allocator<int, 8, 16> a;
	int *x = a.allocate(1);
	int *p = a.allocate(0);
	a.deallocate(p, 0);
	a.deallocate(x, 1);
	return 0;
}
"""),
]
