SEEDS = [
dict(id="ipow-kind-late", prop="C01", edits=[("ipow.hpp", "auto safe_mul = [base, exp](", "auto safe_mul = [base, &exp](")],
     needs="a negative base whose odd power only overflows after an even number of remaining bits, or an even power that overflows at an odd remaining exponent",
     breaks="overflow_error and underflow_error are mixed up",
     demo=r"""
#include <dice/template-library/ipow.hpp>
#include <cstdint>
int main() {
	int bad = 0;
	for (int b = -9; b <= -2; ++b) for (int e = 2; e < 80; ++e) {
		bool over = false, under = false, ok = true; __int128 v = 1;
		for (int i = 0; i < e && ok; ++i) { v *= b; if (v > INT64_MAX || v < INT64_MIN) ok = false; }
		try { (void) dice::template_library::ipow(static_cast<int64_t>(b), e); } catch (std::overflow_error const &) { over = true; } catch (std::underflow_error const &) { under = true; }
		if (over != (!ok && e % 2 == 0) || under != (!ok && e % 2 == 1)) ++bad;
	}
	return bad != 0;
}
"""),
dict(id="variant2-valueless-order", prop="C03", edits=[("variant2.hpp", """                if (discriminant_ == discriminant_type::ValuelessByException) {
                    return ret_type::less;
                }

                if (other.discriminant_ == discriminant_type::ValuelessByException) {
                    return ret_type::greater;
                }

                return static_cast<ret_type>(discriminant_ <=> other.discriminant_);""",
"""                if (valueless_by_exception()) {
                    return ret_type::less;
                }

                return static_cast<ret_type>(discriminant_ <=> other.discriminant_);""")],
     needs="comparing a variant with a value to one that is valueless",
     breaks="both variants are less than the other: the order is not antisymmetric",
     demo=r"""
#include <dice/template-library/variant2.hpp>
struct X { int v; X(int a) : v(a) { if (a < 0) throw 1; } auto operator<=>(X const &) const = default; };
int main() {
	using V = dice::template_library::variant2<X, int>;
	V a{X{1}}, b{X{2}};
	try { b.emplace<X>(-1); } catch (int) {}
	return !(b < a) || !(a > b) || a < b;
}
"""),
dict(id="variant2-hash-npos", prop="C03", edits=[("variant2.hpp", "            if (discriminant_ != other.discriminant_) {\n                return false;\n            }\n", "            if (valueless_by_exception() || other.valueless_by_exception() || discriminant_ != other.discriminant_) {\n                return false;\n            }\n")],
     needs="two valueless variants",
     breaks="two valueless variants are not equal, although neither is less than the other",
     demo=r"""
#include <dice/template-library/variant2.hpp>
struct X { int v; X(int a) : v(a) { if (a < 0) throw 1; } auto operator<=>(X const &) const = default; };
int main() {
	using V = dice::template_library::variant2<X, int>;
	V a{X{1}}, b{X{2}};
	try { a.emplace<X>(-1); } catch (int) {}
	try { b.emplace<X>(-1); } catch (int) {}
	return !(a == b) || (a <=> b) != 0;
}
"""),
dict(id="flex-array-stale-equality", prop="C04", edits=[("flex_array.hpp", """				return {data_.data(), size_};
			}

			template<typename Cmp>
			constexpr auto lex_compare_impl(flex_array_inner const &other) const noexcept {
				std::span<T const> const self_s{*this};
				std::span<T const> const other_s{other};
				return std::ranges::lexicographical_compare(self_s, other_s, Cmp{});
			}

			template<typename Cmp>
			constexpr auto eq_compare_impl(flex_array_inner const &other) const noexcept {
				std::span<T const> const self_s{*this};
				std::span<T const> const other_s{other};
				return std::ranges::equal(self_s, other_s, Cmp{});
			}
""", """				return {data_.data(), size_};
			}

			template<typename Cmp>
			constexpr auto lex_compare_impl(flex_array_inner const &other) const noexcept {
				std::span<T const> const self_s{*this};
				std::span<T const> const other_s{other};
				return std::ranges::lexicographical_compare(self_s, other_s, Cmp{});
			}

			template<typename Cmp>
			constexpr auto eq_compare_impl(flex_array_inner const &other) const noexcept {
				// fixed number of elements: lets the compiler vectorise the comparison
				if constexpr (max_extent * sizeof(T) <= 16) {
					return size_ == other.size_ && std::ranges::equal(data_, other.data_, Cmp{});
				}
				std::span<T const> const self_s{*this};
				std::span<T const> const other_s{other};
				return std::ranges::equal(self_s, other_s, Cmp{});
			}
""")],
     needs="a small bounded array that was shrunk, so that old elements remain behind its end",
     breaks="arrays with the same elements are not equal",
     demo=r"""
#include <dice/template-library/flex_array.hpp>
int main() {
	using F = dice::template_library::flex_array<int, std::dynamic_extent, 3>;
	F a{1, 2, 3}, b{1, 2, 4};
	a.resize(2); b.resize(2);
	return !(a == b);
}
"""),
dict(id="flex-array-swap-elements", prop="C04", edits=[("flex_array.hpp", "			std::swap(lhs.inner_, rhs.inner_);", """			if constexpr (mode == flex_array_mode::direct_dynamic_limited_size) {
				std::swap_ranges(lhs.begin(), lhs.end(), rhs.begin());
				std::swap(lhs.inner_.size_, rhs.inner_.size_);
			} else {
				std::swap(lhs.inner_, rhs.inner_);
			}""")],
     needs="swapping a shorter bounded array with a longer one",
     breaks="the elements of the longer array behind the size of the shorter one are lost",
     demo=r"""
#include <dice/template-library/flex_array.hpp>
int main() {
	using F = dice::template_library::flex_array<int, std::dynamic_extent, 4>;
	F a{1}, b{2, 3, 4};
	swap(a, b);
	return a.size() != 3 || a[0] != 2 || a[2] != 4 || b.size() != 1 || b[0] != 1;
}
"""),
dict(id="static-string-swap-propagation", prop="C05", edits=[("static_string.hpp", "            swap(a.size_, b.size_);\n            swap(a.alloc_, b.alloc_);", "            swap(a.size_, b.size_);\n            if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_swap::value || std::allocator_traits<allocator_type>::is_always_equal::value) {\n                swap(a.alloc_, b.alloc_);\n            }")],
     needs="an allocator that propagates on move assignment but not on swap, and two strings with unequal allocators",
     breaks="move assignment takes the block but not the allocator, so the block is released by another allocator",
     demo=r"""
#include <dice/template-library/static_string.hpp>
#include <map>
static std::map<void *, int> owner; static int bad;
template<typename T> struct A {
	using value_type = T; using propagate_on_container_move_assignment = std::true_type; using propagate_on_container_swap = std::false_type; using is_always_equal = std::false_type;
	int id;
	A(int i = 0) : id(i) {}
	T *allocate(size_t n) { T *p = static_cast<T *>(::operator new(n * sizeof(T))); owner[p] = id; return p; }
	void deallocate(T *p, size_t) { if (owner[p] != id) ++bad; owner.erase(p); ::operator delete(p); }
	bool operator==(A const &) const = default;
};
int main() {
	{
		using S = dice::template_library::basic_static_string<char, std::char_traits<char>, A<char>>;
		S a{"first", A<char>{1}}, b{"second", A<char>{2}};
		a = std::move(b);
		if (std::string_view(a) != "second") return 2;
	}
	return bad != 0;
}
"""),
dict(id="pool-null-on-exhaustion", prop="C06", edits=[("pool_allocator.hpp", """				if (ptr == nullptr) [[unlikely]] {
					// boost::pool uses null-return instead of exception
					throw std::bad_alloc{};
				}
""", """				if (ptr == nullptr && n_bytes != 0 && sizeof...(rest) != 0) [[unlikely]] {
					// boost::pool uses null-return instead of exception
					throw std::bad_alloc{};
				}
""")],
     needs="the upstream allocation of the last bucket failing",
     breaks="allocate returns a null pointer instead of throwing bad_alloc",
     demo=r"""
#include <cstdlib>
#include <new>
static bool fail = false;
void *operator new(size_t n) { void *p = std::malloc(n); if (!p) throw std::bad_alloc{}; return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return fail ? nullptr : std::malloc(n); }
void *operator new[](size_t n, std::nothrow_t const &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }
#include <dice/template-library/pool_allocator.hpp>
int main() {
	dice::template_library::pool<16, 64> p;
	fail = true;
	try { (void) p.allocate(40); } catch (std::bad_alloc const &) { return 0; }
	return 1;
}
""", san="-fsanitize=undefined -fno-sanitize-recover=all"),
dict(id="fmt-join-empty-skipped", prop="C24", edits=[("fmt_join.hpp", """				// format next element
				format_ctx.advance_to(element_formatter_.format(*it, format_ctx));
				++it;""", """				// format next element
				auto const &elem = *it;
				++it;
				format_ctx.advance_to(element_formatter_.format(elem, format_ctx));""")],
     needs="an iterator whose element lives in the iterator or changes when it is incremented (single-pass ranges)",
     breaks="elements of single-pass ranges are replaced by the following one",
     demo=r"""
#include <dice/template-library/fmt_join.hpp>
#include <sstream>
int main() {
	std::istringstream in("1 2 3 4");
	return std::format("{}", dice::template_library::fmt_join(std::views::istream<int>(in), ",")) != "1,2,3,4";
}
"""),
dict(id="dbg-returns-value", prop="C24", edits=[("dbg.hpp", "    []<typename _dice_dbg_T>(_dice_dbg_T &&val) -> decltype(auto) {                                                          \\", "    []<typename _dice_dbg_T>(_dice_dbg_T &&val) {                                                                            \\")],
     needs="using DICE_DBG on an object whose identity matters, e.g. modifying through it",
     breaks="the expression's value is copied instead of forwarded",
     demo=r"""
#include <dice/template-library/dbg.hpp>
int main() {
	int x = 1;
	auto &&r = DICE_DBG(x);
	return &r != &x;
}
"""),
dict(id="variant2-format-moved", prop="C24", edits=[("variant2.hpp", "            return std::format_to(ctx.out(), \"variant({})\", value);", "            ctx.advance_to(std::format_to(ctx.out(), \"variant({})\", value));\n            return std::format_to(ctx.out(), \"\");"), ("variant2.hpp", "        if (var.valueless_by_exception()) {\n            return std::format_to(ctx.out(), \"variant(valueless by exception)\");\n        }\n", "")],
     needs="formatting a valueless variant",
     breaks="formatting throws bad_variant_access instead of writing that the variant is valueless",
     demo=r"""
#include <dice/template-library/variant2.hpp>
#include <string>
struct X { int v; X(int a) : v(a) { if (a < 0) throw 1; } };
template<> struct std::formatter<X> : std::formatter<int> { auto format(X const &x, auto &c) const { return std::formatter<int>::format(x.v, c); } };
int main() {
	dice::template_library::variant2<X, int> a{X{1}};
	if (std::format("{}", a) != "variant(1)") return 2;
	try { a.emplace<X>(-1); } catch (int) {}
	return std::format("{}", a) != "variant(valueless by exception)";
}
"""),
dict(id="inplace-self-check-late", prop="C09", edits=[("inplace_polymorphic.hpp", """			if (this == &other) {
				return *this;
			}

			drop();
			copy_from(other);
			return *this;""", """			drop();

			if (this == &other) {
				return *this;
			}

			copy_from(other);
			return *this;""")],
     needs="assigning an inplace_polymorphic to itself",
     breaks="it loses its value and is left valueless",
     demo=r"""
#include <dice/template-library/inplace_polymorphic.hpp>
struct B { virtual ~B() = default; virtual int v() const = 0; virtual void copy_to(B *) const = 0; };
struct D : B { int x; D(int a) : x(a) {} int v() const override { return x; } void copy_to(B *d) const override { new (d) D(*this); } };
int main() {
	dice::template_library::inplace_polymorphic<B, D> p{std::in_place_type<D>, 4};
	auto &q = p; p = q;
	return p.valueless_by_exception() || p->v() != 4;
}
"""),
dict(id="defer-function-copied", prop="C13", edits=[("defer.hpp", "explicit ScopeExitGuard(F &&func) noexcept(std::is_nothrow_move_constructible_v<F>) : func_{std::move(func)} {", "explicit ScopeExitGuard(F &&func) noexcept(std::is_nothrow_move_constructible_v<F>) : func_{func} {")],
     needs="a guard made from a temporary function whose copies are observable",
     breaks="the function object is copied instead of moved",
     demo=r"""
#include <dice/template-library/defer.hpp>
static int copies = 0, calls = 0;
struct F { F() = default; F(F const &) { ++copies; } F(F &&) noexcept {} void operator()() const noexcept { ++calls; } };
int main() {
	{ auto g = dice::template_library::make_scope_exit_guard(F{}); }
	return copies != 0 || calls != 1;
}
"""),
]
