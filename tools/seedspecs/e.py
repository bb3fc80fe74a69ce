SEEDS = [
dict(id="flex-array-length-narrowed", prop="C04", edits=[("flex_array.hpp", "				if (static_cast<size_t>(range_size) > max_size()) [[unlikely]] {", "				if (static_cast<unsigned>(range_size) > max_size()) [[unlikely]] {")],
     needs="a random access range of 2^32 or more elements (a counting iterator, say) given to an array with a maximum size",
     breaks="the range is not rejected and elements are written past the end of the array",
     demo=r"""
#include <dice/template-library/flex_array.hpp>
#include <cstdint>
#include <iterator>
#include <new>
#include <stdexcept>
struct Cnt {
	using value_type = std::uint8_t;
	using difference_type = std::int64_t;
	using iterator_category = std::random_access_iterator_tag;
	using reference = std::uint8_t;
	using pointer = void;
	std::int64_t i = 0;
	std::uint8_t operator*() const { if (i > 64) throw 7; return (std::uint8_t) i; }
	std::uint8_t operator[](std::int64_t n) const { return *(*this + n); }
	Cnt &operator++() { ++i; return *this; }
	Cnt operator++(int) { Cnt o = *this; ++i; return o; }
	Cnt &operator--() { --i; return *this; }
	Cnt operator--(int) { Cnt o = *this; --i; return o; }
	Cnt &operator+=(std::int64_t n) { i += n; return *this; }
	Cnt &operator-=(std::int64_t n) { i -= n; return *this; }
	friend Cnt operator+(Cnt c, std::int64_t n) { c.i += n; return c; }
	friend Cnt operator+(std::int64_t n, Cnt c) { c.i += n; return c; }
	friend Cnt operator-(Cnt c, std::int64_t n) { c.i -= n; return c; }
	friend std::int64_t operator-(Cnt a, Cnt b) { return a.i - b.i; }
	auto operator<=>(Cnt const &) const = default;
};
static_assert(std::random_access_iterator<Cnt>);
int main() {
	char room[4096];
	try {
		auto *p = new (room) dice::template_library::flex_array<std::uint8_t, std::dynamic_extent, 4>(Cnt{0}, Cnt{(std::int64_t{1} << 32) + 2});
		(void) p;
		return 1;
	} catch (std::length_error const &) { return 0; } catch (int) { return 2; }
}
"""),
dict(id="polymorphic-always-equal", prop="C08", edits=[("polymorphic_allocator.hpp", "std::bool_constant<sizeof...(Allocators) == 1 && std::allocator_traits<typename detail_pmr::first_type<Allocators<T>...>::type>::is_always_equal::value>", "std::conjunction<typename std::allocator_traits<Allocators<T>>::is_always_equal...>")],
     needs="containers with allocators of two different, each always equal, alternatives, one assigned to the other",
     breaks="allocators of different alternatives claim to be always equal, memory is given back to the wrong one",
     demo=r"""
#include <dice/template-library/polymorphic_allocator.hpp>
#include <cstdlib>
#include <new>
#include <vector>
static int live[2], bad;
template<int K, typename T> struct A {
	using value_type = T;
	using is_always_equal = std::true_type;
	using propagate_on_container_move_assignment = std::false_type;
	A() = default;
	template<typename U> A(A<K, U> const &) noexcept {}
	template<typename U> struct rebind { using other = A<K, U>; };
	T *allocate(std::size_t n) { ++live[K]; return static_cast<T *>(::operator new(n * sizeof(T))); }
	void deallocate(T *p, std::size_t) noexcept { if (--live[K] < 0) ++bad; ::operator delete(p); }
	bool operator==(A const &) const noexcept { return true; }
};
template<typename T> struct A0 : A<0, T> { A0() = default; template<typename U> A0(A0<U> const &) noexcept {} template<typename U> struct rebind { using other = A0<U>; }; };
template<typename T> struct A1 : A<1, T> { A1() = default; template<typename U> A1(A1<U> const &) noexcept {} template<typename U> struct rebind { using other = A1<U>; }; };
using P = dice::template_library::polymorphic_allocator<int, A0, A1>;
int main() {
	{
		std::vector<int, P> a{P{std::in_place_type<A0<int>>}}, b{P{std::in_place_type<A1<int>>}};
		a.assign(5, 1); b.assign(9, 2);
		a = std::move(b);
		if (a.size() != 9 || a[8] != 2) return 1;
	}
	return bad != 0 || live[0] != 0 || live[1] != 0;
}
"""),
dict(id="defer-count-differs", prop="C13", edits=[("defer.hpp", "				return uncaught_exceptions_ < std::uncaught_exceptions();", "				return uncaught_exceptions_ != std::uncaught_exceptions();")],
     needs="a guard that is created while an exception is being handled by unwinding and that outlives it",
     breaks="a guard whose scope ends normally takes the end of the earlier exception for a failure",
     demo=r"""
#include <dice/template-library/defer.hpp>
namespace dtl = dice::template_library;
static int ran;
struct F { void operator()() const { ++ran; } };
using S = dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnSuccess, F>;
using X = dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnFail, F>;
static S *s; static X *x;
struct Maker { ~Maker() { s = new S{F{}}; x = new X{F{}}; } };
int main() {
	try { Maker m; throw 1; } catch (int) {}
	if (ran) return 1;
	delete x;
	if (ran != 0) return 2;
	delete s;
	return ran != 1;
}
"""),
dict(id="channel-iterator-keeps-channel", prop="C10", edits=[("channel.hpp", "                std::swap(chan_, other.chan_);\n                std::swap(buf_, other.buf_);", "                std::swap(buf_, other.buf_);")],
     needs="move assignment between iterators of different channels, then going on",
     breaks="the iterator goes on with the wrong channel",
     demo=r"""
#include <dice/template-library/channel.hpp>
int main() {
	dice::template_library::channel<int> a{4}, b{4};
	for (int i = 0; i < 3; ++i) { a.push(i); b.push(10 + i); }
	a.close(); b.close();
	auto i = a.begin();
	i = b.begin();
	int sum = 0;
	for (; i != b.end(); ++i) sum += *i;
	return sum != 33;
}
"""),
dict(id="exchange-iterator-keeps-channel", prop="C11", edits=[("exchange_channel.hpp", "                chan_ = other.chan_;\n                buf_ = other.buf_;", "                buf_ = other.buf_;")],
     needs="copy assignment between iterators of different channels, then going on",
     breaks="the iterator goes on with the wrong channel",
     demo=r"""
#include <dice/template-library/exchange_channel.hpp>
int main() {
	dice::template_library::exchange_channel<int> a, b;
	a.push(1); b.push(2);
	auto i = a.begin(), j = b.begin();
	a.push(3); b.push(4);
	a.close(); b.close();
	i = j;
	if (*i != 2) return 1;
	++i;
	return i == b.end() || *i != 4;
}
"""),
dict(id="sandbox-stale-errno", prop="C23", edits=[("sandbox.hpp", "} while (res < 0 && errno == EINTR);", "} while (res < 0 || errno == EINTR);")],
     needs="errno still being EINTR from an earlier interrupted call when the sandbox is entered",
     breaks="the parent waits again for a process it has already waited for and never returns",
     demo=r"""
#include <dice/template-library/sandbox.hpp>
#include <unistd.h>
using dice::template_library::SubProcessResult;
int main() {
	alarm(20);
	errno = EINTR;
	auto const r = DICE_SANDBOX { };
	return r != SubProcessResult::ExitSuccess;
}
"""),
dict(id="inplace-arguments-copied", prop="C09", edits=[("inplace_polymorphic.hpp", """			DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY((std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>), {
				new (&storage_) T{std::forward<Args>(args)...};
			});
		}

		/**
		 * Copy the inner""", """			DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY((std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>), {
				new (&storage_) T{args...};
			});
		}

		/**
		 * Copy the inner""")],
     needs="constructing in place from an rvalue of a type that tells copies from moves",
     breaks="the argument is copied instead of moved",
     demo=r"""
#include <dice/template-library/inplace_polymorphic.hpp>
#include <memory>
struct B { virtual ~B() = default; virtual long uses() const = 0; };
struct D : B { std::shared_ptr<int> p; D(std::shared_ptr<int> q) : p(std::move(q)) {} long uses() const override { return p.use_count(); } };
int main() {
	auto p = std::make_shared<int>(3);
	dice::template_library::inplace_polymorphic<B, D> x{std::in_place_type<D>, std::move(p)};
	return x->uses() != 1 || p;
}
"""),
dict(id="tuple-fold-copies", prop="C18", edits=[("tuple_algorithm.hpp", "((init = f(std::move(init), get_impl<Ixs>(tuple))), ...);", "((init = f(init, get_impl<Ixs>(tuple))), ...);")],
     needs="an accumulator whose copies are not equivalent to the original (a shared or move-only one)",
     breaks="the accumulator is copied for every element instead of handed on",
     demo=r"""
#include <dice/template-library/tuple_algorithm.hpp>
#include <memory>
#include <tuple>
int main() {
	std::tuple<int, int, int> t{1, 2, 3};
	bool shared = false;
	auto r = dice::template_library::tuple_fold(t, std::make_shared<int>(0), [&](std::shared_ptr<int> acc, int x) { shared |= acc.use_count() != 1; *acc += x; return acc; });
	return shared || *r != 6;
}
"""),
]
