SEEDS = [
dict(id="ptp-mask-small", prop="C14", edits=[("pointer_tag_pair.hpp", "static constexpr uintptr_t tag_mask = (static_cast<uintptr_t>(1) << BitsRequested) - 1;", "static constexpr uintptr_t tag_mask = static_cast<uint8_t>((static_cast<uintptr_t>(1) << BitsRequested) - 1);")],
     needs="more than 8 tag bits (over-aligned pointees or promised alignment) and a tag above 255",
     breaks="the upper bits of the tag are lost",
     demo=r"""
#include <cstdint>
#include <dice/template-library/pointer_tag_pair.hpp>
alignas(4096) static char buf[4096];
int main() {
	using P = dice::template_library::pointer_tag_pair<char, unsigned, 12>;
	P p = P::from_tagged(reinterpret_cast<void *>(reinterpret_cast<uintptr_t>(buf) | 0xabc));
	return p.tag() != 0xabc || p.pointer() != buf;
}
"""),
dict(id="switch-truncated-range-check", prop="C15", edits=[("switch_cases.hpp", "if (min <= condition && condition < max) {", "if (static_cast<unsigned>(condition) - static_cast<unsigned>(min) < static_cast<unsigned>(max) - static_cast<unsigned>(min)) {")],
     needs="a condition of a 64 bit type that differs from a case by a multiple of 2^32",
     breaks="a value outside of the range runs a case instead of the default function",
     demo=r"""
#include <dice/template-library/switch_cases.hpp>
#include <cstdint>
int main() {
	auto f = [](auto i) { return static_cast<int>(decltype(i)::value); };
	return dice::template_library::switch_cases<int64_t{0}, int64_t{4}>((int64_t{1} << 32) + 1, f, [] { return -1; }) != -1;
}
"""),
dict(id="slt-uniform-moved", prop="C16", edits=[("standard_layout_tuple.hpp", "\t\t\t: first{args...},\n", "\t\t\t: first{std::forward<Args>(args)...},\n")],
     needs="uniform construction from an rvalue whose move constructor takes its contents",
     breaks="only the first element gets the value, the others are constructed from the moved-from argument",
     demo=r"""
#include <dice/template-library/standard_layout_tuple.hpp>
#include <string>
int main() {
	using namespace dice::template_library;
	standard_layout_tuple<std::string, std::string> t{uniform_construct, std::string(40, 'x')};
	return t.get<0>().size() != 40 || t.get<1>().size() != 40;
}
"""),
dict(id="itv-move-assign-terminates", prop="C17", edits=[("integral_template_variant.hpp", "operator=(integral_template_variant &&other) noexcept(std::is_nothrow_move_assignable_v<underlying_type>) = default;", "operator=(integral_template_variant &&other) noexcept(std::is_nothrow_move_constructible_v<underlying_type>) = default;")],
     needs="an alternative that moves without exceptions but whose move assignment throws",
     breaks="the exception of the element terminates the program instead of reaching the caller",
     demo=r"""
#include <dice/template-library/integral_template_variant.hpp>
template<int I> struct E { E() = default; E(E &&) noexcept {} E(E const &) = default; E &operator=(E &&) { throw 1; } E &operator=(E const &) = default; auto operator<=>(E const &) const = default; };
int main() {
	dice::template_library::integral_template_variant<0, 2, E> a{E<1>{}}, b{E<1>{}};
	try { a = std::move(b); } catch (int) { return 0; }
	return 1;
}
"""),
dict(id="itv-index-narrow", prop="C17", edits=[("integral_template_variant.hpp", "return static_cast<index_type>(first - repr_.index());", "return static_cast<index_type>(first - static_cast<signed char>(repr_.index()));")],
     needs="a descending range with more than 128 elements and an alternative behind the 128th",
     breaks="index() reports an index above the first one",
     demo=r"""
#include <dice/template-library/integral_template_variant.hpp>
template<int I> struct E { auto operator<=>(E const &) const = default; };
int main() {
	dice::template_library::integral_template_variant<150, 0, E> a{E<10>{}};
	return a.index() != 10;
}
"""),
dict(id="tuple-for-each-forwards", prop="C18", edits=[("tuple_algorithm.hpp", "return (f(get_impl<Ixs>(fw_tuple)), ...);", "return (f(get_impl<Ixs>(fw_tuple)) , ..., void());"), ],
     needs="x", breaks="x", demo="int main() { return 1; }"),
dict(id="for-values-consumed", prop="C18", edits=[("for.hpp", "(f.template operator()<Ts>(), ...);", "([&](auto g) { g.template operator()<Ts>(); }(f), ...);")],
     needs="a function object that keeps state between the calls",
     breaks="every type is visited with a fresh copy of the function object, its state is lost",
     demo=r"""
#include <dice/template-library/for.hpp>
struct F { int n = 0; template<typename T> void operator()() { n = n * 10 + sizeof(T); } };
int main() {
	F f;
	dice::template_library::for_types<char, short, int>(f);
	return f.n != 124;
}
"""),
dict(id="range-fractional-step", prop="C19", edits=[("ranges.hpp", "\t\t\t[[nodiscard]] constexpr std::optional<T> next() noexcept {\n\t\t\t\tif (step_ > S{}) {", "\t\t\t[[nodiscard]] constexpr std::optional<T> next() noexcept {\n\t\t\t\tif (step_ >= static_cast<S>(1)) {")],
     needs="a positive step below one, of a floating point type",
     breaks="the range is taken for a descending one and is empty (or never ends)",
     demo=r"""
#include <dice/template-library/ranges.hpp>
int main() {
	int n = 0;
	for (double x : dice::template_library::range(0.0, 2.0, 0.5)) { (void) x; ++n; }
	return n != 4;
}
"""),
dict(id="lexcmp-unordered-skipped", prop="C20", edits=[("ranges.hpp", "                    if (res != 0) {\n                        return res;\n                    }", "                    if (res < 0 || res > 0) {\n                        return res;\n                    }")],
     needs="elements that are unordered (NaN)",
     breaks="an unordered pair of elements counts as equal instead of making the ranges unordered",
     demo=r"""
#include <dice/template-library/ranges.hpp>
#include <vector>
#include <limits>
int main() {
	double const n = std::numeric_limits<double>::quiet_NaN();
	std::vector<double> a{1, n}, b{1, 2};
	return dice::template_library::lexicographical_compare_three_way(a, b) != std::partial_ordering::unordered;
}
"""),
dict(id="opt-max-default-cmp", prop="C21", edits=[("opt_minmax.hpp", "return opt_max_element(ilist, cmp);", "return opt_max_element(ilist);")],
     needs="opt_max of an initializer list with a comparator of its own",
     breaks="the comparator is ignored",
     demo=r"""
#include <dice/template-library/opt_minmax.hpp>
#include <functional>
int main() {
	std::optional<int> const a = 1, b = 5, c;
	return dice::template_library::opt_max({a, b, c}, std::greater<int>{}) != 1;
}
"""),
dict(id="opt-minmax-shared-branch", prop="C21", edits=[("opt_minmax.hpp", "                    if (ret.has_value()) {\n                        if (std::invoke(cmp, deref(val), ret->min)) {\n                            ret->min = deref(val);\n                        }\n                        if (std::invoke(cmp, ret->max, deref(val))) {\n                            ret->max = deref(val);\n                        }",
   "                    if (ret.has_value()) {\n                        if (std::invoke(cmp, deref(val), ret->min)) {\n                            ret->min = deref(val);\n                        } else if (std::invoke(cmp, ret->min, deref(val))) {\n                            ret->max = deref(val);\n                        }")],
     needs="an element between the current minimum and the current maximum, after the maximum",
     breaks="the maximum is replaced by a smaller element",
     demo=r"""
#include <dice/template-library/opt_minmax.hpp>
#include <vector>
int main() {
	std::vector<int> v{1, 9, 5};
	auto r = dice::template_library::opt_minmax_element(v);
	return !r || r->min != 1 || r->max != 9;
}
"""),
dict(id="next-iter-peek-skip", prop="C22", edits=[("next_to_range.hpp", "\t\t\t\t\t\tpeeked_.reset(); // discard peeked value\n\t\t\t\t\t\tcur_ = nth(off - 1);", "\t\t\t\t\t\tpeeked_.reset(); // discard peeked value\n\t\t\t\t\t\tcur_ = nth(off);")],
     needs="peek() followed by += with an offset above one",
     breaks="one element too many is skipped",
     demo=r"""
#include <dice/template-library/ranges.hpp>
int main() {
	auto r = dice::template_library::range(0, 10);
	auto it = r.begin();
	if (it.peek() != 1) return 1;
	it += 3;
	return *it != 3;
}
"""),
dict(id="view-advance-front", prop="C22", edits=[("next_to_range.hpp", "\t\t\tif (off != 0) {\n\t\t\t\t// \"nth\" advances behind the nth element\n\t\t\t\toff -= 1;\n\t\t\t\t(void) iter_.nth(off);\n\t\t\t}", "\t\t\tif (off > 1) {\n\t\t\t\t// \"nth\" advances behind the nth element\n\t\t\t\toff -= 1;\n\t\t\t\t(void) iter_.nth(off);\n\t\t\t}")],
     needs="advance(1) on a view", breaks="the first element is not dropped",
     demo=r"""
#include <dice/template-library/ranges.hpp>
int main() {
	auto r = dice::template_library::range(0, 10);
	r.advance(1);
	return r.front() != 1 || r.size() != 9;
}
"""),
dict(id="sandbox-interrupted-wait", prop="C23", edits=[("sandbox.hpp", "} while (res < 0 && errno == EINTR);", "} while (res == 0);")],
     needs="a signal that is delivered to the parent while the child runs",
     breaks="an exception is thrown instead of waiting for the child",
     demo=r"""
#include <dice/template-library/sandbox.hpp>
#include <csignal>
#include <cstring>
#include <sys/time.h>
#include <ctime>
int main() {
	struct sigaction sa{}; sa.sa_handler = [](int) {}; sigaction(SIGALRM, &sa, nullptr);
	itimerval t{}; t.it_value.tv_usec = 100000; setitimer(ITIMER_REAL, &t, nullptr);
	try {
		auto r = DICE_SANDBOX { timespec x{0, 500000000}; nanosleep(&x, nullptr); };
		return r != dice::template_library::SubProcessResult::ExitSuccess;
	} catch (std::exception const &) { return 1; }
}
"""),
dict(id="sandbox-blocked-signals", prop="C23", edits=[("sandbox.hpp", "::sigprocmask(SIG_SETMASK, &empty_sigs, nullptr);", "::sigprocmask(SIG_BLOCK, &empty_sigs, nullptr);")],
     needs="a parent that blocks a signal which ends the child",
     breaks="the signal stays blocked in the child: it is not ended by it and a wrong result is reported",
     demo=r"""
#include <dice/template-library/sandbox.hpp>
#include <csignal>
int main() {
	sigset_t s; sigemptyset(&s); sigaddset(&s, SIGTERM); sigprocmask(SIG_BLOCK, &s, nullptr);
	auto r = DICE_SANDBOX { raise(SIGTERM); };
	return r != dice::template_library::SubProcessResult::Terminated;
}
"""),
dict(id="sandbox-lost-output", prop="C23", edits=[("sandbox.hpp", "            std::cout.flush();\n            std::cerr.flush();\n\n            fflush(nullptr);", "            std::cout.flush();\n            std::cerr.flush();\n\n            fflush(stderr);")],
     needs="output through stdio that is still buffered when the process forks",
     breaks="buffered output of the parent is not written before, and that of the child is lost",
     demo=r"""
#include <dice/template-library/sandbox.hpp>
#include <cstdio>
#include <cstring>
int main() {
	FILE *f = tmpfile();
	if (!f) return 2;
	fputs("a", f);
	(void) (DICE_SANDBOX { fputs("b", f); });
	char buf[8] = {};
	ssize_t n = pread(fileno(f), buf, 7, 0);
	return n != 2 || strcmp(buf, "ab") != 0;
}
"""),
dict(id="fmt-join-separator-terminated", prop="C24", edits=[("fmt_join.hpp", "\t\t\tauto it = std::ranges::begin(join_obj.range);\n\t\t\tauto const end = std::ranges::end(join_obj.range);\n\n\t\t\tif (it == end) {\n\t\t\t\treturn format_ctx.out();\n\t\t\t}\n\n\t\t\t// format the first element\n\t\t\tformat_ctx.advance_to(element_formatter_.format(*it, format_ctx));\n\t\t\t++it;\n",
   "\t\t\tauto it = std::ranges::begin(join_obj.range);\n\t\t\tauto const end = std::ranges::end(join_obj.range);\n\n\t\t\tif (it == end) {\n\t\t\t\treturn format_ctx.out();\n\t\t\t}\n\n\t\t\t// format the first element\n\t\t\telement_formatter_.format(*it, format_ctx);\n\t\t\t++it;\n")],
     needs="a format context whose output iterator is not just a handle on the sink (formatting to a plain buffer or a formatted size)",
     breaks="x",
     demo="int main() { return 1; }"),
dict(id="stdint-isize-via-int", prop="C26", edits=[("stdint.hpp", "        return static_cast<intptr_t>(value);", "        return static_cast<int>(value);")],
     needs="an _iptr literal that does not fit 32 bits", breaks="the upper half of the value is lost",
     demo=r"""
#include <dice/template-library/stdint.hpp>
int main() {
	using namespace dice::template_library::literals;
	return 0x123456789_iptr != intptr_t{0x123456789};
}
"""),
dict(id="bind-front-copies-once", prop="C25", edits=[("functional.hpp", "return std::invoke(func, dice::template_library::forward_like<Self>(bound_args)..., std::forward<RestArgs>(rest_args)...);", "return std::invoke(func, std::move(bound_args)..., std::forward<RestArgs>(rest_args)...);")],
     needs="calling the bound function twice with a bound argument that is taken by value and can be moved from",
     breaks="the second call gets a moved-from argument",
     demo=r"""
#include <dice/template-library/functional.hpp>
#include <string>
static size_t len(std::string s, int x) { return s.size() + x; }
int main() {
	auto f = dice::template_library::bind_front<&len>(std::string(50, 'x'));
	if (f(1) != 51) return 1;
	return f(2) != 52;
}
"""),
dict(id="match-by-copy", prop="C25", edits=[("overloaded.hpp", "return visit(overloaded{std::forward<Fs>(visitors)...}, std::forward<Variant>(variant));", "return visit(overloaded{std::forward<Fs>(visitors)...}, variant);")],
     needs="matching an rvalue variant with a visitor that wants to move from it",
     breaks="the value category is lost: the element is copied (or the call does not compile)",
     demo=r"""
#include <dice/template-library/overloaded.hpp>
#include <variant>
struct S { int copies = 0; S() = default; S(S const &o) : copies{o.copies + 1} {} S(S &&o) noexcept : copies{o.copies} {} };
int main() {
	std::variant<int, S> v{S{}};
	int r = dice::template_library::match(std::move(v), [](int) { return -1; }, [](S s) { return s.copies; });
	return r != 0;
}
"""),
]
SEEDS = [s for s in SEEDS if s["breaks"] != "x"]
