// fmt_join, format_to_ostream and DICE_DBG
// IO
// @bound joins of 0 to 3 (thorough: 4) elements with every content of up to 2 characters, from vectors, initializer lists, lists, filtered, generated and single-pass ranges, with character, literal, string and string view separators of up to 2 characters, narrow and wide, with and without a format specification; streams in every state, with buffers that fail at any character, and throwing formatters; every printed value; variant2 and static_string with every content of up to 2 characters (without padding)
// @parts join 8
// @reach join done none some
// @reach spec done
// @reach wide done
// @parts stream 2
// @parts strings 2
// @reach stream done bad written failed thrown
// @reach preexisting done
// @reach dbg done
// @reach variants done valueless
// @reach strings done
#include "../runtime/sym.hpp"
#include <dice/template-library/fmt_join.hpp>
#include <dice/template-library/format_to_ostream.hpp>
#include <dice/template-library/dbg.hpp>
#include <dice/template-library/static_string.hpp>
#include <dice/template-library/variant2.hpp>
#include <array>
#include <format>
#include <iostream>
#include <iterator>
#include <list>
#include <memory>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <vector>

namespace dtl = dice::template_library;
#ifdef THOROUGH
constexpr size_t N = 4;
#else
constexpr size_t N = 3;
#endif
// an element that formats as any text, between brackets if the specification is '!'
struct Err {};
struct Text {
	char c[2]; uint8_t n; bool throws = false;
};
template<typename Char>
struct std::formatter<Text, Char> {
	bool brackets = false;
	constexpr auto parse(auto &ctx) {
		auto it = ctx.begin();
		if (it != ctx.end() && *it == '!') { brackets = true; ++it; }
		return it;
	}
	auto format(Text const &t, auto &ctx) const {
		auto out = ctx.out();
		if (brackets) *out++ = Char('[');
		for (uint8_t i = 0; i < t.n; ++i) *out++ = (Char) (unsigned char) t.c[i];
		if (t.throws) throw Err{};
		if (brackets) *out++ = Char(']');
		if constexpr (sizeof(Char) > 1) *out++ = Char('w');
		return out;
	}
};
static Text text(uint32_t max = 2) {
	Text t{};
	t.n = (uint8_t) dtl_choice(max + 1, "length");
	for (uint8_t i = 0; i < t.n; ++i) t.c[i] = sym<char>("character");
	return t;
}
template<typename Char>
struct Expected { // the expected output
	Char c[64]; size_t n = 0;
	void add(char x) { c[n++] = (Char) (unsigned char) x; }
	void add(Text const &t, bool brackets = false) {
		if (brackets) add('[');
		for (uint8_t i = 0; i < t.n; ++i) add(t.c[i]);
		if (brackets) add(']');
		if (sizeof(Char) > 1) add('w');
	}
	void add(std::string_view s) { for (char x : s) add(x); }
	void check(std::basic_string_view<Char> s, char const *msg) const {
		CHECKM(s.size() == n, msg);
		bool same = true;
		for (size_t i = 0; i < n; ++i) same = same & (s[i] == c[i]);
		CHECKM(same, msg);
	}
};
template<typename Char>
struct Out { // an output iterator into an array
	struct Buf { Char c[64]; size_t n = 0; operator std::basic_string_view<Char>() const { return {c, n}; } };
	using difference_type = ptrdiff_t; using value_type = void; using reference = void; using pointer = void; using iterator_category = std::output_iterator_tag;
	Buf *b = nullptr;
	Out &operator*() { return *this; }
	Out &operator=(Char x) { b->c[b->n++] = x; return *this; }
	Out &operator++() { return *this; }
	Out &operator++(int) { return *this; }
};
template<typename R>
static void join_with_sep(R &&range, Text const *a, size_t n) {
	Out<char>::Buf b; Out<char> out{&b};
	Text s = text();
	auto expect = [&](auto &&join, std::string_view sep) {
		Expected<char> e;
		for (size_t i = 0; i < n; ++i) { if (i) e.add(sep); e.add(a[i]); }
		std::format_to(out, "<{}>", join);
		CHECKM(b.n >= 2 && b.c[0] == '<' && b.c[b.n - 1] == '>', "only the join is replaced");
		e.check(std::string_view{b.c + 1, b.n - 2}, "the elements are joined in order with the separator between them");
	};
	s.n = s.n; // concrete
	switch (dtl_choice(6, "separator")) {
		case 0: expect(dtl::fmt_join(std::forward<R>(range), s.c[0] = sym<char>("separator")), std::string_view{s.c, 1}); break;
		case 1: expect(dtl::fmt_join(std::forward<R>(range), ", "), ", "); break;
		case 2: { std::string const str(s.c, s.n); expect(dtl::fmt_join(std::forward<R>(range), str), str); break; }
		case 3: expect(dtl::fmt_join(std::forward<R>(range), std::string(s.c, s.n)), {s.c, s.n}); break;
		case 4: expect(dtl::fmt_join(std::forward<R>(range), std::string_view{s.c, s.n}), {s.c, s.n}); break;
		default: expect(dtl::fmt_join(std::forward<R>(range), std::array<char, 2>{'a', s.c[0]= sym<char>("separator")}), std::string_view{std::array<char, 2>{'a', s.c[0]}.data(), 2}); break;
	}
}
struct Once { // a single-pass range
	Text *a; size_t n; size_t pos = 0;
	Text cur{}; // the only element that can be referred to
	struct It {
		using value_type = Text; using difference_type = ptrdiff_t;
		Once *o;
		It(Once *o) : o(o) {}
		It(It &&) = default; It &operator=(It &&) = default;
		Text const &operator*() const { CHECKM(o->pos < o->n, "nothing behind the end is read"); return o->cur; }
		It &operator++() { ++o->pos; o->load(); return *this; }
		void operator++(int) { ++*this; }
		friend bool operator==(It const &x, std::default_sentinel_t) { return x.o->pos == x.o->n; }
	};
	void load() { cur = pos < n ? a[pos] : Text{}; }
	It begin() { load(); return this; }
	std::default_sentinel_t end() { return {}; }
};
HARNESS_PART(join) {
	size_t const n = dtl_choice(N + 1, "n");
	Text a[N];
	for (size_t i = 0; i < n; ++i) a[i] = text(i == 0 ? 2 : 1);
	if (n) REACH("some"); else REACH("none");
	switch (part) {
		case 0: { std::vector<Text> const v(a, a + n); join_with_sep(v, a, n); CHECKM(v.size() == n, "the range is left alone"); break; }
		case 1: join_with_sep(std::vector<Text>(a, a + n), a, n); break;
		case 2: { std::list<Text> l(a, a + n); join_with_sep(l, a, n); break; }
		case 3: { // filtered: not iterable when const
			Text f[N]; size_t m = 0;
			for (size_t i = 0; i < n; ++i) if (a[i].n) f[m++] = a[i];
			join_with_sep(std::span<Text>(a, n) | std::views::filter([](Text const &t) { return t.n > 0; }), f, m);
			break;
		}
		case 4: { Once o{a, n}; join_with_sep(o, a, n); break; }
		case 5: join_with_sep(std::views::iota((size_t) 0, n) | std::views::transform([&](size_t i) { return a[i]; }), a, n); break;
		case 6: {
			Out<char>::Buf b; Out<char> out{&b};
			Text const s = text();
			Expected<char> e;
			for (size_t i = 0; i < n; ++i) { if (i) e.add(s); e.add(a[i]); }
			std::string_view const sep{s.c, s.n};
			switch (n) { // elements in a list
				case 0: std::format_to(out, "{}", dtl::fmt_join(std::initializer_list<Text>{}, sep)); break;
				case 1: std::format_to(out, "{}", dtl::fmt_join({a[0]}, sep)); break;
				case 2: std::format_to(out, "{}", dtl::fmt_join({a[0], a[1]}, sep)); break;
				default: { auto const j = dtl::fmt_join({a[0], a[1], a[2]}, sep); e.n = 0; for (size_t i = 0; i < 3; ++i) { if (i) e.add(s); e.add(a[i]); } std::format_to(out, "{}", j); }
			}
			e.check(b, "elements of a list are joined in order");
			break;
		}
		default: { // strings and characters
			Out<char>::Buf b; Out<char> out{&b};
			std::string strings[N]; Expected<char> e;
			for (size_t i = 0; i < n; ++i) { strings[i] = std::string(a[i].c, a[i].n); if (i) e.add(';'); e.add(a[i]); }
			std::format_to(out, "{}", dtl::fmt_join(std::span<std::string>(strings, n), ';'));
			e.check(b, "strings are joined in order");
		}
	}
	REACH("done");
}
HARNESS(spec) { // the specification goes to every element
	size_t const n = dtl_choice(N + 1, "n");
	Text a[N];
	for (size_t i = 0; i < n; ++i) a[i] = text(1);
	Out<char>::Buf b; Out<char> out{&b};
	Expected<char> e;
	for (size_t i = 0; i < n; ++i) { if (i) e.add("--"); e.add(a[i], true); }
	e.add("|");
	for (size_t i = 0; i < n; ++i) { if (i) e.add(" "); e.add(a[i]); }
	std::format_to(out, "{0:!}|{1:}", dtl::fmt_join(std::span<Text>(a, n), "--"), dtl::fmt_join(std::span<Text const>(a, n), ' '));
	e.check(b, "the format specification is applied to every element");
	b.n = e.n = 0;
	for (size_t i = 0; i < n; ++i) { if (i) e.add(","); e.add(' '); e.add(a[i].n ? std::string_view{a[i].c, 1} : " "); }
	char v[N];
	for (size_t i = 0; i < n; ++i) v[i] = a[i].n ? a[i].c[0] : ' ';
	std::format_to(out, "{:>2}", dtl::fmt_join(std::span<char>(v, n), ","));
	e.check(b, "the format specification is applied to every element");
	REACH("done");
}
HARNESS(wide) {
	size_t const n = dtl_choice(N + 1, "n");
	Text a[N];
	for (size_t i = 0; i < n; ++i) a[i] = text(1);
	Out<wchar_t>::Buf b; Out<wchar_t> out{&b};
	Expected<wchar_t> e;
	wchar_t const s = (wchar_t) sym<unsigned char>("separator");
	for (size_t i = 0; i < n; ++i) { if (i) e.add((char) s); e.add(a[i]); }
	switch (dtl_choice(3, "separator")) {
		case 0: std::format_to(out, L"{}", dtl::fmt_join(std::span<Text>(a, n), s)); break;
		case 1: std::format_to(out, L"{}", dtl::fmt_join(std::span<Text>(a, n), std::wstring(1, s))); break;
		default: std::format_to(out, L"{}", dtl::fmt_join(std::span<Text>(a, n), std::wstring_view(&s, 1))); break;
	}
	e.check(b, "wide characters");
	REACH("done");
}
// ---- streams
template<typename Char>
struct Buf : std::basic_streambuf<Char> {
	using int_type = typename std::basic_streambuf<Char>::int_type; using traits = std::char_traits<Char>;
	Char c[64]; size_t n = 0, room = 64;
	int_type overflow(int_type x) override {
		if (n >= room) return traits::eof();
		c[n++] = traits::to_char_type(x);
		return traits::not_eof(x);
	}
	operator std::basic_string_view<Char>() const { return {c, n}; }
};
struct Shown { Text t; }; // has its own operator<< and a formatter
template<> struct std::formatter<Shown> : std::formatter<Text> { auto format(Shown const &s, auto &ctx) const { return std::formatter<Text>::format(s.t, ctx); } };
static std::ostream &operator<<(std::ostream &s, Shown const &) { return s << "own"; }
static_assert(!dtl::is_ostreamable_v<std::vector<int>, char, std::char_traits<char>> && dtl::is_ostreamable_v<int, char, std::char_traits<char>>);

template<typename Char>
static void stream() {
	Buf<Char> b; std::basic_ostream<Char> os(&b);
	Text const t = text(), u = text(1);
	Expected<Char> e; e.add(t);
	size_t const len = e.n;
	switch (dtl_choice(4, "case")) {
		case 0: { // a stream that is not good is left alone
			std::ios_base::iostate const states[] = {std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit};
			auto const st = states[dtl_choice(3, "state")];
			os.setstate(st);
			os << t;
			CHECKM(b.n == 0, "nothing is written to a failed stream");
			CHECKM((os.rdstate() & st) == st, "a failed stream stays failed");
			REACH("bad");
			break;
		}
		case 1: { // chained
			auto &r = os << t;
			CHECKM(&r == &os, "operator<< returns the stream");
			r << u << Char('.');
			e.add(u); e.add('.');
			e.check(b, "exactly the formatted values are written");
			CHECKM(os.good(), "a successful write leaves the stream good");
			REACH("written");
			break;
		}
		case 2: { // no room for everything
			b.room = dtl_choice(4, "room");
			os << t;
			CHECKM(b.n <= b.room, "");
			CHECKM(os.bad() == (len > b.room), "a write that fails is reported, and only that");
			bool same = true;
			for (size_t i = 0; i < b.n; ++i) same = same & (b.c[i] == e.c[i]);
			CHECKM(same && b.n == (len < b.room ? len : b.room), "what fits is written");
			if (os.bad()) REACH("failed");
			break;
		}
		default: { // the formatter throws
			Text x = t; x.throws = true;
			bool caught = false;
			try { os << x; } catch (Err const &) { caught = true; REACH("thrown"); }
			CHECKM(caught, "the exception of a formatter comes out");
		}
	}
	REACH("done");
}
HARNESS_PART(stream) { if (part == 0) stream<char>(); else stream<wchar_t>(); }
HARNESS(preexisting) {
	Buf<char> b; std::ostream os(&b);
	Text const t = text();
	os << Shown{t} << "-" << std::string_view{t.c, t.n} << 'c';
	Expected<char> e; e.add("own-"); e.add(t); e.add("c");
	e.check(b, "an operator<< of the type itself is used");
	REACH("done");
}
// ---- the library's own formattable and streamable types
struct Word {
	Text t;
	Word(Text t) : t(t) {}
	explicit Word(int) { throw Err{}; }
};
template<> struct std::formatter<Word> : std::formatter<Text> { auto format(Word const &s, auto &ctx) const { return std::formatter<Text>::format(s.t, ctx); } };
HARNESS(variants) {
	using V = dtl::variant2<Word, std::string_view>;
	Text const t = text();
	V v{Word{t}};
	Expected<char> e;
	Out<char>::Buf b; Out<char> out{&b};
	switch (dtl_choice(3, "alternative")) {
		case 0: e.add("<variant("); e.add(t); e.add(")>"); break;
		case 1: v = std::string_view{t.c, t.n}; e.add("<variant("); e.add(t); e.add(")>"); break;
		default:
			try { v.emplace<Word>(1); } catch (Err const &) {}
			CHECKM(v.valueless_by_exception(), "a failed construction leaves the variant valueless");
			e.add("<variant(valueless by exception)>");
			REACH("valueless");
	}
	V const &cv = v;
	std::format_to(out, "<{}>", cv);
	e.check(b, "a variant formats as its alternative's value");
	Buf<char> sb; std::ostream os(&sb);
	os << '<' << v << '>';
	e.check(sb, "a variant is streamed like it is formatted");
	REACH("done");
}
template<typename Char>
static void strings() {
	Buf<Char> b; std::basic_ostream<Char> os(&b);
	Text const t = text(), u = text(1);
	Char c[2]; for (int i = 0; i < 2; ++i) c[i] = (Char) (unsigned char) t.c[i];
	dtl::basic_static_string<Char> const s{std::basic_string_view<Char>{c, t.n}};
	Expected<Char> e;
	auto chars = [&] { for (uint8_t i = 0; i < t.n; ++i) e.add(t.c[i]); };
	os.width(dtl_choice(t.n + 1u, "width")); // padding needs a locale, which is outside of the model
	auto &r = os << s;
	CHECKM((&r == &os) & (os.width() == 0), "a string is streamed like any other");
	os << s << u;
	chars(); chars(); e.add(u);
	e.check(b, "exactly the characters of the string are written");
	REACH("done");
}
HARNESS_PART(strings) { if (part == 0) strings<char>(); else strings<wchar_t>(); }
// ---- DICE_DBG
struct MoveOnly {
	Text t;
	explicit MoveOnly(Text t) : t(t) {}
	MoveOnly(MoveOnly &&) = default;
};
template<> struct std::formatter<MoveOnly> : std::formatter<Text> { auto format(MoveOnly const &s, auto &ctx) const { return std::formatter<Text>::format(s.t, ctx); } };
HARNESS(dbg) {
	Buf<char> b;
	struct Restore { std::streambuf *old; ~Restore() { std::cerr.rdbuf(old); } } restore{std::cerr.rdbuf(&b)};
	Text t = text(); Text const ct = t;
	Expected<char> e;
	auto line = [&](char const *expr, unsigned line) { // the expected line; line numbers of this file have three digits
		char const digits[] = {(char) ('0' + line / 100), (char) ('0' + line / 10 % 10), (char) ('0' + line % 10)};
		e.add("[c24_format.cpp:"); e.add(std::string_view{digits, 3}); e.add("] "); e.add(expr); e.add(" = "); e.add(t); e.add("\n");
	};
	int evaluated = 0;
	switch (dtl_choice(5, "case")) {
		case 0: { auto &&r = DICE_DBG(t); line("t", __LINE__); static_assert(std::is_same_v<decltype(r), Text &>); CHECKM(&r == &t, "an lvalue is returned as such"); break; }
		case 1: { auto &&r = DICE_DBG(ct); line("ct", __LINE__); static_assert(std::is_same_v<decltype(r), Text const &>); CHECKM(&r == &ct, "an lvalue is returned as such"); break; }
		case 2: { auto &&r = DICE_DBG((++evaluated, std::move(t))); line("(++evaluated, std::move(t))", __LINE__); static_assert(std::is_same_v<decltype(r), Text &&>); CHECKM(&r == &t && evaluated == 1, "the expression is evaluated once"); break; }
		case 3: { MoveOnly m = DICE_DBG(MoveOnly{t}); line("MoveOnly{t}", __LINE__); CHECKM(m.t.n == t.n && (t.n == 0 || m.t.c[0] == t.c[0]), "temporaries are forwarded"); break; }
		default: { MoveOnly m(t); MoveOnly o = std::move(DICE_DBG(m)); line("m", __LINE__); CHECKM(o.t.n == t.n, "the value is usable"); break; }
	}
	e.check(b, "exactly the file, line, expression and value are printed");
	REACH("done");
}
