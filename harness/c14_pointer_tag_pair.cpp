// pointer_tag_pair: pointer and tag in one word
// @bound every 64-bit address with the promised alignment and every tag that fits, over 18 instantiations: 0 to 20 tag bits, void, const, volatile, over-aligned and fixed-width pointees, integer, bool and enum tags; two pairs for comparison and swap; real objects reached through base classes at any offset
// @parts values 18
// @reach values done
// @parts objects 5
// @reach objects done
#include "../runtime/sym.hpp"
#include <dice/template-library/pointer_tag_pair.hpp>
#include <type_traits>
#include <utility>

namespace dtl = dice::template_library;

struct alignas(4) S4 { uint32_t v; };
struct alignas(16) S16 { uint64_t v; };
struct alignas(256) S256 { uint8_t b[256]; };
enum struct E8 : uint8_t { A, B, C, D = 200 };
enum E32 : uint32_t { X, Y = 5 };
enum struct E64 : uint64_t {};
enum struct EB : bool { no, yes };

template<typename Tag>
static Tag any_tag(unsigned bits) {
	uint64_t const raw = sym<uint64_t>("tag");
	uint64_t const mask = bits >= 64 ? ~0ull : (1ull << bits) - 1;
	dtl_assume(raw <= mask);
	if constexpr (std::is_enum_v<Tag>) dtl_assume(static_cast<uint64_t>(static_cast<Tag>(static_cast<std::underlying_type_t<Tag>>(raw))) == raw);
	else dtl_assume(static_cast<uint64_t>(static_cast<Tag>(raw)) == raw);
	if constexpr (std::is_enum_v<Tag>) return static_cast<Tag>(static_cast<std::underlying_type_t<Tag>>(raw));
	else return static_cast<Tag>(raw);
}
template<typename T>
static T *any_pointer(unsigned bits) {
	uint64_t const raw = sym<uint64_t>("address");
	dtl_assume((raw & ((1ull << bits) - 1)) == 0);
	return reinterpret_cast<T *>(raw);
}
template<typename T> static uint64_t addr(T *p) { return reinterpret_cast<uint64_t>(p); }

template<typename T, typename Tag, unsigned Bits, unsigned Promise = 0>
static void values() {
	using P = dtl::pointer_tag_pair<T, Tag, Bits>;
	static_assert(sizeof(P) == sizeof(void *));
	static_assert(P::bits_requested == Bits);
	static_assert(std::is_trivially_copyable_v<P>);
	static_assert(std::is_same_v<typename P::pointer_type, T *> && std::is_same_v<typename P::tag_type, Tag>);
	static_assert(std::tuple_size_v<P> == 2 && std::tuple_size_v<P const> == 2);
	static_assert(std::is_same_v<std::tuple_element_t<0, P>, T *> && std::is_same_v<std::tuple_element_t<1, P>, Tag>);
	static_assert(std::is_same_v<std::tuple_element_t<0, P const>, T *> && std::is_same_v<std::tuple_element_t<1, P const>, Tag>);
	static_assert(std::is_same_v<decltype(dtl::get<0>(std::declval<P>())), T *> && std::is_same_v<decltype(dtl::get<1>(std::declval<P>())), Tag>);
	auto make = [](T *p, Tag t) {
		if constexpr (Promise != 0) return P::template from_overaligned<Promise>(p, t);
		else return P{p, t};
	};
	T *const p = any_pointer<T>(Bits);
	Tag const t = any_tag<Tag>(Bits);
	P const a = make(p, t);
	CHECKM(a.pointer() == p, "pointer() is the pointer that was stored");
	CHECKM(a.tag() == t, "tag() is the tag that was stored");
	CHECKM((dtl::get<0>(a) == p) & (dtl::get<1>(a) == t), "get gives pointer and tag");
	auto const [bp, bt] = a;
	CHECKM((bp == p) & (bt == t), "structured bindings give pointer and tag");
	CHECKM(addr(a.tagged_pointer()) == (addr(p) | static_cast<uint64_t>(t)), "the tagged pointer is the pointer with the tag in its low bits");
	P const b = P::from_tagged(a.tagged_pointer());
	CHECKM((b.pointer() == p) & (b.tag() == t) & (b == a), "a tagged pointer round-trips");
	uint64_t const any = sym<uint64_t>("tagged");
	P const raw = P::from_tagged(reinterpret_cast<typename P::tagged_pointer_type>(any));
	uint64_t const mask = (1ull << Bits) - 1;
	if constexpr (std::is_same_v<Tag, bool> || std::is_same_v<Tag, EB>) {
		CHECKM((addr(raw.pointer()) == (any & ~mask)) & (static_cast<uint64_t>(raw.tag()) == (any & mask)), "from_tagged splits any word");
	} else {
		CHECKM(addr(raw.pointer()) == (any & ~mask), "from_tagged splits any word: pointer");
		if ((any & mask) <= static_cast<uint64_t>(static_cast<Tag>(~0ull))) CHECKM(static_cast<uint64_t>(raw.tag()) == (any & mask), "from_tagged splits any word: tag");
	}
	CHECKM(addr(raw.tagged_pointer()) == any, "any word comes back from tagged_pointer");

	T *const q = any_pointer<T>(Bits);
	Tag const u = any_tag<Tag>(Bits);
	P c = make(q, u), d = a;
	bool const same = (p == q) & (t == u);
	CHECKM((a == c) == same, "pairs are equal exactly if pointer and tag are");
	CHECKM((a != c) == !same, "!= is the opposite of ==");
	uint64_t const ap = addr(p), aq = addr(q), at = static_cast<uint64_t>(t), au = static_cast<uint64_t>(u);
	bool const less = (ap < aq) | ((ap == aq) & (at < au));
	CHECKM(((a <=> c) == std::strong_ordering::less) == less, "pairs are ordered by pointer, then tag");
	CHECKM(((a <=> c) == std::strong_ordering::equal) == same, "the ordering agrees with equality");
	CHECKM(((a < c) == less) & ((a <= c) == (less | same)) & ((a > c) == !(less | same)) & ((a >= c) == !less), "relational operators agree with the ordering");
	swap(c, d);
	CHECKM((c.pointer() == p) & (c.tag() == t) & (d.pointer() == q) & (d.tag() == u), "swap exchanges both pairs");
	swap(c, c);
	CHECKM((c.pointer() == p) & (c.tag() == t), "swapping with itself changes nothing");
	c = d;
	CHECKM((c.pointer() == q) & (c.tag() == u), "assignment copies pointer and tag");
	P const z{nullptr, t};
	CHECKM((z.pointer() == nullptr) & (z.tag() == t), "a null pointer can carry a tag");
	P const y = nullptr;
	CHECKM((y.pointer() == nullptr) & (y.tag() == Tag{}), "nullptr converts to a null pair");
	P const x{};
	CHECKM((x == y) & (addr(x.tagged_pointer()) == 0), "default construction gives a null pair");
	OBS(addr(a.tagged_pointer()));
	REACH("done");
}
// pointers without enough free bits, foreign pointers and signed tags are rejected
template<typename T, unsigned Bits, typename From>
constexpr bool takes = std::is_constructible_v<dtl::pointer_tag_pair<T, uint8_t, Bits>, From, uint8_t>;
template<unsigned A, typename T, unsigned Bits, typename From>
constexpr bool promises = requires(From p) { dtl::pointer_tag_pair<T, uint8_t, Bits>::template from_overaligned<A>(p, uint8_t{}); };
static_assert(takes<S4, 2, S4 *> && !takes<S4, 3, S4 *> && takes<void, 0, void *> && !takes<void, 1, void *> && !takes<char, 1, char *> && takes<void, 2, S4 *>);
static_assert(!takes<S4, 2, S16 *> && !takes<S4, 2, uint64_t> && !takes<S4, 2, S4 const *> && takes<S4 const, 2, S4 *>);
static_assert(promises<8, void, 3, void *> && !promises<8, void, 4, void *> && promises<32, char, 5, char *> && !promises<8, S4, 2, S16 *>);
template<typename Tag> concept tag_type = requires { typename dtl::pointer_tag_pair<S4, Tag, 2>; };
static_assert(tag_type<uint8_t> && tag_type<E64> && tag_type<bool> && !tag_type<int> && !tag_type<float> && !tag_type<S4>);
HARNESS_PART(values) {
	switch (part) {
		case 0: values<S4, unsigned, 2>(); break;
		case 1: values<S4 const, uint8_t, 1>(); break;
		case 2: values<S16, uint8_t, 4>(); break;
		case 3: values<S16 volatile, uint64_t, 3>(); break;
		case 4: values<S256, uint8_t, 8>(); break;
		case 5: values<S256, uint16_t, 8>(); break;
		case 6: values<char, uint32_t, 0>(); break;
		case 7: values<void, unsigned, 0>(); break;
		case 8: values<void, unsigned, 3, 8>(); break;
		case 9: values<char const, uint8_t, 5, 32>(); break;
		case 10: values<S4, bool, 1>(); break;
		case 11: values<S16, E8, 4>(); break;
		case 12: values<S256 const volatile, E32, 7>(); break;
		case 13: values<S16, E64, 4>(); break;
		case 14: values<S4, EB, 1>(); break;
		case 15: values<char, uint32_t, 13, 8192>(); break;
		case 16: values<void, uint32_t, 20, 1u << 21>(); break;
		default: values<S4, uint64_t, 12, 4096>(); break;
	}
}

// converting pointers to derived objects
struct L { uint64_t l = 1; };
struct R { uint64_t r = 2; };
struct D1 : L { uint64_t d = 3; };
struct D2 : L, R { uint64_t d = 4; };
struct V : virtual R { uint64_t v = 5; };
struct VV : L, V { uint64_t w = 6; };
template<typename Base, typename Der>
static void derived(Der *p) {
	using P = dtl::pointer_tag_pair<Base, uint8_t>;
	uint8_t const t = any_tag<uint8_t>(P::bits_requested);
	Base *const want = p;
	P const a{p, t};
	P const b = P::template from_overaligned<8>(p, t);
	CHECKM((a.pointer() == want) & (a.tag() == t), "a pointer to a derived object is converted to its base");
	CHECKM((b.pointer() == want) & (b.tag() == t) & (a == b), "from_overaligned converts to the base as well");
	dtl::pointer_tag_pair<Base const, uint8_t> const c{p, t};
	CHECKM(c.pointer() == want, "a pointer can be converted to a pointer to const");
	dtl::pointer_tag_pair<void, uint8_t, 3> const d = dtl::pointer_tag_pair<void, uint8_t, 3>{p, t};
	CHECKM((d.pointer() == static_cast<void *>(p)) & (d.tag() == t), "any pointer converts to void");
	Der *const nul = nullptr;
	P const n{nul, t};
	CHECKM((n.pointer() == nullptr) & (n.tag() == t), "a null pointer to a derived object stays null");
	REACH("done");
}
HARNESS_PART(objects) {
	if (part == 0) { D1 x; x.l = sym<uint64_t>("v"); derived<L>(&x); CHECKM((dtl::pointer_tag_pair<L, uint8_t>{&x, uint8_t{7}}.pointer()->l == x.l), "the pointer is usable"); }
	else if (part == 1) { D2 x; x.r = sym<uint64_t>("v"); derived<R>(&x); CHECKM((dtl::pointer_tag_pair<R, uint8_t>{&x, uint8_t{7}}.pointer()->r == x.r), "the pointer is usable"); }
	else if (part == 2) { V x; x.r = sym<uint64_t>("v"); derived<R>(&x); CHECKM((dtl::pointer_tag_pair<R, uint8_t>{&x, uint8_t{1}}.pointer()->r == x.r), "the pointer is usable"); }
	else if (part == 3) { VV x; x.r = sym<uint64_t>("v"); derived<V>(&x); derived<R>(&x); CHECKM((dtl::pointer_tag_pair<R, uint8_t>{&x, uint8_t{1}}.pointer()->r == x.r), "the pointer is usable"); }
	else {
		S16 arr[4];
		uint8_t const i = (uint8_t) dtl_choice(4, "index");
		uint8_t const t = any_tag<uint8_t>(4);
		for (int k = 0; k < 4; ++k) arr[k].v = 10 + (uint64_t) k;
		dtl::pointer_tag_pair<S16, uint8_t> const a{arr + i, t};
		CHECKM(a.pointer()->v == 10u + i, "the pointer is usable");
		a.pointer()->v = 99;
		CHECKM((arr[i].v == 99) & (a.tag() == t), "writing through the pointer reaches the object");
		REACH("done");
	}
}
