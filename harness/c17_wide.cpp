// integral_template_variant over a range with many alternatives
// @bound a descending (thorough: also an ascending) range of 131 alternatives, five of them held with every value
// @reach wide done
#include "../runtime/sym.hpp"
#include <dice/template-library/integral_template_variant.hpp>
#include <compare>
using dice::template_library::integral_template_variant;

// ranges with more alternatives than a signed char counts
template<int ix> struct W { uint32_t v = 0; static constexpr int index = ix; auto operator<=>(W const &) const = default; };
template<int first, int last>
static void wide() {
	using V = integral_template_variant<first, last, W>;
	uint32_t const v = sym<uint32_t>("v");
	V a; int ix = first;
	auto put = [&]<int i> { a.template emplace<i>(v); ix = i; };
	switch (dtl_choice(5, "alternative")) {
		case 0: put.template operator()<first < last ? last - 1 : last + 1>(); break;
		case 1: put.template operator()<first < last ? first + 127 : first - 127>(); break;
		case 2: put.template operator()<first < last ? first + 128 : first - 128>(); break;
		case 3: put.template operator()<first < last ? first + 1 : first - 1>(); break;
		default: put.template operator()<first>();
	}
	CHECKM(a.index() == ix, "index names the held alternative");
	int seen = 0; uint32_t got = 0;
	a.visit([&]<typename E>(E &e) { seen = E::index; got = e.v; });
	CHECKM((seen == ix) & (got == v), "visit gets the held alternative");
	REACH("done");
}
HARNESS(wide) { wide<131, 0>(); }
#ifdef THOROUGH
HARNESS(wide_up) { wide<-20, 111>(); }
#endif
