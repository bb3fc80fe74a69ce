// ranges of n elements of several kinds, for the range algorithms
#pragma once
#include "../runtime/sym.hpp"
#include <cstddef>
#include <iterator>
// sources of n elements: contiguous, forward, single-pass, single-pass with a move-only iterator
enum Kind { CONTIGUOUS, FORWARD, STREAM, ONCE };
template<typename T, Kind K>
struct Src {
	T *a; size_t n;
	size_t pos = 0;
	T cur{}; // what single-pass iterators refer to
	void load() { if (pos < n) cur = a[pos]; }
	struct It {
		using value_type = T; using difference_type = ptrdiff_t; using reference = T &; using pointer = T *;
		using iterator_category = std::conditional_t<K == FORWARD, std::forward_iterator_tag, std::input_iterator_tag>;
		Src *s = nullptr; size_t i = 0;
		It() = default;
		It(Src *s, size_t i) : s(s), i(i) {}
		It(It const &) requires (K != ONCE) = default;
		It &operator=(It const &) requires (K != ONCE) = default;
		It(It &&) = default;
		It &operator=(It &&) = default;
		T &operator*() const {
			CHECKM(i < s->n, "nothing behind the end is read");
			if constexpr (K == FORWARD) return s->a[i];
			else { CHECKM(i == s->pos, "a single-pass iterator is not used after a copy of it was incremented"); return s->cur; }
		}
		It &operator++() {
			if constexpr (K != FORWARD) { CHECKM(i == s->pos, "a single-pass iterator is not used after a copy of it was incremented"); ++s->pos; s->load(); }
			++i;
			return *this;
		}
		auto operator++(int) { if constexpr (K == FORWARD) { It t = *this; ++*this; return t; } else ++*this; }
		friend bool operator==(It const &x, It const &y) requires (K == FORWARD) { return x.i == y.i; }
		friend bool operator==(It const &x, std::default_sentinel_t) { return x.i == x.s->n; }
	};
	It begin() { load(); return It{this, pos}; }
	auto end() { if constexpr (K == FORWARD) return It{this, n}; else return std::default_sentinel; }
};
template<typename T>
struct Src<T, CONTIGUOUS> { T *a; size_t n; T *begin() const { return a; } T *end() const { return a + n; } };
static_assert(std::forward_iterator<Src<int, FORWARD>::It> && std::input_iterator<Src<int, STREAM>::It> && std::input_iterator<Src<int, ONCE>::It> && !std::copyable<Src<int, ONCE>::It>);

template<typename F>
static void each_kind(uint64_t part, F f) {
	switch (part) {
		case 0: f.template operator()<CONTIGUOUS>(); break;
		case 1: f.template operator()<FORWARD>(); break;
		case 2: f.template operator()<STREAM>(); break;
		default: f.template operator()<ONCE>(); break;
	}
}
// calls the algorithm in one of its three forms
template<Kind K, typename T, typename Algo, typename... Args>
static auto call(Algo const &algo, T *a, size_t n, Args... args) {
	Src<T, K> src{a, n};
	switch (dtl_choice(3, "form")) {
		case 0: return algo(src, args...);
		case 1: return algo(src.begin(), src.end(), args...);
		default: return src | algo(args...);
	}
}
