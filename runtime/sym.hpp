// Harness API. Under the symbolic executor these are intercepted; in native replay they are served
// from a recorded assignment (native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>

extern "C" {
uint64_t dtl_sym(unsigned bits, char const *name) noexcept; // a fresh unconstrained value
uint32_t dtl_choice(uint32_t n, char const *name) noexcept; // a fresh value in [0,n), explored by case split
uint64_t dtl_fork(uint64_t v) noexcept;                     // case split over all feasible values of v
void dtl_assume(bool c) noexcept;
void dtl_check(bool c, char const *msg) noexcept;
void dtl_fail(char const *msg) noexcept;
void dtl_reach(char const *label) noexcept;
void dtl_observe(uint64_t v) noexcept;
void dtl_faults_new(int n) noexcept; // up to n of the following operator new calls may throw bad_alloc
void dtl_spurious(int n) noexcept;   // up to n spurious condition variable wake-ups
uint64_t dtl_live() noexcept;        // live heap allocations
int dtl_thread(void (*f)(void *), void *arg) noexcept;
void dtl_join_all() noexcept;
uint64_t dtl_shared(unsigned idx, uint64_t add) noexcept; // harness counter idx += add, invisible to scheduling and race detection
void dtl_yield() noexcept;
int dtl_thread_id() noexcept;
void dtl_kill() noexcept;            // end this path silently
void dtl_expect_terminate(int on) noexcept; // from now on std::terminate and abort are the intended end of the path (witness "terminated")
}

template<typename T>
inline T sym(char const *name = "x") noexcept {
	if constexpr (std::is_same_v<T, bool>) return (dtl_sym(1, name) & 1) != 0;
	else if constexpr (std::is_same_v<T, double>) { uint64_t v = dtl_sym(64, name); double d; std::memcpy(&d, &v, 8); return d; }
	else if constexpr (std::is_same_v<T, float>) { uint32_t v = (uint32_t) dtl_sym(32, name); float d; std::memcpy(&d, &v, 4); return d; }
	else return static_cast<T>(dtl_sym(sizeof(T) * 8, name));
}
template<typename T>
inline T sym_range(T lo, T hi, char const *name = "x") noexcept { // inclusive
	T v = sym<T>(name);
	dtl_assume(v >= lo && v <= hi);
	return v;
}
#define CHECK(c) dtl_check(static_cast<bool>(c), #c)
#define CHECKM(c, m) dtl_check(static_cast<bool>(c), m)
#define REACH(l) dtl_reach(l)
#define OBS(v) dtl_observe(static_cast<uint64_t>(v))
#define HARNESS(name) extern "C" void h_##name()
#define HARNESS_PART(name) extern "C" void h_##name(uint64_t part)
