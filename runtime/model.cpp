// Definitions of the libstdc++ library functions that live in libstdc++.so, for symbolic execution only.
#include <bits/functexcept.h>
#include <cstddef>
#include <exception>
#include <functional>
#include <future>
#include <memory>
#include <new>
#include <stdexcept>
#include <optional>
#include <variant>
#include <any>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <map>
#include <list>
#include <condition_variable>
#include <cmath>
#include <cstring>
#include <cerrno>

extern "C" void dtl_throw_bad_alloc() { throw std::bad_alloc(); }

namespace std {
	// out-of-line members anchor the vtables and typeinfos
	exception::~exception() noexcept {}
	char const *exception::what() const noexcept { return "std::exception"; }
	bad_exception::~bad_exception() noexcept {}
	char const *bad_exception::what() const noexcept { return "std::bad_exception"; }
	bad_alloc::~bad_alloc() noexcept {}
	char const *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
	bad_array_new_length::~bad_array_new_length() noexcept {}
	char const *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
	bad_cast::~bad_cast() noexcept {}
	char const *bad_cast::what() const noexcept { return "std::bad_cast"; }
	bad_typeid::~bad_typeid() noexcept {}
	char const *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
	bad_function_call::~bad_function_call() noexcept {}
	char const *bad_function_call::what() const noexcept { return "bad_function_call"; }
	type_info::~type_info() {}

	// exception messages: the pointer given is kept (all messages are literals or outlive the exception),
	// std::string messages are copied into a leaked-free static slot
	namespace {
		struct msg_slot { char const *p; };
	}
	__cow_string::__cow_string() : _M_p(nullptr) {}
	__cow_string::__cow_string(char const *s, size_t) : _M_p(s) {}
	__cow_string::__cow_string(std::string const &) : _M_p("?") {}
	__cow_string::__cow_string(__cow_string const &o) noexcept : _M_p(o._M_p) {}
	__cow_string &__cow_string::operator=(__cow_string const &o) noexcept { _M_p = o._M_p; return *this; }
	__cow_string::~__cow_string() {}
	__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
	__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }

	logic_error::logic_error(char const *s) : _M_msg(s, 0) {}
	logic_error::logic_error(string const &s) : _M_msg(s) {}
	logic_error::logic_error(logic_error const &o) noexcept : exception(o), _M_msg(o._M_msg) {}
	logic_error &logic_error::operator=(logic_error const &o) noexcept { _M_msg = o._M_msg; return *this; }
	logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
	logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
	logic_error::~logic_error() noexcept {}
	char const *logic_error::what() const noexcept { return _M_msg._M_p; }
	runtime_error::runtime_error(char const *s) : _M_msg(s, 0) {}
	runtime_error::runtime_error(string const &s) : _M_msg(s) {}
	runtime_error::runtime_error(runtime_error const &o) noexcept : exception(o), _M_msg(o._M_msg) {}
	runtime_error &runtime_error::operator=(runtime_error const &o) noexcept { _M_msg = o._M_msg; return *this; }
	runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
	runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
	runtime_error::~runtime_error() noexcept {}
	char const *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define DTL_EXC(T, B) \
	T::T(char const *s) : B(s) {} \
	T::T(string const &s) : B(s) {} \
	T::~T() noexcept {}
	DTL_EXC(domain_error, logic_error)
	DTL_EXC(invalid_argument, logic_error)
	DTL_EXC(length_error, logic_error)
	DTL_EXC(out_of_range, logic_error)
	DTL_EXC(range_error, runtime_error)
	DTL_EXC(overflow_error, runtime_error)
	DTL_EXC(underflow_error, runtime_error)

	void __throw_bad_exception() { throw bad_exception(); }
	void __throw_bad_alloc() { throw bad_alloc(); }
	void __throw_bad_array_new_length() { throw bad_array_new_length(); }
	void __throw_bad_cast() { throw bad_cast(); }
	void __throw_bad_typeid() { throw bad_typeid(); }
	void __throw_logic_error(char const *s) { throw logic_error(s); }
	void __throw_domain_error(char const *s) { throw domain_error(s); }
	void __throw_invalid_argument(char const *s) { throw invalid_argument(s); }
	void __throw_length_error(char const *s) { throw length_error(s); }
	void __throw_out_of_range(char const *s) { throw out_of_range(s); }
	void __throw_out_of_range_fmt(char const *s, ...) { throw out_of_range(s); }
	void __throw_runtime_error(char const *s) { throw runtime_error(s); }
	void __throw_range_error(char const *s) { throw range_error(s); }
	void __throw_overflow_error(char const *s) { throw overflow_error(s); }
	void __throw_underflow_error(char const *s) { throw underflow_error(s); }
	void __throw_bad_function_call() { throw bad_function_call(); }
	void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }

	error_category::~error_category() noexcept {}
	error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
	bool error_category::equivalent(int i, error_condition const &c) const noexcept { return default_error_condition(i) == c; }
	bool error_category::equivalent(error_code const &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
	namespace {
		struct sys_cat : error_category { char const *name() const noexcept override { return "system"; } string message(int) const override { return string("?"); } };
		struct gen_cat : error_category { char const *name() const noexcept override { return "generic"; } string message(int) const override { return string("?"); } };
		sys_cat the_sys; gen_cat the_gen;
	}
	inline namespace _V2 {
		error_category const &system_category() noexcept { return the_sys; }
		error_category const &generic_category() noexcept { return the_gen; }
	}
	// error_category::_M_message lives in the library as well
	std::__cow_string error_category::_M_message(int) const { return std::__cow_string("?", 1); }
	system_error::~system_error() noexcept {}

	// hashing: any deterministic function will do
	size_t _Hash_bytes(void const *p, size_t n, size_t seed) {
		unsigned char const *c = static_cast<unsigned char const *>(p);
		size_t h = seed ^ n;
		for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
		return h;
	}

	namespace __detail {
		size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
			static size_t const primes[] = {1, 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109};
			for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
			_M_next_resize = n;
			return n;
		}
		
		pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
			if (elt + ins > _M_next_resize || elt + ins > bkt) {
				size_t want = elt + ins > 2 * bkt ? elt + ins : 2 * bkt;
				if (want < 11) want = 11;
				return {true, _M_next_bkt(want)};
			}
			return {false, 0};
		}
		// std::list hooks
		void _List_node_base::_M_hook(_List_node_base *const pos) noexcept { _M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this; }
		void _List_node_base::_M_unhook() noexcept { auto n = _M_next; auto p = _M_prev; p->_M_next = n; n->_M_prev = p; }
		void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
			if (this != last) {
				last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
				auto const tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
			}
		}
	}

	// red-black trees: an unbalanced binary search tree has the same observable contents and order
	_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
		if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
		_Rb_tree_node_base *y = x->_M_parent;
		while (x == y->_M_right) { x = y; y = y->_M_parent; }
		if (x->_M_right != y) x = y;
		return x;
	}
	_Rb_tree_node_base const *_Rb_tree_increment(_Rb_tree_node_base const *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
	_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
		if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
		if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
		auto y = x->_M_parent;
		while (x == y->_M_left) { x = y; y = y->_M_parent; }
		return y;
	}
	_Rb_tree_node_base const *_Rb_tree_decrement(_Rb_tree_node_base const *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
	void _Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
		x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
		if (left) {
			p->_M_left = x;
			if (p == &h) { h._M_parent = x; h._M_right = x; }
			else if (p == h._M_left) h._M_left = x;
		} else {
			p->_M_right = x;
			if (p == h._M_right) h._M_right = x;
		}
	}
	_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
		auto repl = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) {
			if (h._M_parent == u) h._M_parent = v;
			else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
			else u->_M_parent->_M_right = v;
			if (v) v->_M_parent = u->_M_parent;
		};
		if (!z->_M_left) repl(z, z->_M_right);
		else if (!z->_M_right) repl(z, z->_M_left);
		else {
			auto y = z->_M_right;
			while (y->_M_left) y = y->_M_left;
			if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
			repl(z, y);
			y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
		}
		if (h._M_parent) {
			auto l = h._M_parent; while (l->_M_left) l = l->_M_left; h._M_left = l;
			auto r = h._M_parent; while (r->_M_right) r = r->_M_right; h._M_right = r;
		} else { h._M_left = &h; h._M_right = &h; }
		return z;
	}
	bool _Sp_make_shared_tag::_S_eq(type_info const &) noexcept { return false; }
}
// vtables for bad_optional_access, bad_variant_access, bad_weak_ptr, bad_any_cast
namespace std {
	bad_weak_ptr::~bad_weak_ptr() noexcept {}
	char const *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
}

extern "C" {
int wmemcmp(wchar_t const *a, wchar_t const *b, size_t n) { for (size_t i = 0; i < n; ++i) { if (a[i] < b[i]) return -1; if (b[i] < a[i]) return 1; } return 0; }
wchar_t *wmemcpy(wchar_t *d, wchar_t const *s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
size_t wcslen(wchar_t const *s) { size_t n = 0; while (s[n]) ++n; return n; }
wchar_t *wmemchr(wchar_t const *s, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return const_cast<wchar_t *>(s + i); return nullptr; }
}
