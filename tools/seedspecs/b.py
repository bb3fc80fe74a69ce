WATCH = r"""
#include <thread>
#include <chrono>
#include <cstdlib>
#include <unistd.h>
struct watchdog {
	explicit watchdog(int s) { std::thread([s] { std::this_thread::sleep_for(std::chrono::seconds(s)); _exit(3); }).detach(); }
};
"""
SEEDS = [
dict(id="limit-upstream-throw-leak", prop="C07", edits=[("limit_allocator.hpp", "\t\t\t} catch (...) {\n\t\t\t\tcontrol_block_->deallocate(n * sizeof(T));\n", "\t\t\t} catch (std::bad_alloc const &) {\n\t\t\t\tcontrol_block_->deallocate(n * sizeof(T));\n")],
     needs="an underlying allocator that reports failure with an exception that is no bad_alloc (like a length_error)",
     breaks="the bytes of the failed allocation are never given back: the usable limit shrinks although nothing is outstanding",
     demo=r"""
#include <dice/template-library/limit_allocator.hpp>
#include <stdexcept>
template<typename T> struct up { using value_type = T; up() = default; template<typename U> up(up<U> const &) {}
	T *allocate(size_t n) { if (n > 3) throw std::length_error{"x"}; return std::allocator<T>{}.allocate(n); }
	void deallocate(T *p, size_t n) { std::allocator<T>{}.deallocate(p, n); }
	bool operator==(up const &) const = default; };
int main() {
	dice::template_library::limit_allocator<int, up> a{40};
	for (int i = 0; i < 5; ++i) { try { (void) a.allocate(8); return 1; } catch (std::length_error const &) {} catch (std::bad_alloc const &) { return 2; } }
	int *p = a.allocate(3); a.deallocate(p, 3);
	return 0;
}
"""),
dict(id="limit-early-release", prop="C07", edits=[("limit_allocator.hpp", "\t\t\tstd::allocator_traits<upstream_allocator_type>::deallocate(inner_, ptr, n);\n\t\t\tcontrol_block_->deallocate(n * sizeof(T));", "\t\t\tcontrol_block_->deallocate(n * sizeof(T));\n\t\t\tstd::allocator_traits<upstream_allocator_type>::deallocate(inner_, ptr, n);")],
     needs="another allocation through a copy of the allocator between the release of the budget and the deallocation of the underlying allocator",
     breaks="for a moment the underlying allocator has more outstanding than the limit",
     demo=r"""
#include <dice/template-library/limit_allocator.hpp>
#include <functional>
static size_t outstanding = 0, peak = 0; static std::function<void()> hook;
template<typename T> struct up { using value_type = T; up() = default; template<typename U> up(up<U> const &) {}
	T *allocate(size_t n) { outstanding += n * sizeof(T); if (outstanding > peak) peak = outstanding; return std::allocator<T>{}.allocate(n); }
	void deallocate(T *p, size_t n) { if (hook) { auto h = std::move(hook); hook = nullptr; h(); } outstanding -= n * sizeof(T); std::allocator<T>{}.deallocate(p, n); }
	bool operator==(up const &) const = default; };
int main() {
	dice::template_library::limit_allocator<int, up> a{32}; auto b = a;
	int *p = a.allocate(8), *q = nullptr;
	hook = [&] { try { q = b.allocate(8); } catch (std::bad_alloc const &) {} }; // what another thread could do at this moment
	a.deallocate(p, 8);
	if (q != nullptr) b.deallocate(q, 8);
	return peak > 32;
}
"""),
dict(id="limit-cas-split", prop="C07", edits=[("limit_allocator.hpp", "\t\t\t\tdo {\n\t\t\t\t\tif (old < n_bytes) [[unlikely]] {\n\t\t\t\t\t\tthrow std::bad_alloc{};\n\t\t\t\t\t}\n\t\t\t\t} while (!bytes_left.compare_exchange_weak(old, old - n_bytes, std::memory_order_relaxed, std::memory_order_relaxed));",
   "\t\t\t\tif (old < n_bytes) [[unlikely]] {\n\t\t\t\t\tthrow std::bad_alloc{};\n\t\t\t\t}\n\t\t\t\tbytes_left.fetch_sub(n_bytes, std::memory_order_relaxed);")],
     needs="two threads allocating from the same budget: both look at the remaining bytes before one of them takes its share",
     breaks="the budget wraps around: both allocations succeed and from then on everything does",
     demo=r"""
#include <dice/template-library/limit_allocator.hpp>
#include <thread>
#include <atomic>
using A = dice::template_library::limit_allocator<int>;
int main() {
	std::atomic<int> go{0}, out{0}, bad{0};
	A a{sizeof(int)};
	auto run = [&](A mine) {
		++go; while (go < 4) {}
		for (int i = 0; i < 3000000 && !bad; ++i) {
			try { int *p = mine.allocate(1); if (++out > 1) bad = 1; --out; mine.deallocate(p, 1); } catch (std::bad_alloc const &) {}
		}
	};
	std::thread t[4]; for (auto &x : t) x = std::thread(run, a);
	for (auto &x : t) x.join();
	return bad;
}
""", libs="-pthread"),
dict(id="channel-notify-first-only", prop="C10", edits=[("channel.hpp", "        bool try_emplace(Args &&...args) noexcept(std::is_nothrow_constructible_v<value_type, decltype(std::forward<Args>(args))...>) {\n            if (closed_.test(std::memory_order_acquire)) [[unlikely]] {\n                return false;\n            }\n\n            {",
     "        bool try_emplace(Args &&...args) noexcept(std::is_nothrow_constructible_v<value_type, decltype(std::forward<Args>(args))...>) {\n            if (closed_.test(std::memory_order_acquire)) [[unlikely]] {\n                return false;\n            }\n\n            bool was_empty;\n            {"),
    ("channel.hpp", "                    // relaxed is enough because we hold the lock\n                    return false;\n                }\n\n                queue_.emplace_back(std::forward<Args>(args)...);\n            }\n\n            queue_not_empty_.notify_one();",
     "                    // relaxed is enough because we hold the lock\n                    return false;\n                }\n\n                was_empty = queue_.empty();\n                queue_.emplace_back(std::forward<Args>(args)...);\n            }\n\n            if (was_empty) {\n                queue_not_empty_.notify_one();\n            }")],
     needs="two consumers blocked in pop and two elements added by try_push before the first consumer runs",
     breaks="the second consumer is never woken although an element is in the channel",
     demo=WATCH + r"""
#include <dice/template-library/channel.hpp>
int main() {
	watchdog w{120};
	for (int i = 0; i < 300; ++i) {
		dice::template_library::channel<int> c{4};
		std::atomic<int> got{0};
		std::thread a([&] { if (c.pop()) ++got; }), b([&] { if (c.pop()) ++got; });
		std::this_thread::sleep_for(std::chrono::milliseconds(3));
		if (!c.try_push(1) || !c.try_push(2)) return 1;
		for (int k = 0; k < 2000 && got < 2; ++k) std::this_thread::sleep_for(std::chrono::milliseconds(1));
		bool lost = got < 2;
		c.close();
		a.join(); b.join();
		if (lost) return 2;
	}
	return 0;
}
""", libs="-pthread"),
dict(id="channel-close-wakes-one", prop="C10", edits=[("channel.hpp", "queue_not_full_.notify_all(); // notify emplace()", "queue_not_full_.notify_one(); // notify emplace()")],
     needs="two producers blocked on a full channel that is closed",
     breaks="only one of them is woken, the other one blocks for ever",
     demo=WATCH + r"""
#include <dice/template-library/channel.hpp>
int main() {
	watchdog w{20};
	for (int i = 0; i < 20; ++i) {
		dice::template_library::channel<int> c{1};
		c.push(0);
		std::thread a([&] { c.push(1); }), b([&] { c.push(2); });
		std::this_thread::sleep_for(std::chrono::milliseconds(20));
		c.close();
		a.join(); b.join();
	}
	return 0;
}
""", libs="-pthread"),
dict(id="channel-try-pop-silent", prop="C10", edits=[("channel.hpp", "            std::optional<value_type> ret{std::move(queue_.front())};\n            queue_.pop_front();\n\n            lock.unlock();\n            queue_not_full_.notify_one();\n            return ret;", "            std::optional<value_type> ret{std::move(queue_.front())};\n            queue_.pop_front();\n\n            if (queue_.size() + 1 == max_cap_) {\n                return ret;\n            }\n            lock.unlock();\n            queue_not_full_.notify_one();\n            return ret;")],
     needs="a producer blocked on a full channel while the consumer uses try_pop",
     breaks="the producer is not woken although there is room in the channel",
     demo=WATCH + r"""
#include <dice/template-library/channel.hpp>
int main() {
	watchdog w{20};
	dice::template_library::channel<int> c{1};
	c.push(0);
	std::thread a([&] { c.push(1); });
	std::this_thread::sleep_for(std::chrono::milliseconds(200));
	if (c.try_pop() != 0) return 1;
	a.join();
	return c.try_pop() != 1;
}
""", libs="-pthread"),
dict(id="channel-push-after-close", prop="C10", edits=[("channel.hpp", "                if (closed_.test(std::memory_order_relaxed)) [[unlikely]] {\n                    // relaxed is enough because we hold the lock\n                    // wait was exited because closed_ was true (channel closed)\n                    return false;", "                if (queue_.size() >= max_cap_) [[unlikely]] {\n                    // relaxed is enough because we hold the lock\n                    // wait was exited because closed_ was true (channel closed)\n                    return false;")],
     needs="a producer blocked on a full channel, then close() and a pop() before the producer runs again",
     breaks="the producer adds an element to a closed channel and reports success, after consumers could already have seen its end",
     demo=WATCH + r"""
#include <dice/template-library/channel.hpp>
int main() {
	watchdog w{120};
	for (int i = 0; i < 2000; ++i) {
		dice::template_library::channel<int> c{1};
		c.push(0);
		std::atomic<bool> ok{false};
		std::thread a([&] { ok = c.push(1); });
		std::this_thread::sleep_for(std::chrono::milliseconds(2));
		c.close();
		(void) c.pop();
		a.join();
		if (ok) return 1;
	}
	return 0;
}
""", libs="-pthread"),
dict(id="exchange-push-after-close", prop="C11", edits=[("exchange_channel.hpp", "                std::unique_lock lock{value_mutex_};\n                if (closed_.test(std::memory_order_relaxed)) [[unlikely]] {\n                    // relaxed is enough because we hold the lock\n                    return false;\n                }\n\n                value_.emplace", "                std::unique_lock lock{value_mutex_};\n                value_.emplace")],
     needs="close() and a complete drain between the first look at the flag and taking the lock in push",
     breaks="an element is accepted after the channel was closed and its consumer has seen the end: it is lost",
     demo=WATCH + r"""
#include <dice/template-library/exchange_channel.hpp>
#include <memory>
int main() {
	using C = dice::template_library::exchange_channel<int>;
	std::atomic<C *> cur{nullptr}; std::atomic<int> done{0}; std::atomic<bool> stop{false};
	auto pusher = [&] { C *last = nullptr; while (!stop) { C *c = cur; if (c == nullptr || c == last) continue; last = c; while (c->push(1)) {} ++done; } };
	std::thread t1(pusher), t2(pusher), t3(pusher);
	int bad = 0;
	std::unique_ptr<C> old;
	auto end = std::chrono::steady_clock::now() + std::chrono::seconds(30);
	while (!bad && std::chrono::steady_clock::now() < end) {
		auto c = std::make_unique<C>();
		done = 0; cur = c.get();
		while (!c->try_pop()) {}
		c->close();
		while (c->pop()) {}
		while (done < 3) {}
		if (c->try_pop()) bad = 1;
		old = std::move(c);
	}
	stop = true; t1.join(); t2.join(); t3.join();
	return bad;
}
""", libs="-pthread"),
dict(id="mutex-guard-swap-assign", prop="C12", edits=[("mutex.hpp", "        mutex_guard &operator=(mutex_guard &&other) noexcept = default;\n", "        mutex_guard &operator=(mutex_guard &&other) noexcept {\n            std::swap(value_ptr_, other.value_ptr_);\n            lock_.swap(other.lock_);\n            return *this;\n        }\n")],
     needs="move assignment to a guard that owns another mutex, with the source guard living on",
     breaks="the mutex of the target is not released by the assignment, it stays locked by the moved-from guard",
     demo=r"""
#include <dice/template-library/mutex.hpp>
#include <thread>
int main() {
	dice::template_library::mutex<int> a{1}, b{2};
	auto ga = a.lock(), gb = b.lock();
	ga = std::move(gb);
	bool free_a = false, free_b = false;
	std::thread([&] { free_a = a.try_lock().has_value(); free_b = b.try_lock().has_value(); }).join();
	return !free_a || free_b || *ga != 2;
}
""", libs="-pthread"),
dict(id="shared-mutex-downgraded-try", prop="C12", edits=[("shared_mutex.hpp", "            std::shared_lock<mutex_type> lock{mutex_, std::try_to_lock};\n            if (!lock.owns_lock()) {\n                return std::nullopt;\n            }", "            std::shared_lock<mutex_type> lock{mutex_, std::defer_lock};\n            if (!mutex_.try_lock()) {\n                return std::nullopt;\n            }\n            mutex_.unlock();\n            lock.lock();")],
     needs="try_lock_shared while another reader holds the lock, or a writer that gets in between",
     breaks="a shared lock attempt fails although only readers hold the lock, and may block",
     demo=r"""
#include <dice/template-library/shared_mutex.hpp>
#include <thread>
int main() {
	dice::template_library::shared_mutex<int> a{1};
	auto g = a.lock_shared();
	bool ok = false;
	std::thread([&] { ok = a.try_lock_shared().has_value(); }).join();
	return !ok;
}
""", libs="-pthread"),
dict(id="poly-single-select-self", prop="C08", edits=[("polymorphic_allocator.hpp", "return polymorphic_allocator{std::allocator_traits<Allocator<T>>::select_on_container_copy_construction(alloc_)};", "return *this;")],
     needs="a polymorphic_allocator over a single stateful allocator that selects another one for copies of a container",
     breaks="copies of a container use the allocator that its author excluded from being copied",
     demo=r"""
#include <dice/template-library/polymorphic_allocator.hpp>
#include <vector>
static int used[2];
template<typename T> struct st { using value_type = T; int id = 0; st() = default; explicit st(int i) : id{i} {} template<typename U> st(st<U> const &o) : id{o.id} {}
	T *allocate(size_t n) { ++used[id]; return std::allocator<T>{}.allocate(n); }
	void deallocate(T *p, size_t n) { std::allocator<T>{}.deallocate(p, n); }
	st select_on_container_copy_construction() const { return st{0}; }
	bool operator==(st const &) const = default; };
int main() {
	using P = dice::template_library::polymorphic_allocator<int, st>;
	std::vector<int, P> v(3, 7, P{std::in_place_index<0>, 1});
	used[0] = used[1] = 0;
	auto w = v;
	return used[1] != 0 || used[0] != 1 || w != v;
}
"""),
dict(id="poly-select-first", prop="C08", edits=[("polymorphic_allocator.hpp", "\t\t\t\t\t[]<typename A>(A const &alloc) -> inner_variant_t {\n\t\t\t\t\t\treturn std::allocator_traits<A>::select_on_container_copy_construction(alloc);\n\t\t\t\t\t},", "\t\t\t\t\t[]<typename A>(A const &alloc) -> inner_variant_t {\n\t\t\t\t\t\tif constexpr (requires { alloc.select_on_container_copy_construction(); }) {\n\t\t\t\t\t\t\treturn alloc.select_on_container_copy_construction();\n\t\t\t\t\t\t} else if constexpr (std::is_default_constructible_v<A>) {\n\t\t\t\t\t\t\treturn A{};\n\t\t\t\t\t\t} else {\n\t\t\t\t\t\t\treturn alloc;\n\t\t\t\t\t\t}\n\t\t\t\t\t},")],
     needs="a stateful, default constructible alternative without a select_on_container_copy_construction of its own",
     breaks="copies of a container silently use a default constructed allocator instead of the one in use",
     demo=r"""
#include <dice/template-library/polymorphic_allocator.hpp>
#include <vector>
static int used[2];
template<typename T> struct st { using value_type = T; int id = 0; st() = default; explicit st(int i) : id{i} {} template<typename U> st(st<U> const &o) : id{o.id} {}
	T *allocate(size_t n) { ++used[id]; return std::allocator<T>{}.allocate(n); }
	void deallocate(T *p, size_t n) { std::allocator<T>{}.deallocate(p, n); }
	bool operator==(st const &) const = default; };
int main() {
	using P = dice::template_library::polymorphic_allocator<int, st, std::allocator>;
	std::vector<int, P> v(3, 7, P{std::in_place_index<0>, 1});
	used[0] = used[1] = 0;
	auto w = v;
	return used[0] != 0 || used[1] != 1 || w != v;
}
"""),
dict(id="inplace-default-alignment", prop="C09", edits=[("inplace_polymorphic.hpp", "alignas(std::max({alignof(Ts)...}))", "alignas(std::min(std::max({alignof(Ts)...}), alignof(std::max_align_t)))")],
     needs="an alternative that is over-aligned",
     breaks="the object is created at an address that is not aligned for it",
     demo=r"""
#include <dice/template-library/inplace_polymorphic.hpp>
#include <cstdint>
struct B { virtual ~B() = default; virtual uintptr_t addr() const = 0; };
struct alignas(64) D final : B { char c = 0; uintptr_t addr() const override { return reinterpret_cast<uintptr_t>(this); } };
int main() {
	using P = dice::template_library::inplace_polymorphic<B, D>;
	struct { char pad; P p; } x[3];
	uintptr_t all = 0;
	for (auto &e : x) { auto volatile a = e.p->addr(); all |= a; }
	return all % 64 != 0 || alignof(P) < 64;
}
"""),
dict(id="defer-while-unwinding", prop="C13", edits=[("defer.hpp", "return uncaught_exceptions_ < std::uncaught_exceptions();", "return std::uncaught_exceptions() > 0;")],
     needs="a guard in a scope that runs while another exception is already in flight (in a destructor, say)",
     breaks="the scope that succeeds is treated as failed: the fail action runs, the success action does not",
     demo=r"""
#include <dice/template-library/defer.hpp>
static int ok = 0, fail = 0;
struct D { ~D() {
	DICE_DEFER_TO_SUCCESS { ++ok; };
	DICE_DEFER_TO_FAIL { ++fail; };
} };
int main() {
	try { D d; throw 1; } catch (int) {}
	return ok != 1 || fail != 0;
}
"""),
]
