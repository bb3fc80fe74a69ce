// Native replay of recorded assignments. Usage: prog ENTRY FILE
// FILE holds records:  R <part> / i <value> ... / s <tid> ... / E
// Every record runs in its own child process; prints "RES <idx> <status> <obs...>".
// status: ok | check:<msg> | invalid | leak | signal:<n> | exit:<n> | timeout
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <new>
#include <poll.h>
#include <signal.h>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>
#include <cxxabi.h>
#include <typeinfo>

#ifdef DTL_MT
extern "C" void dtl_mt_reset(void *, size_t);
extern "C" void dtl_mt_free(void *, size_t);
#endif
namespace {
	std::vector<uint64_t> *g_in;
	std::vector<int> *g_sched;
	size_t g_pos;
	int g_fd = 2;
	int g_faults = 0;
	bool g_armed = false; // inside the entry
	std::vector<uint64_t> *g_obs;
	[[noreturn]] void finish(char const *st, char const *msg = "") {
		std::string out = std::string("S ") + st + msg + "\n";
		for (auto o : *g_obs) out += "O " + std::to_string(o) + "\n";
		(void) !write(g_fd, out.data(), out.size());
		_exit(0);
	}
	uint64_t next() {
		if (g_pos >= g_in->size()) return 0;
		return (*g_in)[g_pos++];
	}
	struct Rec { void *p; size_t n; size_t al; int kind; };
	constexpr size_t TAB = 1 << 16;
	Rec *tab;
	size_t live = 0;
	Rec *slot(void *p, bool ins) {
		if (!tab) tab = static_cast<Rec *>(calloc(TAB, sizeof(Rec)));
		size_t h = (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 48;
		Rec *del = nullptr;
		for (size_t i = 0; i < TAB; ++i) {
			Rec &r = tab[(h + i) & (TAB - 1)];
			if (r.p == p) return &r;
			if (r.p == (void *) 1 && !del) del = &r;
			if (!r.p) return ins ? (del ? del : &r) : nullptr;
		}
		return nullptr;
	}
	void *alloc(size_t n, size_t al, int kind, bool nothrow) {
		if (g_armed && g_faults > 0) {
			if (next()) { g_faults--; if (nothrow) return nullptr; throw std::bad_alloc(); }
		}
		void *p = n > (size_t(1) << 40) ? nullptr : al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
		if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
#ifdef DTL_MT
		if (g_armed) dtl_mt_reset(p, n);
#endif
		if (g_armed) { *slot(p, true) = Rec{p, n, al, kind}; live++; }
		return p;
	}
	void dealloc(void *p, int kind, bool hasSize, size_t n, size_t al) {
		if (!p) return;
		Rec *r = slot(p, false);
		if (r) {
			if (g_armed) {
				if (r->kind != kind) finish("check:", "mismatched new/delete");
				if (hasSize && r->n != n) finish("check:", "sized delete with wrong size");
				if ((r->al <= 16 ? 16 : r->al) != (al <= 16 ? 16 : al)) finish("check:", "delete with wrong alignment");
			}
#ifdef DTL_MT
			if (g_armed) dtl_mt_free(p, r->n);
#endif
			r->p = (void *) 1;
			live--;
		}
		free(p);
	}
}

void *operator new(size_t n) { return alloc(n, 16, 0, false); }
void *operator new[](size_t n) { return alloc(n, 16, 1, false); }
void *operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t) a, 0, false); }
void *operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t) a, 1, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return alloc(n, 16, 0, true); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return alloc(n, 16, 1, true); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { dealloc(p, 1, false, 0, 16); }
void operator delete(void *p) noexcept { dealloc(p, 0, false, 0, 16); }
void operator delete(void *p, std::nothrow_t const &) noexcept { dealloc(p, 0, false, 0, 16); }
void operator delete(void *p, size_t n) noexcept { dealloc(p, 0, true, n, 16); }
void operator delete[](void *p) noexcept { dealloc(p, 1, false, 0, 16); }
void operator delete[](void *p, size_t n) noexcept { dealloc(p, 1, true, n, 16); }
void operator delete(void *p, std::align_val_t a) noexcept { dealloc(p, 0, false, 0, (size_t) a); }
void operator delete(void *p, size_t n, std::align_val_t a) noexcept { dealloc(p, 0, true, n, (size_t) a); }
void operator delete[](void *p, std::align_val_t a) noexcept { dealloc(p, 1, false, 0, (size_t) a); }
void operator delete[](void *p, size_t n, std::align_val_t a) noexcept { dealloc(p, 1, true, n, (size_t) a); }

extern "C" {
uint64_t dtl_sym(unsigned bits, char const *) noexcept { uint64_t v = next(); return bits >= 64 ? v : v & ((uint64_t(1) << bits) - 1); }
uint32_t dtl_choice(uint32_t n, char const *) noexcept { auto v = (uint32_t) next(); if (v >= n) finish("invalid"); return v; }
uint64_t dtl_fork(uint64_t v) noexcept { return v; }
void dtl_assume(bool c) noexcept { if (!c) finish("invalid"); }
void dtl_check(bool c, char const *msg) noexcept { if (!c) finish("check:", msg); }
void dtl_fail(char const *msg) noexcept { finish("check:", msg); }
void dtl_reach(char const *) noexcept {}
void dtl_observe(uint64_t v) noexcept { bool a = g_armed; g_armed = false; g_obs->push_back(v); g_armed = a; }
void dtl_faults_new(int n) noexcept { g_faults = n; }
void dtl_spurious(int) noexcept {}
uint64_t dtl_shared(unsigned idx, uint64_t add) noexcept { static uint64_t c[64]; return c[idx] += add; }
uint64_t dtl_live() noexcept { return live; }
void dtl_kill() noexcept { finish("invalid"); }
void dtl_expect_terminate(int on) noexcept {
	static std::terminate_handler const old = std::get_terminate();
	std::set_terminate(on ? +[] { finish("ok"); } : old);
	signal(SIGABRT, on ? +[](int) { finish("ok"); } : SIG_DFL);
}
#ifndef DTL_MT
int dtl_thread(void (*)(void *), void *) noexcept { finish("invalid"); }
void dtl_join_all() noexcept {}
void dtl_yield() noexcept {}
int dtl_thread_id() noexcept { return 0; }
#else
void dtl_mt_start(int const *sched, size_t n);
#endif
int dtl_mt_stop(void) __attribute__((weak));
}
#ifdef DTL_MT
extern "C" void dtl_mt_fail(char const *kind, char const *msg) { std::string m = std::string(kind) + ":" + msg; finish("check:", m.c_str()); }
#endif

static void runOne(void *fn, uint64_t part, int fd, std::vector<uint64_t> &in, std::vector<int> &sched) {
	g_fd = fd; g_in = &in; g_sched = &sched; g_pos = 0;
	g_obs = new std::vector<uint64_t>();
	g_obs->reserve(4096);
#ifdef DTL_MT
	dtl_mt_start(sched.data(), sched.size());
#endif
	struct itimerval tv{};
	tv.it_value.tv_sec = 10;
	setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	g_armed = true;
	try {
		reinterpret_cast<void (*)(uint64_t)>(fn)(part);
	} catch (std::exception const &e) {
		finish("check:", (std::string("uncaught exception ") + typeid(e).name()).c_str());
	} catch (...) { finish("check:", "uncaught exception"); }
	g_armed = false;
	if (live) finish("check:", "heap memory leaked");
	finish("ok");
}

int main(int argc, char **argv) {
	if (argc < 3) return 2;
	void *fn = dlsym(RTLD_DEFAULT, argv[1]);
	if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
	FILE *f = fopen(argv[2], "r");
	if (!f) return 2;
	char line[256];
	std::vector<uint64_t> in;
	std::vector<int> sched;
	uint64_t part = 0;
	int idx = 0;
	while (fgets(line, sizeof line, f)) {
		if (line[0] == 'R') { in.clear(); sched.clear(); part = strtoull(line + 2, nullptr, 10); }
		else if (line[0] == 'i') in.push_back(strtoull(line + 2, nullptr, 10));
		else if (line[0] == 's') sched.push_back(atoi(line + 2));
		else if (line[0] == 'E') {
			int pp[2];
			if (pipe(pp)) return 2;
			fflush(stdout);
			pid_t pid = (pid_t) syscall(SYS_fork);
			if (pid == 0) { close(pp[0]); runOne(fn, part, pp[1], in, sched); _exit(0); }
			close(pp[1]);
			std::string out;
			char buf[4096];
			bool to = false;
			for (;;) {
				struct pollfd pf{pp[0], POLLIN, 0};
				int r = poll(&pf, 1, 15000);
				if (r == 0) { to = true; kill(pid, SIGKILL); break; }
				ssize_t n = read(pp[0], buf, sizeof buf);
				if (n <= 0) break;
				out.append(buf, (size_t) n);
			}
			close(pp[0]);
			int st = 0;
			syscall(SYS_wait4, pid, &st, 0, nullptr);
			std::string status;
			std::vector<std::string> obs;
			size_t p = 0;
			while (p < out.size()) {
				size_t q = out.find('\n', p);
				if (q == std::string::npos) q = out.size();
				if (out[p] == 'S') status = out.substr(p + 2, q - p - 2);
				else if (out[p] == 'O') obs.push_back(out.substr(p + 2, q - p - 2));
				p = q + 1;
			}
			if (to || (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM)) status = "timeout";
			else if (WIFSIGNALED(st)) status = "signal:" + std::to_string(WTERMSIG(st));
			else if (WEXITSTATUS(st) != 0) status = "exit:" + std::to_string(WEXITSTATUS(st));
			else if (status.empty()) status = "exit:0-without-result";
			printf("RES\t%d\t%s\t", idx++, status.c_str());
			for (auto &o : obs) printf("%s ", o.c_str());
			printf("\n");
		}
	}
	return 0;
}
