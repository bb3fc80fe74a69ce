// DICE_SANDBOX: running code in a subprocess
// IO
// @bound every wait status, exit code, pid and errno; fork and waitpid failing, up to 3 interrupted waits; void and int functions that return or throw; the operating system is replaced by a model of fork, waitpid, _exit, signal dispositions and masks and buffered output
// @reach parent success failure signaled failed done
// @reach child returned terminated nofork
#include "../runtime/sym.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <stdexcept>
#include <system_error>
#include <signal.h>
#include <stdio.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dice/template-library/type_traits.hpp>

// ---- the operating system
struct Exited { int code; };
struct Stopped {};
static struct World {
	int pid = 0, err = 0, status = 0, interruptions = 0, retries = 0;
	bool forked = false, forkFails = false, waited = false, waitFails = false;
	bool custom[65]; // signals with a handler
	uint64_t blocked;
	int pending_stdio = 1; // output in buffers
	bool in_child() const { return forked && pid == 0; }
} w;
struct Buf : std::streambuf {
	int pending = 1;
	int sync() override { pending = 0; return 0; }
	int_type overflow(int_type c) override { pending = 1; return c == traits_type::eof() ? 0 : c; }
};
static Buf *out, *err;
static bool clean() { return !w.pending_stdio && !out->pending && !err->pending; }
extern "C" {
pid_t dtl_sb_fork() {
	CHECKM(!w.forked, "only one process is created");
	CHECKM(clean(), "no output is left in buffers when the process is duplicated");
	if (w.forkFails) { errno = w.err; return -1; }
	w.forked = true;
	return w.pid;
}
pid_t dtl_sb_waitpid(pid_t p, int *st, int options) {
	CHECKM(w.forked && !w.in_child(), "only the parent waits");
	CHECKM(!w.waited, "there is nothing left to wait for");
	if (w.waitFails) CHECKM(++w.retries < 3, "the parent does not wait forever for a process it cannot wait for");
	if (w.interruptions < 3 && dtl_choice(2, "interrupted")) { ++w.interruptions; errno = EINTR; return -1; }
	if (dtl_choice(2, "wait fails")) {
		w.waitFails = true; w.err = (int) sym<uint8_t>("errno");
		dtl_assume((w.err != EINTR) & (w.err != 0));
		errno = w.err;
		return -1;
	}
	if (p <= 0 && dtl_choice(2, "another child")) { *st = sym<uint16_t>("status"); return w.pid == 1 ? 2 : 1; }
	CHECKM(p <= 0 || p == w.pid, "the parent waits for the process it created");
	if ((options & WNOHANG) && dtl_choice(2, "not yet")) return 0;
	if ((options & WUNTRACED) && dtl_choice(2, "stopped")) { *st = 0x137f; return w.pid; }
	if ((options & 8) && dtl_choice(2, "continued")) { *st = 0xffff; return w.pid; }
	if (dtl_choice(2, "signaled")) { w.status = (int) sym_range<uint8_t>(1, 64, "signal"); if (sym<bool>("core")) w.status |= 0x80; }
	else w.status = (int) sym<uint8_t>("code") << 8;
	w.waited = true;
	*st = w.status;
	return w.pid;
}
void dtl_sb__exit(int code) { throw Exited{code}; }
int dtl_sb_fflush(FILE *f) { if (!f || f == stdout) w.pending_stdio = 0; return 0; }
int dtl_sb_sigemptyset(sigset_t *s) { std::memset(s, 0, sizeof *s); return 0; }
int dtl_sb_sigfillset(sigset_t *s) { std::memset(s, 0xff, sizeof *s); return 0; }
static uint64_t word(sigset_t const *s) { uint64_t v; std::memcpy(&v, s, 8); return v; }
int dtl_sb_sigprocmask(int how, sigset_t const *set, sigset_t *old) {
	if (old) { dtl_sb_sigemptyset(old); std::memcpy(old, &w.blocked, 8); }
	if (set) w.blocked = how == SIG_SETMASK ? word(set) : how == SIG_BLOCK ? w.blocked | word(set) : w.blocked & ~word(set);
	CHECKM(w.in_child(), "the parent's signal mask is left alone");
	return 0;
}
int dtl_sb_sigaction(int s, struct sigaction const *act, struct sigaction *old) {
	if (s < 1 || s > 64 || s == SIGKILL || s == SIGSTOP || s == 32 || s == 33) { errno = EINVAL; return -1; }
	CHECKM(w.in_child(), "the parent's signal handlers are left alone");
	if (old) { *old = {}; }
	if (act) w.custom[s] = act->sa_handler != SIG_DFL;
	return 0;
}
}
namespace std { using ::dtl_sb_fflush; using ::dtl_sb__exit; }
#define fork(...) dtl_sb_fork(__VA_ARGS__)
#define waitpid(...) dtl_sb_waitpid(__VA_ARGS__)
#define _exit(...) dtl_sb__exit(__VA_ARGS__)
#define _Exit(...) dtl_sb__exit(__VA_ARGS__)
#define fflush(...) dtl_sb_fflush(__VA_ARGS__)
#define sigemptyset(...) dtl_sb_sigemptyset(__VA_ARGS__)
#define sigfillset(...) dtl_sb_sigfillset(__VA_ARGS__)
#define sigprocmask(...) dtl_sb_sigprocmask(__VA_ARGS__)
#define pthread_sigmask(...) dtl_sb_sigprocmask(__VA_ARGS__)
#define sigaction(...) dtl_sb_sigaction(__VA_ARGS__)
#include <dice/template-library/sandbox.hpp>
using dice::template_library::SubProcessResult;
static_assert((int) SubProcessResult::Interrupted == SIGINT && (int) SubProcessResult::IllegalInstruction == SIGILL && (int) SubProcessResult::Aborted == SIGABRT && (int) SubProcessResult::FloatingPointException == SIGFPE && (int) SubProcessResult::SegmentationFault == SIGSEGV && (int) SubProcessResult::Terminated == SIGTERM);

static void start() {
	for (int i = 0; i < 65; ++i) w.custom[i] = true;
	w.custom[0] = w.custom[SIGKILL] = w.custom[SIGSTOP] = w.custom[32] = w.custom[33] = false;
	w.blocked = sym<uint64_t>("blocked signals");
}
struct Streams { // std::cout and std::cerr with output in their buffers
	Buf o, e;
	std::streambuf *oo, *oe;
	Streams() : oo(std::cout.rdbuf(&o)), oe(std::cerr.rdbuf(&e)) { out = &o; err = &e; }
	~Streams() { std::cout.rdbuf(oo); std::cerr.rdbuf(oe); }
};
HARNESS(parent) {
	Streams streams;
	start();
	int calls = 0;
	w.pid = (int) sym_range<uint32_t>(1, 0x7fffffff, "pid");
	try {
		SubProcessResult res;
		if (dtl_choice(2, "function") == 0) res = DICE_SANDBOX { ++calls; }; else res = DICE_SANDBOX { ++calls; return 5; };
		CHECKM(w.waited, "the parent waits until the process has ended");
		int const sig = w.status & 0x7f, code = w.status >> 8;
		if (dtl_fork(sig == 0)) {
			if (dtl_fork(code == 0)) { CHECKM(res == SubProcessResult::ExitSuccess, "exit code 0 is success"); REACH("success"); }
			else { CHECKM(res == SubProcessResult::ExitFailure, "any other exit code is a failure"); REACH("failure"); }
		} else { CHECKM((int) res == sig, "a signal is reported as such"); REACH("signaled"); }
	} catch (std::system_error const &e) {
		CHECKM(w.waitFails, "waiting fails only if the operating system says so");
		CHECKM(e.code().value() == w.err && e.code().category() == std::system_category(), "the error of the operating system is reported");
		REACH("failed");
	} catch (Exited const &) { dtl_fail("the parent exits"); }
	CHECKM(calls == 0, "the function does not run in the parent");
	REACH("done");
}
HARNESS(child) {
	Streams streams;
	start();
	int calls = 0;
	w.pid = 0;
	w.forkFails = dtl_choice(2, "fork fails");
	if (w.forkFails) { w.err = (int) sym<uint8_t>("errno"); dtl_assume(w.err != 0); }
	int const ret = sym<int>("result");
	uint32_t const what = dtl_choice(4, "function");
	auto const body = [&] { // in the child
		++calls;
		CHECKM(w.in_child() && calls == 1, "the function runs once, in the child");
		bool custom = false;
		for (bool c : w.custom) custom = custom | c;
		CHECKM(!custom, "all signals have their default disposition");
		CHECKM(w.blocked == 0, "no signal is blocked");
		w.pending_stdio = out->pending = err->pending = 1; // writes something
	};
	try {
		SubProcessResult res;
		switch (what) {
			case 0: res = DICE_SANDBOX { body(); }; break;
			case 1: res = DICE_SANDBOX { body(); return ret; }; break;
			case 2: res = DICE_SANDBOX { body(); dtl_expect_terminate(1); throw 1; }; break;
			default: res = DICE_SANDBOX { body(); dtl_expect_terminate(1); throw std::system_error{std::make_error_code(std::errc::interrupted)}; return 1; }; break;
		}
		dtl_fail("the child must not return from the sandbox");
	} catch (Exited const &x) {
		CHECKM(w.in_child() && calls == 1 && what < 2, "the child exits after the function returned");
		CHECKM(x.code == (what == 0 ? 0 : ret), "the child exits with the result of the function");
		CHECKM(clean(), "the child's output is written before it exits");
		REACH("returned");
	} catch (std::system_error const &e) {
		CHECKM(w.forkFails && calls == 0, "an error is only reported if the process could not be created");
		CHECKM(e.code().value() == w.err && e.code().category() == std::system_category(), "the error of the operating system is reported");
		REACH("nofork");
	}
}
