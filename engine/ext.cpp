// Models of external functions: allocation, exceptions, libc, pthreads, intrinsics and the harness API.
#include "engine.hpp"
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
using namespace llvm;

#define X(name) static R name(Engine &e, State &s, CallBase &cb, std::vector<Val> &a, Val &r)
#define UNUSED (void) e, (void) s, (void) cb, (void) a, (void) r

static std::string cstrAt(Engine &e, State &s, uint64_t p) {
	std::string r;
	Obj *o = e.find(s, p);
	if (!o) return "?";
	for (uint64_t i = p - o->base; i < o->size && o->b[i].st == 1 && o->b[i].c; ++i) r += (char)o->b[i].c;
	return r;
}

// ------------------------------------------------------------ harness API
X(x_sym) { // uint64 dtl_sym(unsigned bits, const char*)
	UNUSED;
	unsigned bits = (unsigned)a[0].s.u();
	std::string n = cstrAt(e, s, a[1].s.u());
	Expr const *x = e.newSym(s, n, bits, 'i');
	r = Val(V(P.zext(x, 64)));
	return ADV;
}
X(x_assume) {
	UNUSED;
	V c = P.vextract(a[0].s, 0, 1);
	if (a[0].s.w > 1) c = P.vnot(P.vbin(K_EQ, a[0].s, V(0, a[0].s.w)));
	if (c.conc()) { if (!c.c) { e.pathsAssume++; return DEAD; } return ADV; }
	Evaluator ev(s.model);
	if (!ev.eval(c.e)) {
		Model m;
		SatRes q = e.may(s, c.e, &m);
		if (q != SAT) { e.pathsAssume++; return DEAD; }
		s.model = std::move(m);
	}
	e.exclude(s, P.lnot(c.e));
	e.addC(s, c.e);
	return ADV;
}
X(x_check) {
	UNUSED;
	V c = a[0].s.w > 1 ? P.vnot(P.vbin(K_EQ, a[0].s, V(0, a[0].s.w))) : a[0].s;
	e.checks++;
	auto msg = [&] { return cstrAt(e, s, a[1].s.u()); };
	if (c.conc()) {
		if (!c.c) { e.violation(s, "check", msg()); return DEAD; }
		return ADV;
	}
	e.checksSym++;
	if (s.csSet.count(c.e->id)) return ADV;
	Expr const *nc = P.lnot(c.e);
	Model m;
	SatRes q = e.may(s, nc, &m);
	if (q == UNSAT) return ADV;
	if (q == UNKNOWN) { e.addC(s, c.e); return ADV; }
	e.violation(s, "check", msg(), &m);
	Model m2;
	if (e.may(s, c.e, &m2) != SAT) return DEAD;
	s.model = std::move(m2);
	e.exclude(s, nc);
	e.addC(s, c.e);
	return ADV;
}
X(x_reach) { UNUSED; s.reach.push_back(cstrAt(e, s, a[0].s.u())); return ADV; }
X(x_shared) { // uint64_t dtl_shared(unsigned idx, uint64_t add)
	UNUSED;
	uint64_t i = a[0].s.u();
	if (s.shared.size() <= i) s.shared.resize(i + 1, V(0, 64));
	s.shared[i] = P.vbin(K_ADD, s.shared[i], a[1].s);
	r = Val(s.shared[i]);
	return ADV;
}
X(x_observe) { UNUSED; s.obs.push_back(a[0].s); return ADV; }
X(x_choice) { // uint32 dtl_choice(uint32 n, const char*)
	UNUSED;
	uint64_t n = e.concretize(s, a[0].s).u();
	std::string nm = cstrAt(e, s, a[1].s.u());
	Expr const *x = e.newSym(s, nm, 8, 'i');
	// all values are feasible: x is fresh. Fork now, results set directly.
	if (n < 256) e.exclude(s, P.bin(K_ULE, P.cst(n, 8), x));
	int dst = -1;
	{ Frame &f = s.F(); dst = f.fn->bbs[f.bb].ins[f.ip].dst; }
	auto setm = [&](State &st, uint64_t v) {
		e.addC(st, P.bin(K_EQ, P.cst(v, 8), x));
		if (st.model.size() <= x->aux) st.model.resize(x->aux + 1, 0);
		st.model[x->aux] = v;
	};
	for (uint64_t v = n; v-- > 1;) {
		State *k = e.fork(s);
		setm(*k, v);
		Frame &f = k->F();
		II &ii = f.fn->bbs[f.bb].ins[f.ip];
		if (dst >= 0) f.regs[dst] = Val(V(v, 32));
		if (ii.opc == Instruction::Invoke) e.jump(*k, ii.succ[0]); else f.ip++;
		e.work.push_back(k);
	}
	setm(s, 0);
	r = Val(V(0, 32));
	return ADV;
}
X(x_fork) { UNUSED; r = Val(e.concretize(s, a[0].s)); return ADV; }
X(x_fail) { UNUSED; e.checks++; e.violation(s, "check", cstrAt(e, s, a[0].s.u())); return DEAD; }
X(x_faults) { UNUSED; s.newFaults = (int)a[0].s.u(); return ADV; }
X(x_spurious) { UNUSED; s.spurious = (int)a[0].s.u(); return ADV; }
X(x_is_symbolic) { UNUSED; r = Val(V(1, 32)); return ADV; }
X(x_live) { // number of live heap allocations
	UNUSED;
	uint64_t n = 0;
	for (auto &[ad, o] : s.mem) if (o->alive && (o->kind == O_NEW || o->kind == O_NEWARR || o->kind == O_MALLOC)) n++;
	r = Val(V(n, 64));
	return ADV;
}
X(x_expect_terminate) { UNUSED; s.expectTerm = e.concretize(s, a[0].s).u() != 0; return ADV; }
X(x_kill) { UNUSED; e.pathsAssume++; return DEAD; }
X(x_poison_check) { // dtl_readable(ptr, n): all bytes initialised and alive
	UNUSED;
	uint64_t p = e.concretize(s, a[0].s).u(), n = e.concretize(s, a[1].s).u();
	Obj *o = e.find(s, p);
	bool ok = o && o->alive && p - o->base + n <= o->size;
	r = Val(V(ok, 1));
	return ADV;
}

// ------------------------------------------------------------ allocation
static R throwBadAlloc(Engine &e, State &s) {
	Function *f = e.M->getFunction("dtl_throw_bad_alloc");
	if (!f) { e.unsupported(s, "no bad_alloc model"); return DEAD; }
	return e.enter(s, f, {});
}
static R newImpl(Engine &e, State &s, CallBase &cb, V size, uint64_t align, ObjKind k, bool nothrow, Val &r) {
	// optional allocation fault injection
	if (s.newFaults > 0) {
		Expr const *x = e.newSym(s, "alloc_fails", 1, 'i');
		// fork: failing copy
		State *n = e.fork(s);
		n->newFaults--;
		auto setm = [&](State &st, uint64_t v) {
			e.addC(st, P.bin(K_EQ, P.cst(v, 1), x));
			if (st.model.size() <= x->aux) st.model.resize(x->aux + 1, 0);
			st.model[x->aux] = v;
		};
		setm(*n, 1);
		e.work.push_back(n);
		if (nothrow) {
			Frame &f = n->F();
			II &ii = f.fn->bbs[f.bb].ins[f.ip];
			if (ii.dst >= 0) f.regs[ii.dst] = Val(V(0, 64));
			if (ii.opc == Instruction::Invoke) e.jump(*n, ii.succ[0]); else f.ip++;
		} else throwBadAlloc(e, *n);
		setm(s, 0);
	}
	(void) cb;
	uint64_t n;
	Expr const *ss = nullptr;
	if (!size.conc()) {
		// bound: sizes up to 4096 are handled symbolically, absurd sizes fail, the rest is outside the bound
		V small = P.vbin(K_ULE, size, V(4096, 64));
		if (e.decide(s, small)) {
			// capacity = maximal feasible value (galloping search)
			uint64_t lo = 0, hi = 4096;
			{ Evaluator ev(s.model); lo = (uint64_t)ev.eval(size.e); }
			while (lo < hi) {
				uint64_t mid = lo + (hi - lo + 1) / 2;
				Model m;
				if (e.may(s, P.bin(K_ULE, P.cst(mid, 64), size.e), &m) == UNSAT) hi = mid - 1;
				else { Evaluator ev(m); uint64_t x = (uint64_t)ev.eval(size.e); lo = std::max(x, mid); }
			}
			n = lo;
			Model m;
			if (e.may(s, P.lnot(P.bin(K_EQ, P.cst(n, 64), size.e)), &m) == SAT) ss = size.e;
		} else {
			V huge = P.vbin(K_ULE, V((u128)1 << 44, 64), size);
			if (e.decide(s, huge)) { if (nothrow) { r = Val(V(0, 64)); return ADV; } return throwBadAlloc(e, s); }
			e.pathsAssume++;
			return DEAD;
		}
	} else {
		n = size.u();
		if (n >= ((uint64_t)1 << 32)) { if (nothrow) { r = Val(V(0, 64)); return ADV; } return throwBadAlloc(e, s); }
		if (n > (1 << 24)) { e.unsupported(s, "allocation of more than 16 MiB"); return DEAD; }
	}
	uint64_t p = e.allocObj(s, n, align, k, k == O_MALLOC ? "malloc block" : "heap block", false, ss);
	r = Val(V(p, 64));
	return ADV;
}
X(x_new) { UNUSED; return newImpl(e, s, cb, a[0].s, 16, O_NEW, false, r); }
X(x_new_nt) { UNUSED; return newImpl(e, s, cb, a[0].s, 16, O_NEW, true, r); }
X(x_newa_nt) { UNUSED; return newImpl(e, s, cb, a[0].s, 16, O_NEWARR, true, r); }
X(x_newa) { UNUSED; return newImpl(e, s, cb, a[0].s, 16, O_NEWARR, false, r); }
X(x_new_al) { UNUSED; return newImpl(e, s, cb, a[0].s, std::max<uint64_t>(a[1].s.u(), 1), O_NEW, false, r); }
X(x_newa_al) { UNUSED; return newImpl(e, s, cb, a[0].s, std::max<uint64_t>(a[1].s.u(), 1), O_NEWARR, false, r); }
X(x_malloc) { UNUSED; int nf = s.newFaults; s.newFaults = 0; R x = newImpl(e, s, cb, a[0].s, 16, O_MALLOC, true, r); s.newFaults = nf; return x; }
X(x_aligned_alloc) { UNUSED; return newImpl(e, s, cb, a[1].s, std::max<uint64_t>(a[0].s.u(), 1), O_MALLOC, true, r); }
X(x_calloc) {
	UNUSED;
	V n = P.vbin(K_MUL, a[0].s, a[1].s);
	R x = newImpl(e, s, cb, n, 16, O_MALLOC, true, r);
	if (x == ADV && r.s.u()) { Obj *o = e.wr(s, e.find(s, r.s.u())); for (auto &b : o->b) b = Byte{nullptr, 0, 1}; }
	return x;
}
R Engine::freeObj(State &s, V addr, ObjKind expect, char const *what, bool hasSize, V size, bool hasAlign, uint64_t align) {
	addr = concretize(s, addr);
	uint64_t p = addr.u();
	if (p == 0) return ADV;
	Obj *o = find(s, p);
	if (!o) { violation(s, "memory", std::string(what) + " of invalid pointer " + describe(s, p)); return DEAD; }
	if (!o->alive) { violation(s, "memory", std::string("double free: ") + what + " of " + describe(s, p)); return DEAD; }
	if (o->base != p) { violation(s, "memory", std::string(what) + " of interior pointer " + describe(s, p)); return DEAD; }
	if (o->kind != expect) { violation(s, "memory", std::string("mismatched deallocation: ") + what + " of " + o->name); return DEAD; }
	if (hasSize) {
		V want = o->symsize ? V(o->symsize) : V(o->size, 64);
		if (!decide(s, P.vbin(K_EQ, want, size))) { violation(s, "memory", std::string("sized deallocation with the wrong size: ") + what); return DEAD; }
		o = find(s, p);
	}
	uint64_t oa = o->align <= 16 ? 16 : o->align, fa = hasAlign ? std::max<uint64_t>(align, 16) : 16;
	if (expect != O_MALLOC && oa != fa) { violation(s, "memory", std::string("deallocation with the wrong alignment: ") + what); return DEAD; }
	if (s.multi) race(s, o, 0, o->size, true, false);
	o = wr(s, find(s, p));
	o->alive = false;
	o->b.clear(); o->b.shrink_to_fit();
	o->shadow = nullptr;
	return ADV;
}
X(x_del) { UNUSED; return e.freeObj(s, a[0].s, O_NEW, "operator delete", false, V(), false, 0); }
X(x_del_sz) { UNUSED; return e.freeObj(s, a[0].s, O_NEW, "operator delete", true, a[1].s, false, 0); }
X(x_del_al) { UNUSED; return e.freeObj(s, a[0].s, O_NEW, "operator delete", false, V(), true, a[1].s.u()); }
X(x_del_sz_al) { UNUSED; return e.freeObj(s, a[0].s, O_NEW, "operator delete", true, a[1].s, true, a[2].s.u()); }
X(x_dela) { UNUSED; return e.freeObj(s, a[0].s, O_NEWARR, "operator delete[]", false, V(), false, 0); }
X(x_dela_sz) { UNUSED; return e.freeObj(s, a[0].s, O_NEWARR, "operator delete[]", true, a[1].s, false, 0); }
X(x_dela_al) { UNUSED; return e.freeObj(s, a[0].s, O_NEWARR, "operator delete[]", false, V(), true, a[1].s.u()); }
X(x_dela_sz_al) { UNUSED; return e.freeObj(s, a[0].s, O_NEWARR, "operator delete[]", true, a[1].s, true, a[2].s.u()); }
X(x_free) { UNUSED; return e.freeObj(s, a[0].s, O_MALLOC, "free", false, V(), false, 0); }

// ------------------------------------------------------------ exceptions
X(x_cxa_alloc) {
	UNUSED;
	uint64_t n = e.concretize(s, a[0].s).u();
	uint64_t p = e.allocObj(s, n, 16, O_EXC, "exception object");
	s.exc[p] = ExcInfo{nullptr, 0, 0, false, p, 0};
	r = Val(V(p, 64));
	return ADV;
}
X(x_cxa_free) { UNUSED; s.mem.erase(a[0].s.u()); s.exc.erase(a[0].s.u()); return ADV; }
X(x_cxa_throw) {
	UNUSED;
	uint64_t p = a[0].s.u();
	auto &ei = s.exc[p];
	ei.ti = cb.getArgOperand(1)->stripPointerCasts();
	if (!isa<GlobalVariable>(ei.ti)) { // e.g. computed: look it up by address
		for (auto &g : e.M->globals()) if (e.gaddr[&g] == a[1].s.u()) ei.ti = &g;
	}
	ei.dtor = a[2].s.u();
	ei.handlers = 0;
	s.T().uncaught++;
	return e.doThrow(s, p, false);
}
X(x_cxa_begin) {
	UNUSED;
	uint64_t p = a[0].s.u();
	auto &ei = s.exc[p];
	if (ei.handlers < 0) ei.handlers = -ei.handlers + 1; else ei.handlers++;
	if (s.T().caught.empty() || s.T().caught.back() != p) s.T().caught.push_back(p);
	s.T().uncaught--;
	r = Val(V(ei.adj, 64));
	return ADV;
}
X(x_cxa_end) {
	UNUSED;
	auto &c = s.T().caught;
	if (c.empty()) return ADV;
	uint64_t p = c.back();
	auto &ei = s.exc[p];
	if (ei.handlers < 0) { // rethrown
		if (++ei.handlers == 0) c.pop_back();
		return ADV;
	}
	if (--ei.handlers == 0) {
		c.pop_back();
		if (ei.refs > 0) return ADV;
		uint64_t d = ei.dtor;
		if (d) {
			Function *f = e.faddr.at(d);
			if (!f->isDeclaration()) {
				R x = e.enter(s, f, {Val(V(p, 64))});
				if (x == STAY) s.F().freeExcOnReturn = p;
				return x;
			}
		}
		s.mem.erase(p);
		s.exc.erase(p);
	}
	return ADV;
}
X(x_cxa_rethrow) {
	UNUSED;
	auto &c = s.T().caught;
	if (c.empty()) { e.violation(s, "terminate", "rethrow without a current exception"); return DEAD; }
	uint64_t p = c.back();
	auto &ei = s.exc[p];
	ei.handlers = -ei.handlers;
	s.T().uncaught++;
	return e.doThrow(s, p, true);
}
X(x_cxa_get_ptr) { UNUSED; r = Val(V(s.exc[a[0].s.u()].adj, 64)); return ADV; }
X(x_uncaught) { UNUSED; r = Val(V((u128)(s128)s.T().uncaught, 32)); return ADV; }
X(x_uncaught_b) { UNUSED; r = Val(V(s.T().uncaught > 0, 1)); return ADV; }
X(x_typeid_for) { UNUSED; r = Val(V((u128)e.typeId(cb.getArgOperand(0)->stripPointerCasts()), 32)); return ADV; }
X(x_terminate) { UNUSED; e.violation(s, "terminate", "std::terminate called"); return DEAD; }
X(x_abort) { UNUSED; e.violation(s, "terminate", "abort called"); return DEAD; }
X(x_pure) { UNUSED; e.violation(s, "ub", "pure virtual call"); return DEAD; }
X(x_assert) {
	UNUSED;
	e.violation(s, "assert", "assertion failed: " + cstrAt(e, s, a[0].s.u()) + " at " + cstrAt(e, s, a[1].s.u()) + ":" + std::to_string(a[2].s.u()));
	return DEAD;
}
X(x_glibcxx_assert) { // std::__glibcxx_assert_fail(file, line, fn, cond)
	UNUSED;
	e.violation(s, "assert", "libstdc++ assertion failed: " + cstrAt(e, s, a[3].s.u()));
	return DEAD;
}
X(x_exit) { UNUSED; e.violation(s, "terminate", "process exit"); return DEAD; }
X(x_trap) {
	UNUSED;
	std::string k = "trap";
	if (!a.empty() && a[0].s.conc()) {
		static char const *names[] = {"add_overflow", "builtin_unreachable", "cfi_check_fail", "divrem_overflow", "dynamic_type_cache_miss", "float_cast_overflow", "function_type_mismatch", "implicit_conversion", "invalid_builtin", "invalid_objc_cast", "load_invalid_value", "missing_return", "mul_overflow", "negate_overflow", "nullability_arg", "nullability_return", "nonnull_arg", "nonnull_return", "out_of_bounds", "pointer_overflow", "shift_out_of_bounds", "sub_overflow", "type_mismatch", "alignment_assumption", "vla_bound_not_positive"};
		if (a[0].s.c < sizeof names / sizeof *names) k = names[a[0].s.c];
	}
	e.violation(s, "ub", "undefined behaviour: " + k);
	return DEAD;
}
X(x_guard_acquire) {
	UNUSED;
	uint64_t p = a[0].s.u();
	V x; if (!e.loadScalar(s, a[0].s, 8, x)) return DEAD;
	(void) p;
	r = Val(V(x.c ? 0 : 1, 32));
	return ADV;
}
X(x_guard_release) { UNUSED; if (!e.storeScalar(s, a[0].s, V(1, 8))) return DEAD; return ADV; }

// ------------------------------------------------------------ libc
X(x_nop) { UNUSED; return ADV; }
X(x_ret0) { UNUSED; if (r.s.w) r = Val(V(0, r.s.w)); return ADV; }
X(x_ret1) { UNUSED; if (r.s.w) r = Val(V(1, r.s.w)); return ADV; }
X(x_memcmp) {
	UNUSED;
	V p = e.concretize(s, a[0].s), q = e.concretize(s, a[1].s), n = e.concretize(s, a[2].s);
	uint64_t len = n.u();
	if (len == 0) { r = Val(V(0, 32)); return ADV; }
	V po, qo; bool dead;
	Obj *x = e.resolve(s, p, len, false, po, dead); if (!x) return DEAD;
	Obj *y = e.resolve(s, q, len, false, qo, dead); if (!y) return DEAD;
	uint64_t xb = x->base, yb = y->base;
	if (s.multi) { e.race(s, x, po.u(), len, false, false); e.race(s, e.find(s, yb), qo.u(), len, false, false); }
	V res(0, 32);
	for (uint64_t i = len; i-- > 0;) {
		Byte b1 = e.readByte(s, e.find(s, xb), po.u() + i), b2 = e.readByte(s, e.find(s, yb), qo.u() + i);
		V v1 = b1.st == 1 ? V(b1.c, 8) : V(b1.e), v2 = b2.st == 1 ? V(b2.c, 8) : V(b2.e);
		V lt = P.vbin(K_ULT, v1, v2);
		res = P.vite(P.vbin(K_EQ, v1, v2), res, P.vite(lt, V(maskw(32), 32), V(1, 32)));
	}
	r = Val(res);
	return ADV;
}
X(x_strlen) {
	UNUSED;
	V p = e.concretize(s, a[0].s);
	for (uint64_t i = 0;; ++i) {
		V b;
		if (!e.loadScalar(s, V(p.u() + i, 64), 8, b)) return DEAD;
		if (e.decide(s, P.vbin(K_EQ, b, V(0, 8)))) { r = Val(V(i, 64)); return ADV; }
	}
}
X(x_memchr) {
	UNUSED;
	V p = e.concretize(s, a[0].s), n = e.concretize(s, a[2].s);
	V c = P.vextract(a[1].s, 0, 8);
	for (uint64_t i = 0; i < n.u(); ++i) {
		V b;
		if (!e.loadScalar(s, V(p.u() + i, 64), 8, b)) return DEAD;
		if (e.decide(s, P.vbin(K_EQ, b, c))) { r = Val(V(p.u() + i, 64)); return ADV; }
	}
	r = Val(V(0, 64));
	return ADV;
}
X(x_memcpy) { UNUSED; if (!e.copyMem(s, a[0].s, a[1].s, a[2].s, false)) return DEAD; if (r.s.w == 64) r = a[0]; return ADV; }
X(x_memmove) { UNUSED; if (!e.copyMem(s, a[0].s, a[1].s, a[2].s, true)) return DEAD; if (r.s.w == 64) r = a[0]; return ADV; }
X(x_memset) { UNUSED; if (!e.setMem(s, a[0].s, P.vextract(a[1].s, 0, 8), a[2].s)) return DEAD; if (r.s.w == 64) r = a[0]; return ADV; }
X(x_errno) {
	UNUSED;
	static uint64_t const A = 0x900000;
	if (!s.mem.count(A)) {
		auto o = std::make_shared<Obj>();
		o->base = A; o->size = 4; o->kind = O_GLOBAL; o->name = "errno"; o->b.resize(4);
		for (auto &b : o->b) b.st = 1;
		s.mem[A] = o;
	}
	r = Val(V(A, 64));
	return ADV;
}

// ------------------------------------------------------------ intrinsics
X(x_lifetime_start) {
	UNUSED;
	V p = e.concretize(s, a[1].s);
	Obj *o = e.find(s, p.u());
	if (o && o->kind == O_STACK && o->base == p.u()) { o = e.wr(s, o); o->alive = true; o->b.assign(o->size, Byte{}); o->shadow = nullptr; }
	return ADV;
}
X(x_lifetime_end) {
	UNUSED;
	V p = e.concretize(s, a[1].s);
	Obj *o = e.find(s, p.u());
	if (o && o->kind == O_STACK && o->base == p.u()) { o = e.wr(s, o); o->alive = false; }
	return ADV;
}
X(x_with_overflow) {
	UNUSED;
	V x = a[0].s, y = a[1].s;
	unsigned w = x.w;
	V res, ov;
	switch (cast<IntrinsicInst>(cb).getIntrinsicID()) {
		case Intrinsic::uadd_with_overflow: res = P.vbin(K_ADD, x, y); ov = P.vbin(K_ULT, res, x); break;
		case Intrinsic::usub_with_overflow: res = P.vbin(K_SUB, x, y); ov = P.vbin(K_ULT, x, y); break;
		case Intrinsic::umul_with_overflow: res = P.vbin(K_MUL, x, y); ov = P.vnot(P.vbin(K_UMULNO, x, y)); break;
		case Intrinsic::sadd_with_overflow: {
			res = P.vbin(K_ADD, x, y);
			V z(0, w), sx = P.vbin(K_SLT, x, z), sy = P.vbin(K_SLT, y, z), sr = P.vbin(K_SLT, res, z);
			ov = P.vand(P.vbin(K_EQ, sx, sy), P.vnot(P.vbin(K_EQ, sx, sr)));
			break;
		}
		case Intrinsic::ssub_with_overflow: {
			res = P.vbin(K_SUB, x, y);
			V z(0, w), sx = P.vbin(K_SLT, x, z), sy = P.vbin(K_SLT, y, z), sr = P.vbin(K_SLT, res, z);
			ov = P.vand(P.vnot(P.vbin(K_EQ, sx, sy)), P.vnot(P.vbin(K_EQ, sx, sr)));
			break;
		}
		case Intrinsic::smul_with_overflow: res = P.vbin(K_MUL, x, y); ov = P.vnot(P.vbin(K_SMULNO, x, y)); break;
		default: e.unsupported(s, "overflow intrinsic"); return DEAD;
	}
	r = Val(std::vector<Val>{Val(res), Val(ov)});
	return ADV;
}
X(x_minmax) {
	UNUSED;
	V x = a[0].s, y = a[1].s;
	switch (cast<IntrinsicInst>(cb).getIntrinsicID()) {
		case Intrinsic::umin: r = Val(P.vite(P.vbin(K_ULT, x, y), x, y)); break;
		case Intrinsic::umax: r = Val(P.vite(P.vbin(K_ULT, x, y), y, x)); break;
		case Intrinsic::smin: r = Val(P.vite(P.vbin(K_SLT, x, y), x, y)); break;
		case Intrinsic::smax: r = Val(P.vite(P.vbin(K_SLT, x, y), y, x)); break;
		default: return DEAD;
	}
	return ADV;
}
X(x_abs) { UNUSED; V x = a[0].s; r = Val(P.vite(P.vbin(K_SLT, x, V(0, x.w)), P.vbin(K_SUB, V(0, x.w), x), x)); return ADV; }
X(x_ctpop) { UNUSED; V x = a[0].s, t(0, x.w); for (unsigned i = 0; i < x.w; ++i) t = P.vbin(K_ADD, t, P.vzext(P.vextract(x, i, 1), x.w)); r = Val(t); return ADV; }
X(x_ctlz) { UNUSED; V x = a[0].s, t(x.w, x.w); for (unsigned i = 0; i < x.w; ++i) t = P.vite(P.vextract(x, i, 1), V(x.w - 1 - i, x.w), t); r = Val(t); return ADV; }
X(x_cttz) { UNUSED; V x = a[0].s, t(x.w, x.w); for (unsigned i = x.w; i-- > 0;) t = P.vite(P.vextract(x, i, 1), V(i, x.w), t); r = Val(t); return ADV; }
X(x_bswap) { UNUSED; V x = a[0].s, t = P.vextract(x, 0, 8); for (unsigned i = 8; i < x.w; i += 8) { V b = P.vextract(x, i, 8); t = (t.conc() && b.conc()) ? V((t.c << 8) | b.c, t.w + 8) : V(P.concat(e.E(t), e.E(b))); } r = Val(t); return ADV; }
X(x_fsh) {
	UNUSED;
	bool l = cast<IntrinsicInst>(cb).getIntrinsicID() == Intrinsic::fshl;
	unsigned w = a[0].s.w;
	V sh = P.vbin(K_UREM, a[2].s, V(w, w));
	V inv = P.vbin(K_SUB, V(w, w), sh);
	V hi = l ? P.vbin(K_SHL, a[0].s, sh) : P.vbin(K_SHL, a[0].s, inv), lo = l ? P.vbin(K_LSHR, a[1].s, inv) : P.vbin(K_LSHR, a[1].s, sh);
	r = Val(P.vbin(K_OR, hi, lo));
	return ADV;
}
X(x_sat) {
	UNUSED;
	V x = a[0].s, y = a[1].s; unsigned w = x.w;
	switch (cast<IntrinsicInst>(cb).getIntrinsicID()) {
		case Intrinsic::uadd_sat: { V t = P.vbin(K_ADD, x, y); r = Val(P.vite(P.vbin(K_ULT, t, x), V(maskw(w), w), t)); return ADV; }
		case Intrinsic::usub_sat: r = Val(P.vite(P.vbin(K_ULT, x, y), V(0, w), P.vbin(K_SUB, x, y))); return ADV;
		default: e.unsupported(s, "sat intrinsic"); return DEAD;
	}
}
X(x_expect) { UNUSED; r = a[0]; return ADV; }
X(x_objectsize) { UNUSED; bool mn = a[1].s.c; r = Val(V(mn ? 0 : maskw(r.s.w), r.s.w)); return ADV; }
X(x_ptrmask) { UNUSED; r = Val(P.vand(a[0].s, P.vzt(a[1].s, 64))); return ADV; }
X(x_tls) {
	UNUSED;
	auto *g = cast<GlobalVariable>(cb.getArgOperand(0)->stripPointerCasts());
	auto key = std::make_pair(s.cur, g);
	auto it = s.tls.find(key);
	if (it == s.tls.end()) {
		Obj *src = e.find(s, e.gaddr[g]);
		uint64_t p = e.allocObj(s, src->size, 16, O_GLOBAL, "thread_local " + g->getName().str());
		Obj *d = s.mem[p].get();
		auto o = std::make_shared<Obj>(*d);
		if (g->hasInitializer()) e.initConst(s, *o, 0, g->getInitializer());
		for (auto &b : o->b) if (b.st == 0) b.st = 1;
		s.mem[p] = o;
		it = s.tls.emplace(key, p).first;
	}
	r = Val(V(it->second, 64));
	return ADV;
}
X(x_fabs) { UNUSED; V x = a[0].s; r = Val(P.vand(V(maskw(x.w - 1), x.w), x)); return ADV; }
X(x_ceilf) { UNUSED; V x = e.concretize(s, a[0].s); if (x.w == 32) { uint32_t u = (uint32_t)x.c; float f; memcpy(&f, &u, 4); f = __builtin_ceilf(f); memcpy(&u, &f, 4); r = Val(V(u, 32)); } else { uint64_t u = x.u(); double f; memcpy(&f, &u, 8); f = __builtin_ceil(f); memcpy(&u, &f, 8); r = Val(V(u, 64)); } return ADV; }
X(x_floorf) { UNUSED; V x = e.concretize(s, a[0].s); if (x.w == 32) { uint32_t u = (uint32_t)x.c; float f; memcpy(&f, &u, 4); f = __builtin_floorf(f); memcpy(&u, &f, 4); r = Val(V(u, 32)); } else { uint64_t u = x.u(); double f; memcpy(&f, &u, 8); f = __builtin_floor(f); memcpy(&u, &f, 8); r = Val(V(u, 64)); } return ADV; }
X(x_is_fpclass) {
	UNUSED;
	V x = a[0].s; unsigned mask = (unsigned)a[1].s.u();
	if (mask != 3) { e.unsupported(s, "is.fpclass"); return DEAD; }
	unsigned w = x.w, mant = w == 32 ? 23 : 52;
	r = Val(P.vbin(K_ULT, V(maskw(w - 1) & ~maskw(mant), w), P.vand(V(maskw(w - 1), w), x)));
	return ADV;
}

// ------------------------------------------------------------ threads
X(x_thread) { // int dtl_thread(void (*f)(void*), void *arg)
	UNUSED;
	Function *f = e.faddr.at(a[0].s.u());
	int parent = s.cur;
	int id = (int)s.th.size();
	Thread t;
	t.vc = s.T().vc;
	if (t.vc.size() <= (size_t)id) t.vc.resize(id + 1, 0);
	t.vc[id] = 1;
	s.th.push_back(t);
	s.cur = id;
	R x = e.enter(s, f, {a[1]});
	s.cur = parent;
	e.vcTick(s);
	s.multi = true;
	if (x == DEAD) return DEAD;
	r = Val(V(id, 32));
	return ADV;
}
X(x_join_all) {
	UNUSED;
	for (size_t i = 1; i < s.th.size(); ++i) if (s.th[i].st != T_DONE) {
		s.T().st = T_JOIN;
		if (!e.schedule(s, false)) return DEAD;
		return STAY;
	}
	for (size_t i = 1; i < s.th.size(); ++i) e.vcJoin(s.T().vc, s.th[i].vc);
	return ADV;
}
X(x_thread_id) { UNUSED; r = Val(V(s.cur, 32)); return ADV; }
static R block(Engine &e, State &s, TStatus st, uint64_t addr) {
	s.T().st = st;
	s.T().waitAddr = addr;
	if (!e.schedule(s, false)) return DEAD;
	return STAY;
}
static void acq(Engine &e, State &s, MutexSt &m) { e.vcJoin(s.T().vc, m.rel); }
static bool recursive(Engine &e, State &s, uint64_t p) { // pthread_mutex_t::__kind
	V k;
	return e.loadScalar(s, V(p + 16, 64), 32, k) && k.c && (k.u() & 3) == 1;
}
X(x_mutex_lock) {
	UNUSED;
	uint64_t p = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(p, 64), 1, false, off, dead)) return DEAD;
	auto &m = s.mtx[p];
	if (m.owner == s.cur && recursive(e, s, p)) { ++m.depth; r = Val(V(0, 32)); return ADV; }
	if (m.owner == s.cur) { e.violation(s, "deadlock", "thread locks a mutex it already owns"); return DEAD; }
	if (m.owner >= 0) return block(e, s, T_MUTEX, p);
	m.owner = s.cur;
	acq(e, s, m);
	r = Val(V(0, 32));
	return ADV;
}
X(x_mutex_trylock) {
	UNUSED;
	uint64_t p = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(p, 64), 1, false, off, dead)) return DEAD;
	auto &m = s.mtx[p];
	if (m.owner == s.cur && recursive(e, s, p)) { ++m.depth; r = Val(V(0, 32)); return ADV; }
	if (m.owner == s.cur) { e.violation(s, "ub", "try_lock of a mutex owned by the calling thread"); return DEAD; }
	if (m.owner >= 0 || m.readers) { r = Val(V(16, 32)); return ADV; }
	m.owner = s.cur;
	acq(e, s, m);
	r = Val(V(0, 32));
	return ADV;
}
X(x_mutex_unlock) {
	UNUSED;
	uint64_t p = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(p, 64), 1, false, off, dead)) return DEAD;
	auto &m = s.mtx[p];
	if (m.owner != s.cur) { e.violation(s, "ub", "unlock of a mutex not owned by the calling thread"); return DEAD; }
	if (m.depth) { --m.depth; r = Val(V(0, 32)); return ADV; }
	m.owner = -1;
	m.rel = s.T().vc;
	e.vcTick(s);
	r = Val(V(0, 32));
	return ADV;
}
X(x_mutex_destroy) {
	UNUSED;
	uint64_t p = e.concretize(s, a[0].s).u();
	auto it = s.mtx.find(p);
	if (it != s.mtx.end() && (it->second.owner >= 0 || it->second.readers)) { e.violation(s, "ub", "destruction of a locked mutex"); return DEAD; }
	s.mtx.erase(p);
	return ADV;
}
X(x_rw_rd) {
	UNUSED;
	uint64_t p = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(p, 64), 1, false, off, dead)) return DEAD;
	auto &m = s.mtx[p];
	if (m.owner == s.cur) { e.violation(s, "deadlock", "thread read-locks a lock it already owns exclusively"); return DEAD; }
	if (m.owner >= 0) return block(e, s, T_RD, p);
	m.readers++;
	m.rd.push_back(s.cur);
	acq(e, s, m);
	r = Val(V(0, 32));
	return ADV;
}
X(x_rw_tryrd) {
	UNUSED;
	uint64_t p = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(p, 64), 1, false, off, dead)) return DEAD;
	auto &m = s.mtx[p];
	if (m.owner >= 0) { r = Val(V(16, 32)); return ADV; }
	m.readers++;
	m.rd.push_back(s.cur);
	acq(e, s, m);
	r = Val(V(0, 32));
	return ADV;
}
X(x_rw_wr) {
	UNUSED;
	uint64_t p = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(p, 64), 1, false, off, dead)) return DEAD;
	auto &m = s.mtx[p];
	if (m.owner == s.cur || std::count(m.rd.begin(), m.rd.end(), s.cur)) { e.violation(s, "deadlock", "thread write-locks a lock it already holds"); return DEAD; }
	if (m.owner >= 0 || m.readers) return block(e, s, T_WR, p);
	m.owner = s.cur;
	acq(e, s, m);
	e.vcJoin(s.T().vc, m.rrel);
	r = Val(V(0, 32));
	return ADV;
}
X(x_rw_trywr) {
	UNUSED;
	uint64_t p = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(p, 64), 1, false, off, dead)) return DEAD;
	auto &m = s.mtx[p];
	if (m.owner >= 0 || m.readers) { r = Val(V(16, 32)); return ADV; }
	m.owner = s.cur;
	acq(e, s, m);
	e.vcJoin(s.T().vc, m.rrel);
	r = Val(V(0, 32));
	return ADV;
}
X(x_rw_unlock) {
	UNUSED;
	uint64_t p = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(p, 64), 1, false, off, dead)) return DEAD;
	auto &m = s.mtx[p];
	if (m.owner == s.cur) { m.owner = -1; m.rel = s.T().vc; m.rrel.clear(); }
	else {
		auto it = std::find(m.rd.begin(), m.rd.end(), s.cur);
		if (it == m.rd.end()) { e.violation(s, "ub", "unlock of a reader/writer lock not held by the calling thread"); return DEAD; }
		m.rd.erase(it);
		m.readers--;
		e.vcJoin(m.rrel, s.T().vc);
	}
	e.vcTick(s);
	r = Val(V(0, 32));
	return ADV;
}
static R cvWait(Engine &e, State &s, uint64_t cv, uint64_t mx, bool timed, Val &r) {
	Thread &t = s.T();
	if (t.phase == 0) {
		auto &m = s.mtx[mx];
		if (m.owner != s.cur) { e.violation(s, "ub", "condition variable wait without owning the mutex"); return DEAD; }
		m.owner = -1;
		m.rel = t.vc;
		e.vcTick(s);
		t.phase = 1;
		t.st = T_CV;
		t.waitAddr = cv;
		t.waitMutex = mx;
		t.timed = timed;
		t.wakeReason = 0;
		if (!e.schedule(s, false)) return DEAD;
		return STAY;
	}
	// woken: reacquire
	auto &m = s.mtx[mx];
	if (m.owner >= 0) {
		t.st = T_CV; // wait for the mutex in phase 2
		if (!e.schedule(s, false)) return DEAD;
		return STAY;
	}
	m.owner = s.cur;
	acq(e, s, m);
	t.phase = 0;
	t.timed = false;
	if (r.s.w) r = Val(V(t.wakeReason ? 110 : 0, r.s.w));
	return ADV;
}
X(x_cv_wait) { // std::condition_variable::wait(unique_lock<mutex>&)
	UNUSED;
	uint64_t cv = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(cv, 64), 1, false, off, dead)) return DEAD;
	V mp;
	if (!e.loadScalar(s, a[1].s, 64, mp)) return DEAD;
	return cvWait(e, s, cv, e.concretize(s, mp).u(), false, r);
}
X(x_pcond_wait) { UNUSED; return cvWait(e, s, e.concretize(s, a[0].s).u(), e.concretize(s, a[1].s).u(), false, r); }
X(x_pcond_timedwait) { UNUSED; return cvWait(e, s, e.concretize(s, a[0].s).u(), e.concretize(s, a[1].s).u(), true, r); }
X(x_cv_notify_one) {
	UNUSED;
	uint64_t cv = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(cv, 64), 1, false, off, dead)) return DEAD;
	std::vector<int> w;
	for (int t = 0; t < (int)s.th.size(); ++t) if (s.th[t].st == T_CV && s.th[t].phase == 1 && s.th[t].waitAddr == cv) w.push_back(t);
	if (w.empty()) return ADV;
	if (w.size() > 1) {
		Expr const *sy = e.newSym(s, "notified", 8, 's');
		Expr const *some = P.cst(0, 1);
		for (int t : w) some = P.bin(K_OR, some, P.bin(K_EQ, P.cst((u128)t, 8), sy));
		e.exclude(s, P.lnot(some)); // not a waiting thread
		for (size_t i = 1; i < w.size(); ++i) {
			State *n = e.fork(s);
			e.addC(*n, P.bin(K_EQ, P.cst((u128)w[i], 8), sy));
			if (n->model.size() <= sy->aux) n->model.resize(sy->aux + 1, 0);
			n->model[sy->aux] = (uint64_t)w[i];
			n->th[w[i]].phase = 2;
			n->sched.push_back((uint8_t)(100 + w[i]));
			Frame &f = n->F();
			II &ii = f.fn->bbs[f.bb].ins[f.ip];
			if (ii.opc == Instruction::Invoke) e.jump(*n, ii.succ[0]); else f.ip++;
			n->schedDone = false;
			e.work.push_back(n);
		}
		e.addC(s, P.bin(K_EQ, P.cst((u128)w[0], 8), sy));
		if (s.model.size() <= sy->aux) s.model.resize(sy->aux + 1, 0);
		s.model[sy->aux] = (uint64_t)w[0];
		s.sched.push_back((uint8_t)(100 + w[0]));
	}
	s.th[w[0]].phase = 2;
	if (r.s.w) r = Val(V(0, r.s.w));
	return ADV;
}
X(x_cv_notify_all) {
	UNUSED;
	uint64_t cv = e.concretize(s, a[0].s).u();
	V off; bool dead;
	if (!e.resolve(s, V(cv, 64), 1, false, off, dead)) return DEAD;
	for (auto &t : s.th) if (t.st == T_CV && t.phase == 1 && t.waitAddr == cv) t.phase = 2;
	if (r.s.w) r = Val(V(0, r.s.w));
	return ADV;
}
X(x_cv_destroy) {
	UNUSED;
	uint64_t cv = e.concretize(s, a[0].s).u();
	for (auto &t : s.th) if (t.st == T_CV && t.phase == 1 && t.waitAddr == cv) { e.violation(s, "ub", "destruction of a condition variable with waiters"); return DEAD; }
	return ADV;
}

X(x_fmuladd) { // not fused: neither compilation of the real code contracts it
	UNUSED;
	for (auto &v : a) if (!v.s.conc()) v = Val(e.concretize(s, v.s));
	uint64_t u[3] = {(uint64_t)a[0].s.c, (uint64_t)a[1].s.c, (uint64_t)a[2].s.c};
	if (a[0].s.w == 64) {
		double d[3]; memcpy(d, u, sizeof d);
		double volatile m = d[0] * d[1]; double x = m + d[2];
		uint64_t o; memcpy(&o, &x, 8);
		r = Val(V(o, 64));
	} else {
		float f[3]; for (int i = 0; i < 3; ++i) { uint32_t t = (uint32_t)u[i]; memcpy(f + i, &t, 4); }
		float volatile m = f[0] * f[1]; float x = m + f[2];
		uint32_t o; memcpy(&o, &x, 4);
		r = Val(V(o, 32));
	}
	return ADV;
}
void Engine::registerExt() {
	auto R_ = [&](char const *n, ExtFn f) { ext[n] = f; };
	R_("dtl_sym", x_sym); R_("dtl_assume", x_assume); R_("dtl_check", x_check); R_("dtl_reach", x_reach); R_("dtl_observe", x_observe); R_("dtl_shared", x_shared);
	R_("dtl_choice", x_choice); R_("dtl_fork", x_fork); R_("dtl_fail", x_fail); R_("dtl_faults_new", x_faults); R_("dtl_spurious", x_spurious);
	R_("dtl_is_symbolic", x_is_symbolic); R_("dtl_live", x_live); R_("dtl_kill", x_kill); R_("dtl_expect_terminate", x_expect_terminate); R_("dtl_readable", x_poison_check);
	R_("dtl_thread", x_thread); R_("dtl_join_all", x_join_all); R_("dtl_yield", x_nop); R_("dtl_thread_id", x_thread_id);
	for (auto n : {"_Znwm"}) R_(n, x_new);
	R_("_ZnwmRKSt9nothrow_t", x_new_nt);
	R_("_Znam", x_newa); R_("_ZnamRKSt9nothrow_t", x_newa_nt);
	R_("_ZnwmSt11align_val_t", x_new_al); R_("_ZnamSt11align_val_t", x_newa_al);
	R_("_ZdlPv", x_del); R_("_ZdlPvm", x_del_sz); R_("_ZdlPvSt11align_val_t", x_del_al); R_("_ZdlPvmSt11align_val_t", x_del_sz_al); R_("_ZdlPvRKSt9nothrow_t", x_del);
	R_("_ZdaPv", x_dela); R_("_ZdaPvRKSt9nothrow_t", x_dela); R_("_ZdaPvm", x_dela_sz); R_("_ZdaPvSt11align_val_t", x_dela_al); R_("_ZdaPvmSt11align_val_t", x_dela_sz_al);
	R_("malloc", x_malloc); R_("free", x_free); R_("calloc", x_calloc); R_("aligned_alloc", x_aligned_alloc);
	R_("__cxa_allocate_exception", x_cxa_alloc); R_("__cxa_free_exception", x_cxa_free); R_("__cxa_throw", x_cxa_throw);
	R_("__cxa_begin_catch", x_cxa_begin); R_("__cxa_end_catch", x_cxa_end); R_("__cxa_rethrow", x_cxa_rethrow); R_("__cxa_get_exception_ptr", x_cxa_get_ptr);
	R_("_ZSt19uncaught_exceptionsv", x_uncaught); R_("_ZSt18uncaught_exceptionv", x_uncaught_b);
	R_("llvm.eh.typeid.for", x_typeid_for);
	R_("_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale", x_nop); R_("_ZNSt9basic_iosIwSt11char_traitsIwEE15_M_cache_localeERKSt6locale", x_nop); // no facets
	R_("_ZSt9terminatev", x_terminate); R_("abort", x_abort); R_("__cxa_pure_virtual", x_pure);
	R_("__assert_fail", x_assert); R_("_ZSt21__glibcxx_assert_failPKciS0_S0_", x_glibcxx_assert);
	R_("exit", x_exit); R_("_exit", x_exit); R_("_Exit", x_exit);
	R_("llvm.ubsantrap", x_trap); R_("llvm.trap", x_trap); R_("llvm.debugtrap", x_trap);
	R_("__cxa_guard_acquire", x_guard_acquire); R_("__cxa_guard_release", x_guard_release); R_("__cxa_guard_abort", x_nop); R_("__cxa_atexit", x_ret0);
	R_("memcmp", x_memcmp); R_("bcmp", x_memcmp); R_("strlen", x_strlen); R_("memchr", x_memchr);
	R_("memcpy", x_memcpy); R_("memmove", x_memmove); R_("memset", x_memset);
	R_("llvm.memcpy.", x_memcpy); R_("llvm.memmove.", x_memmove); R_("llvm.memset.", x_memset);
	R_("puts", x_ret0); R_("printf", x_ret0); R_("fprintf", x_ret0); R_("fputs", x_ret0); R_("fputc", x_ret0); R_("fwrite", x_ret0); R_("fflush", x_ret0);
	R_("__errno_location", x_errno);
	R_("_ZNSt8ios_base4InitC1Ev", x_nop); R_("_ZNSt8ios_base4InitD1Ev", x_nop);
	R_("llvm.lifetime.start", x_lifetime_start); R_("llvm.lifetime.end", x_lifetime_end);
	R_("llvm.dbg.", x_nop); R_("llvm.assume", x_nop); R_("llvm.experimental.noalias.scope.decl", x_nop); R_("llvm.stacksave", x_ret0); R_("llvm.stackrestore", x_nop); R_("llvm.invariant.", x_nop); R_("llvm.prefetch", x_nop); R_("llvm.donothing", x_nop); R_("llvm.sideeffect", x_nop);
	R_("llvm.uadd.with.overflow", x_with_overflow); R_("llvm.usub.with.overflow", x_with_overflow); R_("llvm.umul.with.overflow", x_with_overflow);
	R_("llvm.sadd.with.overflow", x_with_overflow); R_("llvm.ssub.with.overflow", x_with_overflow); R_("llvm.smul.with.overflow", x_with_overflow);
	R_("llvm.umin", x_minmax); R_("llvm.umax", x_minmax); R_("llvm.smin", x_minmax); R_("llvm.smax", x_minmax);
	R_("llvm.fmuladd", x_fmuladd);
	R_("llvm.abs", x_abs); R_("llvm.ctpop", x_ctpop); R_("llvm.ctlz", x_ctlz); R_("llvm.cttz", x_cttz); R_("llvm.bswap", x_bswap);
	R_("llvm.fshl", x_fsh); R_("llvm.fshr", x_fsh); R_("llvm.uadd.sat", x_sat); R_("llvm.usub.sat", x_sat);
	R_("llvm.expect", x_expect); R_("llvm.launder.invariant.group", x_expect); R_("llvm.strip.invariant.group", x_expect);
	R_("llvm.is.constant", x_ret0); R_("llvm.objectsize", x_objectsize); R_("llvm.ptrmask", x_ptrmask); R_("llvm.threadlocal.address", x_tls);
	R_("llvm.fabs", x_fabs); R_("llvm.ceil", x_ceilf); R_("llvm.floor", x_floorf); R_("llvm.is.fpclass", x_is_fpclass);
	R_("ceilf", x_ceilf); R_("ceil", x_ceilf); R_("floorf", x_floorf); R_("floor", x_floorf);
	R_("pthread_mutex_lock", x_mutex_lock); R_("pthread_mutex_trylock", x_mutex_trylock); R_("pthread_mutex_unlock", x_mutex_unlock); R_("pthread_mutex_destroy", x_mutex_destroy); R_("pthread_mutex_init", x_ret0);
	R_("pthread_rwlock_rdlock", x_rw_rd); R_("pthread_rwlock_tryrdlock", x_rw_tryrd); R_("pthread_rwlock_wrlock", x_rw_wr); R_("pthread_rwlock_trywrlock", x_rw_trywr);
	R_("pthread_rwlock_unlock", x_rw_unlock); R_("pthread_rwlock_init", x_ret0); R_("pthread_rwlock_destroy", x_mutex_destroy);
	R_("_ZNSt18condition_variableC1Ev", x_nop); R_("_ZNSt18condition_variableD1Ev", x_cv_destroy); R_("_ZNSt18condition_variableC2Ev", x_nop); R_("_ZNSt18condition_variableD2Ev", x_cv_destroy);
	R_("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", x_cv_wait); R_("_ZNSt18condition_variable10notify_oneEv", x_cv_notify_one); R_("_ZNSt18condition_variable10notify_allEv", x_cv_notify_all);
	R_("pthread_cond_wait", x_pcond_wait); R_("pthread_cond_timedwait", x_pcond_timedwait); R_("pthread_cond_clockwait", x_pcond_timedwait);
	R_("pthread_cond_signal", x_cv_notify_one); R_("pthread_cond_broadcast", x_cv_notify_all); R_("pthread_cond_destroy", x_cv_destroy);
	R_("sched_yield", x_ret0);
	R_("__libc_single_threaded", x_nop);
}
