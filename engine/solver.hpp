// Z3-backed satisfiability of path constraints, with independence slicing and caching.
#pragma once
#include "expr.hpp"
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <z3.h>
#include <array>
#include <map>
#include <set>

enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct Solver {
	Z3_context ctx;
	std::vector<Z3_ast> cache;
	uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0;
	double time = 0, maxQuery = 0;
	unsigned timeoutMs = 20000;
	std::string dumpDir;
	struct CE { SatRes r; std::vector<std::pair<uint32_t, uint64_t>> m; };
	std::unordered_map<std::string, CE> qcache;

	Solver() {
		Z3_config cfg = Z3_mk_config();
		ctx = Z3_mk_context(cfg);
		Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
		Z3_del_config(cfg);
	}
	Z3_symbol symName(uint32_t i) { return Z3_mk_string_symbol(ctx, ("s_" + std::to_string(i) + "_").c_str()); }
	Z3_ast hold(Z3_ast a) { return a; }
	Z3_ast b2v(Z3_ast b) { // Bool -> BV1
		Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
		return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int(ctx, 1, s1), Z3_mk_unsigned_int(ctx, 0, s1));
	}
	// wide unsigned division: quotient and remainder are fresh constants q, r with x = q * y + r, r < y, q * y + r < 2^w
	static bool divides(Expr const *e) { return (e->k == K_UDIV || e->k == K_UREM) && e->w > 16; }
	std::map<std::pair<uint32_t, uint32_t>, std::array<Z3_ast, 3>> divs; // by operand ids: q, r, definition
	std::pair<Z3_ast, Z3_ast> divCode(Expr const *e) {
		auto const key = std::make_pair(e->op[0]->id, e->op[1]->id);
		auto it = divs.find(key);
		if (it == divs.end()) {
			unsigned const w = e->w;
			Z3_sort const sort = Z3_mk_bv_sort(ctx, w);
			std::string const n = std::to_string(key.first) + "_" + std::to_string(key.second);
			Z3_ast const x = tr(e->op[0]), y = tr(e->op[1]), zero = Z3_mk_unsigned_int(ctx, 0, sort);
			Z3_ast const q = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("q" + n).c_str()), sort), r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("r" + n).c_str()), sort);
			Z3_ast const prod = Z3_mk_bvmul(ctx, q, y);
			Z3_ast noov;
			if (e->op[1]->k == K_CONST && e->op[1]->c) { char buf[64]; u128 v = maskw(w) / e->op[1]->c; int i = 63; buf[i] = 0; do { buf[--i] = '0' + (int)(v % 10); v /= 10; } while (v); noov = Z3_mk_bvule(ctx, q, Z3_mk_numeral(ctx, buf + i, sort)); }
			else noov = Z3_mk_bvmul_no_overflow(ctx, q, y, false);
			Z3_ast a[5] = {Z3_mk_eq(ctx, r, Z3_mk_bvsub(ctx, x, prod)), Z3_mk_bvult(ctx, r, y), noov, Z3_mk_bvule(ctx, prod, x), Z3_mk_bvule(ctx, q, x)};
			Z3_ast z[2] = {Z3_mk_eq(ctx, q, Z3_mk_bvnot(ctx, zero)), Z3_mk_eq(ctx, r, x)};
			Z3_ast const def = Z3_mk_ite(ctx, Z3_mk_eq(ctx, y, zero), Z3_mk_and(ctx, 2, z), Z3_mk_and(ctx, 5, a));
			it = divs.emplace(key, std::array<Z3_ast, 3>{q, r, def}).first;
		}
		return {it->second[0], it->second[1]};
	}
	void divDefs(Expr const *e, std::unordered_set<uint32_t> &seen, std::vector<Z3_ast> &out, std::set<std::pair<uint32_t, uint32_t>> &had) {
		if (!hasDiv(e) || !seen.insert(e->id).second) return;
		if (divides(e) && had.insert({e->op[0]->id, e->op[1]->id}).second) { divCode(e); out.push_back(divs[{e->op[0]->id, e->op[1]->id}][2]); }
		for (auto *o : e->op) if (o) divDefs(o, seen, out, had);
	}
	std::vector<char> hasDivMemo;
	bool hasDiv(Expr const *e) {
		if (hasDivMemo.size() <= e->id) hasDivMemo.resize(e->id + 1024, 0);
		if (hasDivMemo[e->id]) return hasDivMemo[e->id] == 2;
		bool h = divides(e);
		for (auto *o : e->op) if (o && hasDiv(o)) h = true;
		hasDivMemo[e->id] = h ? 2 : 1;
		return h;
	}
	std::vector<Z3_ast> bcache; // boolean form
	Z3_ast trB(Expr const *e) {
		assert(e->w == 1);
		if (bcache.size() <= e->id) bcache.resize(e->id + 1024, nullptr);
		if (bcache[e->id]) return bcache[e->id];
		Z3_ast r = nullptr, x[2];
		switch (e->k) {
			case K_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
			case K_AND: x[0] = trB(e->op[0]); x[1] = trB(e->op[1]); r = Z3_mk_and(ctx, 2, x); break;
			case K_OR: x[0] = trB(e->op[0]); x[1] = trB(e->op[1]); r = Z3_mk_or(ctx, 2, x); break;
			case K_XOR: r = Z3_mk_xor(ctx, trB(e->op[0]), trB(e->op[1])); break;
			case K_ITE: r = Z3_mk_ite(ctx, trB(e->op[0]), trB(e->op[1]), trB(e->op[2])); break;
			case K_EQ:
				if (e->op[0]->w == 1) r = Z3_mk_iff(ctx, trB(e->op[0]), trB(e->op[1]));
				else r = Z3_mk_eq(ctx, tr(e->op[0]), tr(e->op[1]));
				break;
			case K_ULT: r = Z3_mk_bvult(ctx, tr(e->op[0]), tr(e->op[1])); break;
			case K_ULE: r = Z3_mk_bvule(ctx, tr(e->op[0]), tr(e->op[1])); break;
			case K_SLT: r = Z3_mk_bvslt(ctx, tr(e->op[0]), tr(e->op[1])); break;
			case K_SLE: r = Z3_mk_bvsle(ctx, tr(e->op[0]), tr(e->op[1])); break;
			case K_UMULNO: r = Z3_mk_bvmul_no_overflow(ctx, tr(e->op[0]), tr(e->op[1]), false); break;
			case K_SMULNO:
				x[0] = Z3_mk_bvmul_no_overflow(ctx, tr(e->op[0]), tr(e->op[1]), true);
				x[1] = Z3_mk_bvmul_no_underflow(ctx, tr(e->op[0]), tr(e->op[1]));
				r = Z3_mk_and(ctx, 2, x);
				break;
			default: r = Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
		}
		hold(r);
		if (bcache.size() <= e->id) bcache.resize(e->id + 1024, nullptr);
		bcache[e->id] = r;
		return r;
	}
	Z3_ast tr(Expr const *e) {
		if (cache.size() <= e->id) cache.resize(e->id + 1024, nullptr);
		if (cache[e->id]) return cache[e->id];
		Z3_ast r = nullptr;
		auto o = [&](int i) { return tr(e->op[i]); };
		switch (e->k) {
			case K_CONST: {
				char buf[64]; u128 v = e->c; int i = 63; buf[i] = 0;
				do { buf[--i] = '0' + (int)(v % 10); v /= 10; } while (v);
				r = Z3_mk_numeral(ctx, buf + i, Z3_mk_bv_sort(ctx, e->w));
				break;
			}
			case K_SYM: r = Z3_mk_const(ctx, symName((uint32_t)e->aux), Z3_mk_bv_sort(ctx, e->w)); break;
			case K_ADD: r = Z3_mk_bvadd(ctx, o(0), o(1)); break;
			case K_SUB: r = Z3_mk_bvsub(ctx, o(0), o(1)); break;
			case K_MUL: r = Z3_mk_bvmul(ctx, o(0), o(1)); break;
			case K_UDIV: r = divides(e) ? divCode(e).first : Z3_mk_bvudiv(ctx, o(0), o(1)); break;
			case K_SDIV: r = Z3_mk_bvsdiv(ctx, o(0), o(1)); break;
			case K_UREM: r = divides(e) ? divCode(e).second : Z3_mk_bvurem(ctx, o(0), o(1)); break;
			case K_SREM: r = Z3_mk_bvsrem(ctx, o(0), o(1)); break;
			case K_AND: if (e->w == 1) r = b2v(trB(e)); else r = Z3_mk_bvand(ctx, o(0), o(1)); break;
			case K_OR: if (e->w == 1) r = b2v(trB(e)); else r = Z3_mk_bvor(ctx, o(0), o(1)); break;
			case K_XOR: if (e->w == 1) r = b2v(trB(e)); else r = Z3_mk_bvxor(ctx, o(0), o(1)); break;
			case K_SHL: r = Z3_mk_bvshl(ctx, o(0), o(1)); break;
			case K_LSHR: r = Z3_mk_bvlshr(ctx, o(0), o(1)); break;
			case K_ASHR: r = Z3_mk_bvashr(ctx, o(0), o(1)); break;
			case K_CONCAT: r = Z3_mk_concat(ctx, o(0), o(1)); break;
			case K_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, o(0)); break;
			case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->op[0]->w, o(0)); break;
			case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->op[0]->w, o(0)); break;
			case K_ITE: r = e->w == 1 ? b2v(trB(e)) : Z3_mk_ite(ctx, trB(e->op[0]), o(1), o(2)); break;
			default: r = b2v(trB(e));
		}
		hold(r);
		if (cache.size() <= e->id) cache.resize(e->id + 1024, nullptr);
		cache[e->id] = r;
		return r;
	}

	// second opinion on queries Z3 finds hard: bit-vector arithmetic as integer arithmetic (good at sums and products)
	Z3_lbool cvc5(char const *text, std::map<uint32_t, uint64_t> &m) {
		char tmp[] = "/tmp/dtlsym.XXXXXX";
		int fd = mkstemp(tmp);
		if (fd < 0) return Z3_L_UNDEF;
		FILE *f = fdopen(fd, "w");
		fprintf(f, "(set-option :produce-models true)\n%s\n(get-model)\n", text);
		fclose(f);
		std::string cmd = std::string("timeout 4 cvc5 --bv-print-consts-as-indexed-symbols --solve-bv-as-int=sum ") + tmp + " 2>/dev/null";
		FILE *p = popen(cmd.c_str(), "r");
		Z3_lbool r = Z3_L_UNDEF;
		char line[4096];
		while (p && fgets(line, sizeof line, p)) {
			if (!strncmp(line, "sat", 3)) r = Z3_L_TRUE;
			else if (!strncmp(line, "unsat", 5)) r = Z3_L_FALSE;
			else if (char *k = strstr(line, "s_")) { // (define-fun s_0_ () (_ BitVec 64) (_ bv0 64))
				if (char *v = strstr(k, "(_ bv")) m[(uint32_t)strtoul(k + 2, nullptr, 10)] = strtoull(v + 5, nullptr, 10);
			}
		}
		if (p) pclose(p);
		remove(tmp);
		return r;
	}
	uint64_t byOther = 0;

	// constraints relevant to cond
	std::vector<Expr const *> slice(std::vector<Expr const *> const &cs, Expr const *cond) {
		std::unordered_set<uint32_t> syms(P.symset(cond).begin(), P.symset(cond).end());
		std::vector<char> used(cs.size(), 0);
		bool ch = true;
		std::vector<Expr const *> out;
		while (ch) {
			ch = false;
			for (size_t i = 0; i < cs.size(); ++i) {
				if (used[i]) continue;
				bool hit = false;
				for (auto s : P.symset(cs[i])) if (syms.count(s)) { hit = true; break; }
				if (hit) {
					used[i] = 1; ch = true; out.push_back(cs[i]);
					for (auto s : P.symset(cs[i])) syms.insert(s);
				}
			}
		}
		return out;
	}

	// is cs /\ cond satisfiable? On SAT, outModel = base with the slice's symbols overwritten.
	SatRes check(std::vector<Expr const *> const &cs, Expr const *cond, Model const &base, Model *outModel) {
		if (cond->k == K_CONST && !cond->c) return UNSAT;
		std::vector<Expr const *> sl = slice(cs, cond);
		std::vector<uint32_t> ids;
		for (auto *e : sl) ids.push_back(e->id);
		std::sort(ids.begin(), ids.end());
		ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
		ids.push_back(cond->id);
		std::string key((char const *)ids.data(), ids.size() * 4);
		auto it = qcache.find(key);
		if (it == qcache.end()) {
			auto t0 = std::chrono::steady_clock::now();
			Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
			Z3_solver_inc_ref(ctx, s);
			Z3_params p = Z3_mk_params(ctx);
			Z3_params_inc_ref(ctx, p);
			Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(timeoutMs, 100u));
			Z3_solver_set_params(ctx, s, p);
			Z3_params q = Z3_mk_params(ctx);
			Z3_params_inc_ref(ctx, q);
			Z3_params_set_uint(ctx, q, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
			std::vector<Z3_ast> as;
			for (auto *e : sl) as.push_back(trB(e));
			{
				std::unordered_set<uint32_t> seen;
				std::set<std::pair<uint32_t, uint32_t>> had;
				for (auto *e : sl) divDefs(e, seen, as, had);
				divDefs(cond, seen, as, had);
			}
			for (auto a : as) Z3_solver_assert(ctx, s, a);
			Z3_solver_assert(ctx, s, trB(cond));
			if (!dumpDir.empty() && queries < 3000) {
				std::string f = dumpDir + "/q" + std::to_string(queries) + ".smt2";
				FILE *fp = fopen(f.c_str(), "w");
				if (fp) { fprintf(fp, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(fp); }
			}
			Z3_lbool r = Z3_solver_check(ctx, s);
			CE ce;
			queries++;
			std::map<uint32_t, uint64_t> other;
			bool viaOther = false;
			if (r == Z3_L_UNDEF) {
				r = cvc5(Z3_benchmark_to_smtlib_string(ctx, "q", "QF_BV", "unknown", "", (unsigned)as.size(), as.data(), trB(cond)), other);
				if (r == Z3_L_TRUE) { // only believed if the assignment checks out
					Model mm;
					for (auto &[i, v] : other) { if (mm.size() <= i) mm.resize(i + 1, 0); mm[i] = v; }
					Evaluator ev(mm);
					for (auto *e : sl) if (!ev.eval(e)) r = Z3_L_UNDEF;
					if (!ev.eval(cond)) r = Z3_L_UNDEF;
				}
				viaOther = r != Z3_L_UNDEF;
				if (!viaOther) { // a new solver: one that was interrupted gives wrong models when asked again
					Z3_solver_dec_ref(ctx, s);
					s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
					Z3_solver_inc_ref(ctx, s);
					Z3_solver_set_params(ctx, s, q);
					for (auto a : as) Z3_solver_assert(ctx, s, a);
					Z3_solver_assert(ctx, s, trB(cond));
					r = Z3_solver_check(ctx, s);
				}
			}
			Z3_params_dec_ref(ctx, p);
			Z3_params_dec_ref(ctx, q);
			if (viaOther) byOther++;
			if (r == Z3_L_TRUE && viaOther) {
				sat++;
				ce.r = SAT;
				std::vector<uint32_t> syms(P.symset(cond));
				for (auto *e : sl) { std::vector<uint32_t> t; auto const &ss = P.symset(e); std::set_union(syms.begin(), syms.end(), ss.begin(), ss.end(), std::back_inserter(t)); syms.swap(t); }
				for (auto i : syms) ce.m.push_back({i, other.count(i) ? other[i] : 0});
			} else if (r == Z3_L_TRUE) {
				sat++;
				ce.r = SAT;
				Z3_model m = Z3_solver_get_model(ctx, s);
				Z3_model_inc_ref(ctx, m);
				std::vector<uint32_t> syms(P.symset(cond));
				for (auto *e : sl) { std::vector<uint32_t> t; auto const &ss = P.symset(e); std::set_union(syms.begin(), syms.end(), ss.begin(), ss.end(), std::back_inserter(t)); syms.swap(t); }
				for (auto i : syms) {
					Z3_ast c = Z3_mk_const(ctx, symName(i), Z3_mk_bv_sort(ctx, P.syms[i].w)), v;
					
					uint64_t val = 0;
					if (!Z3_model_eval(ctx, m, c, true, &v) || !Z3_get_numeral_uint64(ctx, v, &val)) { fprintf(stderr, "no value for s_%u via %d\n%s\n", i, (int)viaOther, Z3_model_to_string(ctx, m)); abort(); }
					
					ce.m.push_back({i, val});
				}
				Z3_model_dec_ref(ctx, m);
			} else if (r == Z3_L_FALSE) { unsat++; ce.r = UNSAT; }
			else { unknown++; ce.r = UNKNOWN; }
			Z3_solver_dec_ref(ctx, s);
			double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
			time += dt; maxQuery = std::max(maxQuery, dt);
			if (!dumpDir.empty()) {
				FILE *fp = fopen((dumpDir + "/results").c_str(), "a");
				if (fp) { fprintf(fp, "%lu %.2fs %d %s\n", (unsigned long)(queries - 1), dt, (int) viaOther, ce.r == SAT ? "sat" : ce.r == UNSAT ? "unsat" : "unknown"); fclose(fp); }
			}
			it = qcache.emplace(key, std::move(ce)).first;
		} else cacheHits++;
		if (it->second.r == SAT && outModel) {
			*outModel = base;
			for (auto &[i, v] : it->second.m) { if (outModel->size() <= i) outModel->resize(i + 1, 0); (*outModel)[i] = v; }
			// paranoia: the model must satisfy the query
			Evaluator ev(*outModel);
			for (auto *e : sl) if (!ev.eval(e)) { fprintf(stderr, "solver model does not satisfy constraints\n"); for (auto &[i, v] : it->second.m) fprintf(stderr, "  s_%u = %lu\n", i, (unsigned long) v); fprintf(stderr, "%s\n", Z3_ast_to_string(ctx, trB(e))); abort(); }
			if (!ev.eval(cond)) { fprintf(stderr, "solver model does not satisfy cond\n"); abort(); }
		}
		return it->second.r;
	}
};
