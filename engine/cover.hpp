// The covering query: after the exploration of an entry, the solver is asked for an input, fault pattern or
// schedule that none of the explored paths covers. The path conditions of all the paths that ended, and the
// regions the harness or the model excludes (assumptions, choices outside their domain, threads that cannot be
// scheduled), form a tree; the query asserts that no leaf of it is reached. UNSAT: what was explored covers everything
// within the bounds.
#pragma once
#include "solver.hpp"

struct Cover {
	struct Node { std::vector<std::pair<Expr const *, uint32_t>> kids; bool leaf = false; };
	std::vector<Node> nodes{1};
	size_t leaves = 0, limit = 400000;
	bool overflow = false;
	std::string result = "skipped";
	double time = 0;

	void add(std::vector<Expr const *> const &cs, Expr const *extra = nullptr) {
		if (overflow) return;
		uint32_t n = 0;
		auto go = [&](Expr const *c) {
			auto &k = nodes[n].kids;
			for (size_t i = k.size(); i-- > 0;) if (k[i].first == c) { n = k[i].second; return; }
			uint32_t m = (uint32_t)nodes.size();
			k.push_back({c, m});
			nodes.emplace_back();
			n = m;
		};
		for (auto *c : cs) { if (nodes[n].leaf) return; go(c); }
		if (extra) go(extra);
		nodes[n].leaf = true;
		leaves++;
		if (nodes.size() > limit) { overflow = true; nodes.clear(); nodes.shrink_to_fit(); }
	}

	std::unordered_map<uint32_t, Z3_ast> memo;
	static bool small(Expr const *e) { // kept as it is: a comparison of a narrow input with a constant
		auto c = [](Expr const *x) { return x->k == K_CONST; };
		auto v = [](Expr const *x) { return x->k == K_SYM && x->w <= 8; };
		return (c(e->op[0]) && v(e->op[1])) || (v(e->op[0]) && c(e->op[1]));
	}
	// boolean skeleton: comparisons become atoms (UNSAT of the skeleton implies UNSAT of the formula)
	Z3_ast abs(Solver &S, Expr const *e) {
		auto it = memo.find(e->id);
		if (it != memo.end()) return it->second;
		Z3_context c = S.ctx;
		Z3_ast x[2], r = nullptr;
		auto atom = [&](Expr const *a, Expr const *b, int k) { // a k b
			std::string n = "a" + std::to_string(k) + "_" + std::to_string(a->id) + "_" + std::to_string(b ? b->id : 0);
			return Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), Z3_mk_bool_sort(c));
		};
		switch (e->k) {
			case K_CONST: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
			case K_AND: x[0] = abs(S, e->op[0]); x[1] = abs(S, e->op[1]); r = Z3_mk_and(c, 2, x); break;
			case K_OR: x[0] = abs(S, e->op[0]); x[1] = abs(S, e->op[1]); r = Z3_mk_or(c, 2, x); break;
			case K_XOR: r = Z3_mk_xor(c, abs(S, e->op[0]), abs(S, e->op[1])); break;
			case K_ITE: r = Z3_mk_ite(c, abs(S, e->op[0]), abs(S, e->op[1]), abs(S, e->op[2])); break;
			case K_SYM: r = S.trB(e); break;
			case K_EQ:
				if (e->op[0]->w == 1) r = Z3_mk_iff(c, abs(S, e->op[0]), abs(S, e->op[1]));
				else if (small(e)) r = S.trB(e);
				else r = atom(e->op[0], e->op[1], 0);
				break;
			case K_ULE: r = small(e) ? S.trB(e) : atom(e->op[0], e->op[1], 1); break;
			case K_ULT: r = small(e) ? S.trB(e) : Z3_mk_not(c, atom(e->op[1], e->op[0], 1)); break;
			case K_SLE: r = small(e) ? S.trB(e) : atom(e->op[0], e->op[1], 2); break;
			case K_SLT: r = small(e) ? S.trB(e) : Z3_mk_not(c, atom(e->op[1], e->op[0], 2)); break;
			default: r = atom(e, nullptr, 3);
		}
		return memo[e->id] = r;
	}

	SatRes ask(Solver &S, bool exact, unsigned timeoutMs) {
		Z3_context c = S.ctx;
		Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, exact ? "QF_BV" : "QF_FD"));
		Z3_solver_inc_ref(c, s);
		Z3_params p = Z3_mk_params(c);
		Z3_params_inc_ref(c, p);
		Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs);
		Z3_solver_set_params(c, s, p);
		std::vector<Z3_ast> in(nodes.size());
		for (size_t i = 0; i < nodes.size(); ++i) in[i] = Z3_mk_const(c, Z3_mk_string_symbol(c, ("n" + std::to_string(i)).c_str()), Z3_mk_bool_sort(c));
		std::unordered_set<uint32_t> seen;
		std::set<std::pair<uint32_t, uint32_t>> had;
		std::vector<Z3_ast> defs;
		Z3_solver_assert(c, s, in[0]);
		for (size_t i = 0; i < nodes.size(); ++i) {
			if (nodes[i].leaf) { Z3_solver_assert(c, s, Z3_mk_not(c, in[i])); continue; }
			for (auto &[e, k] : nodes[i].kids) {
				Z3_ast x[3] = {Z3_mk_not(c, in[i]), Z3_mk_not(c, exact ? S.trB(e) : abs(S, e)), in[k]};
				Z3_solver_assert(c, s, Z3_mk_or(c, 3, x));
				if (exact) S.divDefs(e, seen, defs, had);
			}
		}
		for (auto d : defs) Z3_solver_assert(c, s, d);
		Z3_lbool r = Z3_solver_check(c, s);
		S.queries++;
		(r == Z3_L_FALSE ? S.unsat : r == Z3_L_TRUE ? S.sat : S.unknown)++;
		Z3_params_dec_ref(c, p);
		Z3_solver_dec_ref(c, s);
		return r == Z3_L_FALSE ? UNSAT : r == Z3_L_TRUE ? SAT : UNKNOWN;
	}

	void solve(Solver &S) {
		if (overflow) return;
		auto t0 = std::chrono::steady_clock::now();
		SatRes r = ask(S, false, 20000);
		if (r == SAT) r = ask(S, true, 20000);
		result = r == UNSAT ? "proved" : r == SAT ? "gap" : "unknown";
		time = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		S.time += time;
		S.maxQuery = std::max(S.maxQuery, time);
	}
};
