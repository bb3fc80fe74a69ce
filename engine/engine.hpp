#pragma once
#include "state.hpp"
#include "cover.hpp"
#include <functional>
#include <list>

enum R { ADV, STAY, DEAD };

struct ViolationRec {
	std::string kind, msg, where;
	std::vector<std::string> stack;
	std::vector<std::pair<std::string, uint64_t>> inputs;
	std::vector<unsigned> widths;
	std::vector<uint8_t> sched;
	bool usesUninit = false;
};
struct PathRec {
	std::vector<std::pair<std::string, uint64_t>> inputs;
	std::vector<unsigned> widths;
	std::vector<uint8_t> sched;
	std::vector<uint64_t> obs;
};

struct Opts {
	std::string entry;
	uint64_t part = 0;
	double maxTime = 60;
	uint64_t maxPathInstrs = 2000000;
	uint64_t maxStates = 2000000;
	uint64_t maxForks = 0;
	unsigned pathSamples = 16;
	int preemptBound = 2;
	int maxViolations = 12;
	unsigned timeoutMs = 20000;
	uint64_t seed = 1;
	std::string out, dump;
	bool trace = false;
	bool keepGoing = true;
	bool bfs = false;
};

struct Engine;
typedef R (*ExtFn)(Engine &, State &, llvm::CallBase &, std::vector<Val> &, Val &);

struct Engine {
	std::unique_ptr<llvm::Module> M;
	llvm::DataLayout DL{""};
	Opts opt;
	Solver solver;
	Cover cover;
	void exclude(State &s, Expr const *c) { if (c->k == K_CONST && !c->c) return; cover.add(s.cs, c); } // this part of the path is outside the claim
	std::unordered_map<llvm::Function *, std::unique_ptr<FnInfo>> fns;
	std::unordered_map<llvm::GlobalValue *, uint64_t> gaddr;
	std::unordered_map<uint64_t, llvm::Function *> faddr;
	std::map<uint64_t, std::shared_ptr<Obj>> cmem; // immutable shared objects
	std::vector<State *> work;
	std::map<std::string, Expr const *> symTab;

	// results
	std::vector<ViolationRec> viols;
	std::map<std::string, int> violKeys;
	std::vector<PathRec> paths;
	std::map<std::string, uint64_t> reachCnt;
	std::map<std::string, uint64_t> unsupportedEv;
	uint64_t pathsDone = 0, pathsKilled = 0, pathsAssume = 0, forks = 0, totalInstrs = 0, statesMade = 0, checks = 0, checksSym = 0, pathsDeduped = 0;
	uint64_t instrLimitHits = 0;
	bool timedOut = false, solverUnknown = false;
	std::chrono::steady_clock::time_point t0;
	bool initPhase = true;
	std::unordered_set<uint64_t> seenStates;

	double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

	// ---- setup
	void load(std::vector<std::string> const &files);
	void layoutGlobals(State &s);
	void initConst(State &s, Obj &o, uint64_t off, llvm::Constant *c);
	Val constVal(llvm::Constant *c);
	FnInfo *info(llvm::Function *f);
	uint64_t typeSize(llvm::Type *t) { return DL.getTypeAllocSize(t); }

	// ---- run
	int run();
	void runState(State *s);
	R step(State &s, II &ii);
	R execCall(State &s, II &ii);
	R enter(State &s, llvm::Function *f, std::vector<Val> args);
	void jump(State &s, int succ);
	void ret(State &s, Val const *v);
	void setDst(State &s, int dst, Val v) { if (dst >= 0) s.F().regs[dst] = std::move(v); }
	Val const &opv(State &s, int op) { auto &f = *s.th[s.cur].stack.back(); return op >= 0 ? f.regs[op] : f.fn->consts[~op]; }
	void finishThread(State &s);
	bool endPath(State &s);

	// ---- solver-facing
	Expr const *E(V const &v) { return P.E(v); }
	V evalV(State &s, V const &v) { if (v.conc()) return v; Evaluator ev(s.model); return V(ev.eval(v.e), v.w); }
	void addC(State &s, Expr const *c);
	// decide cond on this path, forking the other side (which re-executes the current instruction)
	bool decide(State &s, V const &cond);
	SatRes may(State &s, Expr const *cond, Model *m);
	bool must(State &s, V const &cond) { if (cond.conc()) return cond.c; Model m; return may(s, P.lnot(cond.e), nullptr) == UNSAT; }
	V concretize(State &s, V const &v); // forks others
	State *fork(State &s);
	Expr const *newSym(State &s, std::string const &name, unsigned w, char kind);

	// ---- memory
	Obj *find(State &s, uint64_t a);
	Obj *wr(State &s, Obj *o); // writable (COW)
	uint64_t allocObj(State &s, uint64_t size, uint64_t align, ObjKind k, std::string const &name, bool zero = false, Expr const *symsize = nullptr);
	// returns obj and offset value; nullptr if path died
	Obj *resolve(State &s, V const &addr, uint64_t n, bool write, V &off, bool &dead);
	bool loadScalar(State &s, V const &addr, unsigned w, V &out);
	bool storeScalar(State &s, V const &addr, V const &v);
	bool loadVal(State &s, V const &addr, llvm::Type *t, Val &out);
	bool storeVal(State &s, V const &addr, llvm::Type *t, Val const &v);
	Byte readByte(State &s, Obj *o, uint64_t off);
	V bytesToV(State &s, Obj *o, uint64_t off, uint64_t n);
	void vToBytes(Obj *o, uint64_t off, V const &v, uint64_t n);
	bool copyMem(State &s, V dst, V src, V n, bool move);
	bool setMem(State &s, V dst, V c, V n);
	R freeObj(State &s, V addr, ObjKind expect, char const *what, bool hasSize, V size, bool hasAlign, uint64_t align);
	std::string describe(State &s, uint64_t a);

	// ---- threads
	void race(State &s, Obj *o, uint64_t off, uint64_t n, bool write, bool atomic);
	bool enabled(State &s, int t, bool allowSpurious);
	bool schedule(State &s, bool curCanRun); // pick next thread; false if path is dead
	bool isSync(II &ii);
	void vcJoin(VC &a, VC const &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
	void vcTick(State &s) { auto &v = s.T().vc; if (v.size() <= (size_t)s.cur) v.resize(s.cur + 1, 0); v[s.cur]++; }

	// ---- exceptions
	R doThrow(State &s, uint64_t exc, bool resume);
	bool typeMatch(llvm::Value *thrown, llvm::Value *handler, int64_t &adj);
	std::map<llvm::Value *, int> typeIds;
	std::vector<llvm::Value *> typeById{nullptr};
	int typeId(llvm::Value *v) { auto it = typeIds.find(v); if (it != typeIds.end()) return it->second; int id = (int)typeById.size(); typeById.push_back(v); typeIds[v] = id; return id; }

	// ---- reporting
	void violation(State &s, std::string kind, std::string msg, Model const *m = nullptr, Expr const *why = nullptr);
	void unsupported(State &s, std::string what);
	std::vector<std::string> backtrace(State &s);
	std::string where(State &s);
	void writeOut();
	std::map<std::string, ExtFn> ext;
	std::vector<std::pair<std::string, ExtFn>> extVec;
	void registerExt();
	Val fp(State &s, II &ii, bool &ok);
};
extern Engine *G;
