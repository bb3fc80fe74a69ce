#pragma once
#include "expr.hpp"
#include "solver.hpp"
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <map>
#include <set>

using llvm::cast;
using llvm::dyn_cast;
using llvm::isa;

struct Val {
	V s;
	std::shared_ptr<std::vector<Val>> agg;
	Val() = default;
	Val(V const &v) : s(v) {}
	explicit Val(std::vector<Val> v) : agg(std::make_shared<std::vector<Val>>(std::move(v))) {}
};

struct Byte {
	Expr const *e = nullptr; // st == 2
	uint8_t c = 0;
	uint8_t st = 0; // 0 uninit, 1 concrete, 2 symbolic
};

enum ObjKind : uint8_t { O_GLOBAL, O_CONST, O_STACK, O_NEW, O_NEWARR, O_MALLOC, O_EXC, O_FUNC };

typedef std::vector<uint32_t> VC; // vector clock by thread id
struct Shadow { // per byte access history (multi-threaded phases only)
	int16_t wt = -1; uint32_t wc = 0;  // last plain write
	int16_t awt = -1; uint32_t awc = 0; // last atomic write
	uint32_t r[5] = {0, 0, 0, 0, 0};  // plain reads by thread
	uint32_t ar[5] = {0, 0, 0, 0, 0}; // atomic reads by thread
};

struct Obj {
	uint64_t base = 0, size = 0;
	Expr const *symsize = nullptr;
	uint64_t align = 1;
	ObjKind kind = O_GLOBAL;
	bool alive = true;
	bool ro = false;
	std::string name;
	std::vector<Byte> b;
	std::shared_ptr<std::vector<Shadow>> shadow;
};

struct FnInfo;
struct II {
	llvm::Instruction *I;
	unsigned opc;
	int dst = -1;
	unsigned w = 0; // result width (scalar)
	std::vector<int> ops; // >=0 register, <0 ~constant
	// gep
	int64_t gepConst = 0;
	std::vector<std::pair<int, int64_t>> gepIdx; // operand, scale
	std::vector<int> succ;
	llvm::Function *callee = nullptr;
	int extId = -1;
	bool syncPoint = false;
};
struct BBInfo { llvm::BasicBlock *bb; std::vector<II> ins; size_t firstNonPhi = 0; };
struct FnInfo {
	llvm::Function *f = nullptr;
	std::vector<BBInfo> bbs;
	std::vector<Val> consts;
	int nregs = 0;
	std::string demangled;
	uint64_t entered = 0;
	bool dice = false;
};

struct Frame {
	FnInfo *fn = nullptr;
	int bb = 0, ip = 0;
	std::vector<Val> regs;
	std::vector<uint64_t> allocas;
	uint64_t freeExcOnReturn = 0;
};

enum TStatus : uint8_t { T_RUN, T_MUTEX, T_RD, T_WR, T_CV, T_JOIN, T_FUTEX, T_DONE };
struct ExcInfo { llvm::Value *ti; uint64_t dtor; int handlers; bool inflight; uint64_t adj; int refs; };
struct Thread {
	std::vector<std::shared_ptr<Frame>> stack;
	TStatus st = T_RUN;
	uint64_t waitAddr = 0;   // mutex / cv / futex address
	uint64_t waitMutex = 0;  // cv: mutex to reacquire
	int phase = 0;           // cv wait: 0 initial, 1 waiting, 2 notified (must reacquire)
	bool timed = false;
	int wakeReason = 0;
	VC vc;
	std::vector<uint64_t> caught; // handler stack
	int uncaught = 0;
};
struct MutexSt { int owner = -1; int readers = 0; int depth = 0; VC rel, rrel; std::vector<int> rd; };

struct SymRec { Expr const *e; char kind; }; // kind: 'i' input

struct State {
	std::vector<Thread> th;
	int cur = 0;
	std::map<uint64_t, std::shared_ptr<Obj>> mem;
	std::vector<Expr const *> cs;
	Model model;
	uint64_t heapNext = 0x10000000ull, stackNext = 0x7f0000000000ull;
	std::vector<Expr const *> inputs; // in creation order
	uint32_t uninitCnt = 0, schedCnt = 0;
	std::vector<V> obs;
	std::vector<V> shared; // harness counters outside the memory model
	std::vector<std::string> reach;
	std::vector<uint8_t> sched;
	int preempt = 0, spurious = 0, newFaults = 0;
	std::map<uint64_t, MutexSt> mtx;
	std::map<uint64_t, VC> arel;
	std::map<uint64_t, ExcInfo> exc;
	std::map<std::pair<int, llvm::GlobalVariable *>, uint64_t> tls;
	std::map<uint64_t, char> guards;
	bool schedDone = false;
	bool expectTerm = false; // std::terminate and abort end the path as intended
	bool multi = false; // threads ever started
	uint64_t instrs = 0;
	int64_t liveHeap = 0;
	uint32_t depth = 0; // number of forks so far
	std::set<uint32_t> csSet;
	std::vector<uint64_t> seen;
	Thread &T() { return th[cur]; }
	Frame &F() {
		auto &p = th[cur].stack.back();
		if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
		return *p;
	}
};
