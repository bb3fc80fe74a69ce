#include "engine.hpp"
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>

ExprPool P;
Engine *G;
static llvm::LLVMContext LC;
using namespace llvm;

// ---------------------------------------------------------------- setup
void Engine::load(std::vector<std::string> const &files) {
	SMDiagnostic err;
	for (auto const &f : files) {
		auto m = parseIRFile(f, err, LC);
		if (!m) { err.print("dtlsym", errs()); exit(3); }
		if (!M) M = std::move(m);
		else if (Linker::linkModules(*M, std::move(m), Linker::OverrideFromSrc)) { fprintf(stderr, "link failed\n"); exit(3); }
	}
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PassBuilder PB;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	std::string pipe = "globaldce,function(lower-expect,sroa,early-cse,simplifycfg)";
	if (auto *p = getenv("DTLSYM_PASSES")) pipe = p;
	if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; exit(3); }
	MPM.run(*M, MAM);
	DL = M->getDataLayout();
}

Val Engine::constVal(Constant *c) {
	Type *t = c->getType();
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		unsigned w = ci->getBitWidth();
		APInt const &v = ci->getValue();
		u128 x = v.getRawData()[0];
		if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
		return Val(V(x, w));
	}
	if (auto *cf = dyn_cast<ConstantFP>(c)) {
		APInt v = cf->getValueAPF().bitcastToAPInt();
		u128 x = v.getRawData()[0];
		if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
		return Val(V(x, v.getBitWidth()));
	}
	if (isa<ConstantPointerNull>(c)) return Val(V(0, 64));
	if (auto *gv = dyn_cast<GlobalValue>(c)) {
		if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
		return Val(V(gaddr.at(gv), 64));
	}
	if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
		std::vector<Val> r;
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
		for (unsigned i = 0; i < n; ++i) {
			Constant *el = c->getAggregateElement(i);
			if (!el) { fprintf(stderr, "bad const aggregate\n"); abort(); }
			r.push_back(constVal(el));
		}
		return Val(std::move(r));
	}
	if (isa<UndefValue>(c)) return Val(V(0, (unsigned)DL.getTypeSizeInBits(t)));
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
			case Instruction::GetElementPtr: {
				APInt off(64, 0);
				if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) break;
				V b = constVal(ce->getOperand(0)).s;
				return Val(V(b.c + (u128)off.getZExtValue(), 64));
			}
			case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
			case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: {
				V b = constVal(ce->getOperand(0)).s;
				return Val(P.vzt(b, (unsigned)DL.getTypeSizeInBits(t)));
			}
			case Instruction::Add: case Instruction::Sub: {
				V a = constVal(ce->getOperand(0)).s, b = constVal(ce->getOperand(1)).s;
				return Val(P.vbin(ce->getOpcode() == Instruction::Add ? K_ADD : K_SUB, a, b));
			}
			case Instruction::ICmp: {
				V a = constVal(ce->getOperand(0)).s, b = constVal(ce->getOperand(1)).s;
				auto p = ce->getPredicate();
				if (p == CmpInst::ICMP_EQ) return Val(V(a.c == b.c, 1));
				if (p == CmpInst::ICMP_NE) return Val(V(a.c != b.c, 1));
				break;
			}
			default: break;
		}
		errs() << "unsupported constant expr: " << *ce << "\n"; abort();
	}
	errs() << "unsupported constant: " << *c << "\n";
	abort();
}

void Engine::initConst(State &s, Obj &o, uint64_t off, Constant *c) {
	Type *t = c->getType();
	if (isa<UndefValue>(c)) { uint64_t n = DL.getTypeAllocSize(t); for (uint64_t i = 0; i < n; ++i) o.b[off + i].st = 1; return; }
	if (isa<ConstantAggregateZero>(c)) { uint64_t n = DL.getTypeAllocSize(t); for (uint64_t i = 0; i < n; ++i) { o.b[off + i].st = 1; o.b[off + i].c = 0; } return; }
	if (auto *st = dyn_cast<StructType>(t)) {
		auto *sl = DL.getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); ++i) initConst(s, o, off + sl->getElementOffset(i), c->getAggregateElement(i));
		return;
	}
	if (t->isArrayTy() || t->isVectorTy()) {
		Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
		uint64_t es = DL.getTypeAllocSize(et), n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
		for (uint64_t i = 0; i < n; ++i) initConst(s, o, off + i * es, c->getAggregateElement((unsigned)i));
		return;
	}
	V v = constVal(c).s;
	vToBytes(&o, off, v, DL.getTypeStoreSize(t));
}

void Engine::layoutGlobals(State &s) {
	uint64_t next = 0x100000;
	for (auto &f : *M) {
		gaddr[&f] = next; faddr[next] = &f; next += 16;
	}
	next = 0x1000000;
	for (auto &g : M->globals()) {
		uint64_t sz = g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()) : 64;
		if (!g.hasInitializer() && sz < 64) sz = 64;
		uint64_t al = std::max<uint64_t>(g.getAlign() ? g.getAlign()->value() : 1, DL.getABITypeAlign(g.getValueType()).value());
		next = (next + 16 + al - 1) / al * al;
		if (al < 16 && next % (2 * al) == 0) next += al; // minimally aligned
		gaddr[&g] = next;
		next += sz;
	}
	for (auto &g : M->globals()) {
		auto o = std::make_shared<Obj>();
		o->base = gaddr[&g];
		o->size = g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()) : 64;
		if (!g.hasInitializer() && o->size < 64) o->size = 64;
		o->name = g.getName().str();
		o->b.resize(o->size);
		o->kind = g.isConstant() ? O_CONST : O_GLOBAL;
		if (g.hasInitializer()) initConst(s, *o, 0, g.getInitializer());
		else for (auto &x : o->b) { x.st = 1; x.c = 0; }
		for (auto &x : o->b) if (x.st == 0) { x.st = 1; x.c = 0; }
		if (g.isConstant()) { o->ro = true; cmem[o->base] = o; }
		else s.mem[o->base] = o;
	}
}

FnInfo *Engine::info(Function *f) {
	auto &p = fns[f];
	if (p) return p.get();
	p = std::make_unique<FnInfo>();
	FnInfo &fi = *p;
	fi.f = f;
	fi.demangled = demangle(f->getName().str());
	fi.dice = fi.demangled.find("dice::") != std::string::npos;
	DenseMap<Value *, int> reg;
	DenseMap<BasicBlock *, int> bbi;
	std::unordered_map<Constant *, int> cidx;
	for (auto &a : f->args()) reg[&a] = fi.nregs++;
	int n = 0;
	for (auto &bb : *f) {
		bbi[&bb] = n++;
		for (auto &i : bb) if (!i.getType()->isVoidTy()) reg[&i] = fi.nregs++;
	}
	auto op = [&](Value *v) -> int {
		if (auto *c = dyn_cast<Constant>(v)) {
			auto it = cidx.find(c);
			if (it != cidx.end()) return ~it->second;
			fi.consts.push_back(constVal(c));
			int k = (int)fi.consts.size() - 1;
			cidx[c] = k;
			return ~k;
		}
		auto it = reg.find(v);
		if (it == reg.end()) return INT32_MAX; // metadata, labels, inline asm
		return it->second;
	};
	for (auto &bb : *f) {
		BBInfo b;
		b.bb = &bb;
		for (auto &I : bb) {
			II ii{};
			ii.I = &I;
			ii.opc = I.getOpcode();
			ii.dst = I.getType()->isVoidTy() ? -1 : reg[&I];
			if (I.getType()->isSized() && !I.getType()->isAggregateType() && !I.getType()->isVectorTy()) ii.w = (unsigned)DL.getTypeSizeInBits(I.getType());
			if (auto *ph = dyn_cast<PHINode>(&I)) {
				for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k) { ii.ops.push_back(op(ph->getIncomingValue(k))); ii.succ.push_back(bbi[ph->getIncomingBlock(k)]); }
				b.firstNonPhi = b.ins.size() + 1;
			} else if (auto *cb = dyn_cast<CallBase>(&I)) {
				for (auto &a : cb->args()) ii.ops.push_back(isa<MetadataAsValue>(a.get()) ? INT32_MAX : op(a.get()));
				Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
				if (auto *cf = dyn_cast<Function>(cv)) {
					ii.callee = cf;
					if (cf->isDeclaration() || ext.count(cf->getName().str())) {
						std::string nm = cf->getName().str();
						auto it = ext.find(nm);
						if (it != ext.end()) { extVec.push_back(*it); ii.extId = (int)extVec.size() - 1; }
					}
				} else if (!isa<InlineAsm>(cv)) ii.ops.push_back(op(cv));
				if (auto *iv = dyn_cast<InvokeInst>(&I)) { ii.succ.push_back(bbi[iv->getNormalDest()]); ii.succ.push_back(bbi[iv->getUnwindDest()]); }
			} else {
				for (auto &o : I.operands()) if (!isa<BasicBlock>(o.get())) ii.ops.push_back(op(o.get()));
				if (auto *br = dyn_cast<BranchInst>(&I)) { for (unsigned k = 0; k < br->getNumSuccessors(); ++k) ii.succ.push_back(bbi[br->getSuccessor(k)]); }
				else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
					ii.succ.push_back(bbi[sw->getDefaultDest()]);
					for (auto &cs : sw->cases()) ii.succ.push_back(bbi[cs.getCaseSuccessor()]);
				}
				if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
					int64_t c = 0;
					unsigned k = 1;
					for (auto gti = gep_type_begin(g); gti != gep_type_end(g); ++gti, ++k) {
						if (StructType *st = gti.getStructTypeOrNull()) {
							c += (int64_t)DL.getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(gti.getOperand())->getZExtValue());
						} else {
							int64_t es = (int64_t)DL.getTypeAllocSize(gti.getIndexedType());
							if (auto *ci = dyn_cast<ConstantInt>(gti.getOperand())) c += es * ci->getSExtValue();
							else ii.gepIdx.push_back({op(gti.getOperand()), es});
						}
					}
					ii.gepConst = c;
				}
			}
			ii.syncPoint = isSync(ii);
			b.ins.push_back(std::move(ii));
		}
		fi.bbs.push_back(std::move(b));
	}
	return &fi;
}

// ---------------------------------------------------------------- forking & solving
static bool const forkProf = getenv("DTLSYM_FORKPROF");
static std::map<std::string, uint64_t> forkWhere;
State *Engine::fork(State &s) {
	forks++;
	if (forkProf) forkWhere[where(s) + " in " + (s.T().stack.empty() ? "?" : s.T().stack.back()->fn->f->getName().str())]++;
	auto *n = new State(s);
	n->depth++;
	statesMade++;
	return n;
}
void Engine::addC(State &s, Expr const *c) {
	if (c->k == K_CONST) return;
	if (c->k == K_AND && c->w == 1) { addC(s, c->op[0]); addC(s, c->op[1]); return; }
	if (!s.csSet.insert(c->id).second) return;
	s.cs.push_back(c);
}
SatRes Engine::may(State &s, Expr const *cond, Model *m) {
	if (cond->k == K_CONST) { if (m) *m = s.model; return cond->c ? SAT : UNSAT; }
	SatRes r = solver.check(s.cs, cond, s.model, m);
	if (r == UNKNOWN) solverUnknown = true;
	return r;
}
bool Engine::decide(State &s, V const &cond) {
	if (cond.conc()) return cond.c;
	Expr const *c = cond.e;
	Expr const *nc = P.lnot(c);
	if (s.csSet.count(c->id)) return true;
	if (s.csSet.count(nc->id)) return false;
	Evaluator ev(s.model);
	bool m = ev.eval(c) != 0;
	Expr const *mine = m ? c : nc, *other = m ? nc : c;
	Model om;
	SatRes r = may(s, other, &om);
	if (r == SAT) {
		if (c->uninit && getenv("DTLSYM_STACK")) {
			for (auto &fr : s.T().stack) fprintf(stderr, "  %s\n", fr->fn->f->getName().str().c_str());
			fprintf(stderr, "%s\n", Z3_ast_to_string(solver.ctx, solver.trB(c)));
		}
		if (c->uninit) violation(s, "uninit", "control flow depends on uninitialised memory");
		if (opt.maxForks && s.depth >= opt.maxForks) { solverUnknown = true; }
		else {
			State *n = fork(s);
			n->model = std::move(om);
			addC(*n, other);
			work.push_back(n);
		}
		addC(s, mine);
	}
	return m;
}
V Engine::concretize(State &s, V const &v) {
	if (v.conc()) return v;
	for (;;) {
		Evaluator ev(s.model);
		u128 c = ev.eval(v.e);
		Expr const *eq = P.bin(K_EQ, P.cst(c, v.w), v.e);
		if (eq->k == K_CONST) return V(c, v.w);
		if (decide(s, V(eq))) return V(c, v.w);
		// decide() evaluates with the current model, so eq always holds here
	}
}
Expr const *Engine::newSym(State &s, std::string const &name, unsigned w, char kind) {
	uint32_t ord = kind == 'u' ? s.uninitCnt++ : kind == 's' ? s.schedCnt++ : (uint32_t)s.inputs.size();
	std::string key = std::string(1, kind) + std::to_string(ord) + ":" + name + ":" + std::to_string(w);
	auto it = symTab.find(key);
	Expr const *e;
	if (it != symTab.end()) e = it->second;
	else { e = P.sym(name, w, kind == 'u'); symTab[key] = e; }
	if (kind == 'i') s.inputs.push_back(e);
	return e;
}

// ---------------------------------------------------------------- memory
Obj *Engine::find(State &s, uint64_t a) {
	auto it = s.mem.upper_bound(a);
	if (it != s.mem.begin()) {
		--it;
		Obj *o = it->second.get();
		if (a >= o->base && a < o->base + std::max<uint64_t>(o->size, 1)) return o;
	}
	auto ic = cmem.upper_bound(a);
	if (ic != cmem.begin()) {
		--ic;
		Obj *o = ic->second.get();
		if (a >= o->base && a < o->base + std::max<uint64_t>(o->size, 1)) return o;
	}
	return nullptr;
}
Obj *Engine::wr(State &s, Obj *o) {
	auto it = s.mem.find(o->base);
	if (it == s.mem.end()) return o;
	if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
	return it->second.get();
}
uint64_t Engine::allocObj(State &s, uint64_t size, uint64_t align, ObjKind k, std::string const &name, bool zero, Expr const *symsize) {
	uint64_t &nx = k == O_STACK ? s.stackNext : s.heapNext;
	if (align == 0) align = 1;
	uint64_t a = (nx + 32 + align - 1) / align * align;
	if (align < 4096 && a % (2 * align) == 0) a += align; // exactly the requested alignment, not more
	nx = a + size;
	auto o = std::make_shared<Obj>();
	o->base = a; o->size = size; o->align = align; o->kind = k; o->name = name; o->symsize = symsize;
	o->b.resize(size);
	if (zero) for (auto &x : o->b) x.st = 1;
	s.mem[a] = o;
	return a;
}
std::string Engine::describe(State &s, uint64_t a) {
	Obj *o = find(s, a);
	char buf[64]; snprintf(buf, sizeof buf, "0x%lx", (unsigned long)a);
	if (!o) {
		auto it = s.mem.upper_bound(a);
		std::string r = buf;
		if (it != s.mem.begin()) { --it; auto *p = it->second.get(); r += " (" + std::to_string(a - p->base - p->size) + " bytes past " + p->name + " of size " + std::to_string(p->size) + (p->alive ? "" : ", freed") + ")"; }
		return r;
	}
	return std::string(buf) + " (offset " + std::to_string(a - o->base) + " in " + o->name + " of size " + std::to_string(o->size) + (o->alive ? ")" : ", freed)");
}
Obj *Engine::resolve(State &s, V const &addr, uint64_t n, bool write, V &off, bool &dead) {
	dead = false;
	uint64_t a;
	if (addr.conc()) a = addr.u();
	else { Evaluator ev(s.model); a = (uint64_t)ev.eval(addr.e); }
	Obj *o = find(s, a);
	auto bad = [&](std::string const &what) {
		violation(s, "memory", what + (write ? " write of " : " read of ") + std::to_string(n) + " bytes at " + describe(s, a));
		// continue with inputs that avoid it, if any
		dead = true;
		return nullptr;
	};
	if (!o) {
		if (n == 0) { off = V(0, 64); return nullptr; }
		if (!addr.conc()) {
			// other values of the address may be fine: fork them off (outside this gap between objects)
			uint64_t lo = 0, hi = ~(uint64_t)0;
			auto nb = [&](std::map<uint64_t, std::shared_ptr<Obj>> &mm) {
				auto it = mm.upper_bound(a);
				if (it != mm.end()) hi = std::min(hi, it->first - 1);
				if (it != mm.begin()) { --it; lo = std::max(lo, it->first + std::max<uint64_t>(it->second->size, 1)); }
			};
			nb(s.mem); nb(cmem);
			V in = P.vand(P.vbin(K_ULE, V(lo, 64), addr), P.vbin(K_ULE, addr, V(hi, 64)));
			decide(s, in);
		}
		return bad(a < 4096 ? "null dereference:" : "out-of-bounds");
	}
	if (!o->alive) return bad("use of freed/out-of-scope memory:");
	if (addr.conc()) {
		off = V(a - o->base, 64);
		if (a - o->base + n > o->size) return bad("out-of-bounds");
		if (o->symsize) {
			V ok = V(P.bin(K_ULE, P.cst(a - o->base + n, 64), o->symsize));
			if (!decide(s, ok)) return bad("out-of-bounds (symbolic size)");
			o = find(s, a);
		}
	} else {
		V d = P.vbin(K_SUB, addr, V(o->base, 64));
		V lim = o->symsize ? V(o->symsize) : V(o->size, 64);
		// in bounds: d <= lim && n <= lim - d
		V inb = P.vand(P.vbin(K_ULE, d, lim), P.vbin(K_ULE, V(n, 64), P.vbin(K_SUB, lim, d)));
		if (!decide(s, inb)) {
			if (a - o->base + n > o->size && o->symsize == nullptr) return bad("out-of-bounds");
			return bad("out-of-bounds");
		}
		off = d;
	}
	if (write && o->ro) return bad("write to constant memory:");
	return o;
}
Byte Engine::readByte(State &s, Obj *o, uint64_t off) {
	Byte b = o->b[off];
	if (b.st == 0) {
		Obj *w = wr(s, o);
		b.st = 2;
		b.e = newSym(s, "uninit", 8, 'u');
		w->b[off] = b;
	}
	return b;
}
V Engine::bytesToV(State &s, Obj *o, uint64_t off, uint64_t n) {
	// fast path: all concrete
	bool conc = true;
	for (uint64_t i = 0; i < n; ++i) if (o->b[off + i].st != 1) { conc = false; break; }
	if (conc) {
		u128 r = 0;
		for (uint64_t i = n; i-- > 0;) r = (r << 8) | o->b[off + i].c;
		return V(r, (uint32_t)(n * 8));
	}
	V r;
	uint64_t base = o->base;
	if (n > 1 && n <= 16) { // all bytes come from one value (some of them known constants)
		Expr const *x = nullptr; uint32_t lo = 0; bool ok = true;
		for (uint64_t i = 0; i < n && ok; ++i) {
			Byte const &b = find(s, base)->b[off + i];
			if (b.st == 0) ok = false;
			else if (b.st == 2 && !x) {
				if (b.e->k == K_EXTRACT && b.e->w == 8 && b.e->aux >= i * 8 && b.e->aux - i * 8 + n * 8 <= b.e->op[0]->w) { x = b.e->op[0]; lo = b.e->aux - i * 8; }
				else ok = false;
			}
		}
		if (ok && x && !x->uninit) {
			for (uint64_t i = 0; i < n && ok; ++i) {
				Byte const &b = find(s, base)->b[off + i];
				uint32_t at = lo + i * 8;
				if (b.st == 2) ok = b.e->k == K_EXTRACT && b.e->w == 8 && b.e->op[0] == x && b.e->aux == at;
				else ok = ((uint8_t)(x->k1 >> at) == b.c) && ((uint8_t)(x->k0 >> at) == (uint8_t)~b.c);
			}
			if (ok) return V(P.extract(x, lo, n * 8));
		}
	}
	Expr const *run = nullptr; // adjacent bytes of one value
	uint32_t runLo = 0, runW = 0;
	auto put = [&](V const &bv) {
		if (r.w == 0) r = bv;
		else r = (r.conc() && bv.conc()) ? V((bv.c << r.w) | r.c, r.w + bv.w) : V(P.concat(E(bv), E(r)));
	};
	auto flush = [&] { if (run) put(V(P.extract(run, runLo, runW))); run = nullptr; };
	r.w = 0;
	for (uint64_t i = 0; i < n; ++i) {
		Obj *cur = find(s, base);
		Byte b = readByte(s, cur, off + i);
		if (b.st != 1 && b.e->k == K_EXTRACT) {
			if (run == b.e->op[0] && b.e->aux == runLo + runW) { runW += b.e->w; continue; }
			flush();
			run = b.e->op[0]; runLo = b.e->aux; runW = b.e->w;
			continue;
		}
		flush();
		put(b.st == 1 ? V(b.c, 8) : V(b.e));
	}
	flush();
	return r;
}
void Engine::vToBytes(Obj *o, uint64_t off, V const &v, uint64_t n) {
	if (v.conc()) {
		u128 c = v.c;
		for (uint64_t i = 0; i < n; ++i) { o->b[off + i] = Byte{nullptr, (uint8_t)(c & 0xff), 1}; c >>= 8; }
		return;
	}
	Expr const *e = v.e;
	if (e->w < n * 8) e = P.zext(e, (uint32_t)(n * 8));
	for (uint64_t i = 0; i < n; ++i) {
		// not simplified, so that loading all bytes gives back e itself
		Expr const *x = P.extract(e, (uint32_t)(i * 8), 8);
		if (x->k != K_CONST && !e->uninit) x = P.rawExtract(e, (uint32_t)(i * 8), 8);
		if (x->k == K_CONST) o->b[off + i] = Byte{nullptr, (uint8_t)x->c, 1};
		else o->b[off + i] = Byte{x, 0, 2};
	}
}
static unsigned trailingZeros(Expr const *e) {
	unsigned t = 0;
	while (t < e->w && ((e->k0 >> t) & 1)) ++t;
	return t;
}
bool Engine::loadScalar(State &s, V const &addr, unsigned w, V &out) {
	uint64_t n = (w + 7) / 8;
	V off; bool dead;
	Obj *o = resolve(s, addr, n, false, off, dead);
	if (!o) return false;
	if (!off.conc()) {
		unsigned tz = trailingZeros(off.e);
		uint64_t stride = tz >= 12 ? 4096 : (uint64_t)1 << tz;
		uint64_t cnt = (o->size - n) / stride + 1;
		if (o->size < n) cnt = 0;
		if (cnt > 128) off = concretize(s, off);
		else {
			if (s.multi) race(s, o, 0, o->size, false, false);
			// restrict candidates by known bits
			V r; bool first = true;
			uint64_t base = o->base;
			for (uint64_t k = 0; k + n <= o->size; k += stride) {
				if ((k & (uint64_t)off.e->k0) || (~k & (uint64_t)off.e->k1)) continue;
				V x = bytesToV(s, find(s, base), k, n);
				if (first) { r = x; first = false; }
				else r = P.vite(V(P.bin(K_EQ, P.cst(k, 64), off.e)), x, r);
			}
			if (first) return false;
			out = r.w == w ? r : P.vextract(r, 0, w);
			return true;
		}
	}
	if (s.multi) race(s, o, off.u(), n, false, false);
	o = find(s, o->base);
	V r = bytesToV(s, o, off.u(), n);
	out = r.w == w ? r : P.vextract(r, 0, w);
	return true;
}
bool Engine::storeScalar(State &s, V const &addr, V const &v) {
	uint64_t n = (v.w + 7) / 8;
	V off; bool dead;
	Obj *o = resolve(s, addr, n, true, off, dead);
	if (!o) return false;
	if (!off.conc()) {
		unsigned tz = trailingZeros(off.e);
		uint64_t stride = tz >= 12 ? 4096 : (uint64_t)1 << tz;
		uint64_t cnt = o->size < n ? 0 : (o->size - n) / stride + 1;
		if (cnt > 128 || stride < n) off = concretize(s, off);
		else {
			if (s.multi) race(s, o, 0, o->size, true, false);
			uint64_t base = o->base;
			for (uint64_t k = 0; k + n <= o->size; k += stride) {
				if ((k & (uint64_t)off.e->k0) || (~k & (uint64_t)off.e->k1)) continue;
				V old = bytesToV(s, find(s, base), k, n);
				V nv = P.vzt(v, (uint32_t)(n * 8));
				V x = P.vite(V(P.bin(K_EQ, P.cst(k, 64), off.e)), nv, old);
				vToBytes(wr(s, find(s, base)), k, x, n);
			}
			return true;
		}
	}
	if (s.multi) race(s, o, off.u(), n, true, false);
	o = wr(s, find(s, o->base));
	vToBytes(o, off.u(), v, n);
	return true;
}
bool Engine::loadVal(State &s, V const &addr, Type *t, Val &out) {
	if (auto *st = dyn_cast<StructType>(t)) {
		std::vector<Val> r(st->getNumElements());
		auto *sl = DL.getStructLayout(st);
		for (unsigned i = 0; i < r.size(); ++i) if (!loadVal(s, P.vbin(K_ADD, addr, V(sl->getElementOffset(i), 64)), st->getElementType(i), r[i])) return false;
		out = Val(std::move(r));
		return true;
	}
	if (t->isArrayTy() || t->isVectorTy()) {
		Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
		uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(), es = DL.getTypeAllocSize(et);
		std::vector<Val> r(n);
		for (uint64_t i = 0; i < n; ++i) if (!loadVal(s, P.vbin(K_ADD, addr, V(i * es, 64)), et, r[i])) return false;
		out = Val(std::move(r));
		return true;
	}
	V v;
	if (!loadScalar(s, addr, (unsigned)DL.getTypeSizeInBits(t), v)) return false;
	out = Val(v);
	return true;
}
bool Engine::storeVal(State &s, V const &addr, Type *t, Val const &v) {
	if (auto *st = dyn_cast<StructType>(t)) {
		auto *sl = DL.getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); ++i) if (!storeVal(s, P.vbin(K_ADD, addr, V(sl->getElementOffset(i), 64)), st->getElementType(i), (*v.agg)[i])) return false;
		return true;
	}
	if (t->isArrayTy() || t->isVectorTy()) {
		Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
		uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(), es = DL.getTypeAllocSize(et);
		for (uint64_t i = 0; i < n; ++i) if (!storeVal(s, P.vbin(K_ADD, addr, V(i * es, 64)), et, (*v.agg)[i])) return false;
		return true;
	}
	return storeScalar(s, addr, v.s);
}
bool Engine::copyMem(State &s, V dst, V src, V n, bool move) {
	n = concretize(s, n);
	uint64_t len = n.u();
	if (len == 0) return true;
	src = concretize(s, src); dst = concretize(s, dst);
	V so, dof; bool dead;
	Obj *o = resolve(s, src, len, false, so, dead);
	if (!o) return false;
	uint64_t sb = o->base;
	Obj *d = resolve(s, dst, len, true, dof, dead);
	if (!d) return false;
	if (!move && dst.u() != src.u()) {
		uint64_t a = src.u(), b = dst.u();
		if (a < b + len && b < a + len) { violation(s, "memory", "overlapping memcpy"); return false; }
	}
	if (s.multi) { race(s, find(s, sb), so.u(), len, false, false); race(s, find(s, d->base), dof.u(), len, true, false); }
	o = find(s, sb);
	std::vector<Byte> tmp(o->b.begin() + so.u(), o->b.begin() + so.u() + len);
	d = wr(s, find(s, d->base));
	std::copy(tmp.begin(), tmp.end(), d->b.begin() + dof.u());
	return true;
}
bool Engine::setMem(State &s, V dst, V c, V n) {
	n = concretize(s, n);
	uint64_t len = n.u();
	if (len == 0) return true;
	dst = concretize(s, dst);
	V off; bool dead;
	Obj *d = resolve(s, dst, len, true, off, dead);
	if (!d) return false;
	if (s.multi) race(s, d, off.u(), len, true, false);
	d = wr(s, find(s, d->base));
	Byte b;
	if (c.conc()) { b.st = 1; b.c = (uint8_t)c.c; } else { b.st = 2; b.e = c.e; }
	for (uint64_t i = 0; i < len; ++i) d->b[off.u() + i] = b;
	return true;
}

// ---------------------------------------------------------------- reporting
std::vector<std::string> Engine::backtrace(State &s) {
	std::vector<std::string> r;
	auto &st = s.T().stack;
	for (size_t i = st.size(); i-- > 0;) {
		auto &f = *st[i];
		std::string l = f.fn->demangled;
		if (l.size() > 200) l = l.substr(0, 200) + "...";
		if (f.bb < (int)f.fn->bbs.size() && f.ip < (int)f.fn->bbs[f.bb].ins.size()) {
			auto *I = f.fn->bbs[f.bb].ins[f.ip].I;
			if (auto &dl = I->getDebugLoc()) {
				std::string file = dl->getFilename().str();
				auto p = file.rfind('/');
				l += " @" + (p == std::string::npos ? file : file.substr(p + 1)) + ":" + std::to_string(dl->getLine());
			}
		}
		r.push_back(l);
		if (r.size() > 25) break;
	}
	return r;
}
std::string Engine::where(State &s) {
	auto &st = s.T().stack;
	for (size_t i = st.size(); i-- > 0;) {
		auto &f = *st[i];
		if (f.bb < (int)f.fn->bbs.size() && f.ip < (int)f.fn->bbs[f.bb].ins.size()) {
			auto *I = f.fn->bbs[f.bb].ins[f.ip].I;
			for (DILocation *dl = I->getDebugLoc().get(); dl; dl = dl->getInlinedAt()) {
				std::string file = dl->getFilename().str();
				if (file.find("template-library") != std::string::npos || file.find("harness") != std::string::npos) {
					auto p = file.rfind('/');
					return file.substr(p + 1) + ":" + std::to_string(dl->getLine());
				}
			}
		}
	}
	return "?";
}
void Engine::violation(State &s, std::string kind, std::string msg, Model const *m, Expr const *) {
	if (kind == "terminate" && s.expectTerm && msg != "process exit") { s.reach.push_back("terminated"); endPath(s); return; }
	std::string w = where(s);
	std::string key = kind + "|" + (kind == "memory" ? w : msg + "|" + w);
	int &cnt = violKeys[key];
	if (++cnt > 6 || (int)viols.size() >= opt.maxViolations * 6) return;
	ViolationRec r;
	r.kind = kind; r.msg = msg; r.where = w; r.stack = backtrace(s);
	Evaluator ev(m ? *m : s.model);
	for (auto *e : s.inputs) { r.inputs.push_back({P.syms[e->aux].name, (uint64_t)ev.eval(e)}); r.widths.push_back(e->w); }
	r.sched = s.sched;
	viols.push_back(std::move(r));
}
void Engine::unsupported(State &s, std::string what) {
	std::string w = what + " @ " + where(s);
	if (unsupportedEv[w]++ == 0) {
		fprintf(stderr, "UNSUPPORTED: %s\n", w.c_str());
		for (auto &l : backtrace(s)) fprintf(stderr, "    %s\n", l.c_str());
	}
}

// ---------------------------------------------------------------- control
void Engine::jump(State &s, int succ) {
	Frame &f = s.F();
	int from = f.bb;
	auto &b = f.fn->bbs[succ];
	if (b.firstNonPhi) {
		std::vector<std::pair<int, Val>> nv;
		for (size_t i = 0; i < b.firstNonPhi; ++i) {
			auto &ph = b.ins[i];
			for (size_t k = 0; k < ph.succ.size(); ++k)
				if (ph.succ[k] == from) { nv.push_back({ph.dst, ph.ops[k] >= 0 ? f.regs[ph.ops[k]] : f.fn->consts[~ph.ops[k]]}); break; }
		}
		for (auto &[d, v] : nv) f.regs[d] = std::move(v);
	}
	f.bb = succ;
	f.ip = (int)b.firstNonPhi;
}
R Engine::enter(State &s, Function *f, std::vector<Val> args) {
	if (f->isDeclaration()) { unsupported(s, "call to external " + f->getName().str()); return DEAD; }
	if (s.T().stack.size() > 1500) { violation(s, "recursion", "call depth exceeds 1500"); return DEAD; }
	FnInfo *fi = info(f);
	fi->entered++;
	auto fr = std::make_shared<Frame>();
	fr->fn = fi;
	fr->regs.resize(fi->nregs);
	size_t n = std::min(args.size(), f->arg_size());
	for (size_t i = 0; i < n; ++i) fr->regs[i] = std::move(args[i]);
	// byval arguments are copied
	for (size_t i = 0; i < n; ++i) if (f->getArg((unsigned)i)->hasByValAttr()) {
		uint64_t sz = DL.getTypeAllocSize(f->getArg((unsigned)i)->getParamByValType());
		uint64_t a = allocObj(s, sz, std::max<uint64_t>(8, f->getArg((unsigned)i)->getParamAlign() ? f->getArg((unsigned)i)->getParamAlign()->value() : 8), O_STACK, "byval argument");
		V src = fr->regs[i].s;
		if (!copyMem(s, V(a, 64), src, V(sz, 64), false)) return DEAD;
		fr->regs[i] = Val(V(a, 64));
		fr->allocas.push_back(a);
	}
	s.T().stack.push_back(fr);
	return STAY;
}
static void popFrame(State &s) {
	auto &f = *s.T().stack.back();
	for (auto a : f.allocas) s.mem.erase(a);
	s.T().stack.pop_back();
}
void Engine::ret(State &s, Val const *v) {
	Val rv; if (v) rv = *v;
	uint64_t fe = s.T().stack.back()->freeExcOnReturn;
	popFrame(s);
	if (fe) { s.mem.erase(fe); s.exc.erase(fe); }
	if (s.T().stack.empty()) { finishThread(s); return; }
	Frame &f = s.F();
	II &ii = f.fn->bbs[f.bb].ins[f.ip];
	if (ii.dst >= 0 && v) f.regs[ii.dst] = std::move(rv);
	if (ii.opc == Instruction::Invoke) jump(s, ii.succ[0]);
	else f.ip++;
}
void Engine::finishThread(State &s) { s.T().st = T_DONE; }

bool Engine::endPath(State &s) {
	// all work of the entry finished: leak check
	if (s.th.size() > 1) for (size_t i = 1; i < s.th.size(); ++i) if (s.th[i].st != T_DONE) { unsupported(s, "entry returned with running threads"); return false; }
	std::string leak;
	for (auto &[a, o] : s.mem) if (o->alive && (o->kind == O_NEW || o->kind == O_NEWARR || o->kind == O_MALLOC)) { leak = o->name + " of size " + std::to_string(o->size); break; }
	if (!leak.empty() && !s.expectTerm) violation(s, "leak", "heap memory leaked: " + leak);
	for (auto &[a, m] : s.mtx) if (m.owner >= 0 || m.readers) { (void) a; }
	pathsDone++;
	for (auto &r : s.reach) reachCnt[r]++;
	if (paths.size() < opt.pathSamples || (pathsDone % 7 == 0 && paths.size() < opt.pathSamples * 4)) {
		PathRec pr;
		Evaluator ev(s.model);
		for (auto *e : s.inputs) { pr.inputs.push_back({P.syms[e->aux].name, (uint64_t)ev.eval(e)}); pr.widths.push_back(e->w); }
		for (auto &v : s.obs) pr.obs.push_back(v.conc() ? (uint64_t)v.c : (uint64_t)ev.eval(v.e));
		pr.sched = s.sched;
		paths.push_back(std::move(pr));
	}
	return true;
}

// ---------------------------------------------------------------- main loop
void Engine::runState(State *sp) {
	State &s = *sp;
	for (;;) {
		if (s.T().st == T_DONE) {
			if (s.cur == 0) { if (!initPhase) endPath(s); return; }
			vcTick(s);
			if (!schedule(s, false)) return;
			continue;
		}
		Frame &f = *s.T().stack.back();
		II &ii = f.fn->bbs[f.bb].ins[f.ip];
		totalInstrs++;
		if (++s.instrs > opt.maxPathInstrs) { instrLimitHits++; violation(s, "nontermination", "path exceeds " + std::to_string(opt.maxPathInstrs) + " instructions"); pathsKilled++; return; }
		if ((totalInstrs & 0xfff) == 0 && elapsed() > opt.maxTime) { timedOut = true; return; }
		if (s.multi && ii.syncPoint && !s.schedDone) {
			s.schedDone = true;
			if (!schedule(s, true)) return;
			continue;
		}
		if (opt.trace) { errs() << "[" << s.cur << "] " << f.fn->f->getName() << ": " << *ii.I << "\n"; }
		bool was = ii.syncPoint;
		int tid = s.cur;
		R r = step(s, ii);
		if (r == DEAD) return;
		if (r == ADV) {
			Frame &g = s.F();
			if (ii.opc == Instruction::Invoke) jump(s, ii.succ[0]);
			else g.ip++;
			if (was && s.cur == tid) s.schedDone = false;
		}
	}
}

static Kind binKind(unsigned opc) {
	switch (opc) {
		case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL;
		case Instruction::UDiv: return K_UDIV; case Instruction::SDiv: return K_SDIV; case Instruction::URem: return K_UREM; case Instruction::SRem: return K_SREM;
		case Instruction::And: return K_AND; case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR;
		case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; case Instruction::AShr: return K_ASHR;
	}
	return K_CONST;
}
static V icmp(CmpInst::Predicate p, V const &a, V const &b) {
	switch (p) {
		case CmpInst::ICMP_EQ: return P.vbin(K_EQ, a, b);
		case CmpInst::ICMP_NE: return P.vnot(P.vbin(K_EQ, a, b));
		case CmpInst::ICMP_ULT: return P.vbin(K_ULT, a, b);
		case CmpInst::ICMP_ULE: return P.vbin(K_ULE, a, b);
		case CmpInst::ICMP_UGT: return P.vbin(K_ULT, b, a);
		case CmpInst::ICMP_UGE: return P.vbin(K_ULE, b, a);
		case CmpInst::ICMP_SLT: return P.vbin(K_SLT, a, b);
		case CmpInst::ICMP_SLE: return P.vbin(K_SLE, a, b);
		case CmpInst::ICMP_SGT: return P.vbin(K_SLT, b, a);
		case CmpInst::ICMP_SGE: return P.vbin(K_SLE, b, a);
		default: abort();
	}
}
static V fcmpV(CmpInst::Predicate p, V const &a, V const &b) {
	unsigned w = a.w, mant = w == 32 ? 23 : 52;
	auto C = [&](u128 v) { return V(v, w); };
	u128 signm = (u128)1 << (w - 1), inf = maskw(w - 1) & ~maskw(mant);
	V ma = P.vand(C(maskw(w - 1)), a), mb = P.vand(C(maskw(w - 1)), b);
	V nan = P.vor(P.vbin(K_ULT, C(inf), ma), P.vbin(K_ULT, C(inf), mb));
	V bz = P.vand(P.vbin(K_EQ, ma, C(0)), P.vbin(K_EQ, mb, C(0)));
	V eq = P.vor(bz, P.vbin(K_EQ, a, b));
	// total order key
	auto key = [&](V const &x) { return P.vite(P.vbin(K_EQ, P.vand(C(signm), x), C(0)), P.vbin(K_OR, C(signm), x), P.vbin(K_XOR, C(maskw(w)), x)); };
	V lt = P.vand(P.vnot(bz), P.vbin(K_ULT, key(a), key(b)));
	V gt = P.vand(P.vnot(bz), P.vbin(K_ULT, key(b), key(a)));
	V ord = P.vnot(nan);
	switch (p) {
		case CmpInst::FCMP_FALSE: return V(0, 1);
		case CmpInst::FCMP_TRUE: return V(1, 1);
		case CmpInst::FCMP_OEQ: return P.vand(ord, eq);
		case CmpInst::FCMP_OGT: return P.vand(ord, gt);
		case CmpInst::FCMP_OGE: return P.vand(ord, P.vor(gt, eq));
		case CmpInst::FCMP_OLT: return P.vand(ord, lt);
		case CmpInst::FCMP_OLE: return P.vand(ord, P.vor(lt, eq));
		case CmpInst::FCMP_ONE: return P.vand(ord, P.vnot(eq));
		case CmpInst::FCMP_ORD: return ord;
		case CmpInst::FCMP_UNO: return nan;
		case CmpInst::FCMP_UEQ: return P.vor(nan, eq);
		case CmpInst::FCMP_UGT: return P.vor(nan, gt);
		case CmpInst::FCMP_UGE: return P.vor(nan, P.vor(gt, eq));
		case CmpInst::FCMP_ULT: return P.vor(nan, lt);
		case CmpInst::FCMP_ULE: return P.vor(nan, P.vor(lt, eq));
		case CmpInst::FCMP_UNE: return P.vor(nan, P.vnot(eq));
		default: abort();
	}
}
static double asF(V const &v) { if (v.w == 32) { uint32_t x = (uint32_t)v.c; float f; memcpy(&f, &x, 4); return f; } uint64_t x = (uint64_t)v.c; double d; memcpy(&d, &x, 8); return d; }
static V fromF(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return V(x, 32); } uint64_t x; memcpy(&x, &d, 8); return V(x, 64); }

Val Engine::fp(State &s, II &ii, bool &ok) {
	ok = true;
	std::vector<V> a;
	for (int o : ii.ops) { V v = opv(s, o).s; a.push_back(v); }
	if (ii.opc == Instruction::FCmp && (a[0].w == 32 || a[0].w == 64)) return Val(fcmpV(cast<FCmpInst>(ii.I)->getPredicate(), a[0], a[1]));
	if (ii.opc == Instruction::FNeg) return Val(P.vbin(K_XOR, V((u128)1 << (a[0].w - 1), a[0].w), a[0]));
	for (auto &v : a) if (v.w == 80) { ok = false; return Val(); }
	if (ii.w == 80) { ok = false; return Val(); }
	for (auto &v : a) if (!v.conc()) v = concretize(s, v);
	switch (ii.opc) {
		case Instruction::FAdd: return Val(ii.w == 32 ? fromF((float)asF(a[0]) + (float)asF(a[1]), 32) : fromF(asF(a[0]) + asF(a[1]), 64));
		case Instruction::FSub: return Val(ii.w == 32 ? fromF((float)asF(a[0]) - (float)asF(a[1]), 32) : fromF(asF(a[0]) - asF(a[1]), 64));
		case Instruction::FMul: return Val(ii.w == 32 ? fromF((float)asF(a[0]) * (float)asF(a[1]), 32) : fromF(asF(a[0]) * asF(a[1]), 64));
		case Instruction::FDiv: return Val(ii.w == 32 ? fromF((float)asF(a[0]) / (float)asF(a[1]), 32) : fromF(asF(a[0]) / asF(a[1]), 64));
		case Instruction::FPExt: case Instruction::FPTrunc: return Val(fromF(asF(a[0]), ii.w));
		case Instruction::UIToFP: return Val(ii.w == 32 ? fromF((float)(uint64_t)a[0].c, 32) : fromF((double)(uint64_t)a[0].c, 64));
		case Instruction::SIToFP: return Val(ii.w == 32 ? fromF((float)(int64_t)sxt(a[0].c, a[0].w), 32) : fromF((double)(int64_t)sxt(a[0].c, a[0].w), 64));
		case Instruction::FPToUI: return Val(V((u128)(uint64_t)asF(a[0]), ii.w));
		case Instruction::FPToSI: return Val(V((u128)(s128)(int64_t)asF(a[0]), ii.w));
	}
	ok = false;
	return Val();
}

R Engine::step(State &s, II &ii) {
	Instruction *I = ii.I;
	switch (ii.opc) {
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
		case Instruction::And: case Instruction::Or: case Instruction::Xor:
		case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
		case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
			Val const &a = opv(s, ii.ops[0]), &b = opv(s, ii.ops[1]);
			Kind k = binKind(ii.opc);
			if (a.agg) {
				std::vector<Val> r;
				for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(Val(P.vbin(k, (*a.agg)[i].s, (*b.agg)[i].s)));
				setDst(s, ii.dst, Val(std::move(r)));
				return ADV;
			}
			if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
				V z = P.vbin(K_EQ, b.s, V(0, b.s.w));
				if (decide(s, z)) { violation(s, "ub", "division by zero"); return DEAD; }
				if (k == K_SDIV || k == K_SREM) {
					V ov = P.vand(P.vbin(K_EQ, opv(s, ii.ops[0]).s, V((u128)1 << (ii.w - 1), ii.w)), P.vbin(K_EQ, opv(s, ii.ops[1]).s, V(maskw(ii.w), ii.w)));
					if (decide(s, ov)) { violation(s, "ub", "signed division overflow"); return DEAD; }
				}
			}
			if (k == K_SHL || k == K_LSHR || k == K_ASHR) {
				V big = P.vbin(K_ULE, V(ii.w, ii.w), b.s);
				if (ii.w >= 8 && !big.conc() && must(s, P.vnot(big))) {}
			}
			V r = P.vbin(k, opv(s, ii.ops[0]).s, opv(s, ii.ops[1]).s);
			setDst(s, ii.dst, Val(r));
			return ADV;
		}
		case Instruction::ICmp: {
			Val const &a = opv(s, ii.ops[0]), &b = opv(s, ii.ops[1]);
			auto p = cast<ICmpInst>(I)->getPredicate();
			if (a.agg) {
				std::vector<Val> r;
				for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(Val(icmp(p, (*a.agg)[i].s, (*b.agg)[i].s)));
				setDst(s, ii.dst, Val(std::move(r)));
				return ADV;
			}
			setDst(s, ii.dst, Val(icmp(p, a.s, b.s)));
			return ADV;
		}
		case Instruction::FCmp: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg:
		case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FRem: {
			bool ok;
			Val v = fp(s, ii, ok);
			if (!ok) { unsupported(s, std::string("floating point ") + I->getOpcodeName()); pathsKilled++; return DEAD; }
			setDst(s, ii.dst, v);
			return ADV;
		}
		case Instruction::Trunc: setDst(s, ii.dst, Val(P.vextract(opv(s, ii.ops[0]).s, 0, ii.w))); return ADV;
		case Instruction::ZExt: setDst(s, ii.dst, Val(P.vzext(opv(s, ii.ops[0]).s, ii.w))); return ADV;
		case Instruction::SExt: setDst(s, ii.dst, Val(P.vsext(opv(s, ii.ops[0]).s, ii.w))); return ADV;
		case Instruction::PtrToInt: case Instruction::IntToPtr: setDst(s, ii.dst, Val(P.vzt(opv(s, ii.ops[0]).s, ii.w))); return ADV;
		case Instruction::BitCast: case Instruction::AddrSpaceCast: {
			Val const &v = opv(s, ii.ops[0]);
			Type *st = I->getOperand(0)->getType(), *dt = I->getType();
			if (st->isVectorTy() || dt->isVectorTy()) {
				// flatten to one scalar and split again
				V acc; bool first = true;
				if (v.agg) for (auto &x : *v.agg) { if (first) { acc = x.s; first = false; } else acc = V(P.concat(E(x.s), E(acc))); }
				else acc = v.s;
				if (auto *vt = dyn_cast<FixedVectorType>(dt)) {
					unsigned ew = (unsigned)DL.getTypeSizeInBits(vt->getElementType());
					std::vector<Val> r;
					for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(Val(P.vextract(acc, i * ew, ew)));
					setDst(s, ii.dst, Val(std::move(r)));
				} else setDst(s, ii.dst, Val(acc));
				return ADV;
			}
			setDst(s, ii.dst, v);
			return ADV;
		}
		case Instruction::Freeze: setDst(s, ii.dst, opv(s, ii.ops[0])); return ADV;
		case Instruction::Select: {
			Val const &c = opv(s, ii.ops[0]);
			if (c.agg) {
				Val const &t = opv(s, ii.ops[1]), &f = opv(s, ii.ops[2]);
				std::vector<Val> r;
				for (size_t i = 0; i < c.agg->size(); ++i) r.push_back(Val(P.vite((*c.agg)[i].s, (*t.agg)[i].s, (*f.agg)[i].s)));
				setDst(s, ii.dst, Val(std::move(r)));
				return ADV;
			}
			if (!c.s.conc() && (opv(s, ii.ops[1]).agg || I->getType()->isPointerTy())) {
				bool b = decide(s, c.s);
				setDst(s, ii.dst, opv(s, ii.ops[b ? 1 : 2]));
				return ADV;
			}
			if (c.s.conc()) setDst(s, ii.dst, opv(s, ii.ops[c.s.c ? 1 : 2]));
			else if (int k = s.csSet.count(c.s.e->id) ? 1 : s.csSet.count(P.lnot(c.s.e)->id) ? 2 : 0; // decided on this path
				k && (opv(s, ii.ops[k]).s.conc() || opv(s, ii.ops[k]).s.w > 64 || P.srangeIf(c.s.e, k == 1, opv(s, ii.ops[k]).s.e) == P.srange(opv(s, ii.ops[k]).s.e))) setDst(s, ii.dst, opv(s, ii.ops[k])); // (kept if the condition bounds the value)
			else setDst(s, ii.dst, Val(P.vite(c.s, opv(s, ii.ops[1]).s, opv(s, ii.ops[2]).s)));
			return ADV;
		}
		case Instruction::GetElementPtr: {
			V r = P.vbin(K_ADD, opv(s, ii.ops[0]).s, V((u128)(s128)ii.gepConst, 64));
			for (auto &[o, sc] : ii.gepIdx) {
				V x = opv(s, o).s;
				x = x.w < 64 ? P.vsext(x, 64) : P.vzt(x, 64);
				r = P.vbin(K_ADD, r, P.vbin(K_MUL, x, V((u128)(s128)sc, 64)));
			}
			setDst(s, ii.dst, Val(r));
			return ADV;
		}
		case Instruction::Alloca: {
			auto *ai = cast<AllocaInst>(I);
			V n = opv(s, ii.ops[0]).s;
			n = concretize(s, n);
			uint64_t sz = DL.getTypeAllocSize(ai->getAllocatedType()) * n.u();
			uint64_t a = allocObj(s, sz, ai->getAlign().value(), O_STACK, "local " + (ai->hasName() ? ai->getName().str() : std::string("var")));
			s.F().allocas.push_back(a);
			setDst(s, ii.dst, Val(V(a, 64)));
			return ADV;
		}
		case Instruction::Load: {
			Val out;
			auto *ld = cast<LoadInst>(I);
			if (ld->isAtomic() && s.multi) {
				V ad = concretize(s, opv(s, ii.ops[0]).s);
				V off; bool dead;
				Obj *o = resolve(s, ad, (ii.w + 7) / 8, false, off, dead);
				if (!o) { pathsKilled++; return DEAD; }
				race(s, o, off.u(), (ii.w + 7) / 8, false, true);
				if (isAcquireOrStronger(ld->getOrdering())) { auto it = s.arel.find(ad.u()); if (it != s.arel.end()) vcJoin(s.T().vc, it->second); }
				o = find(s, ad.u());
				V r = bytesToV(s, o, off.u(), (ii.w + 7) / 8);
				setDst(s, ii.dst, Val(r.w == ii.w ? r : P.vextract(r, 0, ii.w)));
				return ADV;
			}
			if (!loadVal(s, opv(s, ii.ops[0]).s, I->getType(), out)) { pathsKilled++; return DEAD; }
			setDst(s, ii.dst, std::move(out));
			return ADV;
		}
		case Instruction::Store: {
			auto *st = cast<StoreInst>(I);
			if (st->isAtomic() && s.multi) {
				V ad = concretize(s, opv(s, ii.ops[1]).s);
				V v = opv(s, ii.ops[0]).s;
				V off; bool dead;
				uint64_t n = (v.w + 7) / 8;
				Obj *o = resolve(s, ad, n, true, off, dead);
				if (!o) { pathsKilled++; return DEAD; }
				race(s, o, off.u(), n, true, true);
				if (isReleaseOrStronger(st->getOrdering())) { s.arel[ad.u()] = s.T().vc; vcTick(s); }
				else s.arel.erase(ad.u());
				vToBytes(wr(s, find(s, ad.u())), off.u(), v, n);
				return ADV;
			}
			Val v = opv(s, ii.ops[0]);
			if (!storeVal(s, opv(s, ii.ops[1]).s, I->getOperand(0)->getType(), v)) { pathsKilled++; return DEAD; }
			return ADV;
		}
		case Instruction::AtomicRMW: {
			auto *rm = cast<AtomicRMWInst>(I);
			V ad = concretize(s, opv(s, ii.ops[0]).s), v = opv(s, ii.ops[1]).s, off; bool dead;
			uint64_t n = (v.w + 7) / 8;
			Obj *o = resolve(s, ad, n, true, off, dead);
			if (!o) { pathsKilled++; return DEAD; }
			if (s.multi) {
				race(s, o, off.u(), n, true, true);
				auto ord = rm->getOrdering();
				if (isAcquireOrStronger(ord)) { auto it = s.arel.find(ad.u()); if (it != s.arel.end()) vcJoin(s.T().vc, it->second); }
				if (isReleaseOrStronger(ord)) { vcJoin(s.arel[ad.u()], s.T().vc); vcTick(s); }
			}
			o = find(s, ad.u());
			V old = bytesToV(s, o, off.u(), n), nv;
			if (old.w != v.w) old = P.vextract(old, 0, v.w);
			switch (rm->getOperation()) {
				case AtomicRMWInst::Xchg: nv = v; break;
				case AtomicRMWInst::Add: nv = P.vbin(K_ADD, old, v); break;
				case AtomicRMWInst::Sub: nv = P.vbin(K_SUB, old, v); break;
				case AtomicRMWInst::And: nv = P.vbin(K_AND, old, v); break;
				case AtomicRMWInst::Or: nv = P.vbin(K_OR, old, v); break;
				case AtomicRMWInst::Xor: nv = P.vbin(K_XOR, old, v); break;
				default: unsupported(s, "atomicrmw op"); return DEAD;
			}
			vToBytes(wr(s, find(s, ad.u())), off.u(), nv, n);
			setDst(s, ii.dst, Val(old));
			return ADV;
		}
		case Instruction::AtomicCmpXchg: {
			auto *cx = cast<AtomicCmpXchgInst>(I);
			V ad = concretize(s, opv(s, ii.ops[0]).s), cmp = opv(s, ii.ops[1]).s, nv = opv(s, ii.ops[2]).s, off; bool dead;
			uint64_t n = (cmp.w + 7) / 8;
			Obj *o = resolve(s, ad, n, true, off, dead);
			if (!o) { pathsKilled++; return DEAD; }
			V old = bytesToV(s, find(s, ad.u()), off.u(), n);
			if (old.w != cmp.w) old = P.vextract(old, 0, cmp.w);
			bool eq = decide(s, P.vbin(K_EQ, old, cmp));
			if (s.multi) {
				race(s, find(s, ad.u()), off.u(), n, eq, true);
				auto ord = eq ? cx->getSuccessOrdering() : cx->getFailureOrdering();
				if (isAcquireOrStronger(ord)) { auto it = s.arel.find(ad.u()); if (it != s.arel.end()) vcJoin(s.T().vc, it->second); }
				if (eq && isReleaseOrStronger(ord)) { vcJoin(s.arel[ad.u()], s.T().vc); vcTick(s); }
			}
			if (eq) vToBytes(wr(s, find(s, ad.u())), off.u(), nv, n);
			std::vector<Val> r{Val(old), Val(V(eq, 1))};
			setDst(s, ii.dst, Val(std::move(r)));
			return ADV;
		}
		case Instruction::Fence: return ADV;
		case Instruction::ExtractValue: {
			Val v = opv(s, ii.ops[0]);
			for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; }
			setDst(s, ii.dst, v);
			return ADV;
		}
		case Instruction::InsertValue: {
			Val v = opv(s, ii.ops[0]);
			ArrayRef<unsigned> idx = cast<InsertValueInst>(I)->getIndices();
			std::function<Val(Val const &, unsigned)> rec = [&](Val const &x, unsigned k) -> Val {
				if (k == idx.size()) return opv(s, ii.ops[1]);
				std::vector<Val> c = *x.agg;
				c[idx[k]] = rec(c[idx[k]], k + 1);
				return Val(std::move(c));
			};
			setDst(s, ii.dst, rec(v, 0));
			return ADV;
		}
		case Instruction::ExtractElement: {
			V i = concretize(s, opv(s, ii.ops[1]).s);
			setDst(s, ii.dst, (*opv(s, ii.ops[0]).agg)[i.u()]);
			return ADV;
		}
		case Instruction::InsertElement: {
			V i = concretize(s, opv(s, ii.ops[2]).s);
			std::vector<Val> c = *opv(s, ii.ops[0]).agg;
			c[i.u()] = opv(s, ii.ops[1]);
			setDst(s, ii.dst, Val(std::move(c)));
			return ADV;
		}
		case Instruction::ShuffleVector: {
			auto *sv = cast<ShuffleVectorInst>(I);
			auto &a = *opv(s, ii.ops[0]).agg, &b = *opv(s, ii.ops[1]).agg;
			std::vector<Val> r;
			for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? a[0] : (size_t)m < a.size() ? a[m] : b[m - a.size()]);
			setDst(s, ii.dst, Val(std::move(r)));
			return ADV;
		}
		case Instruction::Br: {
			if (ii.succ.size() == 1) { jump(s, ii.succ[0]); return STAY; }
			bool c = decide(s, opv(s, ii.ops[0]).s);
			jump(s, ii.succ[c ? 0 : 1]);
			return STAY;
		}
		case Instruction::Switch: {
			V c = opv(s, ii.ops[0]).s;
			auto *sw = cast<SwitchInst>(I);
			if (c.conc()) {
				int k = 1;
				for (auto &cs : sw->cases()) { if ((u128)cs.getCaseValue()->getZExtValue() == (c.c & maskw(std::min(c.w, 64u)))) { jump(s, ii.succ[k]); return STAY; } k++; }
				jump(s, ii.succ[0]);
				return STAY;
			}
			std::map<int, V> conds; std::vector<int> order;
			int k = 1;
			for (auto &cs : sw->cases()) {
				V eq = P.vbin(K_EQ, c, V(cs.getCaseValue()->getZExtValue(), c.w));
				int d = ii.succ[k++];
				if (!conds.count(d)) { conds[d] = eq; order.push_back(d); }
				else conds[d] = P.vor(conds[d], eq);
			}
			for (int d : order) if (d != ii.succ[0]) if (decide(s, conds[d])) { jump(s, d); return STAY; }
			jump(s, ii.succ[0]);
			return STAY;
		}
		case Instruction::Ret: {
			if (ii.ops.empty()) ret(s, nullptr);
			else { Val v = opv(s, ii.ops[0]); ret(s, &v); }
			return STAY;
		}
		case Instruction::Unreachable:
			violation(s, "ub", "unreachable code reached");
			pathsKilled++;
			return DEAD;
		case Instruction::LandingPad: return ADV; // value set by the unwinder
		case Instruction::Resume: {
			uint64_t ex = (*opv(s, ii.ops[0]).agg)[0].s.u();
			popFrame(s);
			if (s.T().stack.empty()) { violation(s, "terminate", "exception leaves the thread"); return DEAD; }
			return doThrow(s, ex, true);
		}
		case Instruction::Call: case Instruction::Invoke: return execCall(s, ii);
		case Instruction::PHI: return ADV;
		default:
			unsupported(s, std::string("instruction ") + I->getOpcodeName());
			pathsKilled++;
			return DEAD;
	}
}

R Engine::execCall(State &s, II &ii) {
	auto &cb = cast<CallBase>(*ii.I);
	Function *f = ii.callee;
	size_t na = cb.arg_size();
	std::vector<Val> args;
	args.reserve(na);
	if (!f) {
		if (cb.isInlineAsm()) {
			if (cast<InlineAsm>(cb.getCalledOperand())->getAsmString().empty()) { if (ii.dst >= 0) { unsupported(s, "inline asm with result"); return DEAD; } return ADV; }
			unsupported(s, "inline asm"); pathsKilled++; return DEAD;
		}
		V t = concretize(s, opv(s, ii.ops.back()).s);
		auto it = faddr.find(t.u());
		if (it == faddr.end()) { violation(s, "memory", "call through invalid function pointer " + describe(s, t.u())); pathsKilled++; return DEAD; }
		f = it->second;
	}
	for (size_t i = 0; i < na; ++i) args.push_back(ii.ops[i] == INT32_MAX ? Val() : opv(s, ii.ops[i]));
	ExtFn h = nullptr;
	if (ii.extId >= 0) h = extVec[ii.extId].second;
	else if (!ii.callee || f->isDeclaration()) { auto it = ext.find(f->getName().str()); if (it != ext.end()) h = it->second; }
	if (!h && f->isIntrinsic()) {
		// strip the overload suffix
		std::string n = f->getName().str();
		std::string best;
		for (auto &[k, v] : ext) if (k.compare(0, 5, "llvm.") == 0 && n.compare(0, k.size(), k) == 0 && k.size() > best.size()) { best = k; h = v; }
		if (h) { ext[n] = h; extVec.push_back({n, h}); ii.extId = (int)extVec.size() - 1; }
	}
	if (h) {
		Val r;
		if (ii.dst >= 0) r = Val(V(0, ii.w ? ii.w : 1));
		R x = h(*this, s, cb, args, r);
		if (x == ADV) setDst(s, ii.dst, std::move(r));
		if (x == DEAD) pathsKilled++;
		return x;
	}
	if (f->isDeclaration()) { unsupported(s, "call to external " + f->getName().str()); pathsKilled++; return DEAD; }
	return enter(s, f, std::move(args));
}

// ---------------------------------------------------------------- exceptions
static Constant *tiBase(Constant *c) { return c ? cast<Constant>(c->stripPointerCasts()) : nullptr; }
bool Engine::typeMatch(Value *thrown, Value *handler, int64_t &adj) {
	adj = 0;
	if (thrown == handler) return true;
	auto *g = dyn_cast<GlobalVariable>(thrown);
	if (!g || !g->hasInitializer()) return thrown->getName() == handler->getName();
	if (g->getName() == handler->getName()) return true;
	auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
	if (!cs) return false;
	Value *vt = cs->getOperand(0)->stripInBoundsConstantOffsets();
	std::string vn;
	if (auto *ce = dyn_cast<ConstantExpr>(vt)) vt = ce->getOperand(0);
	vn = vt->getName().str();
	if (vn.find("__si_class_type_info") != std::string::npos) return typeMatch(tiBase(cs->getOperand(2)), handler, adj);
	if (vn.find("__vmi_class_type_info") != std::string::npos) {
		unsigned n = (unsigned)cast<ConstantInt>(cs->getOperand(3))->getZExtValue();
		for (unsigned i = 0; i < n; ++i) {
			int64_t of = cast<ConstantInt>(cs->getOperand(4 + 2 * i + 1))->getSExtValue(), a2;
			if (!(of & 2)) continue; // not public
			if (of & 1) continue; // virtual base: not supported
			if (typeMatch(tiBase(cs->getOperand(4 + 2 * i)), handler, a2)) { adj = (of >> 8) + a2; return true; }
		}
	}
	return false;
}
R Engine::doThrow(State &s, uint64_t exc, bool) {
	Thread &t = s.T();
	ExcInfo &ei = s.exc[exc];
	// phase 1: is there a handler at all?
	int target = -1; bool landedCleanup = false;
	int first = -1;
	auto clause = [&](LandingPadInst *lp, int &sel, int64_t &adj) -> bool {
		for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
			Constant *c = lp->getClause(i);
			if (lp->isCatch(i)) {
				Value *ti = c->stripPointerCasts();
				if (isa<ConstantPointerNull>(ti)) { sel = typeId(ti); adj = 0; return true; }
				if (typeMatch(ei.ti, ti, adj)) { sel = typeId(ti); return true; }
			} else {
				bool ok = false;
				if (auto *ca = dyn_cast<ConstantArray>(c)) for (auto &o : ca->operands()) { int64_t a; if (typeMatch(ei.ti, o->stripPointerCasts(), a)) ok = true; }
				if (!ok) { sel = -1; adj = 0; return true; }
			}
		}
		return false;
	};
	std::string tn = demangle(ei.ti->getName().str());
	for (int i = (int)t.stack.size() - 1; i >= 0; --i) {
		Frame &f = *t.stack[i];
		II &ii = f.fn->bbs[f.bb].ins[f.ip];
		if (ii.opc == Instruction::Invoke) {
			auto *lp = cast<InvokeInst>(ii.I)->getLandingPadInst();
			int sel; int64_t adj;
			if (first < 0 && (lp->isCleanup())) first = i;
			if (clause(lp, sel, adj)) { target = i; break; }
		}
		if (f.fn->f->doesNotThrow()) {
			violation(s, "terminate", "exception (" + tn + ") leaves noexcept function " + f.fn->demangled.substr(0, 120));
			return DEAD;
		}
	}
	if (target < 0) { violation(s, "terminate", "uncaught exception: " + tn); return DEAD; }
	(void) landedCleanup;
	// phase 2: unwind to the first frame with a landing pad that handles or cleans up
	for (;;) {
		Frame &f0 = *t.stack.back();
		II &ii = f0.fn->bbs[f0.bb].ins[f0.ip];
		if (ii.opc == Instruction::Invoke) {
			auto *lp = cast<InvokeInst>(ii.I)->getLandingPadInst();
			int sel = 0; int64_t adj = 0;
			bool hit = clause(lp, sel, adj);
			if (hit || lp->isCleanup()) {
				jump(s, ii.succ[1]);
				Frame &f = s.F();
				II &l = f.fn->bbs[f.bb].ins[f.ip];
				ei.adj = exc + (uint64_t)adj;
				std::vector<Val> r{Val(V(exc, 64)), Val(V((u128)(s128)(hit ? sel : 0), 32))};
				if (l.dst >= 0) f.regs[l.dst] = Val(std::move(r));
				f.ip++;
				return STAY;
			}
		}
		popFrame(s);
		if (t.stack.empty()) return DEAD;
	}
}

// ---------------------------------------------------------------- threads
bool Engine::isSync(II &ii) {
	switch (ii.opc) {
		case Instruction::AtomicCmpXchg: case Instruction::AtomicRMW: return true;
		case Instruction::Load: return cast<LoadInst>(ii.I)->isAtomic();
		case Instruction::Store: return cast<StoreInst>(ii.I)->isAtomic();
		case Instruction::Call: case Instruction::Invoke: {
			if (!ii.callee) return false;
			StringRef n = ii.callee->getName();
			if (n.starts_with("pthread_mutex_") || n.starts_with("pthread_rwlock_") || n.starts_with("pthread_cond_") || n == "sched_yield" || n == "dtl_yield") return !n.ends_with("_init") && !n.ends_with("_destroy");
			if (n == "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE" || n == "_ZNSt18condition_variable10notify_oneEv" || n == "_ZNSt18condition_variable10notify_allEv") return true;
			if (n == "dtl_join_all") return true;
			return false;
		}
		default: return false;
	}
}
void Engine::race(State &s, Obj *o, uint64_t off, uint64_t n, bool write, bool atomic) {
	if (o->ro || o->kind == O_CONST) return;
	if (s.th.size() < 2) return;
	Obj *w = wr(s, o);
	if (!w->shadow) w->shadow = std::make_shared<std::vector<Shadow>>(w->size);
	else if (w->shadow.use_count() > 1) w->shadow = std::make_shared<std::vector<Shadow>>(*w->shadow);
	auto &vc = s.T().vc;
	int t = s.cur;
	uint32_t now = t < (int)vc.size() ? vc[t] : 0;
	auto hb = [&](int tt, uint32_t c) { return tt == t || (tt < (int)vc.size() && vc[tt] >= c); };
	for (uint64_t i = off; i < off + n && i < w->size; ++i) {
		Shadow &h = (*w->shadow)[i];
		std::string bad;
		if (h.wt >= 0 && !hb(h.wt, h.wc)) bad = "plain write by thread " + std::to_string(h.wt);
		if (!atomic && h.awt >= 0 && !hb(h.awt, h.awc)) bad = "atomic write by thread " + std::to_string(h.awt);
		if (write) for (int k = 0; k < 5; ++k) {
			if (h.r[k] && !hb(k, h.r[k])) bad = "plain read by thread " + std::to_string(k);
			if (!atomic && h.ar[k] && !hb(k, h.ar[k])) bad = "atomic read by thread " + std::to_string(k);
		}
		if (!bad.empty()) { violation(s, "race", "data race: " + std::string(atomic ? "atomic " : "plain ") + (write ? "write" : "read") + " by thread " + std::to_string(t) + " conflicts with unordered " + bad + " on " + w->name); return; }
		if (write) { if (atomic) { h.awt = (int16_t)t; h.awc = now; } else { h.wt = (int16_t)t; h.wc = now; } }
		else if (t < 5) { if (atomic) h.ar[t] = now; else h.r[t] = now; }
	}
}
bool Engine::enabled(State &s, int t, bool spur) {
	Thread &T = s.th[t];
	switch (T.st) {
		case T_RUN: return true;
		case T_DONE: return false;
		case T_MUTEX: { auto it = s.mtx.find(T.waitAddr); return it == s.mtx.end() || (it->second.owner < 0 && it->second.readers == 0); }
		case T_WR: { auto it = s.mtx.find(T.waitAddr); return it == s.mtx.end() || (it->second.owner < 0 && it->second.readers == 0); }
		case T_RD: { auto it = s.mtx.find(T.waitAddr); return it == s.mtx.end() || it->second.owner < 0; }
		case T_CV:
			if (T.phase == 2 || T.timed || (spur && s.spurious > 0)) { auto it = s.mtx.find(T.waitMutex); return it == s.mtx.end() || (it->second.owner < 0 && it->second.readers == 0); }
			return false;
		case T_JOIN: for (size_t i = 1; i < s.th.size(); ++i) if ((int)i != t && s.th[i].st != T_DONE) return false; return true;
		default: return false;
	}
}
bool Engine::schedule(State &s, bool curCanRun) {
	std::vector<int> c;
	bool any = false;
	for (int t = 0; t < (int)s.th.size(); ++t) if (enabled(s, t, false)) any = true;
	if (!any) {
		std::string d;
		for (int t = 0; t < (int)s.th.size(); ++t) if (s.th[t].st != T_DONE) d += " thread " + std::to_string(t) + (s.th[t].st == T_CV ? " waits on a condition variable;" : s.th[t].st == T_JOIN ? " joins;" : " waits for a lock;");
		// where: top blocked thread
		for (int t = 1; t < (int)s.th.size(); ++t) if (s.th[t].st != T_DONE) { s.cur = t; break; }
		violation(s, "deadlock", "no thread can make progress:" + d);
		pathsKilled++;
		return false;
	}
	int cur = s.cur;
	bool preempting = curCanRun && enabled(s, cur, false) && s.T().st == T_RUN;
	if (preempting) {
		c.push_back(cur);
		bool yield = false;
		Frame &f = *s.T().stack.back();
		II &ii = f.fn->bbs[f.bb].ins[f.ip];
		if (ii.callee && (ii.callee->getName() == "sched_yield" || ii.callee->getName() == "dtl_yield")) yield = true;
		if (yield) { c.clear(); for (int t = 0; t < (int)s.th.size(); ++t) if (t != cur && enabled(s, t, true)) c.push_back(t); if (c.empty()) c.push_back(cur); preempting = false; }
		else if (s.preempt < opt.preemptBound) for (int t = 0; t < (int)s.th.size(); ++t) if (t != cur && enabled(s, t, true)) c.push_back(t);
	} else {
		for (int t = 0; t < (int)s.th.size(); ++t) if (enabled(s, t, true)) c.push_back(t);
	}
	auto take = [&](State &n, int t) {
		n.sched.push_back((uint8_t)t);
		if (preempting && t != cur) n.preempt++;
		Thread &T = n.th[t];
		if (T.st == T_CV && T.phase != 2 && !T.timed) { n.spurious--; T.phase = 2; }
		else if (T.st == T_CV && T.phase != 2 && T.timed) { T.phase = 2; T.wakeReason = 1; }
		T.st = T_RUN; // blocked operations are re-executed
		n.cur = t;
		n.schedDone = true; // the pending operation runs now
	};
	if (c.size() > 1) {
		Expr const *sy = newSym(s, "schedule", 8, 's');
		uint32_t idx = sy->aux;
		Expr const *some = P.cst(0, 1);
		for (int t : c) some = P.bin(K_OR, some, P.bin(K_EQ, P.cst((u128)t, 8), sy));
		exclude(s, P.lnot(some)); // a thread that cannot run, or beyond the preemption bound
		for (size_t i = c.size(); i-- > 1;) {
			State *n = fork(s);
			addC(*n, P.bin(K_EQ, P.cst((u128)c[i], 8), sy));
			if (n->model.size() <= idx) n->model.resize(idx + 1, 0);
			n->model[idx] = (uint64_t)c[i];
			take(*n, c[i]);
			work.push_back(n);
		}
		addC(s, P.bin(K_EQ, P.cst((u128)c[0], 8), sy));
		if (s.model.size() <= idx) s.model.resize(idx + 1, 0);
		s.model[idx] = (uint64_t)c[0];
	}
	take(s, c[0]);
	return true;
}

// ---------------------------------------------------------------- driver
static uint64_t lost; // DTLSYM_LOSE: forget some paths, to test that the covering query notices
int Engine::run() {
	t0 = std::chrono::steady_clock::now();
	registerExt();
	solver.timeoutMs = opt.timeoutMs;
	solver.dumpDir = opt.dump;
	auto *s0 = new State();
	s0->th.resize(1);
	s0->T().vc = {1};
	layoutGlobals(*s0);
	// global constructors
	auto exec = [&](Function *f) {
		s0->T().st = T_RUN;
		s0->cur = 0;
		if (enter(*s0, f, {}) == DEAD) { fprintf(stderr, "cannot enter %s\n", f->getName().str().c_str()); exit(3); }
		runState(s0);
		if (s0->T().st != T_DONE) { fprintf(stderr, "global constructor %s did not finish\n", f->getName().str().c_str()); }
	};
	if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
		if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
			std::vector<std::pair<uint64_t, Function *>> fs;
			for (auto &o : ca->operands()) {
				auto *cs = cast<ConstantStruct>(o.get());
				if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
			}
			std::stable_sort(fs.begin(), fs.end(), [](auto &a, auto &b) { return a.first < b.first; });
			for (auto &[p, f] : fs) exec(f);
		}
	}
	for (auto &[a, o] : s0->mem) if (o->kind == O_NEW || o->kind == O_NEWARR || o->kind == O_MALLOC) o->kind = O_GLOBAL; // allocated before the entry: not leaks
	initPhase = false;
	s0->instrs = 0;
	Function *f = M->getFunction(opt.entry);
	if (!f || f->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
	s0->T().st = T_RUN;
	std::vector<Val> ea;
	if (f->arg_size() == 1) ea.push_back(Val(V(opt.part, (unsigned)DL.getTypeSizeInBits(f->getArg(0)->getType()))));
	if (enter(*s0, f, ea) == DEAD) return 3;
	work.push_back(s0);
	statesMade++;
	while (!work.empty()) {
		State *s;
		if (opt.bfs) { s = work.front(); work.erase(work.begin()); }
		else { s = work.back(); work.pop_back(); }
		runState(s);
		if (!getenv("DTLSYM_LOSE") || ++lost % 50) cover.add(s->cs);
		delete s;
		if (timedOut || elapsed() > opt.maxTime || statesMade > opt.maxStates) { timedOut = timedOut || !work.empty(); break; }
		if ((int)violKeys.size() >= opt.maxViolations) break;
	}
	if (!timedOut && viols.empty()) cover.solve(solver);
	writeOut();
	return 0;
}

void Engine::writeOut() {
	using namespace llvm::json;
	Array va, pa, fa, ua;
	auto inputs = [](std::vector<std::pair<std::string, uint64_t>> const &in, std::vector<unsigned> const &w) {
		Array a;
		for (size_t i = 0; i < in.size(); ++i) a.push_back(Object{{"name", in[i].first}, {"bits", (int64_t)w[i]}, {"value", std::to_string(in[i].second)}});
		return a;
	};
	auto sched = [](std::vector<uint8_t> const &v) { Array a; for (auto x : v) a.push_back((int64_t)x); return a; };
	for (auto &v : viols) {
		Array st;
		for (auto &l : v.stack) st.push_back(l);
		va.push_back(Object{{"kind", v.kind}, {"msg", v.msg}, {"where", v.where}, {"stack", std::move(st)}, {"inputs", inputs(v.inputs, v.widths)}, {"sched", sched(v.sched)}});
	}
	for (auto &p : paths) {
		Array o;
		for (auto x : p.obs) o.push_back(std::to_string(x));
		pa.push_back(Object{{"inputs", inputs(p.inputs, p.widths)}, {"sched", sched(p.sched)}, {"obs", std::move(o)}});
	}
	std::vector<std::pair<uint64_t, std::string>> fl;
	for (auto &[f, i] : fns) if (i && i->dice && i->entered) fl.push_back({i->entered, i->demangled});
	std::sort(fl.begin(), fl.end());
	for (auto &[n, d] : fl) fa.push_back(d.substr(0, 240));
	for (auto &[k, n] : unsupportedEv) ua.push_back(k + " x" + std::to_string(n));
	Object ro;
	for (auto &[k, n] : reachCnt) ro[k] = (int64_t)n;
	Object top{
		{"entry", opt.entry}, {"part", (int64_t)opt.part}, {"paths", (int64_t)pathsDone}, {"paths_killed", (int64_t)pathsKilled}, {"paths_assumed_away", (int64_t)pathsAssume}, {"paths_deduped", (int64_t)pathsDeduped},
		{"forks", (int64_t)forks}, {"states", (int64_t)statesMade}, {"instructions", (int64_t)totalInstrs}, {"checks", (int64_t)checks}, {"checks_symbolic", (int64_t)checksSym},
		{"queries", (int64_t)solver.queries}, {"q_sat", (int64_t)solver.sat}, {"q_unsat", (int64_t)solver.unsat}, {"q_unknown", (int64_t)solver.unknown}, {"q_cached", (int64_t)solver.cacheHits},
		{"solver_s", solver.time}, {"max_query_s", solver.maxQuery}, {"wall_s", elapsed()}, {"timed_out", timedOut}, {"solver_unknown", solverUnknown}, {"instr_limit", (int64_t)instrLimitHits}, {"cover", cover.result}, {"cover_leaves", (int64_t)cover.leaves}, {"cover_nodes", (int64_t)cover.nodes.size()}, {"cover_s", cover.time},
		{"violations", std::move(va)}, {"path_samples", std::move(pa)}, {"functions", std::move(fa)}, {"unsupported", std::move(ua)}, {"reach", std::move(ro)}};
	std::string js = formatv("{0:2}", json::Value(std::move(top))).str();
	if (forkProf) {
		std::vector<std::pair<uint64_t, std::string>> v;
		for (auto &[k, n] : forkWhere) v.push_back({n, k});
		std::sort(v.rbegin(), v.rend());
		for (size_t i = 0; i < v.size() && i < 40; ++i) std::cerr << v[i].first << " " << v[i].second.substr(0, 200) << "\n";
	}
	if (opt.out.empty()) std::cout << js << "\n";
	else { std::ofstream o(opt.out); o << js << "\n"; }
}

int main(int argc, char **argv) {
	std::vector<std::string> files;
	Engine e;
	G = &e;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return argv[++i]; };
		if (a == "--entry") { std::string v = val(); auto p = v.find(':'); if (p != std::string::npos) { e.opt.part = std::stoull(v.substr(p + 1)); v = v.substr(0, p); } e.opt.entry = v; }
		else if (a == "--max-time") e.opt.maxTime = std::stod(val());
		else if (a == "--max-instr") e.opt.maxPathInstrs = std::stoull(val());
		else if (a == "--max-states") e.opt.maxStates = std::stoull(val());
		else if (a == "--path-samples") e.opt.pathSamples = (unsigned)std::stoul(val());
		else if (a == "--preempt") e.opt.preemptBound = std::stoi(val());
		else if (a == "--query-timeout") e.opt.timeoutMs = (unsigned)std::stoul(val());
		else if (a == "--seed") e.opt.seed = std::stoull(val());
		else if (a == "--out") e.opt.out = val();
		else if (a == "--dump") e.opt.dump = val();
		else if (a == "--trace") e.opt.trace = true;
		else if (a == "--bfs") e.opt.bfs = true;
		else files.push_back(a);
	}
	e.load(files);
	if (e.opt.entry == "list") { for (auto &f : *e.M) if (f.getName().starts_with("h_") && !f.isDeclaration()) std::cout << f.getName().str() << "\n"; return 0; }
	return e.run();
}
