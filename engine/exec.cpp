// Symbolic execution of LLVM IR for small concurrent programs.
//
// A state is a guard (formula over schedule variables and inputs), a memory of objects whose cells hold
// expressions, and one call stack per thread. At every layer the thread that performs the next visible
// operation is the value of a schedule variable s_k; states that reach the same control points are
// merged with if-then-else, so one state stands for many interleavings and inputs, and every
// assertion is decided by the solver over all of them at once.
#include "exec.h"
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Analysis/ValueTracking.h>
#include <chrono>
#include <cstring>
#include <deque>
#include <fstream>
#include <unordered_set>
#include <sys/resource.h>
using namespace llvm;

static LLVMContext g_ctx; static std::unique_ptr<Module> g_mod; static const DataLayout* DL;
struct Options { unsigned maxLayers = 600; double timeLimit = 600; unsigned seed = 1; std::string trace; bool verbose = false; unsigned maxStates = 400000; uint64_t maxInsts = 400000; bool races = true; bool noMerge = false; std::string dumpSmt; bool allVisible = false; std::set<std::string> define; bool livelock = true; unsigned memMB = 3500; bool keyP = true; int keyLevel = 2; int preempt = -1; } O;

struct Unsupported { std::string what; };
struct StopRun {};
struct Restart {};
[[noreturn]] static void unsup(const std::string& s) { throw Unsupported{s}; }
static std::chrono::steady_clock::time_point g_t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

// ------------------------------------------------------------------ statistics / results
struct Violation { std::string kind, msg, where; std::vector<std::string> stack; Model model; std::vector<std::string> sched; };
static std::vector<Violation> g_viol; static bool g_deferred = false;
static std::string g_incomplete; // part of the space was left out: no proof, but violations count
static size_t g_maxThreads = 1; static bool g_inconclusive = false; static std::string g_incWhy;
struct Stats { uint64_t states = 0, steps = 0, merges = 0, insts = 0, forks = 0, layers = 0, finals = 0, runs = 0, maxLayer = 0, obligations = 0, accesses = 0, raceChecks = 0, terminated = 0, peak = 0; } G;
static std::set<Fn*> g_used; static std::map<std::string, uint64_t> g_reach;
static std::map<std::string, uint64_t> g_checks;
static std::unordered_set<uint64_t> g_P; static bool g_Pgrew = false; static double g_PgrewAt = 0;
static bool g_concrete = false; static Model g_fixed; static std::vector<TraceEnt> g_trace; static std::vector<std::pair<int, uint32_t>> g_parks; static unsigned g_layer = 0; static std::vector<std::string> g_obs, g_inputs;
static std::string g_harnessDesc;

// ------------------------------------------------------------------ objects
static std::vector<ObjInfo> g_objs; static std::map<uint64_t, uint32_t> g_byAddr; static uint64_t g_nextAddr = 0x100000;
static std::map<std::string, uint32_t> g_byKey;
static uint32_t newObjInfo(uint64_t size, uint64_t align, OK kind, const std::string& desc) {
	if (align < 16) align = 16;
	g_nextAddr = (g_nextAddr + align - 1) / align * align;
	ObjInfo o; o.addr = g_nextAddr; o.size = size; o.kind = kind; o.desc = desc;
	g_nextAddr += size + 48;
	uint32_t id = g_objs.size(); g_objs.push_back(o); g_byAddr[o.addr] = id;
	return id;
}
static int findObj(uint64_t a) { // object whose [addr, addr+size] contains a (size 0 allowed)
	auto it = g_byAddr.upper_bound(a); if (it == g_byAddr.begin()) return -1; --it;
	ObjInfo& o = g_objs[it->second]; if (a - o.addr < o.size || (a == o.addr)) return it->second; return -1;
}
static std::map<const GlobalValue*, uint32_t> g_globalId;
static ObjTab g_baseMem; static std::vector<ObjP> g_initObj; // initial contents for globals (by id)
static std::map<uint32_t, ObjP> g_base;

static Val constVal(const Constant* c);
static unsigned tyw(Type* t) {
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isPointerTy()) return 64;
	if (t->isFloatTy()) return 32;
	if (t->isDoubleTy()) return 64;
	return 0;
}
static void storeCell(Obj& o, uint32_t off, uint32_t len, E e);
static void initGlobal(Obj& o, uint32_t off, const Constant* c) {
	Type* t = c->getType();
	if (isa<UndefValue>(c)) return;
	if (auto* st = dyn_cast<StructType>(t)) {
		const StructLayout* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
		return;
	}
	if (auto* at = dyn_cast<ArrayType>(t)) {
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		for (uint64_t i = 0; i < at->getNumElements(); i++) initGlobal(o, off + i * es, c->getAggregateElement(i));
		return;
	}
	if (t->isVectorTy()) unsup("vector constant in global");
	unsigned len = DL->getTypeStoreSize(t);
	if (!tyw(t) || len > 8) { // wide scalars (i128, x87): only zero
		if (c->isNullValue()) { for (unsigned i = 0; i < len; i += 8) storeCell(o, off + i, std::min(8u, len - i), mkConst(0, std::min(8u, len - i) * 8)); return; }
		unsup("wide constant in global");
	}
	E e = constVal(c).e;
	storeCell(o, off, len, mkZext(e, len * 8));
}
static uint64_t globalAddr(const GlobalValue* gv) {
	if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee()).e->k;
	auto it = g_globalId.find(gv);
	if (it != g_globalId.end()) return g_objs[it->second].addr;
	uint32_t id;
	if (auto* f = dyn_cast<Function>(gv)) { id = newObjInfo(1, 16, OK::FUNC, f->getName().str()); g_objs[id].fn = const_cast<Function*>(f); g_globalId[gv] = id; return g_objs[id].addr; }
	auto* g = cast<GlobalVariable>(gv);
	uint64_t sz = DL->getTypeAllocSize(g->getValueType()); if (!g->hasInitializer() && sz < 128) sz = 128;
	id = newObjInfo(sz, std::max<uint64_t>(16, g->getAlign() ? g->getAlign()->value() : 16), g->hasInitializer() ? OK::GLOBAL : OK::EXT, g->getName().str());
	g_objs[id].gv = const_cast<GlobalVariable*>(g); g_objs[id].ro = g->isConstant() && g->hasInitializer();
	g_globalId[gv] = id;
	return g_objs[id].addr;
}
static ObjP initialGlobal(uint32_t id) {
	auto it = g_base.find(id); if (it != g_base.end()) return it->second;
	ObjP o = std::make_shared<Obj>(); o->live = mkTrue();
	GlobalVariable* g = g_objs[id].gv;
	if (g && g->hasInitializer()) {
		const Constant* init = g->getInitializer();
		if (init->isNullValue()) o->fill = mkConst(0, 8); else initGlobal(*o, 0, init);
	} else o->fill = mkConst(0, 8);
	g_base[id] = o; return o;
}
static Val aggVal(std::vector<Val> v) { Val r; r.agg = std::make_shared<std::vector<Val>>(std::move(v)); return r; }
static Val zeroVal(Type* t) {
	if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (auto* e : st->elements()) v.push_back(zeroVal(e)); return aggVal(v); }
	if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(zeroVal(at->getElementType())); return aggVal(v); }
	unsigned w = tyw(t); if (!w || w > 64) { if (w > 64) { Val r; r.e = mkConst(0, 64); return r; } std::string s; raw_string_ostream os(s); t->print(os); unsup("type " + s); }
	Val r; r.e = mkConst(0, w); return r;
}
static Val constVal(const Constant* c) {
	Val r;
	if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) unsup("wide integer"); r.e = mkConst(ci->getValue().getZExtValue(), 64); return r; } r.e = mkConst(ci->getZExtValue(), ci->getBitWidth()); return r; }
	if (isa<ConstantPointerNull>(c)) { r.e = mkConst(0, 64); return r; }
	if (auto* cf = dyn_cast<ConstantFP>(c)) { if (!tyw(c->getType())) unsup("long double constant"); r.e = mkConst(cf->getValueAPF().bitcastToAPInt().getZExtValue(), tyw(c->getType())); return r; }
	if (isa<UndefValue>(c)) return zeroVal(c->getType());
	if (auto* gv = dyn_cast<GlobalValue>(c)) { r.e = mkConst(globalAddr(gv), 64); return r; }
	if (isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
	if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c)) {
		std::vector<Val> v; unsigned n = isa<StructType>(c->getType()) ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
		return aggVal(v);
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsup("constant GEP");
			r.e = mkBin(Op::ADD, constVal(ce->getOperand(0)).e, mkConst(off.getSExtValue(), 64)); return r; }
		case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
		case Instruction::PtrToInt: case Instruction::IntToPtr: { E e = constVal(ce->getOperand(0)).e; unsigned w = tyw(ce->getType()); r.e = w < e->w ? mkExtract(e, 0, w) : mkZext(e, w); return r; }
		case Instruction::Add: r.e = mkBin(Op::ADD, constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e); return r;
		case Instruction::Sub: r.e = mkBin(Op::SUB, constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e); return r;
		case Instruction::Trunc: r.e = mkExtract(constVal(ce->getOperand(0)).e, 0, tyw(ce->getType())); return r;
		default: break;
		}
	}
	std::string s; raw_string_ostream os(s); c->print(os); unsup("constant " + s);
}

// ------------------------------------------------------------------ function translation
static std::map<const Function*, std::unique_ptr<Fn>> g_fns;
static Fn* getFn(Function* F) {
	auto& p = g_fns[F]; if (p) return p.get();
	p = std::make_unique<Fn>(); Fn* fn = p.get(); fn->F = F; fn->nounwind = F->doesNotThrow();
	fn->rt = F->getName().starts_with("vpx_") || F->getName().starts_with("vp_asm_") || F->getName().starts_with("vpe_") || F->getName().starts_with("rt_");
	std::map<const Value*, int> reg; std::map<const BasicBlock*, int> bbid;
	for (auto& a : F->args()) reg[&a] = fn->nregs++;
	fn->nargs = fn->nregs;
	int nb = 0, pc = 0;
	for (auto& bb : *F) { bbid[&bb] = nb++; fn->bbStart.push_back(pc); for (auto& i : bb) { if (isa<DbgInfoIntrinsic>(i)) continue; if (!i.getType()->isVoidTy()) reg[&i] = fn->nregs++; pc++; } }
	auto operand = [&](const Value* v) -> Operand {
		Operand o; auto it = reg.find(v);
		if (it != reg.end()) { o.reg = it->second; return o; }
		if (auto* c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; }
		if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
		unsup("operand");
	};
	for (auto& bb : *F) for (auto& i : bb) {
		if (isa<DbgInfoIntrinsic>(i)) continue;
		Inst in; in.I = &i; in.opc = i.getOpcode(); in.bb = bbid[&bb];
		if (!i.getType()->isVoidTy()) { in.dst = reg[&i]; in.w = tyw(i.getType()); }
		if (auto* phi = dyn_cast<PHINode>(&i)) { for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) in.phi.push_back({bbid[phi->getIncomingBlock(k)], operand(phi->getIncomingValue(k))}); }
		else if (auto* br = dyn_cast<BranchInst>(&i)) { if (br->isConditional()) in.ops.push_back(operand(br->getCondition())); for (unsigned k = 0; k < br->getNumSuccessors(); k++) in.succ.push_back(bbid[br->getSuccessor(k)]); }
		else if (auto* sw = dyn_cast<SwitchInst>(&i)) { in.ops.push_back(operand(sw->getCondition())); in.succ.push_back(bbid[sw->getDefaultDest()]); for (auto& cs : sw->cases()) { Operand o; o.c = constVal(cs.getCaseValue()); in.ops.push_back(o); in.succ.push_back(bbid[cs.getCaseSuccessor()]); } }
		else if (auto* cb = dyn_cast<CallBase>(&i)) {
			in.isCall = true; for (auto& a : cb->args()) in.ops.push_back(operand(a.get()));
			in.callee = cb->getCalledFunction(); if (!in.callee) { if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) in.callee = dyn_cast<Function>(ga->getAliaseeObject()); }
			if (!in.callee) { if (!cb->isInlineAsm()) in.ops.push_back(operand(cb->getCalledOperand())); }
			if (auto* inv = dyn_cast<InvokeInst>(&i)) { in.isInvoke = true; in.succ.push_back(bbid[inv->getNormalDest()]); in.succ.push_back(bbid[inv->getUnwindDest()]); }
		} else if (auto* gep = dyn_cast<GetElementPtrInst>(&i)) {
			if (gep->getType()->isVectorTy()) unsup("vector gep");
			in.ops.push_back(operand(gep->getPointerOperand()));
			MapVector<Value*, APInt> var; APInt off(64, 0);
			if (!cast<GEPOperator>(gep)->collectOffset(*DL, 64, var, off)) unsup("gep");
			in.gepOff = off.getSExtValue();
			for (auto& v : var) { in.ops.push_back(operand(v.first)); in.gepVar.push_back({in.ops.size() - 1, v.second.getZExtValue()}); }
		} else { for (auto& op : i.operands()) in.ops.push_back(operand(op.get())); }
		if (auto* ld = dyn_cast<LoadInst>(&i)) in.len = DL->getTypeStoreSize(ld->getType());
		if (auto* st = dyn_cast<StoreInst>(&i)) { in.len = DL->getTypeStoreSize(st->getValueOperand()->getType()); in.w = tyw(st->getValueOperand()->getType()); }
		if (auto* rm = dyn_cast<AtomicRMWInst>(&i)) in.len = DL->getTypeStoreSize(rm->getType());
		if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&i)) in.len = DL->getTypeStoreSize(cx->getCompareOperand()->getType());
		fn->code.push_back(std::move(in));
	}
	return fn;
}
// liveness: registers live before instruction pc
static void computeLive(Fn* fn) {
	unsigned W = (fn->nregs + 63) / 64, nb = fn->bbStart.size();
	auto bbEnd = [&](unsigned b) { return b + 1 < nb ? fn->bbStart[b + 1] : (int)fn->code.size(); };
	std::vector<std::vector<uint64_t>> in(nb, std::vector<uint64_t>(W, 0)), out = in;
	auto succs = [&](unsigned b) -> std::vector<int>& { return fn->code[bbEnd(b) - 1].succ; };
	bool ch = true;
	auto set = [&](std::vector<uint64_t>& v, int r) { v[r / 64] |= 1ull << (r % 64); };
	auto clr = [&](std::vector<uint64_t>& v, int r) { v[r / 64] &= ~(1ull << (r % 64)); };
	while (ch) {
		ch = false;
		for (int b = nb - 1; b >= 0; b--) {
			std::vector<uint64_t> o(W, 0);
			for (int s : succs(b)) {
				std::vector<uint64_t> t = in[s];
				for (int pc = fn->bbStart[s]; pc < bbEnd(s) && fn->code[pc].opc == Instruction::PHI; pc++)
					for (auto& p : fn->code[pc].phi) if (p.first == b && p.second.reg >= 0) set(t, p.second.reg);
				for (unsigned k = 0; k < W; k++) o[k] |= t[k];
			}
			out[b] = o; std::vector<uint64_t> l = o;
			for (int pc = bbEnd(b) - 1; pc >= fn->bbStart[b]; pc--) { Inst& x = fn->code[pc]; if (x.dst >= 0) clr(l, x.dst); if (x.opc != Instruction::PHI) for (auto& op : x.ops) if (op.reg >= 0) set(l, op.reg); }
			if (l != in[b]) { in[b] = l; ch = true; }
		}
	}
	fn->bbLiveOut = out; fn->liveIn.resize(fn->code.size()); fn->liveDone = true;
}
static const std::vector<uint64_t>& liveAt(Fn* fn, int pc, bool afterDef) { // live before pc (afterDef: as seen while a call at pc is in progress)
	if (!fn->liveDone) computeLive(fn);
	if (!fn->liveIn[pc].empty()) return fn->liveIn[pc];
	unsigned b = fn->code[pc].bb; int end = b + 1 < fn->bbStart.size() ? fn->bbStart[b + 1] : fn->code.size();
	std::vector<uint64_t> l = fn->bbLiveOut[b];
	for (int i = end - 1; i >= fn->bbStart[b]; i--) {
		Inst& x = fn->code[i]; if (x.dst >= 0) l[x.dst / 64] &= ~(1ull << (x.dst % 64));
		if (x.opc != Instruction::PHI) for (auto& op : x.ops) if (op.reg >= 0) l[op.reg / 64] |= 1ull << (op.reg % 64);
		fn->liveIn[i] = l;
	}
	return fn->liveIn[pc];
}

// ------------------------------------------------------------------ memory cells
static E cellBytes(Obj& o, uint32_t id, uint32_t off, uint32_t len);
static void storeCell(Obj& o, uint32_t off, uint32_t len, E e) {
	auto& c = o.cells;
	auto it = std::lower_bound(c.begin(), c.end(), off, [](const Cell& x, uint32_t v) { return x.off + x.len <= v; });
	if (it == c.end() || it->off >= off + len) { c.insert(it, {off, len, e}); return; }
	if (it->off == off && it->len == len) { it->e = e; return; }
	auto last = it; std::vector<Cell> repl;
	while (last != c.end() && last->off < off + len) {
		if (last->off < off) { uint32_t n = off - last->off; for (uint32_t i = 0; i < n;) { uint32_t q = 1; repl.push_back({last->off + i, q, mkExtract(last->e, i * 8, q * 8)}); i += q; } }
		if (last == it || true) {}
		++last;
	}
	repl.push_back({off, len, e});
	for (auto j = it; j != last; ++j) if (j->off + j->len > off + len) for (uint32_t b = off + len; b < j->off + j->len; b++) repl.push_back({b, 1, mkExtract(j->e, (b - j->off) * 8, 8)});
	it = c.erase(it, last); c.insert(it, repl.begin(), repl.end());
}
static E loadCell(Obj& o, uint32_t id, uint32_t off, uint32_t len, bool& mut) {
	auto& c = o.cells;
	auto it = std::lower_bound(c.begin(), c.end(), off, [](const Cell& x, uint32_t v) { return x.off + x.len <= v; });
	if (it != c.end() && it->off == off && it->len == len) return it->e;
	if (it != c.end() && it->off <= off && it->off + it->len >= off + len) return mkExtract(it->e, (off - it->off) * 8, len * 8);
	if (it == c.end() || it->off >= off + len) {
		if (o.fill) { E e = o.fill; for (uint32_t i = 1; i < len; i++) e = mkConcat(o.fill, e); return e; }
		mut = true; return mkVar("u." + std::to_string(id) + "." + std::to_string(off) + "." + std::to_string(len), len * 8);
	}
	E r = nullptr;
	for (uint32_t i = 0; i < len; i++) {
		uint32_t b = off + i; while (it != c.end() && it->off + it->len <= b) ++it;
		E x;
		if (it != c.end() && it->off <= b) x = mkExtract(it->e, (b - it->off) * 8, 8);
		else if (o.fill) x = o.fill;
		else { mut = true; x = mkVar("u." + std::to_string(id) + "." + std::to_string(b) + ".1", 8); }
		r = r ? mkConcat(x, r) : x;
	}
	return r;
}
static Obj& objMut(State& s, uint32_t id) { ObjP& p = s.mem.slot(id); if (!p) p = std::make_shared<Obj>(*initialGlobal(id)); else if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
static Obj* objGet(State& s, uint32_t id) {
	const ObjP* p = s.mem.get(id); if (p) return p->get();
	OK k = g_objs[id].kind; if (k == OK::GLOBAL || k == OK::EXT) return initialGlobal(id).get();
	return nullptr;
}

// ------------------------------------------------------------------ path conditions
static void assumeLit(State& s, E c, int v) {
	if (c->isConst()) return;
	if (c->op == Op::NOT) { assumeLit(s, c->a, !v); return; }
	s.lits[c->id] = v;
	if (c->w == 1 && ((c->op == Op::AND && v) || (c->op == Op::OR && !v))) { assumeLit(s, c->a, v); assumeLit(s, c->b, v); }
	if (v && c->op == Op::EQ && c->b->isConst()) s.pinned[c->a->id] = c->b->k;
	if (v && c->op == Op::EQ && c->b->isConst() && c->a->nl) for (auto& p : leavesOf(c->a)) if (!p.second->isConst()) s.lits[p.second->id] = p.first == c->b->k;
}
static int litEval(State& s, E c, int d = 5) {
	if (c->isConst()) return c->k;
	auto it = s.lits.find(c->id); if (it != s.lits.end()) return it->second;
	if (c->op == Op::NOT) { int r = litEval(s, c->a, d); return r < 0 ? r : !r; }
	if (!d) return -1;
	if (c->w == 1 && (c->op == Op::AND || c->op == Op::OR)) {
		int z = c->op == Op::OR; int x = litEval(s, c->a, d - 1); if (x == z) return z; int y = litEval(s, c->b, d - 1); if (y == z) return z; if (x >= 0 && y >= 0) return !z; return -1;
	}
	if (c->op == Op::EQ && c->b->isConst()) { auto p = s.pinned.find(c->a->id); if (p != s.pinned.end()) return p->second == c->b->k; }
	return -1;
}
static void addConj(State& s, E c) {
	if (c->isTrue()) return;
	if (c->w == 1 && c->op == Op::AND) { addConj(s, c->a); addConj(s, c->b); return; }
	for (E x : s.conj) if (x == c) return;
	s.conj.push_back(c); s.guard = mkAnd(s.guard, c);
}
static bool excludes(E p, E q) { // p and q cannot both hold (syntactically)
	if ((p->op == Op::NOT && p->a == q) || (q->op == Op::NOT && q->a == p)) return true;
	return p->op == Op::EQ && q->op == Op::EQ && p->a == q->a && p->b->isConst() && q->b->isConst() && p->b != q->b;
}
static void assumeC(State& s, E c) { addConj(s, c); assumeLit(s, c, 1); }
// is guard && c satisfiable? *m gets a model when it is
// changing the state's model in the only variable of c may already satisfy guard && c
static bool localModel(State& s, E c, std::shared_ptr<Model>* m) {
	E v = nullptr; std::vector<E> st{c}; std::set<E> seen; std::set<uint64_t> cand;
	while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (seen.size() > 200) return false; if (e->op == Op::VAR) { if (v && v != e) return false; v = e; } if (e->isConst()) { cand.insert(e->k); cand.insert(e->k + 1); cand.insert(e->k - 1); } for (E x : {e->a, e->b, e->c}) if (x) st.push_back(x); }
	if (!v) return false; if (v->w <= 8) { cand.clear(); for (unsigned i = 0; i < 1u << v->w; i++) cand.insert(i); } else { cand.insert(0); cand.insert(~0ull); }
	auto f = std::make_shared<Model>(*s.model); if (f->size() <= v->k) f->resize(v->k + 1, 0); int tries = 8;
	for (uint64_t k : cand) { (*f)[v->k] = k & maskw(v->w); if (!evalModel(c, *f)) continue; if (evalModel(s.guard, *f)) { if (m) *m = f; return true; } if (!--tries) break; }
	return false;
}
static bool feasible(State& s, E c, std::shared_ptr<Model>* m) {
	int l = litEval(s, c); if (l == 0) { return false; }
	if (l == 1) { if (m) *m = s.model; return true; }
	if (evalModel(c, *s.model)) { g_sstats.bymodel++; if (m) *m = s.model; return true; }
	if (localModel(s, c, m)) { g_sstats.bymodel++; return true; }
	Model mm; int r = solverCheck(s.guard, c, &mm);
	if (r < 0) { g_inconclusive = true; g_incWhy = "solver answered unknown"; throw StopRun{}; }
	if (r == 0) { s.lits[c->op == Op::NOT ? c->a->id : c->id] = c->op == Op::NOT ? 1 : 0; return false; }
	if (m) *m = std::make_shared<Model>(std::move(mm));
	return true;
}
static std::vector<StateP> g_work;
static StateP cloneState(State& s) { G.forks++; return std::make_shared<State>(s); }
// concretise e: afterwards the state has a single value; other feasible values go to the work list
static uint64_t conc(State& s, E e) {
	if (e->isConst()) return e->k;
	auto pi = s.pinned.find(e->id); if (pi != s.pinned.end()) return pi->second;
	uint64_t v0 = evalModel(e, *s.model);
	if (e->nl) {
		Leaves rest; E g0 = nullptr;
		for (auto& p : leavesOf(e)) { if (p.first == v0) { g0 = p.second; continue; } int l = litEval(s, p.second); if (l != 0) rest.push_back(p); }
		bool any = false;
		for (auto& p : rest) { std::shared_ptr<Model> m; if (feasible(s, p.second, &m)) { any = true; StateP c = cloneState(s); assumeC(*c, p.second); c->model = m; c->pinned[e->id] = p.first; for (auto& q : leavesOf(e)) if (q.first != p.first && !q.second->isConst()) c->lits[q.second->id] = 0; g_work.push_back(c); } }
		if (any) addConj(s, g0);
		assumeLit(s, g0, 1); for (auto& q : leavesOf(e)) if (q.first != v0 && !q.second->isConst()) s.lits[q.second->id] = 0;
		s.pinned[e->id] = v0; return v0;
	}
	E others = mkTrue(); int n = 0; E c0 = mkEq(e, mkConst(v0, e->w)); others = mkNot(c0); bool any = false;
	while (true) {
		std::shared_ptr<Model> m; if (!feasible(s, others, &m)) break;
		uint64_t v = evalModel(e, *m); E c = mkEq(e, mkConst(v, e->w)); any = true;
		StateP q = cloneState(s); assumeC(*q, c); q->model = m; q->pinned[e->id] = v; g_work.push_back(q);
		others = mkAnd(others, mkNot(c)); if (++n > 300) { g_incomplete = "more than 300 values for a symbolic address/size"; break; } // the values found are explored: an invalid one among them is a violation
	}
	if (any) addConj(s, c0); assumeLit(s, c0, 1); s.pinned[e->id] = v0; return v0;
}
// branch: returns the side this state takes; a clone for the other side goes to the work list
static bool branchOn(State& s, E c) {
	if (c->isConst()) return c->k;
	int l = litEval(s, c); if (l >= 0) return l;
	bool v = evalModel(c, *s.model); E mine = v ? c : mkNot(c), oth = v ? mkNot(c) : c;
	std::shared_ptr<Model> m;
	if (feasible(s, oth, &m)) { StateP q = cloneState(s); assumeC(*q, oth); q->model = m; g_work.push_back(q); assumeC(s, mine); }
	else assumeLit(s, mine, 1);
	return v;
}
static E simp(State& s, E e) { // drop leaves known to be impossible here
	if (e->isConst()) return e;
	auto pi = s.pinned.find(e->id); if (pi != s.pinned.end()) return mkConst(pi->second, e->w);
	if (e->w == 1) { int l = litEval(s, e); return l >= 0 ? mkBool(l) : e; }
	if (!e->nl || (s.lits.empty())) return e;
	Leaves out; bool ch = false; for (auto& p : leavesOf(e)) { int l = litEval(s, p.second); if (l == 1) return mkConst(p.first, e->w); if (l == 0) ch = true; else out.push_back(p); }
	if (!ch) return e; if (out.size() == 1) return mkConst(out[0].first, e->w); return fromLeaves(out, e->w);
}

// ------------------------------------------------------------------ reporting
static std::string locOf(const Instruction* I) {
	std::string r; if (const DebugLoc& d = I->getDebugLoc()) { auto* sc = cast<DIScope>(d.getScope()); std::string f = sc->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); r = f + ":" + std::to_string(d.getLine()); }
	return r;
}
static std::string fnName(Fn* f) { std::string n = demangle(f->F->getName().str()); if (n.size() > 140) n = n.substr(0, 137) + "..."; return n; }
static std::vector<std::string> stackOf(State& s, int t) { std::vector<std::string> v; auto& st = s.th[t].stack; for (int i = (int)st.size() - 1; i >= 0 && v.size() < 12; i--) { Frame& f = *st[i]; v.push_back(fnName(f.fn) + " " + (f.pc < (int)f.fn->code.size() ? locOf(f.fn->code[f.pc].I) : "")); } return v; }
// accounting for the closing query: every valid choice of schedule and inputs must be covered by an explored end state
// Discharged state by state: (state guard and valid choice) implies the disjunction of what its successors (before merging) assume. Merging is an exact disjunction, so the
// steps chain to: every valid schedule and input leads to an explored end state.
static std::vector<std::vector<E>> g_ends; static int g_closed = -1; static double g_closeS = 0; static uint64_t g_closeN = 0, g_closeSyn = 0;
static Model g_sample; static uint64_t g_rng = 88172645463325252ull; // one end state's solution, replayed natively
// Race conditions are refuted many at a time; if one of a batch is satisfiable, the run starts over and asks one by one.
static bool g_preciseRaces = false; static std::vector<E> g_raceQ;
static void flushRaces() {
	if (g_raceQ.empty()) return; E any = mkFalse(); for (E e : g_raceQ) any = mkOr(any, e); g_raceQ.clear(); if (g_Pgrew) return;
	int r = solverCheck(any, mkTrue(), nullptr); if (r < 0) { g_inconclusive = true; g_incWhy = "solver answered unknown"; throw StopRun{}; }
	if (r == 1) { g_preciseRaces = true; throw Restart{}; }
}
static void flushPend(State& s) { if (s.pend.empty()) return; E any = mkFalse(); for (E e : s.pend) any = mkOr(any, e); s.pend.clear(); g_raceQ.push_back(mkAnd(s.guard, any)); static unsigned lim = getenv("VP_RB") ? atoi(getenv("VP_RB")) : 1; if (g_raceQ.size() >= lim) flushRaces(); }
static void cover(State& s, E extra = nullptr) { flushPend(s); if (g_concrete) return; g_ends.push_back(s.conj); if (extra) g_ends.back().push_back(extra); }
static void closeStep(const std::vector<E>& conj, E guard, E valid) {
	if (g_concrete || !g_viol.empty()) { g_ends.clear(); return; }
	std::unordered_set<E> base(conj.begin(), conj.end()); E any = mkFalse();
	for (auto& e : g_ends) { E x = mkTrue(); for (E q : e) if (!base.count(q)) x = mkAnd(x, q); any = mkOr(any, x); }
	g_ends.clear(); g_closeN++; double t1 = elapsed(); E miss = mkAnd(valid, mkNot(any));
	if (miss->isFalse()) { g_closeSyn++; return; }
	int r = solverCheck(miss, mkTrue(), nullptr); if (r != 0) r = solverCheck(guard, miss, nullptr);
	g_closeS += elapsed() - t1; if (r > g_closed) g_closed = r; if (r < 0) g_closed = -2;
	if (r == 1) { g_inconclusive = true; g_incWhy = "closing query: a valid schedule is not covered by the explored states (engine defect)"; throw StopRun{}; }
}
static void collectTrace(State& s, bool all) { g_trace = s.trace; g_obs = s.obs; g_inputs = s.inputs; g_parks.clear(); for (unsigned t = 0; t < s.th.size(); t++) if (!s.th[t].finished && !s.th[t].fresh && (all || (int)t != s.cur)) g_parks.push_back({(int)t, s.th[t].ops}); }
// records a violation if guard && cond is satisfiable; returns true if the state can go on
static bool failIf(State& s, E cond, const std::string& kind, const std::string& msg, bool deferred = false) {
	G.obligations++;
	if (cond->isFalse()) { g_sstats.syntactic++; return true; }
	std::shared_ptr<Model> m;
	if (deferred && g_Pgrew && !g_concrete) return true; // this run is repeated
	if (deferred && !g_preciseRaces && !g_concrete) {
		if (litEval(s, cond) == 0) return true;
		if (evalModel(cond, *s.model)) { g_preciseRaces = true; throw Restart{}; }
		for (E e : s.pend) if (e == cond) return true;
		s.pend.push_back(cond); return true;
	}
	if (!feasible(s, cond, &m)) return true;
	Violation v; v.kind = kind; v.msg = msg; v.model = *m; v.stack = stackOf(s, s.cur);
	auto& st = s.th[s.cur].stack; if (!st.empty()) { Frame& f = *st.back(); v.where = locOf(f.fn->code[f.pc].I); }
	v.sched.push_back("thread " + std::to_string(s.cur));
	if (deferred && g_viol.size() > 0) return true;
	g_viol.push_back(v);
	if (g_concrete) collectTrace(s, false);
	if (deferred) { g_deferred = true; if (!g_concrete) return true; }
	throw StopRun{};
}

// ------------------------------------------------------------------ happens-before
static E clk0() { static E z = mkConst(0, 12); return z; }
static E emax(E a, E b) { if (a == b || b == clk0()) return a; if (a == clk0()) return b; return mkIte(mkBin(Op::ULT, a, b), b, a); }
static void vcJoin(VC& a, const VC& b) { for (unsigned i = 0; i < MAXT; i++) a[i] = emax(a[i], b[i]); }
static void vcTick(State& s, int t) { E& c = s.th[t].vc[t]; c = mkBin(Op::ADD, c, mkConst(1, 12)); }
static E notBefore(State& s, int t, int u, E clk) { if (u == t) return mkFalse(); return mkBin(Op::ULT, s.th[t].vc[u], clk); }
static E epochConflict(State& s, int t, E w) { // w: (tid<<12 | clk), 16 bits; 0 = none
	if (!w) return mkFalse();
	E r = mkFalse();
	if (w->isConst()) { if (!w->k) return r; int u = w->k >> 12; return notBefore(s, t, u, mkConst(w->k & 0xfff, 12)); }
	if (w->nl) { for (auto& p : leavesOf(w)) { if (!p.first) continue; int u = p.first >> 12; if (u == t) continue; if (litEval(s, p.second) == 0) continue; E c = notBefore(s, t, u, mkConst(p.first & 0xfff, 12)); if (!c->isFalse()) r = mkOr(r, mkAnd(p.second, c)); } return r; }
	E clk = mkExtract(w, 0, 12), tid = mkExtract(w, 12, 4);
	for (unsigned u = 0; u < s.th.size(); u++) if ((int)u != t) r = mkOr(r, mkAnd(mkEq(tid, mkConst(u, 4)), notBefore(s, t, u, clk)));
	return mkAnd(r, mkNot(mkEq(w, mkConst(0, 16))));
}
static E mapConflict(State& s, int t, const std::vector<std::pair<uint8_t, E>>& v) { E r = mkFalse(); for (auto& p : v) if (p.first != t) r = mkOr(r, notBefore(s, t, p.first, p.second)); return r; }
static void mapSet(std::vector<std::pair<uint8_t, E>>& v, int t, E c) { for (auto& p : v) if (p.first == t) { p.second = c; return; } v.push_back({(uint8_t)t, c}); }
enum Acc { PR, PW, AR, AW };
static std::vector<ShRun>::iterator shSplit(std::vector<ShRun>& v, uint32_t at) { // ensure a boundary at `at`, return first run with off >= at
	auto it = std::lower_bound(v.begin(), v.end(), at, [](const ShRun& x, uint32_t a) { return x.off + x.len <= a; });
	if (it != v.end() && it->off < at) { ShRun r{at, it->off + it->len - at, it->sh}; it->len = at - it->off; it = v.insert(it + 1, r); }
	return it;
}
static void addP(uint64_t addr) { if (g_P.insert(addr).second) { if (!g_Pgrew) g_PgrewAt = elapsed(); g_Pgrew = true; if (O.verbose) { int o = findObj(addr); fprintf(stderr, "  P += %s+%lld\n", o >= 0 ? g_objs[o].desc.c_str() : "?", o >= 0 ? (long long)(addr - g_objs[o].addr) : 0); } } }
static void access(State& s, uint32_t id, uint32_t off, uint32_t len, Acc kind, bool inP = false) {
	if (!O.races) return;
	ObjInfo& oi = g_objs[id]; if (oi.ro || oi.kind == OK::FUNC || len == 0) return;
	int t = s.cur; Thread& th = s.th[t];
	if (s.th.size() == 1 && oi.kind == OK::STACK) return; // single-threaded phase: ordered before every later thread
	G.accesses++;
	// fast path: exact run already carrying exactly this access
	{ Obj* o = objGet(s, id); if (!o) return;
	  auto& v = o->shadow; auto it = std::lower_bound(v.begin(), v.end(), off, [](const ShRun& x, uint32_t a) { return x.off + x.len <= a; });
	  if (it != v.end() && it->off <= off && it->off + it->len >= off + len) { Shadow& h = *it->sh; E me = mkConst(((uint64_t)t << 12), 16); (void)me; E my = th.vc[t];
		if (my->isConst()) { uint64_t ep = ((uint64_t)t << 12) | my->k;
		  if (kind == PW && h.w && h.w->isConst() && h.w->k == ep && h.r.empty() && h.aw.empty() && h.ar.empty()) return;
		  if (kind == PR && h.aw.empty()) { if (h.w && h.w->isConst() && h.w->k == ep) return; for (auto& p : h.r) if (p.first == t && p.second == my && (!h.w || (h.w->isConst() && (int)(h.w->k >> 12) == t))) return; } } } }
	Obj& o = objMut(s, id); auto& v = o.shadow;
	E my = th.vc[t]; E ep = mkConcat(mkConst(t, 4), my);
	shSplit(v, off + len); auto it = shSplit(v, off); size_t i = it - v.begin();
	uint32_t pos = off; std::map<Shadow*, ShadowP> memo; std::vector<Shadow*> checked;
	auto upd = [&](ShadowP old) -> ShadowP {
		auto m = memo.find(old.get()); if (m != memo.end()) return m->second;
		ShadowP n = old ? std::make_shared<Shadow>(*old) : std::make_shared<Shadow>();
		if (old) {
			E race = mkFalse(), dep = mkFalse(); G.raceChecks++;
			switch (kind) {
			case PR: race = mkOr(epochConflict(s, t, old->w), mapConflict(s, t, old->aw)); break;
			case PW: race = mkOr(mkOr(epochConflict(s, t, old->w), mapConflict(s, t, old->r)), mkOr(mapConflict(s, t, old->aw), mapConflict(s, t, old->ar))); break;
			case AR: race = epochConflict(s, t, old->w); dep = mapConflict(s, t, old->aw); break;
			case AW: race = mkOr(epochConflict(s, t, old->w), mapConflict(s, t, old->r)); dep = mkOr(mapConflict(s, t, old->aw), mapConflict(s, t, old->ar)); break;
			}
			if (!inP && !dep->isFalse() && (kind == AR || kind == AW)) addP(oi.addr + off);
			if (!race->isFalse()) {
				static const char* kn[] = {"read", "write", "atomic read", "atomic write"};
				failIf(s, race, "data-race", std::string(kn[kind]) + " of " + std::to_string(len) + " bytes at " + oi.desc + "+" + std::to_string(off) + " by thread " + std::to_string(t) + " is not ordered after a conflicting access by another thread", true);
			}
		}
		switch (kind) {
		case PR: mapSet(n->r, t, my); break;
		case PW: n->w = ep; n->r.clear(); n->aw.clear(); n->ar.clear(); break;
		case AR: mapSet(n->ar, t, my); break;
		case AW: mapSet(n->aw, t, my); break;
		}
		memo[old.get()] = n; return n;
	};
	while (pos < off + len) {
		if (i < v.size() && v[i].off == pos) { v[i].sh = upd(v[i].sh); pos += v[i].len; i++; }
		else { uint32_t e = i < v.size() ? std::min(v[i].off, off + len) : off + len; v.insert(v.begin() + i, ShRun{pos, e - pos, upd(nullptr)}); pos = e; i++; }
	}
	// join neighbouring runs that carry the same shadow
	if (v.size() > 1) { size_t w = 0; for (size_t k = 1; k < v.size(); k++) { if (v[k].sh == v[w].sh && v[w].off + v[w].len == v[k].off) v[w].len += v[k].len; else v[++w] = v[k]; } v.resize(w + 1); }
}
static std::shared_ptr<VC>* syncAt(Obj& o, uint32_t off) { for (auto& p : o.sync) if (p.first == off) return &p.second; return nullptr; }
static void hbAcquire(State& s, uint32_t id, uint32_t off) { Obj* o = objGet(s, id); if (!o) return; auto* p = syncAt(*o, off); if (p && *p) vcJoin(s.th[s.cur].vc, **p); }
static void hbRelease(State& s, uint32_t id, uint32_t off, bool join) {
	Obj& o = objMut(s, id); auto* p = syncAt(o, off); VC v = s.th[s.cur].vc;
	if (p && *p && join) vcJoin(v, **p);
	auto n = std::make_shared<VC>(v); if (p) *p = n; else o.sync.push_back({off, n});
	vcTick(s, s.cur);
}
// fences (only followed if the program has any): a relaxed load remembers the clock it could acquire, a relaxed store publishes the clock of the last release fence
static bool g_fences = false;
static void fenceLoad(State& s, uint32_t id, uint32_t off) { if (!g_fences) return; Obj* o = objGet(s, id); if (!o) return; auto* p = syncAt(*o, off); if (!p || !*p) return; Thread& t = s.th[s.cur]; auto n = t.facq ? std::make_shared<VC>(*t.facq) : std::make_shared<VC>(**p); if (t.facq) vcJoin(*n, **p); t.facq = n; }
static bool fenceStore(State& s, uint32_t id, uint32_t off, bool join) { if (!g_fences || !s.th[s.cur].frel) return false; Obj& o = objMut(s, id); auto* p = syncAt(o, off); VC v = *s.th[s.cur].frel; if (p && *p && join) vcJoin(v, **p); auto n = std::make_shared<VC>(v); if (p) *p = n; else o.sync.push_back({off, n}); return true; }
static void hbClear(State& s, uint32_t id, uint32_t off) { Obj* o = objGet(s, id); if (!o || !syncAt(*o, off)) return; Obj& m = objMut(s, id); *syncAt(m, off) = nullptr; }
// ------------------------------------------------------------------ allocation
static uint32_t allocObj(State& s, const std::string& key, uint64_t size, uint64_t align, OK kind, const std::string& desc) {
	uint32_t id; auto it = g_byKey.find(key);
	if (it != g_byKey.end()) id = it->second; else { id = newObjInfo(size, align, kind, desc); g_objs[id].tid = s.cur; g_byKey[key] = id; }
	ObjP o = std::make_shared<Obj>(); o->live = mkTrue(); o->tracked = kind == OK::HEAP && s.leakOn;
	s.mem.slot(id) = o; return id;
}
static uint64_t allocHeap(State& s, Inst& in, uint64_t size, uint64_t align) {
	Thread& th = s.th[s.cur]; 
	// name by call chain (two frames) so that naming does not depend on unrelated allocations
	const void* site = in.I; uint64_t h = (uint64_t)in.I; auto& st = th.stack; for (size_t i = 0; i < st.size() && i < 6; i++) { Frame& f = *st[st.size() - 1 - i]; h = h * 1000003 + (uint64_t)f.fn->code[f.pc].I; }
	uint32_t n = th.cnt[{site, size * 64 + align + h * 0}]++;
	if (n > 4096) unsup("more than 4096 allocations at one site");
	std::string where; for (size_t i = 0; i < st.size() && i < 8; i++) { Frame& f = *st[st.size() - 1 - i]; where = locOf(f.fn->code[f.pc].I); std::string fn = f.fn->F->getName().str(); if (!where.empty() && where.find("new_allocator") == std::string::npos && where.find("alloc_traits") == std::string::npos && where.find("allocator.h") == std::string::npos && where.find("stl_") == std::string::npos && !f.fn->rt) break; }
	char b[96]; snprintf(b, sizeof b, "h%d.%p.%llu.%llu.%u", s.cur, site, (unsigned long long)size, (unsigned long long)align, n);
	uint32_t id = allocObj(s, b, size, align, OK::HEAP, "heap#" + std::to_string(n) + "@" + where + "(" + std::to_string(size) + "B,t" + std::to_string(s.cur) + ")");
	access(s, id, 0, size, PW);
	return g_objs[id].addr;
}
static void freeHeap(State& s, uint64_t a, const char* fn) {
	if (!a) return;
	int id = findObj(a);
	if (id < 0 || g_objs[id].kind != OK::HEAP || g_objs[id].addr != a) { failIf(s, mkTrue(), "bad-free", std::string(fn) + " of an address that is not a heap block"); return; }
	Obj* o = objGet(s, id);
	if (!o) { failIf(s, mkTrue(), "double-free", std::string(fn) + " of " + g_objs[id].desc + " that was already freed"); return; }
	if (!o->live->isTrue()) { failIf(s, mkNot(o->live), "double-free", std::string(fn) + " of " + g_objs[id].desc + " that was already freed"); }
	access(s, id, 0, g_objs[id].size, PW);
	s.mem.slot(id) = nullptr;
}
// check that [a, a+len) is valid memory; returns object id
static int resolve(State& s, uint64_t a, uint64_t len, bool write, uint32_t& off) {
	int id = findObj(a);
	const char* rw = write ? "write" : "read";
	char ab[32]; snprintf(ab, 32, "0x%llx", (unsigned long long)a);
	if (id < 0) {
		auto it = g_byAddr.upper_bound(a); std::string near; if (it != g_byAddr.begin()) { --it; near = " (after " + g_objs[it->second].desc + ")"; if (a - g_objs[it->second].addr > g_objs[it->second].size + 4096) near = ""; }
		failIf(s, mkTrue(), a < 4096 ? "null-deref" : "out-of-bounds", std::string(rw) + " at " + ab + near); return -1;
	}
	off = a - g_objs[id].addr;
	Obj* o = objGet(s, id);
	if (!o) { failIf(s, mkTrue(), g_objs[id].kind == OK::STACK ? "use-after-scope" : "use-after-free", std::string(rw) + " of " + g_objs[id].desc + "+" + std::to_string(off) + " after its lifetime ended"); return -1; }
	if (!o->live->isTrue()) failIf(s, mkNot(o->live), g_objs[id].kind == OK::STACK ? "use-after-scope" : "use-after-free", std::string(rw) + " of " + g_objs[id].desc + "+" + std::to_string(off) + " after its lifetime ended");
	if (o->zapped) failIf(s, mkTrue(), "use-after-scope", std::string(rw) + " of " + g_objs[id].desc + " outside its scope");
	if (off + len > g_objs[id].size) { failIf(s, mkTrue(), "out-of-bounds", std::string(rw) + " of " + std::to_string(len) + " bytes at " + g_objs[id].desc + "+" + std::to_string(off) + " of size " + std::to_string(g_objs[id].size)); return -1; }
	if (write && g_objs[id].ro) { failIf(s, mkTrue(), "write-to-constant", g_objs[id].desc); return -1; }
	return id;
}
static E loadMem(State& s, uint64_t a, unsigned len, Acc k, bool raw, bool inP = false) {
	uint32_t off; int id = resolve(s, a, len, false, off); if (id < 0) throw StopRun{};
	if (!raw) access(s, id, off, len, k, inP);
	Obj* o = objGet(s, id); bool mut = false; E e = loadCell(*o, id, off, len, mut);
	if (mut) { Obj& m = objMut(s, id); storeCell(m, off, len, e); }
	return simp(s, e);
}
static void storeMem(State& s, uint64_t a, unsigned len, E e, Acc k, bool raw, bool inP = false) {
	uint32_t off; int id = resolve(s, a, len, true, off); if (id < 0) throw StopRun{};
	if (!raw) access(s, id, off, len, k, inP);
	storeCell(objMut(s, id), off, len, simp(s, e));
}

// ------------------------------------------------------------------ typed values in memory
static Val loadVal(State& s, uint64_t a, Type* t, bool raw) {
	if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadVal(s, a + sl->getElementOffset(i), st->getElementType(i), raw)); return aggVal(v); }
	if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); std::vector<Val> v; for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(loadVal(s, a + i * es, at->getElementType(), raw)); return aggVal(v); }
	unsigned w = tyw(t), len = DL->getTypeStoreSize(t); if (!w || w > 64) unsup("load of wide/vector type");
	E e = loadMem(s, a, len, PR, raw); if (e->w != w) e = mkExtract(e, 0, w); Val r; r.e = e; return r;
}
static void storeVal(State& s, uint64_t a, Type* t, const Val& v, bool raw) {
	if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(s, a + sl->getElementOffset(i), st->getElementType(i), (*v.agg)[i], raw); return; }
	if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) storeVal(s, a + i * es, at->getElementType(), (*v.agg)[i], raw); return; }
	unsigned w = tyw(t), len = DL->getTypeStoreSize(t); if (!w || w > 64) unsup("store of wide/vector type");
	storeMem(s, a, len, mkZext(v.e, len * 8), PW, raw);
}
static void copyMem(State& s, uint64_t d, uint64_t src, uint64_t n, bool raw) {
	if (!n) return;
	uint32_t so, dO; int si = resolve(s, src, n, false, so); int di = resolve(s, d, n, true, dO); if (si < 0 || di < 0) throw StopRun{};
	if (!raw) { access(s, si, so, n, PR); access(s, di, dO, n, PW); }
	Obj so_copy = *objGet(s, si); Obj& o = objMut(s, di);
	// copy cell-wise, keeping cell boundaries of the source
	std::vector<Cell> out; uint32_t p = so, end = so + n; auto& c = so_copy.cells;
	auto it = std::lower_bound(c.begin(), c.end(), p, [](const Cell& x, uint32_t v) { return x.off + x.len <= v; });
	while (p < end) {
		if (it != c.end() && it->off <= p) {
			uint32_t ce = std::min(end, it->off + it->len); 
			if (it->off == p && ce == it->off + it->len) out.push_back({p - so, it->len, it->e});
			else for (uint32_t b = p; b < ce; b++) out.push_back({b - so, 1, mkExtract(it->e, (b - it->off) * 8, 8)});
			p = ce; ++it;
		} else {
			uint32_t ge = it != c.end() ? std::min(end, it->off) : end;
			while (p < ge) { uint32_t l = std::min<uint32_t>(8, ge - p); if ((p & 7) && l > 8 - (p & 7)) l = 8 - (p & 7); bool mut = false; E e = loadCell(so_copy, si, p, l, mut); if (mut) { storeCell(objMut(s, si), p, l, e); } out.push_back({p - so, l, e}); p += l; }
		}
	}
	Obj& od = objMut(s, di); for (auto& q : out) storeCell(od, dO + q.off, q.len, q.e); (void)o;
}
static void setMem(State& s, uint64_t d, E byte, uint64_t n, bool raw) {
	if (!n) return; uint32_t dO; int di = resolve(s, d, n, true, dO); if (di < 0) throw StopRun{};
	if (!raw) access(s, di, dO, n, PW);
	Obj& o = objMut(s, di);
	if (dO == 0 && n == g_objs[di].size) { o.cells.clear(); o.fill = byte; return; }
	uint32_t p = dO, end = dO + n; while (p < end) { uint32_t l = std::min<uint32_t>(8 - (p & 7), end - p); E e = byte; for (uint32_t i = 1; i < l; i++) e = mkConcat(byte, e); storeCell(o, p, l, e); p += l; }
}
static std::string readStr(State& s, uint64_t a) { std::string r; for (int i = 0; i < 300; i++) { int id = findObj(a + i); if (id < 0) break; Obj* o = objGet(s, id); if (!o) break; uint32_t off = a + i - g_objs[id].addr; if (off >= g_objs[id].size) break; bool m; E e = loadCell(*o, id, off, 1, m); if (!e->isConst() || !e->k) break; r += (char)e->k; } return r; }

// ------------------------------------------------------------------ frames
static Frame& topMut(State& s) { FrameP& f = s.th[s.cur].stack.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }
static Frame& frameMut(State& s, int t, int i) { FrameP& f = s.th[t].stack[i]; if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }
static const Val& opv(Frame& f, const Operand& o) { if (o.reg >= 0) return f.regs[o.reg]; return o.c; }
static E ope(Frame& f, const Operand& o) { const Val& v = opv(f, o); if (!v.e) unsup("aggregate or dead operand in " + fnName(f.fn) + " " + locOf(f.fn->code[f.pc].I)); return v.e; }
static void pushFrame(State& s, Function* F, std::vector<Val> args, bool detached = false) {
	Fn* fn = getFn(F); if (fn->code.empty()) unsup("call of undefined function " + demangle(F->getName().str()));
	auto f = std::make_shared<Frame>(); f->fn = fn; f->regs.resize(fn->nregs); f->detached = detached;
	for (unsigned i = 0; i < args.size() && (int)i < fn->nargs; i++) f->regs[i] = args[i];
	s.th[s.cur].stack.push_back(f); g_used.insert(fn);
	if (s.th[s.cur].stack.size() > 400) { failIf(s, mkTrue(), "stack-overflow", "call depth exceeds 400 frames"); }
}
static void popFrame(State& s) {
	FrameP f = s.th[s.cur].stack.back();
	for (uint32_t id : f->allocas) {
		Obj* o = objGet(s, id);
		if (o && O.races) { bool foreign = false; for (auto& r : o->shadow) { for (auto* v : {&r.sh->r, &r.sh->aw, &r.sh->ar}) for (auto& p : *v) if (p.first != s.cur) foreign = true; if (r.sh->w && !(r.sh->w->isConst() && (int)(r.sh->w->k >> 12) == s.cur)) foreign = true; }
			if (foreign) access(s, id, 0, g_objs[id].size, PW); }
		s.mem.slot(id) = nullptr;
	}
	s.th[s.cur].stack.pop_back();
}
static void enterBlock(State& s, Frame& f, int from, int to) {
	Fn* fn = f.fn; int pc = fn->bbStart[to]; std::vector<std::pair<int, Val>> nv;
	while (fn->code[pc].opc == Instruction::PHI) { Inst& in = fn->code[pc]; bool ok = false; for (auto& p : in.phi) if (p.first == from) { nv.push_back({in.dst, opv(f, p.second)}); ok = true; break; } if (!ok) unsup("phi"); pc++; }
	for (auto& p : nv) f.regs[p.first] = p.second;
	f.pc = pc;
}
enum R { CONT, PARK, DEAD };
static R threadDone(State& s) {
	Thread& t = s.th[s.cur]; t.finished = true; t.yielded = false; return PARK;
}
static R doReturn(State& s, const Val& v) {
	bool det = s.th[s.cur].stack.back()->detached; popFrame(s);
	Thread& t = s.th[s.cur];
	if (t.stack.empty()) return threadDone(s);
	if (det) return CONT;
	Frame& f = topMut(s); Inst& in = f.fn->code[f.pc];
	if (in.dst >= 0) f.regs[in.dst] = v;
	if (in.isInvoke) enterBlock(s, f, in.bb, in.succ[0]); else f.pc++;
	return CONT;
}

// ------------------------------------------------------------------ exceptions
static const std::map<std::string, std::string> g_stdEx = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt12future_error", "_ZTISt11logic_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12bad_any_cast", "_ZTISt8bad_cast"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
static bool typeMatch(uint64_t want, uint64_t got, int d = 0) {
	if (want == 0 || want == got) return true; if (d > 6) return false;
	int id = findObj(got); if (id < 0 || !g_objs[id].gv) unsup("typeinfo");
	GlobalVariable* g = g_objs[id].gv;
	if (!g->hasInitializer()) { auto it = g_stdEx.find(g->getName().str()); if (it == g_stdEx.end()) return false; GlobalVariable* b = g_mod->getGlobalVariable(it->second, true); if (!b) { // walk by name
			std::string n = it->second; int wid = findObj(want); while (true) { if (wid >= 0 && g_objs[wid].desc == n) return true; auto j = g_stdEx.find(n); if (j == g_stdEx.end()) return false; n = j->second; } }
		return typeMatch(want, globalAddr(b), d + 1); }
	auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
	unsigned n = cs->getNumOperands();
	if (n == 2) return false;
	if (n == 3) { return typeMatch(want, constVal(cs->getOperand(2)).e->k, d + 1); }
	for (unsigned i = 4; i + 1 < n; i += 2) { if (typeMatch(want, constVal(cs->getOperand(i)).e->k, d + 1)) { if (constVal(cs->getOperand(i + 1)).e->k >> 8) unsup("catch by non-primary base"); return true; } }
	return false;
}
static std::map<uint64_t, int> g_sel; static int selOf(uint64_t ti) { auto it = g_sel.find(ti); if (it != g_sel.end()) return it->second; int n = g_sel.size() + 1; return g_sel[ti] = n; }
static R doTerminate(State& s, const std::string& why) {
	if (s.expectTerm) { s.terminated = true; for (auto& t : s.th) { t.stack.clear(); t.finished = true; } G.terminated++; return PARK; }
	failIf(s, mkTrue(), "terminate", "std::terminate called: " + why); return DEAD;
}
static R unwind(State& s, uint64_t exc) {
	Thread& t = s.th[s.cur];
	E tiE = loadMem(s, exc, 8, PR, true); uint64_t ti = conc(s, tiE);
	// phase 1
	int h = -1; 
	for (int i = (int)t.stack.size() - 1; i >= 0; i--) {
		Frame& f = *t.stack[i]; Inst& in = f.fn->code[f.pc];
		if (in.isInvoke) {
			auto* lp = cast<InvokeInst>(in.I)->getLandingPadInst();
			for (unsigned k = 0; k < lp->getNumClauses() && h < 0; k++) if (lp->isCatch(k)) { if (typeMatch(constVal(lp->getClause(k)).e->k, ti)) h = i; }
			if (h >= 0) break;
		}
		if (f.fn->nounwind) { return doTerminate(s, "exception leaves noexcept function " + fnName(f.fn)); }
		if (in.I && isa<CallBase>(in.I) && !in.isInvoke && cast<CallBase>(in.I)->doesNotThrow() && i != (int)t.stack.size() - 1) { return doTerminate(s, "exception leaves noexcept call in " + fnName(f.fn)); }
	}
	if (h < 0) return doTerminate(s, "uncaught exception");
	while (true) {
		Frame& f0 = *t.stack.back(); Inst& in = f0.fn->code[f0.pc];
		if (in.isInvoke) {
			auto* lp = cast<InvokeInst>(in.I)->getLandingPadInst(); int sel = 0; bool stop = lp->isCleanup();
			for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) { uint64_t c = constVal(lp->getClause(k)).e->k; if (typeMatch(c, ti)) { sel = selOf(c); stop = true; break; } }
			if (stop) { t.lpExc.e = mkConst(exc, 64); t.lpSel = sel; Frame& f = topMut(s); enterBlock(s, f, in.bb, in.succ[1]); return CONT; }
		}
		popFrame(s); if (t.stack.empty()) return doTerminate(s, "uncaught exception");
	}
}

// ------------------------------------------------------------------ threads and scheduling points
static bool isAtomic(const Inst& in) {
	if (in.opc == Instruction::Load) return cast<LoadInst>(in.I)->isAtomic();
	if (in.opc == Instruction::Store) return cast<StoreInst>(in.I)->isAtomic();
	return in.opc == Instruction::AtomicCmpXchg || in.opc == Instruction::AtomicRMW;
}
static int newThread(State& s, Function* F, std::vector<Val> args) {
	int t = s.th.size(); if (t >= (int)MAXT) unsup("too many threads");
	Thread n; n.fresh = true; n.vc = s.th[s.cur].vc; n.vc[t] = mkConst(1, 12); 
	s.th.push_back(n); g_maxThreads = std::max(g_maxThreads, s.th.size()); int c = s.cur; s.cur = t; pushFrame(s, F, args); s.cur = c; vcTick(s, c); return t;
}
static void traceOp(State& s, const std::string& what) { if (g_concrete) s.trace.push_back({s.cur, s.th[s.cur].ops, what}); }
// At a potential scheduling point on address a. Returns true if the thread has to park here first.
static bool mustPark(State& s, uint64_t a) {
	if (s.th[s.cur].atomicDepth) return false;
	if (s.force) return false;
	if (s.th.size() == 1) return false;
	return O.allVisible || g_P.count(a);
}
static void opDone(State& s, bool visible, const std::string& what, bool write = true) {
	if (visible) { s.force = false; traceOp(s, what); Thread& c = s.th[s.cur]; if (c.spin) c.spin |= 4;
		if (write) for (unsigned u = 0; u < s.th.size(); u++) if ((int)u != s.cur) { Thread& o = s.th[u]; o.yielded = false; if (o.spin) o.spin |= 2; } }
	s.th[s.cur].ops++; }

enum Prim { P_NONE = -1, P_NONDET = 1, P_ASSUME, P_CHECK, P_REACH, P_OBSERVE, P_SPAWN, P_JOIN, P_POINT, P_LEAKB, P_LEAKC, P_EXPTERM, P_SPUR, P_ATOMIC, P_CVSPUR, P_SELF,
	P_ENTER, P_ENTERIF, P_ENTERF, P_ENTERIF2, P_LEAVE, P_ACQ, P_REL, P_RAISE, P_TERM, P_ASSERTFAIL, P_NEW, P_NEWAL, P_DELETE, P_NOP, P_PAUSE, P_MALLOC, P_CALLOC, P_FREE, P_GLIBFAIL, P_TLSADDR, P_MEMCPY, P_MEMSET, P_NOP0, P_OVF, P_MINMAX, P_TYPEID, P_LIFES, P_LIFEE, P_TRAP, P_UNSUP, P_CTX, P_ABS, P_DYNCAST, P_THREADCOUNT, P_CVCHOICE, P_BITS, P_FAILEXT, P_STACKSAVE, P_SATMIN, P_EXPECT, P_FIBER, P_FRAMEADDR, P_OBJSIZE, P_ISCONST, P_DEFINED };
static const std::map<std::string, Prim> g_prims = {{"vp_nondet", P_NONDET}, {"vp_assume", P_ASSUME}, {"vp_check", P_CHECK}, {"vp_reach", P_REACH}, {"vp_observe", P_OBSERVE}, {"vp_spawn", P_SPAWN}, {"vp_join", P_JOIN}, {"vp_point", P_POINT}, {"vp_leak_begin", P_LEAKB}, {"vp_leak_check", P_LEAKC}, {"vp_expect_terminate", P_EXPTERM}, {"vp_spurious", P_SPUR}, {"vp_atomic", P_ATOMIC}, {"vp_cv_spurious", P_CVSPUR}, {"vp_self", P_SELF},
	{"__vp_enter", P_ENTER}, {"__vp_enter_free", P_ENTERF}, {"__vp_enter_if2", P_ENTERIF2}, {"__vp_enter_soft", P_ENTER}, {"__vp_enter_soft2", P_ENTERIF2}, {"__vp_enter_soft2z", P_ENTERIF2}, {"__vp_enter_if", P_ENTERIF}, {"__vp_leave", P_LEAVE}, {"__vp_acq", P_ACQ}, {"__vp_rel", P_REL}, {"__vp_raise", P_RAISE}, {"_ZSt9terminatev", P_TERM}, {"abort", P_TERM}, {"__assert_fail", P_ASSERTFAIL}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", P_GLIBFAIL},
	{"_Znwm", P_NEW}, {"_Znam", P_NEW}, {"_ZnwmRKSt9nothrow_t", P_NEW}, {"_ZnamRKSt9nothrow_t", P_NEW}, {"_ZdlPvRKSt9nothrow_t", P_DELETE}, {"_ZdaPvRKSt9nothrow_t", P_DELETE}, {"_ZnwmSt11align_val_t", P_NEWAL}, {"_ZnamSt11align_val_t", P_NEWAL}, {"malloc", P_MALLOC}, {"calloc", P_CALLOC}, {"free", P_FREE}, {"_ZdlPv", P_DELETE}, {"_ZdaPv", P_DELETE}, {"_ZdlPvm", P_DELETE}, {"_ZdaPvm", P_DELETE}, {"_ZdlPvSt11align_val_t", P_DELETE}, {"_ZdlPvmSt11align_val_t", P_DELETE}, {"_ZdaPvSt11align_val_t", P_DELETE},
	{"__cxa_atexit", P_NOP0}, {"__dynamic_cast", P_DYNCAST}, {"sched_yield", P_PAUSE}, {"memcpy", P_MEMCPY}, {"memmove", P_MEMCPY}, {"memset", P_MEMSET}, {"__vp_cv_budget", P_CVCHOICE}, {"__vp_fiber", P_FIBER}, {"__vp_defined", P_DEFINED}};
static Prim primOf(Function* F) {
	StringRef n = F->getName();
	auto it = g_prims.find(n.str()); if (it != g_prims.end()) return it->second;
	if (n.starts_with("llvm.")) {
		if (n.starts_with("llvm.lifetime.start")) return P_LIFES;
		if (n.starts_with("llvm.lifetime.end")) return P_LIFEE;
		if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) return P_MEMCPY;
		if (n.starts_with("llvm.memset")) return P_MEMSET;
		if (n.starts_with("llvm.threadlocal.address")) return P_TLSADDR;
		if (n.starts_with("llvm.eh.typeid.for")) return P_TYPEID;
		if (n.starts_with("llvm.trap")) return P_TRAP;
		if (n.starts_with("llvm.x86.sse2.pause")) return P_PAUSE;
		if (n.starts_with("llvm.expect") || n.starts_with("llvm.launder") || n.starts_with("llvm.strip")) return P_EXPECT;
		if (n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.stackrestore") || n.starts_with("llvm.donothing") || n.starts_with("llvm.coro.noop") || n.starts_with("llvm.pseudoprobe")) return P_NOP0;
		if (n.starts_with("llvm.stacksave")) return P_NOP0;
		if (n.starts_with("llvm.frameaddress")) return P_FRAMEADDR;
		if (n.starts_with("llvm.is.constant")) return P_ISCONST;
		if (n.starts_with("llvm.objectsize")) return P_OBJSIZE;
		if (n.contains(".with.overflow.")) return P_OVF;
		if (n.starts_with("llvm.umax") || n.starts_with("llvm.umin") || n.starts_with("llvm.smax") || n.starts_with("llvm.smin")) return P_MINMAX;
		if (n.starts_with("llvm.abs")) return P_ABS;
		if (n.starts_with("llvm.ctlz") || n.starts_with("llvm.cttz") || n.starts_with("llvm.ctpop")) return P_BITS;
		return P_UNSUP;
	}
	if (n.starts_with("_ZSt") && n.contains("__throw_")) return P_FAILEXT;
	return P_NONE;
}
static uint64_t tlsAddr(State& s, GlobalVariable* g) {
	char b[64]; snprintf(b, sizeof b, "tls%d.%p", s.cur, (void*)g); auto it = g_byKey.find(b); uint32_t id;
	if (it == g_byKey.end()) { id = newObjInfo(DL->getTypeAllocSize(g->getValueType()), 64, OK::TLS, g->getName().str() + "(t" + std::to_string(s.cur) + ")"); g_byKey[b] = id; } else id = it->second;
	if (!s.mem.get(id)) { ObjP o = std::make_shared<Obj>(); o->live = mkTrue(); if (g->hasInitializer()) { if (g->getInitializer()->isNullValue()) o->fill = mkConst(0, 8); else initGlobal(*o, 0, g->getInitializer()); } else o->fill = mkConst(0, 8); s.mem.slot(id) = o; }
	return g_objs[id].addr;
}
static std::string descAddr(uint64_t a) { int id = findObj(a); if (id < 0) return "?"; return g_objs[id].desc + "+" + std::to_string(a - g_objs[id].addr); }
static R execPrim(State& s, Frame& f, Inst& in, int prim, const std::string& name) {
	Thread& th = s.th[s.cur];
	auto arg = [&](unsigned i) { return ope(f, in.ops[i]); };
	auto done = [&](E r) { Frame& fr = topMut(s); if (in.dst >= 0) fr.regs[in.dst].e = r; if (in.isInvoke) enterBlock(s, fr, in.bb, in.succ[0]); else fr.pc++; return CONT; };
	bool raw = th.atomicDepth > 0;
	switch (prim) {
	case P_NONDET: {
		std::string nm = readStr(s, conc(s, arg(0))); unsigned bits = conc(s, arg(1));
		std::string vn = "in." + nm + ".t" + std::to_string(s.cur) + ".k" + std::to_string(g_layer) + "." + std::to_string(s.sliceSeq++);
		E v = mkVar(vn, bits);
		if (g_concrete) { v = mkConst(v->k < g_fixed.size() ? g_fixed[v->k] : 0, bits); s.inputs.push_back(std::to_string(s.cur) + " " + nm + " " + std::to_string(v->k)); }
		return done(mkZext(v, 64)); }
	case P_ASSUME: { E c = mkNot(mkEq(arg(0), mkConst(0, arg(0)->w))); if (c->isFalse()) { cover(s); return DEAD; } if (c->isTrue()) return done(nullptr); std::shared_ptr<Model> m; if (!feasible(s, c, &m)) { cover(s); return DEAD; } cover(s, mkNot(c)); s.model = m; assumeC(s, c); return done(nullptr); }
	case P_CHECK: { E bad = mkEq(arg(0), mkConst(0, arg(0)->w)); std::string what = readStr(s, conc(s, arg(1))); g_checks[what]++; failIf(s, bad, "property", what); if (!bad->isFalse()) assumeLit(s, bad, 0); return done(nullptr); }
	case P_REACH: g_reach[readStr(s, conc(s, arg(0)))]++; return done(nullptr);
	case P_OBSERVE: if (g_concrete) s.obs.push_back(readStr(s, conc(s, arg(0))) + " " + std::to_string(conc(s, arg(1)))); return done(nullptr);
	case P_SPAWN: { uint64_t fa = conc(s, arg(0)); int id = findObj(fa); if (id < 0 || !g_objs[id].fn) unsup("spawn target"); Val a; a.e = arg(1); opDone(s, false, ""); int t = newThread(s, g_objs[id].fn, {a}); return done(mkConst(t, 32)); }
	case P_JOIN: { uint64_t t = conc(s, arg(0)); if (t >= s.th.size()) unsup("join of unknown thread"); if (!s.th[t].finished) { return PARK; } vcJoin(th.vc, s.th[t].vc); opDone(s, true, "join", false); return done(nullptr); }
	case P_POINT: if (!s.force && !th.atomicDepth) return PARK; opDone(s, !th.atomicDepth, "point", false); return done(nullptr);
	case P_LEAKB: s.leakOn = true; return done(nullptr);
	case P_LEAKC: s.leakOn = false; for (auto& c : s.mem.c) if (c) for (unsigned i = 0; i < CH; i++) if (c->o[i] && c->o[i]->tracked) { uint32_t id = (&c - &s.mem.c[0]) * CH + i; failIf(s, c->o[i]->live, "leak", g_objs[id].desc + " is never freed"); } return done(nullptr);
	case P_EXPTERM: s.expectTerm = conc(s, arg(0)); return done(nullptr);
	case P_SPUR: s.spurBudget = conc(s, arg(0)); return done(nullptr);
	case P_CVSPUR: s.cvBudget = conc(s, arg(0)); return done(nullptr);
	case P_CVCHOICE: { int left = s.cvBudget - th.cvspur; if (left > 0) th.cvspur++; return done(mkConst(left > 0, 32)); }
	case P_ATOMIC: if (conc(s, arg(0))) th.atomicDepth++; else th.atomicDepth--; return done(nullptr);
	case P_SELF: return done(mkConst(s.cur, 32));
	case P_DEFINED: return done(mkConst(O.define.count(readStr(s, conc(s, arg(0)))), 32));
	case P_ENTER: {
		uint64_t a = conc(s, arg(0)); if (mustPark(s, a)) return PARK;
		bool inP = O.allVisible || g_P.count(a); uint32_t off; int id = resolve(s, a, 1, false, off); if (id < 0) return DEAD;
		if (!th.atomicDepth) { access(s, id, off, 1, AW, inP); }
		opDone(s, inP && s.th.size() > 1 && !th.atomicDepth, fnName(f.fn) + " " + descAddr(a)); th.atomicDepth++; return done(nullptr); }
	case P_ENTERIF: {
		uint64_t a = conc(s, arg(0)), p = conc(s, arg(1)); E mask = arg(2); bool nz = conc(s, arg(3));
		if (mustPark(s, a)) return PARK;
		bool inP = O.allVisible || g_P.count(a); uint32_t off; int id = resolve(s, a, 1, false, off); if (id < 0) return DEAD;
		E v = loadMem(s, p, 4, PR, true); E en = mkEq(mkBin(Op::AND, v, mask), mkConst(0, 32)); if (nz) en = mkNot(en);
		if (!s.force) { if (th.atomicDepth) unsup("blocking call inside an atomic section"); if (!branchOn(s, en)) { if (!O.allVisible) addP(a); return PARK; } }
		if (!th.atomicDepth) access(s, id, off, 1, AW, inP);
		opDone(s, s.force || (inP && s.th.size() > 1), fnName(f.fn) + " " + descAddr(a)); th.atomicDepth++; return done(nullptr); }
	case P_ENTERF: { // an operation that needs no scheduling point of its own
		uint64_t a = conc(s, arg(0)); bool inP = O.allVisible || g_P.count(a); uint32_t off; int id = resolve(s, a, 1, false, off); if (id < 0) return DEAD;
		if (!th.atomicDepth) { access(s, id, off, 1, AW, inP); if (inP && s.th.size() > 1) { if (th.spin) th.spin |= 4; for (unsigned u = 0; u < s.th.size(); u++) if ((int)u != s.cur) { Thread& o = s.th[u]; o.yielded = false; if (o.spin) o.spin |= 2; } } }
		s.th[s.cur].atomicDepth++; return done(nullptr); }
	case P_ENTERIF2: { // enabled while (*p & mask) != 0 and *q == 0
		uint64_t a = conc(s, arg(0)), p = conc(s, arg(1)); E mask = arg(2); uint64_t q = conc(s, arg(3));
		if (mustPark(s, a) || mustPark(s, q)) return PARK;
		uint32_t off, offq; int id = resolve(s, a, 1, false, off); if (id < 0) return DEAD; int idq = resolve(s, q, 1, false, offq); if (idq < 0) return DEAD;
		bool inP = O.allVisible || g_P.count(a), inQ = O.allVisible || g_P.count(q);
		E v = loadMem(s, p, 4, PR, true), w = loadMem(s, q, 4, PR, true); E en = mkAnd(mkNot(mkEq(mkBin(Op::AND, v, mask), mkConst(0, 32))), mkEq(w, mkConst(0, 32)));
		if (!s.force) { if (th.atomicDepth) unsup("blocking call inside an atomic section"); if (!branchOn(s, en)) { if (!O.allVisible) { addP(a); addP(q); } return PARK; } }
		if (!th.atomicDepth) { access(s, id, off, 1, AW, inP); access(s, idq, offq, 1, AW, inQ); }
		opDone(s, s.force || ((inP || inQ) && s.th.size() > 1), fnName(f.fn) + " " + descAddr(a)); th.atomicDepth++; return done(nullptr); }
	case P_LEAVE: th.atomicDepth--; return done(nullptr);
	case P_ACQ: { uint64_t a = conc(s, arg(0)); uint32_t off; int id = resolve(s, a, 1, false, off); hbAcquire(s, id, off); return done(nullptr); }
	case P_REL: { uint64_t a = conc(s, arg(0)); uint32_t off; int id = resolve(s, a, 1, false, off); hbRelease(s, id, off, true); return done(nullptr); }
	case P_RAISE: return unwind(s, conc(s, arg(0)));
	case P_TERM: return doTerminate(s, name);
	case P_TRAP: failIf(s, mkTrue(), "trap", "trap reached"); return DEAD;
	case P_ASSERTFAIL: failIf(s, mkTrue(), "assert", "assertion failed: " + readStr(s, conc(s, arg(0))) + " (" + readStr(s, conc(s, arg(1))) + ":" + std::to_string(conc(s, arg(2))) + ")"); return DEAD;
	case P_GLIBFAIL: failIf(s, mkTrue(), "assert", "libstdc++ precondition failed: " + readStr(s, conc(s, arg(3))) + " in " + readStr(s, conc(s, arg(2)))); return DEAD;
	case P_DYNCAST: { uint64_t p = conc(s, arg(0)); if (!p) return done(mkConst(0, 64)); E vt = loadMem(s, p, 8, PR, false); if (!vt) return DEAD; uint64_t v = conc(s, vt); E ti = loadMem(s, v - 8, 8, PR, false), top = loadMem(s, v - 16, 8, PR, false); if (!ti || !top) return DEAD; uint64_t t = conc(s, ti), o = conc(s, top), dst = conc(s, arg(2)); return done(mkConst(typeMatch(dst, t) ? p + o : 0, 64)); }
	case P_FAILEXT: failIf(s, mkTrue(), "std-throw", demangle(name) + " called"); return DEAD;
	case P_NEW: case P_MALLOC: return done(mkConst(allocHeap(s, in, conc(s, arg(0)), 16), 64));
	case P_NEWAL: return done(mkConst(allocHeap(s, in, conc(s, arg(0)), conc(s, arg(1))), 64));
	case P_CALLOC: { uint64_t n = conc(s, arg(0)) * conc(s, arg(1)); uint64_t a = allocHeap(s, in, n, 16); objMut(s, findObj(a)).fill = mkConst(0, 8); return done(mkConst(a, 64)); }
	case P_DELETE: case P_FREE: { uint64_t a = conc(s, arg(0)); 
		if (a && name == "_ZdlPvm") { uint64_t sz = conc(s, arg(1)); int id = findObj(a); if (id >= 0 && g_objs[id].addr == a && g_objs[id].size != sz && objGet(s, id)) failIf(s, mkTrue(), "bad-free", "sized delete with size " + std::to_string(sz) + " of a block of " + std::to_string(g_objs[id].size)); }
		freeHeap(s, a, prim == P_FREE ? "free" : "delete"); return done(nullptr); }
	case P_NOP0: return done(in.w ? mkConst(0, in.w) : nullptr);
	case P_EXPECT: return done(arg(0));
	case P_ISCONST: return done(mkConst(0, 1));
	case P_OBJSIZE: return done(mkConst(conc(s, arg(1)) ? 0 : ~0ull, in.w));
	case P_PAUSE: if (s.th.size() > 1 && !th.atomicDepth) { if (!th.spin) th.spin = 1; else if (th.spin & 4) { if (!(th.spin & 2)) th.yielded = true; th.spin = 1; } } return done(in.w ? mkConst(0, in.w) : nullptr);
	case P_TLSADDR: { auto* g = cast<GlobalVariable>(cast<CallBase>(in.I)->getArgOperand(0)); return done(mkConst(tlsAddr(s, g), 64)); }
	case P_MEMCPY: { uint64_t d = conc(s, arg(0)), sr = conc(s, arg(1)), n = conc(s, arg(2)); copyMem(s, d, sr, n, raw); return done(mkConst(d, 64)); }
	case P_MEMSET: { uint64_t d = conc(s, arg(0)), n = conc(s, arg(2)); E b = arg(1); if (b->w > 8) b = mkExtract(b, 0, 8); setMem(s, d, b, n, raw); return done(mkConst(d, 64)); }
	case P_TYPEID: return done(mkConst(selOf(conc(s, arg(0))), 32));
	case P_LIFES: { uint64_t a = conc(s, arg(1)); int id = findObj(a); if (id >= 0 && g_objs[id].kind == OK::STACK && g_objs[id].addr == a && objGet(s, id)) { Obj& o = objMut(s, id); o.zapped = false; if (th.atomicDepth == 0) { o.cells.clear(); o.fill = nullptr; } } return done(nullptr); }
	case P_LIFEE: { uint64_t a = conc(s, arg(1)); int id = findObj(a); if (id >= 0 && g_objs[id].kind == OK::STACK && g_objs[id].addr == a && objGet(s, id)) { Obj& o0 = *objGet(s, id); bool foreign = false; for (auto& r : o0.shadow) for (auto* v : {&r.sh->r, &r.sh->aw, &r.sh->ar}) for (auto& p : *v) if (p.first != s.cur) foreign = true; if (foreign) access(s, id, 0, g_objs[id].size, PW); objMut(s, id).zapped = true; } return done(nullptr); }
	case P_OVF: {
		E a = arg(0), b = arg(1); unsigned w = a->w; bool sg = name.find("llvm.s") == 0; char k = name[6]; // llvm.Xadd / Xsub / Xmul
		(void)k; E r, ov; bool add = name.find("add.with") != std::string::npos, sub = name.find("sub.with") != std::string::npos;
		if (add) { r = mkBin(Op::ADD, a, b); if (!sg) ov = mkBin(Op::ULT, r, a); else { E z = mkConst(0, w); E sa = mkBin(Op::SLT, a, z), sb = mkBin(Op::SLT, b, z), sr = mkBin(Op::SLT, r, z); ov = mkAnd(mkEq(sa, sb), mkNot(mkEq(sa, sr))); } }
		else if (sub) { r = mkBin(Op::SUB, a, b); if (!sg) ov = mkBin(Op::ULT, a, b); else { E z = mkConst(0, w); E sa = mkBin(Op::SLT, a, z), sb = mkBin(Op::SLT, b, z), sr = mkBin(Op::SLT, r, z); ov = mkAnd(mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sr))); } }
		else { if (sg) { if (w > 32) { // exact via division check
					E z = mkConst(0, w); r = mkBin(Op::MUL, a, b); E q = mkBin(Op::SDIV, r, b); E m1 = mkConst(~0ull, w), mn = mkConst(1ull << (w - 1), w); ov = mkAnd(mkNot(mkEq(b, z)), mkOr(mkNot(mkEq(q, a)), mkAnd(mkEq(b, m1), mkEq(a, mn)))); }
				else { E x = mkBin(Op::MUL, mkSext(a, w * 2), mkSext(b, w * 2)); r = mkExtract(x, 0, w); ov = mkNot(mkEq(mkSext(r, w * 2), x)); } }
			else { if (w > 32) { r = mkBin(Op::MUL, a, b); E z = mkConst(0, w); ov = mkAnd(mkNot(mkEq(b, z)), mkNot(mkEq(mkBin(Op::UDIV, r, b), a))); } else { E x = mkBin(Op::MUL, mkZext(a, w * 2), mkZext(b, w * 2)); r = mkExtract(x, 0, w); ov = mkNot(mkEq(mkZext(r, w * 2), x)); } } }
		Val v1, v2; v1.e = r; v2.e = ov; Frame& fr = topMut(s); fr.regs[in.dst] = aggVal({v1, v2}); fr.pc++; return CONT; }
	case P_MINMAX: { E a = arg(0), b = arg(1); bool sg = name[5] == 's'; bool mx = name.find("max") != std::string::npos; E lt = mkBin(sg ? Op::SLT : Op::ULT, a, b); return done(mx ? mkIte(lt, b, a) : mkIte(lt, a, b)); }
	case P_ABS: { E a = arg(0); E z = mkConst(0, a->w); return done(mkIte(mkBin(Op::SLT, a, z), mkBin(Op::SUB, z, a), a)); }
	case P_BITS: { E a = arg(0); unsigned w = a->w; E r;
		if (name.find("ctpop") != std::string::npos) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(Op::ADD, r, mkZext(mkExtract(a, i, 1), w)); }
		else { bool lz = name.find("ctlz") != std::string::npos; r = mkConst(w, w); for (unsigned i = 0; i < w; i++) { unsigned bit = lz ? i : w - 1 - i; r = mkIte(mkExtract(a, bit, 1), mkConst(lz ? w - 1 - bit : bit, w), r); } }
		return done(r); }
	case P_FRAMEADDR: { uint32_t st = s.th[s.cur].stackSet; return done(mkConst(st ? g_objs[st].addr + g_objs[st].size / 2 : 0x7ffd00000000ull + ((uint64_t)s.cur << 24), 64)); } // somewhere on the current stack
	case P_FIBER: { // __vp_fiber(from_rsp_out**, to_rsp): switch control stacks. The saved stack pointer value names the suspended stack.
		uint64_t cur = conc(s, arg(0)), to = conc(s, arg(1)); 
		Frame& fr = topMut(s); fr.pc++; // resume after the call
		s.fibers[cur] = {th.stack, th.stackSet};
		auto it = s.fibers.find(to);
		if (it != s.fibers.end()) { th.stack = it->second.st; th.stackSet = it->second.set; s.fibers.erase(it); return CONT; }
		// first activation: entry function and parameter are in the frame that the library built at `to`
		uint64_t fa = conc(s, arg(2)); int id = findObj(fa); if (id < 0 || !g_objs[id].fn) { failIf(s, mkTrue(), "bad-fiber", "switch to a stack without a valid entry point"); return DEAD; }
		Val a; a.e = arg(3); th.stack.clear(); th.stackSet = findObj(conc(s, arg(4))); pushFrame(s, g_objs[id].fn, {a}); return CONT; }
	}
	unsup("primitive " + name);
}
static Function* overrideOf(Function* F) {
	static std::map<Function*, Function*> memo; auto it = memo.find(F); if (it != memo.end()) return it->second;
	Function* r = nullptr;
	if (!F->getName().starts_with("vpx_") && !F->getName().starts_with("vpe_")) { r = g_mod->getFunction(("vpx_" + F->getName()).str()); if (!r) r = g_mod->getFunction(("vpe_" + F->getName()).str()); if (r && r->isDeclaration()) r = nullptr; }
	return memo[F] = r;
}
static R execCall(State& s, Frame& f, Inst& in) {
	auto* cb = cast<CallBase>(in.I);
	if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty()) { Frame& fr = topMut(s); if (in.dst >= 0) fr.regs[in.dst] = in.ops.size() ? opv(f, in.ops[0]) : zeroVal(in.I->getType()); fr.pc++; return CONT; } 
		if (ia->getAsmString() == "pause" || ia->getAsmString() == "rep; nop") return execPrim(s, f, in, P_PAUSE, "pause");
		unsup("inline assembly: " + ia->getAsmString()); }
	Function* F = in.callee; unsigned nargs = cb->arg_size();
	if (!F) {
		uint64_t a = conc(s, ope(f, in.ops[nargs])); int id = findObj(a);
		if (id < 0 || g_objs[id].kind != OK::FUNC || g_objs[id].addr != a) { failIf(s, mkTrue(), "bad-call", "indirect call to an address that is not a function" + std::string(a == 0 ? " (null)" : "")); return DEAD; }
		F = g_objs[id].fn;
	}
	std::string nm = F->getName().str();
	Function* ov = overrideOf(F);
	if (!ov) { Prim p = in.callee ? (in.prim ? (Prim)in.prim : (Prim)(in.prim = primOf(F))) : primOf(F); if (p != P_NONE && !(p == P_FAILEXT && !F->isDeclaration())) { if (p == P_UNSUP) unsup("intrinsic " + nm); return execPrim(s, f, in, p, nm); } }
	if (ov) F = ov;
	if (F->isDeclaration()) unsup("external function " + demangle(nm));
	std::vector<Val> args; for (unsigned i = 0; i < nargs; i++) args.push_back(opv(f, in.ops[i]));
	// byval
	std::vector<uint32_t> byvals;
	for (unsigned i = 0; i < nargs; i++) if (cb->isByValArgument(i)) {
		uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); char b[96]; snprintf(b, sizeof b, "bv%d.%u.%zu.%p.%u", s.cur, s.th[s.cur].stackSet, s.th[s.cur].stack.size(), (void*)in.I, i);
		uint64_t src = conc(s, args[i].e); uint32_t id = allocObj(s, b, sz, 16, OK::STACK, "byval arg of " + demangle(nm)); copyMem(s, g_objs[id].addr, src, sz, true); args[i].e = mkConst(g_objs[id].addr, 64); byvals.push_back(id); }
	if (auto* ci = dyn_cast<CallInst>(in.I)) if (ci->isMustTailCall()) { bool det = s.th[s.cur].stack.back()->detached; popFrame(s); pushFrame(s, F, std::move(args), det); return CONT; }
	pushFrame(s, F, std::move(args)); for (auto id : byvals) s.th[s.cur].stack.back()->allocas.push_back(id);
	return CONT;
}
static E fpOp(unsigned opc, E a, E b) {
	if (!a->isConst() || (b && !b->isConst())) unsup("symbolic floating point");
	if (a->w == 64) { double x, y = 0, r; memcpy(&x, &a->k, 8); if (b) memcpy(&y, &b->k, 8); switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FNeg: r = -x; break; default: unsup("fp"); } uint64_t k; memcpy(&k, &r, 8); return mkConst(k, 64); }
	float x, y = 0, r; uint32_t ak = a->k, bk = b ? b->k : 0; memcpy(&x, &ak, 4); memcpy(&y, &bk, 4); switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FNeg: r = -x; break; default: unsup("fp"); } uint32_t k; memcpy(&k, &r, 4); return mkConst(k, 32);
}
static bool isAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool isRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }

static R execInst(State& s) {
	Frame& f = *s.th[s.cur].stack.back(); Inst& in = f.fn->code[f.pc]; Thread& th = s.th[s.cur];
	G.insts++; if (++s.stepInsts > O.maxInsts) { failIf(s, mkTrue(), "nontermination", "more than " + std::to_string(O.maxInsts) + " instructions without reaching a scheduling point"); return DEAD; }
	bool raw = th.atomicDepth > 0;
	auto set = [&](E e) { Frame& fr = topMut(s); fr.regs[in.dst].e = e; fr.regs[in.dst].agg = nullptr; fr.pc++; return CONT; };
	auto op = [&](unsigned i) { return ope(f, in.ops[i]); };
	switch (in.opc) {
	case Instruction::Alloca: {
		auto* ai = cast<AllocaInst>(in.I); uint64_t n = conc(s, op(0)); uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n;
		Frame& fr = topMut(s); int cnt = 0; for (auto& p : fr.allocaCount) if (p.first == in.I) cnt = p.second++; if (!cnt) fr.allocaCount.push_back({in.I, 1});
		char b[96]; snprintf(b, sizeof b, "a%d.%u.%zu.%p.%d.%llu", s.cur, th.stackSet, th.stack.size(), (void*)in.I, cnt, (unsigned long long)sz);
		std::string nm = in.I->getName().str(); uint32_t id = allocObj(s, b, sz, ai->getAlign().value(), OK::STACK, (nm.empty() ? "local" : nm) + "@" + f.fn->F->getName().str().substr(0, 60));
		fr.allocas.push_back(id); fr.regs[in.dst].e = mkConst(g_objs[id].addr, 64); fr.pc++; return CONT; }
	case Instruction::Load: {
		auto* li = cast<LoadInst>(in.I); uint64_t a = conc(s, op(0));
		if (li->isAtomic()) {
			if (mustPark(s, a)) return PARK;
			bool inP = (O.allVisible || g_P.count(a)); E v = loadMem(s, a, in.len, AR, raw, inP);
			if (inP) { int id = findObj(a); if (isAcq(li->getOrdering())) hbAcquire(s, id, a - g_objs[id].addr); else fenceLoad(s, id, a - g_objs[id].addr); }
			opDone(s, inP && s.th.size() > 1 && !raw, "load " + descAddr(a), false); if (v->w != in.w) v = mkExtract(v, 0, in.w); return set(v);
		}
		Type* t = li->getType(); if (t->isAggregateType()) { Val v = loadVal(s, a, t, raw); Frame& fr = topMut(s); fr.regs[in.dst] = v; fr.pc++; return CONT; }
		if (!in.w || in.w > 64) unsup("load of wide type in " + fnName(f.fn));
		E v = loadMem(s, a, in.len, PR, raw); if (v->w != in.w) v = mkExtract(v, 0, in.w); return set(v); }
	case Instruction::Store: {
		auto* si = cast<StoreInst>(in.I); uint64_t a = conc(s, op(1));
		if (si->isAtomic()) {
			if (mustPark(s, a)) return PARK;
			bool inP = (O.allVisible || g_P.count(a)); storeMem(s, a, in.len, mkZext(op(0), in.len * 8), AW, raw, inP); int id = findObj(a); uint32_t off = a - g_objs[id].addr;
			if (inP) { if (isRel(si->getOrdering())) hbRelease(s, id, off, false); else if (!fenceStore(s, id, off, false)) hbClear(s, id, off); }
			opDone(s, inP && s.th.size() > 1 && !raw, "store " + descAddr(a)); topMut(s).pc++; return CONT;
		}
		Type* t = si->getValueOperand()->getType(); if (t->isAggregateType()) { storeVal(s, a, t, opv(f, in.ops[0]), raw); topMut(s).pc++; return CONT; }
		if (!in.w || in.w > 64) unsup("store of wide type in " + fnName(f.fn));
		storeMem(s, a, in.len, mkZext(op(0), in.len * 8), PW, raw); topMut(s).pc++; return CONT; }
	case Instruction::AtomicRMW: {
		auto* ri = cast<AtomicRMWInst>(in.I); uint64_t a = conc(s, op(0)); if (mustPark(s, a)) return PARK;
		bool inP = (O.allVisible || g_P.count(a)); E old = loadMem(s, a, in.len, AW, raw, inP); E v = op(1), nv; if (v->w != in.len * 8) v = mkZext(v, in.len * 8);
		switch (ri->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = mkBin(Op::ADD, old, v); break; case AtomicRMWInst::Sub: nv = mkBin(Op::SUB, old, v); break; case AtomicRMWInst::And: nv = mkBin(Op::AND, old, v); break; case AtomicRMWInst::Or: nv = mkBin(Op::OR, old, v); break; case AtomicRMWInst::Xor: nv = mkBin(Op::XOR, old, v); break; case AtomicRMWInst::UMax: nv = mkIte(mkBin(Op::ULT, old, v), v, old); break; case AtomicRMWInst::UMin: nv = mkIte(mkBin(Op::ULT, old, v), old, v); break; default: unsup("atomicrmw kind"); }
		storeMem(s, a, in.len, nv, AW, true); int id = findObj(a); uint32_t off = a - g_objs[id].addr;
		if (inP) { if (isAcq(ri->getOrdering())) hbAcquire(s, id, off); else fenceLoad(s, id, off); if (isRel(ri->getOrdering())) hbRelease(s, id, off, true); else fenceStore(s, id, off, true); }
		opDone(s, inP && s.th.size() > 1 && !raw, "rmw " + descAddr(a)); return set(in.w == old->w ? old : mkExtract(old, 0, in.w)); }
	case Instruction::AtomicCmpXchg: {
		auto* ci = cast<AtomicCmpXchgInst>(in.I); uint64_t a = conc(s, op(0)); if (mustPark(s, a)) return PARK;
		bool inP = (O.allVisible || g_P.count(a));
		// look at the value first: forks must happen before the access is recorded
		uint32_t off0; int id0 = resolve(s, a, in.len, true, off0); if (id0 < 0) return DEAD; bool mut = false; E old = simp(s, loadCell(*objGet(s, id0), id0, off0, in.len, mut));
		E ex = op(1), nv = op(2); if (ex->w != in.len * 8) { ex = mkZext(ex, in.len * 8); nv = mkZext(nv, in.len * 8); }
		E eq = mkEq(old, ex); bool ok = branchOn(s, eq);
		if (ok && ci->isWeak() && th.spur < s.spurBudget && !raw) { std::string vn = "spur.t" + std::to_string(s.cur) + ".k" + std::to_string(g_layer) + "." + std::to_string(s.sliceSeq); E sv = mkVar(vn, 1); if (g_concrete) sv = mkBool(sv->k < g_fixed.size() && g_fixed[sv->k]); 
			bool fail = branchOn(s, sv); s.sliceSeq++;
			if (fail) { ok = false; th.spur++; if (g_concrete) s.inputs.push_back(std::to_string(s.cur) + " !spurious " + std::to_string(th.ops)); } }
		old = loadMem(s, a, in.len, ok ? AW : AR, raw, inP); int id = findObj(a); uint32_t off = a - g_objs[id].addr;
		AtomicOrdering so = ci->getSuccessOrdering(), fo = ci->getFailureOrdering();
		if (ok) { storeMem(s, a, in.len, nv, AW, true); if (inP) { if (isAcq(so)) hbAcquire(s, id, off); else fenceLoad(s, id, off); if (isRel(so)) hbRelease(s, id, off, true); else fenceStore(s, id, off, true); } }
		else if (inP) { if (isAcq(fo)) hbAcquire(s, id, off); else fenceLoad(s, id, off); }
		opDone(s, inP && s.th.size() > 1 && !raw, std::string("cas ") + (ok ? "ok " : "failed ") + descAddr(a), ok);
		Val v1, v2; unsigned w = tyw(ci->getCompareOperand()->getType()); v1.e = old->w == w ? old : mkExtract(old, 0, w); v2.e = mkBool(ok); Frame& fr = topMut(s); fr.regs[in.dst] = aggVal({v1, v2}); fr.pc++; return CONT; }
	case Instruction::Fence: topMut(s).pc++; { AtomicOrdering o = cast<FenceInst>(in.I)->getOrdering(); if (cast<FenceInst>(in.I)->getSyncScopeID() != SyncScope::SingleThread) { Thread& t = s.th[s.cur]; if (isAcq(o) && t.facq) vcJoin(t.vc, *t.facq); if (isRel(o)) { t.frel = std::make_shared<VC>(t.vc); vcTick(s, s.cur); } } } return CONT;
	case Instruction::GetElementPtr: { E e = mkBin(Op::ADD, op(0), mkConst(in.gepOff, 64)); for (auto& v : in.gepVar) { E x = mkSext(op(v.first), 64); e = mkBin(Op::ADD, e, mkBin(Op::MUL, x, mkConst(v.second, 64))); } return set(e); }
	case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: { Frame& fr = topMut(s); fr.regs[in.dst] = opv(f, in.ops[0]); fr.pc++; return CONT; }
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::Trunc: { E e = op(0); if (in.w > 64 || !in.w) unsup("wide cast in " + fnName(f.fn)); return set(in.w < e->w ? mkExtract(e, 0, in.w) : mkZext(e, in.w)); }
	case Instruction::SExt: { if (in.w > 64) unsup("wide sext"); return set(mkSext(op(0), in.w)); }
	case Instruction::FPExt: { E e = op(0); if (!e->isConst()) unsup("symbolic fp"); float x; uint32_t k = e->k; memcpy(&x, &k, 4); double d = x; uint64_t r; memcpy(&r, &d, 8); return set(mkConst(r, 64)); }
	case Instruction::FPTrunc: { E e = op(0); if (!e->isConst()) unsup("symbolic fp"); double d; memcpy(&d, &e->k, 8); float x = d; uint32_t k; memcpy(&k, &x, 4); return set(mkConst(k, 32)); }
	case Instruction::UIToFP: case Instruction::SIToFP: { E e = op(0); if (!e->isConst()) unsup("symbolic fp"); double d = in.opc == Instruction::UIToFP ? (double)e->k : (double)sx(e->k, e->w); if (in.w == 64) { uint64_t r; memcpy(&r, &d, 8); return set(mkConst(r, 64)); } float x = d; uint32_t k; memcpy(&k, &x, 4); return set(mkConst(k, 32)); }
	case Instruction::FPToUI: case Instruction::FPToSI: { E e = op(0); if (!e->isConst()) unsup("symbolic fp"); double d; if (e->w == 64) memcpy(&d, &e->k, 8); else { float x; uint32_t k = e->k; memcpy(&x, &k, 4); d = x; } return set(mkConst(in.opc == Instruction::FPToUI ? (uint64_t)d : (uint64_t)(int64_t)d, in.w)); }
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: return set(fpOp(in.opc, op(0), op(1)));
	case Instruction::FNeg: return set(fpOp(in.opc, op(0), nullptr));
	case Instruction::FCmp: { E a = op(0), b = op(1); if (!a->isConst() || !b->isConst()) unsup("symbolic fp"); double x, y; if (a->w == 64) { memcpy(&x, &a->k, 8); memcpy(&y, &b->k, 8); } else { float p, q; uint32_t k = a->k; memcpy(&p, &k, 4); k = b->k; memcpy(&q, &k, 4); x = p; y = q; } bool r; switch (cast<FCmpInst>(in.I)->getPredicate()) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break; default: unsup("fcmp"); } return set(mkBool(r)); }
#define BIN(I_, O_) case Instruction::I_: return set(mkBin(Op::O_, op(0), op(1)));
	BIN(Add, ADD) BIN(Sub, SUB) BIN(Mul, MUL) BIN(And, AND) BIN(Or, OR) BIN(Xor, XOR) BIN(Shl, SHL) BIN(LShr, LSHR) BIN(AShr, ASHR)
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		E b = op(1); failIf(s, mkEq(b, mkConst(0, b->w)), "div-by-zero", "division by zero");
		return set(mkBin(in.opc == Instruction::UDiv ? Op::UDIV : in.opc == Instruction::SDiv ? Op::SDIV : in.opc == Instruction::URem ? Op::UREM : Op::SREM, op(0), b)); }
	case Instruction::ICmp: {
		E a = op(0), b = op(1); E r;
		switch (cast<ICmpInst>(in.I)->getPredicate()) {
		case CmpInst::ICMP_EQ: r = mkEq(a, b); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(a, b)); break;
		case CmpInst::ICMP_ULT: r = mkBin(Op::ULT, a, b); break; case CmpInst::ICMP_ULE: r = mkBin(Op::ULE, a, b); break; case CmpInst::ICMP_UGT: r = mkBin(Op::ULT, b, a); break; case CmpInst::ICMP_UGE: r = mkBin(Op::ULE, b, a); break;
		case CmpInst::ICMP_SLT: r = mkBin(Op::SLT, a, b); break; case CmpInst::ICMP_SLE: r = mkBin(Op::SLE, a, b); break; case CmpInst::ICMP_SGT: r = mkBin(Op::SLT, b, a); break; case CmpInst::ICMP_SGE: r = mkBin(Op::SLE, b, a); break;
		default: unsup("icmp"); }
		return set(r); }
	case Instruction::Select: {
		E c = op(0); const Val &a = opv(f, in.ops[1]), &b = opv(f, in.ops[2]);
		if (a.agg || b.agg) { bool v = branchOn(s, c); Frame& fr = topMut(s); fr.regs[in.dst] = v ? a : b; fr.pc++; return CONT; }
		return set(mkIte(simp(s, c), a.e, b.e)); }
	case Instruction::Br: { Frame& fr = topMut(s); if (in.ops.empty()) { enterBlock(s, fr, in.bb, in.succ[0]); return CONT; } bool v = branchOn(s, op(0)); enterBlock(s, topMut(s), in.bb, v ? in.succ[0] : in.succ[1]); return CONT; }
	case Instruction::Switch: { E c = op(0); for (unsigned i = 1; i < in.ops.size(); i++) if (branchOn(s, mkEq(c, in.ops[i].c.e))) { enterBlock(s, topMut(s), in.bb, in.succ[i]); return CONT; } enterBlock(s, topMut(s), in.bb, in.succ[0]); return CONT; }
	case Instruction::Ret: { Val v; if (!in.ops.empty()) v = opv(f, in.ops[0]); return doReturn(s, v); }
	case Instruction::Unreachable: failIf(s, mkTrue(), "unreachable", "code that must be unreachable was reached (undefined behaviour)"); return DEAD;
	case Instruction::ExtractValue: { Val v = opv(f, in.ops[0]); for (unsigned i : cast<ExtractValueInst>(in.I)->indices()) v = (*v.agg)[i]; Frame& fr = topMut(s); fr.regs[in.dst] = v; fr.pc++; return CONT; }
	case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(in.I); std::function<Val(const Val&, unsigned)> ins = [&](const Val& v, unsigned d) -> Val { if (d == iv->getNumIndices()) return opv(f, in.ops[1]); std::vector<Val> n = *v.agg; n[iv->getIndices()[d]] = ins(n[iv->getIndices()[d]], d + 1); return aggVal(n); }; Val r = ins(opv(f, in.ops[0]), 0); Frame& fr = topMut(s); fr.regs[in.dst] = r; fr.pc++; return CONT; }
	case Instruction::LandingPad: { Val a = th.lpExc, b; b.e = mkConst(th.lpSel, 32); Frame& fr = topMut(s); fr.regs[in.dst] = aggVal({a, b}); fr.pc++; return CONT; }
	case Instruction::Resume: { uint64_t exc = conc(s, (*opv(f, in.ops[0]).agg)[0].e); popFrame(s); if (s.th[s.cur].stack.empty()) return doTerminate(s, "uncaught exception"); return unwind(s, exc); }
	case Instruction::Call: case Instruction::Invoke: return execCall(s, f, in);
	}
	std::string str; raw_string_ostream os(str); in.I->print(os); unsup("instruction " + str);
}

// ------------------------------------------------------------------ layers and merging
static std::map<std::string, std::vector<StateP>> g_next; // by control key
static std::unordered_map<std::string, StateP>* g_nextMap;
static std::string controlKey(State& s) {
	std::string k; auto put = [&](const void* p, size_t n) { k.append((const char*)p, n); };
	uint8_t n = s.th.size(); put(&n, 1); uint8_t fl = s.leakOn | s.expectTerm << 1 | s.terminated << 2; put(&fl, 1); put(&s.cvBudget, 4); put(&s.spurBudget, 4); put(&s.last, 4); put(&s.pre, 4);
	auto putStack = [&](const std::vector<FrameP>& st) { for (auto& f : st) { put(&f->fn, 8); put(&f->pc, 4); uint8_t d = f->detached; put(&d, 1); for (uint32_t id : f->allocas) put(&id, 4); } };
	for (auto& t : s.th) { uint8_t b = t.finished | t.yielded << 1 | t.spin << 2; put(&b, 1); int d = t.atomicDepth; put(&d, 4); put(&t.spur, 4); put(&t.cvspur, 4); put(&t.lazy, 4); put(&t.stackSet, 4); uint16_t z = t.stack.size(); put(&z, 2); putStack(t.stack); }
	for (auto& f : s.fibers) { put(&f.first, 8); put(&f.second.set, 4); putStack(f.second.st); }
	if (O.keyP) for (uint64_t a : g_P) { int id = findObj(a); if (id < 0) continue; Obj* o = objGet(s, id); if (!o) continue; uint32_t off = a - g_objs[id].addr; for (auto& c : o->cells) if (c.off >= off && c.off < off + 8) { put(&c.off, 4); put(&c.e, sizeof c.e); } }
	if (O.keyLevel >= 2) { // states that differ in a concrete value stay apart; only data that is symbolic already is merged
		auto pv = [&](const Val& v, auto& self) -> void { if (v.agg) { for (auto& x : *v.agg) self(x, self); } else if (v.e && v.e->isConst()) put(&v.e, 8); else { E z = nullptr; put(&z, 8); } };
		auto regs = [&](const std::vector<FrameP>& st) { for (auto& f : st) for (auto& r : f->regs) if (r.e || r.agg) pv(r, pv); };
		for (auto& t : s.th) regs(t.stack); for (auto& f : s.fibers) regs(f.second.st);
		for (size_t i = 0; i < s.mem.c.size(); i++) if (s.mem.c[i]) for (unsigned j = 0; j < CH; j++) { auto& o = s.mem.c[i]->o[j]; if (!o) continue; uint32_t id = i * CH + j; put(&id, 4); uint8_t lv = o->live->isTrue() ? 1 : o->live->isFalse() ? 0 : 2; put(&lv, 1); if (lv == 0) continue;
			for (auto& c : o->cells) if (c.e && c.e->isConst()) { put(&c.off, 4); put(&c.e, 8); }
			if (O.keyLevel >= 3) { for (auto& r : o->shadow) { put(&r.off, 4); put(&r.len, 4); Shadow& h = *r.sh; put(&h.w, 8); for (auto* v : {&h.r, &h.aw, &h.ar}) { uint8_t z = v->size(); put(&z, 1); auto w = *v; std::sort(w.begin(), w.end()); for (auto& q : w) { put(&q.first, 1); put(&q.second, 8); } } }
				for (auto& q : o->sync) { put(&q.first, 4); if (q.second) for (E e : *q.second) put(&e, 8); } } }
		if (O.keyLevel >= 3) for (auto& t : s.th) { for (E e : t.vc) put(&e, 8); for (auto& f : {t.facq, t.frel}) if (f) for (E e : *f) put(&e, 8); else { E z = nullptr; put(&z, 8); } }
	}
	return k;
}
static Val mergeVal(E c, const Val& a, const Val& b) { // c ? a : b
	if (a.agg && b.agg) { if (a.agg == b.agg) return a; if (a.agg->size() != b.agg->size()) return a; std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(mergeVal(c, (*a.agg)[i], (*b.agg)[i])); return aggVal(v); }
	if (a.e && b.e) { Val r; r.e = a.e->w == b.e->w ? mkIte(c, a.e, b.e) : a.e; return r; }
	return (a.e || a.agg) ? a : b;
}
static ShadowP mergeShadow(E c, const ShadowP& a, const ShadowP& b) {
	if (a == b) return a; ShadowP r = std::make_shared<Shadow>(); E z16 = mkConst(0, 16);
	E wa = a && a->w ? a->w : z16, wb = b && b->w ? b->w : z16; r->w = mkIte(c, wa, wb);
	auto mm = [&](const std::vector<std::pair<uint8_t, E>>* x, const std::vector<std::pair<uint8_t, E>>* y, std::vector<std::pair<uint8_t, E>>& o) {
		if (x) for (auto& p : *x) { E q = clk0(); if (y) for (auto& k : *y) if (k.first == p.first) q = k.second; o.push_back({p.first, mkIte(c, p.second, q)}); }
		if (y) for (auto& p : *y) { bool have = false; if (x) for (auto& k : *x) if (k.first == p.first) have = true; if (!have) o.push_back({p.first, mkIte(c, clk0(), p.second)}); } };
	mm(a ? &a->r : nullptr, b ? &b->r : nullptr, r->r); mm(a ? &a->aw : nullptr, b ? &b->aw : nullptr, r->aw); mm(a ? &a->ar : nullptr, b ? &b->ar : nullptr, r->ar);
	return r;
}
static ObjP mergeObj(uint32_t id, E c, const ObjP& a0, const ObjP& b0) { // c ? a : b
	if (a0 == b0) return a0;
	OK kind = g_objs[id].kind; ObjP a = a0, b = b0;
	if (kind == OK::GLOBAL || kind == OK::EXT) { if (!a) a = initialGlobal(id); if (!b) b = initialGlobal(id); if (a == b) return a0 ? a0 : b0; }
	if (kind == OK::TLS && (!a || !b)) return a ? a : b; // untouched TLS block: initial contents
	if (!a || !b) { ObjP x = std::make_shared<Obj>(a ? *a : *b); x->live = mkAnd(x->live, a ? c : mkNot(c)); return x; }
	ObjP r = std::make_shared<Obj>(); r->live = mkIte(c, a->live, b->live); r->tracked = a->tracked || b->tracked; r->zapped = a->zapped && b->zapped;
	if (a->fill == b->fill) r->fill = a->fill; else if (a->fill && b->fill) r->fill = mkIte(c, a->fill, b->fill); else r->fill = nullptr;
	bool fillDiffer = a->fill != b->fill;
	// cells
	size_t i = 0, j = 0; auto &x = a->cells, &y = b->cells; bool m = false;
	if (fillDiffer) { // materialise: rare; go byte-wise over the object in 8-byte pieces
		for (uint32_t p = 0; p < g_objs[id].size; p += 8) { uint32_t l = std::min<uint32_t>(8, g_objs[id].size - p); E ea = loadCell(*a, id, p, l, m), eb = loadCell(*b, id, p, l, m); r->cells.push_back({p, l, mkIte(c, ea, eb)}); }
	} else while (i < x.size() || j < y.size()) {
		if (i < x.size() && j < y.size() && x[i].off == y[j].off && x[i].len == y[j].len) { r->cells.push_back({x[i].off, x[i].len, mkIte(c, x[i].e, y[j].e)}); i++; j++; continue; }
		// region of overlap
		uint32_t lo = ~0u, hi; if (i < x.size()) lo = x[i].off; if (j < y.size()) lo = std::min(lo, y[j].off);
		size_t i2 = i, j2 = j; hi = lo; bool ch = true; 
		if (i2 < x.size() && x[i2].off == lo) hi = x[i2].off + x[i2].len; if (j2 < y.size() && y[j2].off == lo) hi = std::max(hi, y[j2].off + y[j2].len);
		while (ch) { ch = false; while (i2 < x.size() && x[i2].off < hi) { hi = std::max(hi, x[i2].off + x[i2].len); i2++; ch = true; } while (j2 < y.size() && y[j2].off < hi) { hi = std::max(hi, y[j2].off + y[j2].len); j2++; ch = true; } }
		// prefer the coarser common boundaries when one side is a single cell
		std::vector<std::pair<uint32_t, uint32_t>> pieces;
		if (i2 - i == 1 && x[i].off == lo && x[i].off + x[i].len == hi) pieces.push_back({lo, hi - lo});
		else if (j2 - j == 1 && y[j].off == lo && y[j].off + y[j].len == hi) pieces.push_back({lo, hi - lo});
		else for (uint32_t p = lo; p < hi; p++) pieces.push_back({p, 1});
		for (auto& p : pieces) { E ea = loadCell(*a, id, p.first, p.second, m), eb = loadCell(*b, id, p.first, p.second, m); r->cells.push_back({p.first, p.second, mkIte(c, ea, eb)}); }
		i = i2; j = j2;
	}
	// shadows: cut both at all boundaries
	std::set<uint32_t> cuts; for (auto* v : {&a->shadow, &b->shadow}) for (auto& q : *v) { cuts.insert(q.off); cuts.insert(q.off + q.len); }
	std::map<std::pair<Shadow*, Shadow*>, ShadowP> memo; uint32_t prev = 0; bool first = true; size_t pa = 0, pb = 0;
	for (uint32_t cut : cuts) { if (!first) { while (pa < a->shadow.size() && a->shadow[pa].off + a->shadow[pa].len <= prev) pa++; while (pb < b->shadow.size() && b->shadow[pb].off + b->shadow[pb].len <= prev) pb++;
			ShadowP sa = pa < a->shadow.size() && a->shadow[pa].off <= prev ? a->shadow[pa].sh : nullptr, sb = pb < b->shadow.size() && b->shadow[pb].off <= prev ? b->shadow[pb].sh : nullptr;
			if (sa || sb) { auto& k = memo[{sa.get(), sb.get()}]; if (!k) k = mergeShadow(c, sa, sb); if (!r->shadow.empty() && r->shadow.back().sh == k && r->shadow.back().off + r->shadow.back().len == prev) r->shadow.back().len += cut - prev; else r->shadow.push_back({prev, cut - prev, k}); } }
		prev = cut; first = false; }
	// sync clocks
	auto all = a->sync; for (auto& q : b->sync) { bool have = false; for (auto& p : all) if (p.first == q.first) have = true; if (!have) all.push_back({q.first, nullptr}); }
	for (auto& p : all) { std::shared_ptr<VC> va, vb; for (auto& q : a->sync) if (q.first == p.first) va = q.second; for (auto& q : b->sync) if (q.first == p.first) vb = q.second; if (va == vb) { r->sync.push_back({p.first, va}); continue; } auto n = std::make_shared<VC>(); for (unsigned k = 0; k < MAXT; k++) (*n)[k] = mkIte(c, va ? (*va)[k] : clk0(), vb ? (*vb)[k] : clk0()); r->sync.push_back({p.first, n}); }
	return r;
}
static void mergeStacks(E c, std::vector<FrameP>& a, const std::vector<FrameP>& b) {
	for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) continue; bool diff = false; auto &ra = a[i]->regs, &rb = b[i]->regs; for (size_t k = 0; k < ra.size() && !diff; k++) if (ra[k].e != rb[k].e || ra[k].agg != rb[k].agg) diff = true; if (!diff) continue;
		auto f = std::make_shared<Frame>(*a[i]); for (size_t k = 0; k < ra.size(); k++) f->regs[k] = mergeVal(c, ra[k], rb[k]); a[i] = f; }
}
static void mergeInto(State& a, State& b) { // a := b.guard ? b : a
	G.merges++;
	// the two states share the conjuncts in `common`; c tells them apart within those
	std::vector<E> common, ra, rb; { std::unordered_set<E> inB(b.conj.begin(), b.conj.end()), inA(a.conj.begin(), a.conj.end()); for (E e : a.conj) (inB.count(e) ? common : ra).push_back(e); for (E e : b.conj) if (!inA.count(e)) rb.push_back(e); }
	E x = mkTrue(), y = mkTrue(); for (E e : rb) x = mkAnd(x, e); for (E e : ra) y = mkAnd(y, e);
	E c = nullptr; for (E p : rb) { for (E q : ra) if (excludes(p, q)) { c = p; break; } if (c) break; }
	if (!c) c = ra.size() < rb.size() ? mkNot(y) : x;
	for (size_t t = 0; t < a.th.size(); t++) {
		Thread &x = a.th[t], &y = b.th[t]; mergeStacks(c, y.stack, x.stack); x.stack = y.stack;
		for (unsigned k = 0; k < MAXT; k++) x.vc[k] = mkIte(c, y.vc[k], x.vc[k]);
		for (auto m : {&Thread::facq, &Thread::frel}) { auto &p = x.*m, &q = y.*m; if (p == q) continue; auto n = std::make_shared<VC>(); for (unsigned k = 0; k < MAXT; k++) (*n)[k] = mkIte(c, q ? (*q)[k] : clk0(), p ? (*p)[k] : clk0()); p = n; }
		for (auto& p : y.cnt) { auto& q = x.cnt[p.first]; q = std::max(q, p.second); } x.ops = std::max(x.ops, y.ops);
	}
	for (auto& p : b.fibers) { auto st = p.second.st; mergeStacks(c, st, a.fibers[p.first].st); a.fibers[p.first].st = st; }
	size_t n = std::max(a.mem.c.size(), b.mem.c.size());
	for (size_t i = 0; i < n; i++) {
		auto ca = i < a.mem.c.size() ? a.mem.c[i] : nullptr, cb = i < b.mem.c.size() ? b.mem.c[i] : nullptr; if (ca == cb) continue;
		for (unsigned k = 0; k < CH; k++) { ObjP x = ca ? ca->o[k] : nullptr, y = cb ? cb->o[k] : nullptr; if (x == y) continue; uint32_t id = i * CH + k; ObjP m = mergeObj(id, c, y, x); if (m != x) a.mem.slot(id) = m; }
	}
	a.conj = common; a.guard = mkTrue(); for (E e : common) a.guard = mkAnd(a.guard, e); addConj(a, mkOr(x, y));
	a.lits.clear(); a.pinned.clear();
}
static void cleanDead(State& s) {
	auto clean = [&](std::vector<FrameP>& st, bool topParked) {
		for (size_t i = 0; i < st.size(); i++) { Frame& f = *st[i]; if (f.cleanedAt == f.pc) continue; const auto& l = liveAt(f.fn, f.pc, false); bool any = false; 
			Inst& in = f.fn->code[f.pc]; bool inCall = i + 1 < st.size() && in.isCall;
			// a frame waiting for a callee needs what is live after the call (its own operands were already passed), plus unwind values: use live-before, minus nothing (conservative)
			(void)inCall; (void)topParked;
			for (size_t r = 0; r < f.regs.size(); r++) if ((f.regs[r].e || f.regs[r].agg) && !(l[r / 64] >> (r % 64) & 1)) { any = true; break; }
			FrameP n = std::make_shared<Frame>(f); n->cleanedAt = f.pc; if (any) for (size_t r = 0; r < n->regs.size(); r++) if (!(l[r / 64] >> (r % 64) & 1)) n->regs[r] = Val(); st[i] = n; } };
	for (auto& t : s.th) clean(t.stack, true);
}
static void checkBudget() {
	if (elapsed() > O.timeLimit) { g_inconclusive = true; g_incWhy = "time budget exhausted"; throw StopRun{}; }
	static uint64_t n; if ((++n & 255) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > (long)O.memMB * 1024) { g_inconclusive = true; g_incWhy = "memory budget exhausted"; throw StopRun{}; } }
}
static int findEager(State& s) {
	for (unsigned t = 0; t < s.th.size(); t++) {
		Thread& th = s.th[t]; if (th.finished) continue;
		if (th.fresh) return t;
		Frame& f = *th.stack.back(); Inst& in = f.fn->code[f.pc];
		if (in.isCall && in.callee && in.callee->getName() == "vp_join") { E e = opv(f, in.ops[0]).e; if (e && e->isConst() && s.th[e->k].finished) return t; }
	}
	return -1;
}
static void runAll(std::unordered_map<std::string, StateP>& next) {
	while (!g_work.empty()) {
		StateP s = g_work.back(); g_work.pop_back();
		while (true) {
			R r = execInst(*s);
			if (r == CONT) continue;
			if (r == DEAD) break;
			s->force = false; int e = findEager(*s);
			if (e >= 0) { s->cur = e; s->stepInsts = 0; if (s->th[e].fresh) { s->th[e].fresh = false; traceOp(*s, "start"); s->th[e].ops++; } else s->force = true; continue; }
			cover(*s); cleanDead(*s); s->stepInsts = 0; checkBudget();
			std::string key = O.noMerge ? std::to_string(next.size()) : controlKey(*s);
			auto it = next.find(key);
			if (it == next.end()) { s->lits.clear(); s->pinned.clear(); next[key] = s; if (next.size() > O.maxStates) { g_inconclusive = true; g_incWhy = "too many states"; throw StopRun{}; } }
			else mergeInto(*it->second, *s);
			break;
		}
	}
}
// waiting with a timeout: never part of a deadlock, and switching away from it is no preemption
static bool softWait(State& s, int t) { Thread& th = s.th[t]; if (th.finished) return false; Frame& f = *th.stack.back(); Inst& in = f.fn->code[f.pc]; return in.isCall && in.callee && in.callee->getName().starts_with("__vp_enter_soft"); }
static bool lazyWait(State& s, int t) { Thread& th = s.th[t]; if (th.finished) return false; Frame& f = *th.stack.back(); Inst& in = f.fn->code[f.pc]; return in.isCall && in.callee && in.callee->getName() == "__vp_enter_soft2z"; }
// condition under which thread t can take its pending step (lazy: or could if its wait timed out)
static E enabledCond(State& s, int t, bool lazy = false) {
	Thread& th = s.th[t]; if (th.finished) return mkFalse();
	Frame& f = *th.stack.back(); Inst& in = f.fn->code[f.pc];
	if (in.isCall && in.callee) {
		StringRef n = in.callee->getName();
		if (n == "vp_join") { E e = opv(f, in.ops[0]).e; E r = mkFalse(); for (unsigned u = 0; u < s.th.size(); u++) if (s.th[u].finished) r = mkOr(r, mkEq(e, mkConst(u, e->w))); return r; }
		if (n == "__vp_enter_if") {
			E p = ope(f, in.ops[1]), mask = ope(f, in.ops[2]); bool nz = ope(f, in.ops[3])->k; E r = mkFalse();
			auto one = [&](uint64_t a) { int id = findObj(a); if (id < 0) return mkTrue(); Obj* o = objGet(s, id); if (!o) return mkTrue(); bool m = false; E v = loadCell(*o, id, a - g_objs[id].addr, 4, m); E z = mkEq(mkBin(Op::AND, v, mask), mkConst(0, 32)); return nz ? mkNot(z) : z; };
			if (p->isConst()) return one(p->k);
			for (auto& l : leavesOf(p)) r = mkOr(r, mkAnd(l.second, one(l.first)));
			return r;
		}
		if (n == "__vp_enter_if2" || n == "__vp_enter_soft2" || n == "__vp_enter_soft2z") {
			E mask = ope(f, in.ops[2]);
			auto word = [&](E p, E m, bool nz) { auto one = [&](uint64_t a) { int id = findObj(a); if (id < 0) return mkTrue(); Obj* o = objGet(s, id); if (!o) return mkTrue(); bool mm = false; E v = loadCell(*o, id, a - g_objs[id].addr, 4, mm); E z = mkEq(m ? mkBin(Op::AND, v, m) : v, mkConst(0, 32)); return nz ? mkNot(z) : z; };
				if (p->isConst()) return one(p->k); E r = mkFalse(); for (auto& l : leavesOf(p)) r = mkOr(r, mkAnd(l.second, one(l.first))); return r; };
			return mkAnd(lazy ? mkTrue() : word(ope(f, in.ops[1]), mask, true), word(ope(f, in.ops[3]), nullptr, false));
		}
	}
	return mkTrue();
}
static void runOnce(Function* mainF) {
	G.runs++; g_ends.clear(); g_raceQ.clear(); g_closed = -1; g_closeS = 0; g_closeN = g_closeSyn = 0; g_viol.clear(); g_deferred = false; g_Pgrew = false; g_reach.clear(); g_checks.clear(); g_used.clear(); g_work.clear();
	G.states = G.steps = G.merges = G.forks = G.finals = G.obligations = G.accesses = G.raceChecks = G.terminated = G.maxLayer = G.peak = 0;
	g_layer = 0; StateP s = std::make_shared<State>(); s->guard = mkTrue(); s->model = std::make_shared<Model>(); Thread t0; for (auto& e : t0.vc) e = clk0(); t0.vc[0] = mkConst(1, 12); s->th.push_back(t0);
	pushFrame(*s, mainF, std::vector<Val>(mainF->arg_size(), [] { Val v; v.e = mkConst(0, 64); return v; }()));
	if (auto* gc = g_mod->getGlobalVariable("llvm.global_ctors")) { if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<uint64_t, Function*>> fs; for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o.get()); if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); } std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (int i = (int)fs.size() - 1; i >= 0; i--) pushFrame(*s, fs[i].second, {}, true); } }
	std::unordered_map<std::string, StateP> layer, next; g_work.push_back(s); g_ends.clear(); runAll(layer); closeStep({}, mkTrue(), mkTrue());
	for (unsigned k = 0;; k++) {
		if (layer.empty()) break;
		g_layer = k + 1; G.layers = std::max<uint64_t>(G.layers, k); G.states += layer.size(); G.maxLayer = k; G.peak = std::max<uint64_t>(G.peak, layer.size());
		if (O.verbose) fprintf(stderr, "layer %u: %zu states, %zu exprs, %.1fs, q=%llu (%.1fs) P=%zu\n", k, layer.size(), exprCount(), elapsed(), (unsigned long long)g_sstats.queries, g_sstats.seconds, g_P.size());
		if (g_Pgrew && !g_concrete && elapsed() - g_PgrewAt > 0.3) throw Restart{};
		if (k >= O.maxLayers) { // every thread program is finite: still running at this depth means it does not terminate within the bound
			State& q = *layer.begin()->second; if (g_Pgrew) throw Restart{}; for (unsigned t = 0; t < q.th.size(); t++) if (!q.th[t].finished) q.cur = t; if (O.livelock) failIf(q, mkTrue(), "nontermination", "still running after " + std::to_string(k) + " visible steps"); g_inconclusive = true; g_incWhy = "step bound reached"; throw StopRun{}; }
		next.clear();
		for (auto& kv : layer) {
			State& st = *kv.second; checkBudget();
			bool allDone = true; for (auto& t : st.th) if (!t.finished) allDone = false;
			if (allDone) { G.finals++; if (!g_concrete) { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; if (g_rng % G.finals == 0) g_sample = *st.model; } if (g_concrete) collectTrace(st, true); continue; }
			struct Cand { int t; E en; int pre; bool lazy = false; }; std::vector<Cand> cand; std::vector<E> en(st.th.size()); E none = mkTrue(); bool anyAwake = false, soft = false;
			for (unsigned t = 0; t < st.th.size(); t++) { if (softWait(st, t)) soft = true; en[t] = enabledCond(st, t); if (en[t]->isFalse()) continue; none = mkAnd(none, mkNot(en[t])); if (!st.th[t].yielded) anyAwake = true; }
			// a wait that times out only when nothing else can run; threads take turns at that
			E lazyNone = none; int lazyMin = 1 << 30; bool lazies = false; for (unsigned t = 0; t < st.th.size(); t++) if (lazyWait(st, t)) { lazies = true; lazyMin = std::min(lazyMin, st.th[t].lazy); }
			std::vector<E> lz(st.th.size()); if (lazies && !none->isFalse()) for (unsigned t = 0; t < st.th.size(); t++) if (lazyWait(st, t) && st.th[t].lazy == lazyMin) { lz[t] = mkAnd(lazyNone, enabledCond(st, t, true)); none = mkAnd(none, mkNot(lz[t])); }
			if (lazies) { soft = false; for (unsigned t = 0; t < st.th.size(); t++) if (softWait(st, t) && !lazyWait(st, t)) soft = true;
				if (lazyMin >= 8 && !lazyNone->isFalse()) { std::shared_ptr<Model> m; if (feasible(st, lazyNone, &m)) { State q = st; for (unsigned t = 0; t < q.th.size(); t++) if (lazyWait(q, t)) q.cur = t; assumeC(q, lazyNone); q.model = m; failIf(q, mkTrue(), "nontermination", "its wait keeps timing out while no other thread can run"); } continue; } }
			{ // deadlock / lost wake-up
				G.obligations++; std::shared_ptr<Model> m;
				if (none->isFalse() || soft) g_sstats.syntactic++;
				else if (feasible(st, none, &m)) {
					std::string msg = "no thread can continue:"; std::vector<std::string> stk; for (unsigned t = 0; t < st.th.size(); t++) if (!st.th[t].finished) { msg += " t" + std::to_string(t) + " blocked;"; for (auto& x : stackOf(st, t)) stk.push_back("t" + std::to_string(t) + ": " + x); }
					Violation v; v.kind = "deadlock"; v.msg = msg; v.model = *m; v.stack = stk; g_viol.clear(); g_viol.push_back(v); if (g_concrete) collectTrace(st, true); throw StopRun{};
				}
			}
			// with a preemption bound, leaving a thread that could go on is counted (and refused once the bound is reached)
			auto addCand = [&](int t, E e) {
				if (O.preempt < 0 || st.last < 0 || st.last == t || st.th[st.last].finished || st.th[st.last].yielded || softWait(st, st.last)) { cand.push_back({t, e, st.pre}); return; }
				E le = en[st.last]; E blk = mkAnd(e, mkNot(le)); if (!blk->isFalse()) cand.push_back({t, blk, st.pre});
				if (st.pre < O.preempt) { E go = mkAnd(e, le); if (!go->isFalse()) cand.push_back({t, go, st.pre + 1}); } };
			for (unsigned t = 0; t < st.th.size(); t++) if (!en[t]->isFalse() && (!st.th[t].yielded || !anyAwake)) addCand(t, en[t]);
			for (unsigned t = 0; t < st.th.size(); t++) if (lz[t] && !lz[t]->isFalse()) cand.push_back({(int)t, lz[t], st.pre, true});
			// a yielded thread may run although others are only conditionally enabled: when all awake ones are blocked
			E awakeNone = mkTrue(); for (unsigned t = 0; t < st.th.size(); t++) if (!en[t]->isFalse() && !st.th[t].yielded) awakeNone = mkAnd(awakeNone, mkNot(en[t]));
			if (anyAwake) for (unsigned t = 0; t < st.th.size(); t++) if (st.th[t].yielded && !en[t]->isFalse() && !awakeNone->isFalse()) addCand(t, mkAnd(en[t], awakeNone));
			// schedule choice: the first candidate with its variable set runs, the last one otherwise
			std::vector<E> pick(cand.size(), mkTrue()), rv(cand.size()); int only = -1; E valid = mkTrue(); g_ends.clear();
			for (size_t i = 0; i < cand.size(); i++) rv[i] = cand.size() > 1 ? mkVar("s" + std::to_string(k) + "." + std::to_string(cand[i].t) + (cand[i].lazy ? "z" : cand[i].pre > st.pre ? "p" : ""), 1) : mkTrue();
			if (cand.size() > 1) {
				E none2 = mkTrue(); for (size_t i = 0; i < cand.size(); i++) { if (i + 1 == cand.size()) { pick[i] = none2; break; } E r = rv[i]; pick[i] = mkAnd(none2, r); none2 = mkAnd(none2, mkNot(r)); if (g_concrete && only < 0 && r->k < g_fixed.size() && g_fixed[r->k]) only = i; }
				if (g_concrete && only < 0) only = cand.size() - 1;
				if (!g_concrete) { E some = mkFalse(); bool triv = true; for (size_t i = 0; i < cand.size(); i++) { if (!cand[i].en->isTrue()) triv = false; some = mkOr(some, mkAnd(pick[i], cand[i].en)); } if (!triv) valid = some; }
				else if (!evalModel(cand[only].en, g_fixed)) { for (size_t i = 0; i < cand.size(); i++) if (evalModel(cand[i].en, g_fixed)) { only = i; break; } }
			}
			for (size_t ci = 0; ci < cand.size(); ci++) { int t = cand[ci].t;
				if (only >= 0 && (int)ci != only) continue;
				std::shared_ptr<Model> m; E cond = cand[ci].en;
				if (!feasible(st, cond, &m)) continue;
				G.steps++; StateP c = std::make_shared<State>(st); c->model = m; if (!cond->isTrue()) assumeC(*c, cond);
				if (!g_concrete && !pick[ci]->isTrue()) { addConj(*c, pick[ci]); auto mm = std::make_shared<Model>(*c->model); if (mm->size() < g_vars.size()) mm->resize(g_vars.size(), 0); for (size_t i = 0; i + 1 < cand.size() && i <= ci; i++) (*mm)[rv[i]->k] = i == ci; c->model = mm; }
				c->th[t].yielded = false; if (cand[ci].lazy) c->th[t].lazy++; c->cur = t; c->force = true; c->stepInsts = 0; c->sliceSeq = 0; if (O.preempt >= 0) { c->last = t; c->pre = cand[ci].pre; }
				g_work.push_back(c); runAll(next);
			}
			closeStep(st.conj, st.guard, cand.size() > 1 ? valid : cand.empty() ? mkFalse() : cand[0].en);
		}
		flushRaces(); layer.swap(next);
	}
	flushRaces();
}
static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

// the type information of fundamental types lives in libstdc++: give it a name (types are compared by it)
static void nameTypes(Module& M) {
	// libstdc++ 13 unlocks the lock bit of atomic<shared_ptr> with a relaxed operation on the path of a load; that is its business, not the library's
	for (auto& F : M) for (auto& B : F) for (auto& I : B) if (auto* c = dyn_cast<CallBase>(&I)) if (auto* k = c->getCalledFunction()) if (k->getName().contains("_Atomic_count6unlock") && c->arg_size() == 2) if (auto* ci = dyn_cast<ConstantInt>(c->getArgOperand(1))) if (ci->isZero()) c->setArgOperand(1, ConstantInt::get(ci->getType(), 3));
	std::vector<GlobalVariable*> ext; for (auto& g : M.globals()) if (!g.hasInitializer() && g.getName().starts_with("_ZTI") && !g.getName().starts_with("_ZTISt")) ext.push_back(&g);
	for (auto* g : ext) { auto& C = M.getContext(); auto* pt = PointerType::get(C, 0); auto* str = ConstantDataArray::getString(C, g->getName().substr(4)); auto* nm = new GlobalVariable(M, str->getType(), true, GlobalValue::InternalLinkage, str, "rt_ts." + g->getName()); Constant* f[] = {ConstantPointerNull::get(pt), nm};
		auto* st = ConstantStruct::getAnon(f); auto* n = new GlobalVariable(M, st->getType(), true, GlobalValue::InternalLinkage, st); n->takeName(g); g->replaceAllUsesWith(n); g->eraseFromParent(); }
}
// ------------------------------------------------------------------ native emission
static int emitNative(const std::string& out, bool tsan) {
	Module& M = *g_mod; LLVMContext& C = M.getContext(); auto* vt = Type::getVoidTy(C);
	FunctionCallee op = M.getOrInsertFunction("__vp_n_op", vt);
	FunctionCallee spur = M.getOrInsertFunction("__vp_n_spur", Type::getInt1Ty(C));
	for (auto& F : M) {
		if (F.isDeclaration()) continue;
		if (F.getName().starts_with("vpx_") || F.getName().starts_with("rt_")) continue;
		F.addFnAttr(tsan ? Attribute::SanitizeThread : Attribute::SanitizeAddress);
		std::vector<Instruction*> at; std::vector<AtomicCmpXchgInst*> weak;
		for (auto& B : F) for (auto& I : B) { bool a = false; if (auto* l = dyn_cast<LoadInst>(&I)) a = l->isAtomic(); else if (auto* s = dyn_cast<StoreInst>(&I)) a = s->isAtomic(); else a = isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I); if (a) at.push_back(&I); if (auto* c = dyn_cast<AtomicCmpXchgInst>(&I)) if (c->isWeak()) weak.push_back(c); }
		for (auto* I : at) { IRBuilder<> B(I); B.CreateCall(op); }
		for (auto* c : weak) { // a spurious failure returns {old, false} without writing; modelled by comparing with a value that cannot match
			IRBuilder<> B(c); Value* sp = B.CreateCall(spur); Value* cmp = c->getCompareOperand(); Type* ty = cmp->getType(); (void)ty;
			// succeed-only-if !sp: exchange expected by itself when sp (no change of value), and report failure
			Value* nv = B.CreateSelect(sp, cmp, c->getNewValOperand()); c->setOperand(2, nv); B.SetInsertPoint(c->getNextNode());
			Value* ok = B.CreateExtractValue(c, 1); Value* ok2 = B.CreateAnd(ok, B.CreateNot(sp)); Value* agg = B.CreateInsertValue(c, ok2, 1);
			c->replaceUsesWithIf(agg, [&](Use& u) { return u.getUser() != ok && u.getUser() != agg; });
		}
	}
	// redirect modelled functions (those with a vpx_ definition)
	std::vector<std::pair<Function*, Function*>> red; for (auto& F : M) if (F.getName().starts_with("vpx_") && !F.isDeclaration()) if (Function* g = M.getFunction(F.getName().substr(4))) red.push_back({g, &F});
	for (auto& p : red) p.first->replaceAllUsesWith(p.second);
	for (auto& F : M) if (F.getName().starts_with("vp_asm_") && F.isDeclaration()) { Function* g = M.getFunction(F.getName().substr(7)); if (g) g->setLinkage(GlobalValue::ExternalLinkage); F.replaceAllUsesWith(g ? (Constant*)g : ConstantPointerNull::get(cast<PointerType>(F.getType()))); }
	std::vector<Function*> drop; for (auto& F : M) if (F.getName().starts_with("vpe_")) drop.push_back(&F);
	for (auto* F : drop) { F->deleteBody(); }
	if (Function* m = M.getFunction("main")) m->setName("vp_harness_main");
	std::error_code ec; raw_fd_ostream os(out, ec, sys::fs::OF_None); WriteBitcodeToFile(M, os); return ec ? 1 : 0;
}

// every use of a thread-local variable goes through llvm.threadlocal.address
static void lowerTls(Module& M) {
	std::vector<Constant*> gs; for (auto& g : M.globals()) if (g.isThreadLocal()) gs.push_back(&g);
	if (gs.empty()) return; convertUsersOfConstantsToInstructions(gs);
	for (auto* c : gs) { auto* g = cast<GlobalVariable>(c); std::vector<std::pair<Instruction*, unsigned>> us;
		for (auto& u : g->uses()) if (auto* I = dyn_cast<Instruction>(u.getUser())) { if (auto* cb = dyn_cast<CallBase>(I)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName().starts_with("llvm.")) { if (cb->getCalledFunction()->getName().starts_with("llvm.threadlocal.address") || cb->getCalledFunction()->getName().starts_with("llvm.invariant")) continue; } us.push_back({I, u.getOperandNo()}); }
		for (auto& u : us) { Instruction* at = u.first; if (auto* ph = dyn_cast<PHINode>(at)) at = ph->getIncomingBlock(u.second)->getTerminator(); IRBuilder<> B(at); u.first->setOperand(u.second, B.CreateThreadLocalAddress(g)); } }
}
// ------------------------------------------------------------------ assembly
// A naked function (its body is exactly its inline assembly) is translated to operations on a cpu state that is passed
// by pointer: vp_asm_NAME(vp_cpu*) executes the assembly of NAME up to its return. Layout of vp_cpu: see rt/vp.h.
struct AsmXlat {
	Module& M; LLVMContext& C; IRBuilder<> B; Value* cpu; std::string where; Type *i64, *i32, *i16, *i8; bool ended = false;
	AsmXlat(Module& M) : M(M), C(M.getContext()), B(M.getContext()) { i64 = B.getInt64Ty(); i32 = B.getInt32Ty(); i16 = B.getInt16Ty(); i8 = B.getInt8Ty(); }
	[[noreturn]] void bad(const std::string& x) { throw Unsupported{"assembly in " + where + ": " + x}; }
	Value* fld(unsigned off) { return B.CreateGEP(i8, cpu, B.getInt64(off)); }
	struct Reg { int n; unsigned bits; };
	Reg reg(std::string r) { static const char* q[16] = {"rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"}; static const char* d[8] = {"eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"};
		for (int i = 0; i < 16; i++) if (r == q[i]) return {i, 64}; for (int i = 0; i < 8; i++) if (r == d[i]) return {i, 32}; for (int i = 8; i < 16; i++) if (r == std::string(q[i]) + "d") return {i, 32}; bad("register " + r); }
	Value* get(Reg r) { Value* v = B.CreateLoad(i64, fld(r.n * 8)); return r.bits == 64 ? v : B.CreateTrunc(v, i32); }
	void set(Reg r, Value* v) { if (r.bits == 32) v = B.CreateZExt(v, i64); B.CreateStore(v, fld(r.n * 8)); }
	static std::string trim(std::string s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
	int64_t num(const std::string& s0) { std::string s = trim(s0); bool neg = false; size_t i = 0; int64_t t = 0, acc = 0; bool first = true, mul = false; // sums and products of numbers
		std::string x; for (char c : s) if (c != '(' && c != ')' && c != ' ') x += c; (void)neg; int sign = 1; 
		while (i < x.size()) { if (x[i] == '-' || x[i] == '+') { if (!first && !mul) { acc += t; t = 0; sign = 1; } if (x[i] == '-') sign = -sign; i++; continue; } if (x[i] == '*') { mul = true; i++; continue; } size_t used = 0; int64_t v; try { v = (int64_t)std::stoull(x.substr(i), &used, 0); } catch (...) { bad("number " + s); } i += used; if (mul) { t *= v; mul = false; } else { t = sign * v; sign = 1; } first = false; if (i < x.size() && x[i] != '+' && x[i] != '-' && x[i] != '*') bad("number " + s); }
		return acc + t; }
	bool isMem(const std::string& o) { return !o.empty() && o[0] != '%' && o[0] != '$' ? true : o.rfind("%fs:", 0) == 0; }
	Value* ea(std::string o) { // effective address
		bool fs = o.rfind("%fs:", 0) == 0; if (fs) o = trim(o.substr(4)); size_t p = o.rfind('('), rp = o.rfind(')'); std::string d = o, in;
		if (p != std::string::npos && o.find('%', p) != std::string::npos) { d = o.substr(0, p); in = o.substr(p + 1, rp - p - 1); }
		Value* a = B.getInt64(trim(d).empty() ? 0 : num(d)); std::vector<std::string> parts; { std::string cur; for (char c : in) if (c == ',') { parts.push_back(trim(cur)); cur.clear(); } else cur += c; if (!trim(cur).empty() || parts.size()) parts.push_back(trim(cur)); }
		auto R = [&](const std::string& x) { if (x[0] != '%') bad("operand " + o); Reg r = reg(x.substr(1)); if (r.bits != 64) bad("operand " + o); return get(r); };
		if (parts.size() > 0 && !parts[0].empty()) a = B.CreateAdd(a, R(parts[0])); if (parts.size() > 1 && !parts[1].empty()) { Value* ix = R(parts[1]); if (parts.size() > 2) ix = B.CreateMul(ix, B.getInt64(num(parts[2]))); a = B.CreateAdd(a, ix); }
		if (fs) a = B.CreateAdd(a, B.CreatePtrToInt(fld(OFF_FS), i64)); return a; }
	static constexpr unsigned OFF_RIP = 128, OFF_MXCSR = 136, OFF_CW = 140, OFF_FS = 144;
	Value* mem(Value* a) { return B.CreateIntToPtr(a, PointerType::get(C, 0)); }
	Value* ld(Value* a, unsigned bits) { return B.CreateLoad(B.getIntNTy(bits), mem(a)); }
	Value* val(const std::string& o, unsigned bits) { if (isMem(o)) return ld(ea(o), bits); if (o[0] == '$') return ConstantInt::get(B.getIntNTy(bits), (uint64_t)num(o.substr(1)), true); Reg r = reg(o.substr(1)); if (r.bits != bits) bad("operand size of " + o); return get(r); }
	void put(const std::string& o, Value* v, unsigned bits) { if (isMem(o)) { B.CreateStore(v, mem(ea(o))); return; } if (o[0] == '$') bad("destination " + o); Reg r = reg(o.substr(1)); if (r.bits != bits) bad("operand size of " + o); set(r, v); }
	void push(Value* v) { Value* sp = B.CreateSub(get({4, 64}), B.getInt64(8)); set({4, 64}, sp); B.CreateStore(v, mem(sp)); }
	Value* pop() { Value* sp = get({4, 64}); Value* v = ld(sp, 64); set({4, 64}, B.CreateAdd(sp, B.getInt64(8))); return v; }
	void insn(std::string l) {
		size_t c; if ((c = l.find("//")) != std::string::npos) l = l.substr(0, c); if ((c = l.find('#')) != std::string::npos) l = l.substr(0, c); while ((c = l.find("/*")) != std::string::npos) { size_t e = l.find("*/", c); l = l.substr(0, c) + (e == std::string::npos ? "" : l.substr(e + 2)); } l = trim(l); if (l.empty()) return; if (ended) bad("code after the return: " + l);
		size_t sp = l.find_first_of(" \t"); std::string m = l.substr(0, sp), rest = sp == std::string::npos ? "" : trim(l.substr(sp)); if (m.back() == ':' || (m[0] == '.' )) { if (m.rfind(".cfi", 0) == 0 || m.rfind(".p2align", 0) == 0 || m.rfind(".align", 0) == 0) return; bad(l); }
		std::vector<std::string> o; { int d = 0; std::string cur; for (char ch : rest) { if (ch == '(') d++; if (ch == ')') d--; if (ch == ',' && !d) { o.push_back(trim(cur)); cur.clear(); } else cur += ch; } if (!trim(cur).empty()) o.push_back(trim(cur)); }
		auto sized = [&](const char* base, unsigned& bits) { std::string b = base; if (m == b + "q") { bits = 64; return true; } if (m == b + "l") { bits = 32; return true; } if (m == b) { bits = 0; for (auto& x : o) if (x[0] == '%' && x.rfind("%fs:", 0)) bits = reg(x.substr(1)).bits; if (!bits) bad(l); return true; } return false; };
		auto need = [&](size_t n) { if (o.size() != n) bad(l); }; unsigned b = 64;
		if (m == "movabsq" || m == "movabs") { need(2); put(o[1], val(o[0], 64), 64); }
		else if (sized("mov", b)) { need(2); put(o[1], val(o[0], b), b); }
		else if (sized("lea", b)) { need(2); if (!isMem(o[0])) bad(l); Value* a = ea(o[0]); put(o[1], b == 64 ? a : B.CreateTrunc(a, i32), b); }
		else if (sized("add", b)) { need(2); put(o[1], B.CreateAdd(val(o[1], b), val(o[0], b)), b); }
		else if (sized("sub", b)) { need(2); put(o[1], B.CreateSub(val(o[1], b), val(o[0], b)), b); }
		else if (sized("and", b)) { need(2); put(o[1], B.CreateAnd(val(o[1], b), val(o[0], b)), b); }
		else if (sized("or", b)) { need(2); put(o[1], B.CreateOr(val(o[1], b), val(o[0], b)), b); }
		else if (sized("xor", b)) { need(2); put(o[1], o[0] == o[1] ? (Value*)ConstantInt::get(B.getIntNTy(b), 0) : B.CreateXor(val(o[1], b), val(o[0], b)), b); }
		else if (sized("inc", b)) { need(1); put(o[0], B.CreateAdd(val(o[0], b), ConstantInt::get(B.getIntNTy(b), 1)), b); }
		else if (sized("dec", b)) { need(1); put(o[0], B.CreateSub(val(o[0], b), ConstantInt::get(B.getIntNTy(b), 1)), b); }
		else if (sized("xchg", b)) { need(2); Value *x = val(o[0], b), *y = val(o[1], b); put(o[0], y, b); put(o[1], x, b); }
		else if (m == "push" || m == "pushq") { need(1); push(val(o[0], 64)); }
		else if (m == "pop" || m == "popq") { need(1); Value* v = pop(); put(o[0], v, 64); }
		else if (m == "ret" || m == "retq") { if (o.size()) { Value* v = pop(); set({4, 64}, B.CreateAdd(get({4, 64}), B.getInt64(num(o[0].substr(1))))); B.CreateStore(v, fld(OFF_RIP)); } else B.CreateStore(pop(), fld(OFF_RIP)); ended = true; }
		else if (m == "jmp" || m == "jmpq") { need(1); if (o[0][0] != '*') bad(l); B.CreateStore(val(trim(o[0].substr(1)), 64), fld(OFF_RIP)); ended = true; }
		else if (m == "stmxcsr") { need(1); B.CreateStore(B.CreateLoad(i32, fld(OFF_MXCSR)), mem(ea(o[0]))); }
		else if (m == "ldmxcsr") { need(1); B.CreateStore(ld(ea(o[0]), 32), fld(OFF_MXCSR)); }
		else if (m == "fnstcw" || m == "fstcw") { need(1); B.CreateStore(B.CreateLoad(i16, fld(OFF_CW)), mem(ea(o[0]))); }
		else if (m == "fldcw") { need(1); B.CreateStore(ld(ea(o[0]), 16), fld(OFF_CW)); }
		else if (m == "nop" || m == "endbr64" || m == "cld" || m == "rep" || m == "emms") {}
		else bad(l);
	}
	void run(Function* F, Function* to) {
		where = F->getName().str(); auto* bb = BasicBlock::Create(C, "", to); B.SetInsertPoint(bb); cpu = to->getArg(0);
		for (auto& BB : *F) for (auto& I : BB) { if (auto* cb = dyn_cast<CallBase>(&I)) { if (isa<DbgInfoIntrinsic>(cb)) continue; if (!cb->isInlineAsm()) bad("a call"); if (cb->arg_size()) bad("operands in a naked function"); std::string t = cast<InlineAsm>(cb->getCalledOperand())->getAsmString(), u; for (size_t i = 0; i < t.size(); i++) { if (t[i] == '$' && i + 1 < t.size() && t[i + 1] == '$') { u += '$'; i++; } else u += t[i]; }
				std::string line; for (char ch : u + "\n") if (ch == '\n' || ch == ';') { insn(line); line.clear(); } else line += ch; }
			else if (!isa<UnreachableInst>(I) && !isa<ReturnInst>(I) && !isa<AllocaInst>(I) && !isa<StoreInst>(I)) bad("code in a naked function"); }
		if (!ended) bad("no return"); B.CreateRetVoid(); }
};
// stmxcsr and friends on one memory operand become calls of the runtime (rt/rt_engine.cpp)
static void lowerAsm(Module& M) {
	std::vector<CallBase*> dead; for (auto& F : M) { if (F.hasFnAttribute(Attribute::Naked)) continue; for (auto& BB : F) for (auto& I : BB) if (auto* cb = dyn_cast<CallBase>(&I)) { std::string n; Value* p = nullptr;
		if (cb->isInlineAsm()) { std::string t = AsmXlat::trim(cast<InlineAsm>(cb->getCalledOperand())->getAsmString()); for (const char* m : {"stmxcsr", "ldmxcsr", "fnstcw", "fstcw", "fldcw"}) if (t.rfind(m, 0) == 0 && AsmXlat::trim(t.substr(strlen(m))) == "$0" && cb->arg_size() == 1 && cb->getArgOperand(0)->getType()->isPointerTy()) { n = m; p = cb->getArgOperand(0); } if (n == "fstcw") n = "fnstcw"; }
		else if (auto* f = cb->getCalledFunction()) { if (f->getName() == "llvm.x86.sse.stmxcsr") n = "stmxcsr"; if (f->getName() == "llvm.x86.sse.ldmxcsr") n = "ldmxcsr"; if (!n.empty()) p = cb->getArgOperand(0); }
		if (n.empty()) continue; IRBuilder<> B(cb); B.CreateCall(M.getOrInsertFunction("vpe_asm_" + n, B.getVoidTy(), p->getType()), {p}); dead.push_back(cb); } }
	for (auto* c : dead) c->eraseFromParent();
	std::vector<std::pair<Function*, Function*>> w; for (auto& F : M) if (F.hasFnAttribute(Attribute::Naked) && !F.isDeclaration()) if (Function* t = M.getFunction(("vp_asm_" + F.getName()).str())) if (t->isDeclaration()) w.push_back({&F, t});
	for (auto& p : w) { AsmXlat x(M); x.run(p.first, p.second); }
}
int main(int argc, char** argv) {
	std::string bc, out, native; bool tsan = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
		if (a == "--out") out = nx(); else if (a == "--trace") O.trace = nx(); else if (a == "--max-layers") O.maxLayers = std::stoul(nx()); else if (a == "--time") O.timeLimit = std::stod(nx()); else if (a == "--seed") O.seed = std::stoul(nx()); else if (a == "-v") O.verbose = true; else if (a == "--native") native = nx(); else if (a == "--tsan") tsan = true; else if (a == "--no-races") O.races = false; else if (a == "--no-merge") O.noMerge = true; else if (a == "--max-insts") O.maxInsts = std::stoull(nx()); else if (a == "--all-visible") O.allVisible = true; else if (a == "--merge-all") { O.keyP = false; O.keyLevel = 0; } else if (a == "--merge") { O.keyLevel = std::stoi(nx()); O.keyP = O.keyLevel > 0; } else if (a == "--preempt") O.preempt = std::stoi(nx()); else if (a == "--mem") O.memMB = std::stoul(nx()); else bc = a;
	}
	g_t0 = std::chrono::steady_clock::now();
	SMDiagnostic err; g_mod = parseIRFile(bc, err, g_ctx); if (!g_mod) { err.print("vpe", errs()); return 3; }
	DL = &g_mod->getDataLayout();
	if (!native.empty()) return emitNative(native, tsan);
	for (auto& F : *g_mod) for (auto& BB : F) for (auto& I : BB) if (auto* fi = dyn_cast<FenceInst>(&I)) g_fences |= fi->getSyncScopeID() != SyncScope::SingleThread;
	nameTypes(*g_mod);
	lowerTls(*g_mod); std::string asmUnsup; try { lowerAsm(*g_mod); } catch (Unsupported& u) { asmUnsup = u.what; }
	solverInit(120000, O.seed); g_rng += O.seed * 2654435761u;
	Function* mainF = g_mod->getFunction("main"); if (!mainF) { fprintf(stderr, "no main\n"); return 3; }
	std::string status = "ok", unsupWhat; double t_explore = 0;
	try {
		if (!asmUnsup.empty()) throw Unsupported{asmUnsup};
		while (true) {
			try { runOnce(mainF); if (g_Pgrew) continue; break; }
			catch (Restart&) { continue; }
			catch (StopRun&) { if (g_Pgrew && !g_inconclusive) continue; break; }
		}
	} catch (Unsupported& u) { unsupWhat = u.what; status = "unsupported"; }
	t_explore = elapsed();
	if (status == "ok") { if (!g_viol.empty()) status = "violation"; else if (!g_incomplete.empty()) { unsupWhat = g_incomplete; status = "unsupported"; } else if (g_inconclusive) status = "inconclusive"; }
	Violation viol; if (!g_viol.empty()) viol = g_viol[0];
	Stats ex = G; auto reach = g_reach; auto checks = g_checks; auto used = g_used; SolverStats ss = g_sstats;
	// concrete re-execution of the solver's assignment (or, without violation, of an arbitrary complete run)
	std::string rerun = "none"; 
	if (status == "violation" || status == "ok") {
		g_concrete = true; g_fixed = status == "violation" ? viol.model : g_sample;
		g_inconclusive = false; O.timeLimit += 120;
		try { runOnce(mainF); rerun = g_viol.empty() ? "completed" : "violation"; } catch (StopRun&) { rerun = g_viol.empty() ? "stopped" : "violation"; } catch (Unsupported& u) { rerun = "unsupported: " + u.what; } catch (Restart&) { rerun = "restart"; }
		if (!O.trace.empty()) {
			std::ofstream t(O.trace); t << "# thread op\n"; for (auto& e : g_trace) t << "S " << e.tid << " " << e.op << " " << e.what << "\n"; for (auto& p : g_parks) t << "K " << p.first << " " << p.second << "\n"; for (auto& e : g_inputs) t << "I " << e << "\n"; for (auto& e : g_obs) t << "O " << e << "\n";
		}
	}
	std::string js = "{"; auto kv = [&](const std::string& k, const std::string& v) { if (js.size() > 1) js += ","; js += jstr(k) + ":" + v; };
	kv("status", jstr(status)); if (status == "unsupported") kv("why", jstr(unsupWhat)); if (status == "inconclusive") kv("why", jstr(g_incWhy));
	if (status == "violation") {
		kv("kind", jstr(viol.kind)); kv("message", jstr(viol.msg)); kv("where", jstr(viol.where)); std::string st = "["; for (auto& x : viol.stack) { if (st.size() > 1) st += ","; st += jstr(x); } kv("stack", st + "]");
		kv("rerun_kind", jstr(g_viol.empty() ? rerun : g_viol[0].kind)); kv("rerun_message", jstr(g_viol.empty() ? "" : g_viol[0].msg));
	}
	kv("rerun", jstr(rerun));
	auto n = [&](const char* k, double v) { char b[64]; snprintf(b, 64, "%.10g", v); kv(k, b); }; n("threads", g_maxThreads);
	n("states", ex.states); n("steps", ex.steps); n("merges", ex.merges); n("forks", ex.forks); n("insts", ex.insts); n("layers", ex.maxLayer); n("max_layers", O.maxLayers); if (O.preempt >= 0) n("preemption_bound", O.preempt); n("finals", ex.finals); n("terminated", ex.terminated); n("runs", ex.runs); n("obligations", ex.obligations); n("race_checks", ex.raceChecks); n("peak_layer", ex.peak);
	kv("closing_query", jstr(g_closed >= -1 && g_closed <= 0 && status == "ok" ? "unsat: every schedule and input within the bound is covered" : g_closed == 1 ? "sat" : "not run or unknown")); n("closing_s", g_closeS); n("closing_steps", g_closeN); n("closing_steps_by_simplifier", g_closeSyn);
	n("queries", ss.queries); n("sat", ss.sat); n("unsat", ss.unsat); n("unknown", ss.unknown); n("by_model", ss.bymodel); n("syntactic", ss.syntactic); n("solver_s", ss.seconds); n("wall_s", t_explore); n("exprs", exprCount()); n("schedule_vars", g_vars.size()); n("visible_locations", g_P.size());
	std::string a = "{"; for (auto& p : reach) { if (a.size() > 1) a += ","; a += jstr(p.first) + ":" + std::to_string(p.second); } kv("reach", a + "}");
	{ std::set<std::string> exp; std::set<const Value*> seenV; std::vector<const Value*> wv{mainF}; if (auto* gc = g_mod->getGlobalVariable("llvm.global_ctors")) wv.push_back(gc);
	  while (!wv.empty()) { const Value* v = wv.back(); wv.pop_back(); if (!seenV.insert(v).second) continue; if (auto* F = dyn_cast<Function>(v)) { for (auto& BB : *F) for (auto& I : BB) for (auto& o : I.operands()) if (isa<Constant>(o.get())) wv.push_back(o.get()); } else if (auto* u = dyn_cast<User>(v)) for (auto& o : u->operands()) wv.push_back(o.get()); }
	  for (auto& F : *g_mod) if (seenV.count(&F)) for (auto& BB : F) for (auto& I : BB) if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "vp_reach") { StringRef sr; if (getConstantStringInfo(cb->getArgOperand(0), sr)) exp.insert(sr.str()); } a = "["; for (auto& x : exp) { if (a.size() > 1) a += ","; a += jstr(x); } kv("reach_expected", a + "]"); }
	a = "{"; for (auto& p : checks) { if (a.size() > 1) a += ","; a += jstr(p.first) + ":" + std::to_string(p.second); } kv("checks", a + "}");
	a = "["; std::set<std::string> fnset; for (auto* f : used) { std::string d = demangle(f->F->getName().str()); if (d.find("asyncpp::") != std::string::npos && d.find("asyncpp::") < 200) fnset.insert(d.substr(0, 160)); } for (auto& d : fnset) { if (a.size() > 1) a += ","; a += jstr(d); } kv("functions", a + "]");
	a = "["; for (auto& p : g_vars) if (p.name.compare(0, 3, "in.") == 0) { if (a.size() > 1) a += ","; a += jstr(p.name + ":" + std::to_string(p.w)); } kv("inputs", a + "]");
	a = "["; int cnt = 0; for (auto& e : g_trace) { if (cnt++ > 400) break; if (a.size() > 1) a += ","; a += jstr("t" + std::to_string(e.tid) + " " + e.what); } kv("trace", a + "]");
	a = "["; for (auto& e : g_inputs) { if (a.size() > 1) a += ","; a += jstr(e); } kv("trace_inputs", a + "]");
	a = "["; for (auto& e : g_obs) { if (a.size() > 1) a += ","; a += jstr(e); } kv("observations", a + "]");
	js += "}\n";
	if (!out.empty()) { std::ofstream o(out); o << js; } else fputs(js.c_str(), stdout);
	return status == "ok" ? 0 : status == "violation" ? 1 : 2;
}
