#pragma once
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <map>
#include <set>
#include <array>
#include <functional>

static const unsigned MAXT = 10;

struct Val { E e = nullptr; std::shared_ptr<std::vector<Val>> agg; };
struct Operand { int reg = -1; Val c; };
struct Inst {
	llvm::Instruction* I = nullptr;
	unsigned opc = 0;
	int dst = -1;
	unsigned w = 0;                     // result width (scalar)
	std::vector<Operand> ops;
	std::vector<int> succ;              // block start indices
	std::vector<std::pair<int, Operand>> phi; // pred block id -> operand
	int bb = 0;
	int64_t gepOff = 0; std::vector<std::pair<unsigned, uint64_t>> gepVar; // operand idx, scale
	unsigned len = 0;                   // memory length
	int prim = 0;                       // primitive id for calls (resolved lazily): -1 = none
	llvm::Function* callee = nullptr;
	bool isCall = false, isInvoke = false;
};
struct Fn {
	llvm::Function* F; std::vector<Inst> code; std::vector<int> bbStart; int nregs = 0, nargs = 0;
	std::vector<std::vector<uint64_t>> liveIn; // per instruction index: live regs before it (lazily)
	bool rt = false; bool nounwind = false;
	bool liveDone = false; std::vector<std::vector<uint64_t>> bbLiveOut;
};

typedef std::array<E, MAXT> VC;
struct Shadow { E w = nullptr; std::vector<std::pair<uint8_t, E>> r, aw, ar; };
typedef std::shared_ptr<Shadow> ShadowP;
struct Cell { uint32_t off, len; E e; };
struct ShRun { uint32_t off, len; ShadowP sh; };
struct Obj {
	std::vector<Cell> cells; E fill = nullptr; E live = nullptr; bool tracked = false; bool zapped = false;
	std::vector<ShRun> shadow;
	std::vector<std::pair<uint32_t, std::shared_ptr<VC>>> sync;
};
typedef std::shared_ptr<Obj> ObjP;
enum class OK { GLOBAL, FUNC, HEAP, STACK, TLS, EXT };
struct ObjInfo { uint64_t addr, size; OK kind; bool ro = false; std::string desc; llvm::Function* fn = nullptr; llvm::GlobalVariable* gv = nullptr; int tid = 0; };

static const unsigned CH = 64;
struct Chunk { std::array<ObjP, CH> o; };
struct ObjTab {
	std::vector<std::shared_ptr<Chunk>> c;
	const ObjP* get(uint32_t id) const { unsigned i = id / CH; if (i >= c.size() || !c[i]) return nullptr; const ObjP& p = c[i]->o[id % CH]; return p ? &p : nullptr; }
	ObjP& slot(uint32_t id) { unsigned i = id / CH; if (i >= c.size()) c.resize(i + 1); if (!c[i]) c[i] = std::make_shared<Chunk>(); else if (c[i].use_count() > 1) c[i] = std::make_shared<Chunk>(*c[i]); return c[i]->o[id % CH]; }
};
struct Frame {
	Fn* fn; int pc = 0; std::vector<Val> regs; std::vector<uint32_t> allocas; bool detached = false; int cleanedAt = -1; std::vector<std::pair<const llvm::Instruction*, int>> allocaCount;
};
typedef std::shared_ptr<Frame> FrameP;
struct Thread {
	std::vector<FrameP> stack; bool finished = false, fresh = false, yielded = false; uint8_t spin = 0; /* 1 has paused, 2 others wrote since, 4 own visible operation since */ int atomicDepth = 0; uint32_t ops = 0; int spur = 0; int cvspur = 0; int lazy = 0;
	VC vc; std::shared_ptr<VC> facq, frel; /* clocks for fences: seen by relaxed loads, at the last release fence */ Val lpExc; int lpSel = 0; uint32_t stackSet = 0; // id of the current (fiber) stack
	std::map<std::pair<const void*, uint64_t>, uint32_t> cnt; // allocation / nondet counters
};
struct TraceEnt { int tid; uint32_t op; std::string what; };
struct State {
	E guard; std::vector<E> conj; /* conjuncts of guard */ std::shared_ptr<Model> model; ObjTab mem; std::vector<Thread> th; int cur = 0; bool force = false; int last = -1, pre = 0; /* preemption bounding: thread of the last step, preemptions so far */
	std::map<uint32_t, int> lits; std::map<uint32_t, uint64_t> pinned;
	bool leakOn = false, expectTerm = false; int spurBudget = 0, cvBudget = 0; bool terminated = false;
	struct FiberStack { std::vector<FrameP> st; uint32_t set; };
	std::map<uint64_t, FiberStack> fibers; // suspended stacks, by saved stack pointer
	std::vector<TraceEnt> trace; std::vector<std::string> obs; std::vector<std::string> inputs;
	uint64_t stepInsts = 0; unsigned sliceSeq = 0;
	std::vector<E> pend; // race conditions of this step that remain to be refuted
};
typedef std::shared_ptr<State> StateP;
