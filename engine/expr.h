// Hash-consed bit-vector expressions with value-set ("guarded constant leaves") simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <unordered_map>
#include <utility>

enum class Op : uint8_t { CONST, VAR, NOT, AND, OR, XOR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct Expr;
typedef const Expr* E;
struct Expr {
	Op op;
	uint8_t w;       // width in bits, 1..64 (1 = boolean)
	uint16_t nl;     // number of constant leaves (0 = not a pure constant-leaf tree)
	uint32_t id;
	uint64_t k;      // constant / variable index / extract low bit
	E a, b, c;
	bool isConst() const { return op == Op::CONST; }
	bool isTrue() const { return op == Op::CONST && w == 1 && k == 1; }
	bool isFalse() const { return op == Op::CONST && w == 1 && k == 0; }
};
typedef std::vector<std::pair<uint64_t, E>> Leaves; // (value, guard) disjoint, exhaustive

E mkConst(uint64_t v, unsigned w);
E mkTrue();
E mkFalse();
E mkBool(bool b);
E mkVar(const std::string& name, unsigned w); // same name -> same variable
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkIte(E c, E a, E b);
E mkBin(Op op, E a, E b);
E mkEq(E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
const Leaves& leavesOf(E e);     // requires e->nl > 0
E fromLeaves(const Leaves& l, unsigned w);
size_t exprCount();
struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
uint64_t foldBin(Op op, uint64_t x, uint64_t y, unsigned w, bool& ok);
std::string exprStr(E e, int depth = 4);
inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

// Solver -------------------------------------------------------------
typedef std::vector<uint64_t> Model; // by variable index; missing = 0
uint64_t evalModel(E e, const Model& m);
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0; double seconds = 0; uint64_t syntactic = 0, bymodel = 0; };
extern SolverStats g_sstats;
// 1 sat (model filled), 0 unsat, -1 unknown
int solverCheck(E a, E b, Model* out);
void solverInit(unsigned timeout_ms, unsigned seed);
std::string smtlibOf(E e);
