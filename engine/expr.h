// Hash-consed bit-vector / floating-point expression DAG (widths 1..64).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <stdexcept>
#include <functional>

namespace sx {

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FRTI, FLT, FLE, FEQ, FISNAN,
  FTOS, FTOU, STOF, UTOF, FEXT, FTRUNC
};

struct Expr {
  Op op; bool fp; uint16_t w; uint32_t id;
  const Expr *a, *b, *c;
  uint64_t v;             // const value / var index / extract low bit / rounding mode
  uint32_t depth;
  std::vector<uint32_t>* vars = nullptr; // lazily computed sorted variable ids
};
typedef const Expr* E;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
extern uint64_t g_nexprs;

E mkC(unsigned w, uint64_t v);
E mkVar(unsigned w, const std::string& name);
E mkBin(Op op, E a, E b);
E mkUn(Op op, E a, unsigned w, uint64_t v = 0);
E mkIte(E c, E t, E f);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
inline E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }
inline E mkNot(E a) { return mkBin(XOR, a, mkC(1, 1)); }
inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(OR, a, b); }
inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
inline E mkImp(E a, E b) { return mkOr(mkNot(a), b); }
inline bool isC(E e) { return e->op == CONST; }
inline bool isTrue(E e) { return e->op == CONST && e->w == 1 && e->v == 1; }
inline bool isFalse(E e) { return e->op == CONST && e->w == 1 && e->v == 0; }

uint64_t foldOp(Op op, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t extra);

struct Model {
  std::unordered_map<uint32_t, uint64_t> val;   // var index -> value (default 0)
  std::unordered_map<uint32_t, uint64_t> memo;  // expr id -> value
  uint64_t eval(E e);
};

const std::vector<uint32_t>& varsOf(E e);
std::string show(E e, int depth = 6);
unsigned knownTZ(E e); // number of known trailing zero bits

} // namespace sx
