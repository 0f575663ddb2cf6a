#pragma once
#include "expr.h"
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <map>
#include <set>
#include <memory>

namespace sx {

struct Val {
  uint64_t c = 0; E e = nullptr; std::shared_ptr<std::vector<Val>> a;
  Val() {}
  Val(uint64_t x) : c(x) {}
  static Val of(E e) { Val v; if (isC(e)) v.c = e->v; else v.e = e; return v; }
  static Val agg(std::vector<Val>&& x) { Val v; v.a = std::make_shared<std::vector<Val>>(std::move(x)); return v; }
  bool conc() const { return !e && !a; }
};
inline E toE(const Val& v, unsigned w) { if (v.a) throw Unsupported("aggregate used as scalar"); return v.e ? v.e : mkC(w, v.c); }

struct TR; typedef std::shared_ptr<TR> TRP;
struct TR { enum K { SYM, DRAW, OBS, REACH, MERGE } k; std::string name; E e = nullptr; uint64_t x = 0; TRP up, l, r; int depth = 0; };

struct Exc { uint64_t obj, ti; };
struct State {
  Mem mem; PCP pc; ModelP model; TRP trace;
  uint64_t sp = A_STACK, hp = A_HEAP;
  std::vector<std::pair<E, uint64_t>> subst;
  std::vector<Exc> caught;
  uint64_t forks = 0;
  uint64_t pin = 0;    // states with different pins are never merged
  int tid = -1;        // modelled thread (parallel region), -1 outside
};

struct Opnd { int slot = -1; Val k; };
struct GepT { int slot; uint64_t scale; unsigned w; };
struct DInst {
  unsigned op = 0; uint16_t w = 0, wa = 0; int dst = -1;
  std::vector<Opnd> o;
  std::vector<GepT> gep; uint64_t gepC = 0;
  std::vector<int> succ; std::vector<uint64_t> cases;
  llvm::Instruction* I = nullptr; llvm::Type* ty = nullptr;
  struct DFunc* callee = nullptr; int native = -1; int intrin = 0;
  int sub = -1; // predicate etc.
};
struct PhiCopy { int dst; Opnd src; };
struct Edge { int from, to; std::vector<PhiCopy> phis; std::vector<int> exits; std::vector<int> enters; std::vector<int> backs; };
struct DBlock { std::vector<DInst> ins; std::vector<Edge> edges; std::vector<int> loops; int rpo = 0; llvm::BasicBlock* bb = nullptr; std::vector<char> liveIn; };
struct DFunc {
  llvm::Function* f = nullptr; uint64_t addr = 0; bool decoded = false; bool decl = false; std::string name, pretty;
  int nslots = 0; std::vector<DBlock> b; int nloops = 0; std::vector<int> loopHeadRpo; int native = -1, rngStub = -1; uint64_t calls = 0;
  std::map<std::pair<int,int>, std::vector<char>> liveAt;
};
struct Outcome { State st; Val ret; bool thrown = false; Exc ex{0, 0}; };

struct Violation { std::string id, msg, kind, where; TRP trace; ModelP model; PCP pc; };
} // namespace sx
