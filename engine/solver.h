#pragma once
#include "expr.h"
#include <memory>
#include <string>
namespace sx {
enum class SR { SAT, UNSAT, UNKNOWN };
typedef std::shared_ptr<Model> ModelP;
struct PC { E c; std::shared_ptr<PC> up; int depth; };
typedef std::shared_ptr<PC> PCP;
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; uint64_t sweeps = 0, merged = 0, abstractions = 0, repaired = 0; double time = 0, maxTime = 0, sweepTime = 0; };
extern SolverStats g_sstats;
extern unsigned g_timeoutMs;
// Is pc && extra satisfiable?  base: a model of pc (may be null).  On SAT, out receives a model of pc && extra.
SR query(const PCP& pc, E extra, const ModelP& base, ModelP* out);
double now();
}
