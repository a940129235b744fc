#pragma once
#include "expr.h"
#include <z3.h>

struct PathCond {
    std::vector<Expr*> cs;                           // every constraint added
    std::vector<std::pair<u32, Bits256>> dom;        // domains of byte variables (unary constraints)
    std::vector<u32> entangled;                      // sorted: variables in some multi-variable/wide constraint
    Model model;                                     // satisfies cs
    std::unordered_map<Expr*, u64> conc;             // expressions with a single feasible value
    Bits256* domain(u32 v) { for (auto& p : dom) if (p.first == v) return &p.second; return nullptr; }
    bool isEntangled(u32 v) const { return std::binary_search(entangled.begin(), entangled.end(), v); }
};

struct SolverStats {
    u64 queries = 0, fast = 0, modelHits = 0, cacheHits = 0, z3calls = 0, z3sat = 0, z3unsat = 0, z3unknown = 0;
    u64 asserts = 0, assertsZ3 = 0;
    double z3time = 0, z3max = 0;
};
extern SolverStats gSt;
extern unsigned gZ3TimeoutMs;

enum SatRes { RUnsat, RSat, RUnknown };

// is pc && c satisfiable? on Sat, out (if non-null) receives a model of pc && c
SatRes maySat(PathCond& pc, Expr* c, Model* out);
// same, always decided by z3 on the independent slice (used for assertions)
SatRes maySatZ3(PathCond& pc, Expr* c, Model* out);
// does the path already settle c, as one of its constraints or by the domain of a byte? -1 when unknown
int knownTruth(PathCond& pc, Expr* c);
// add a constraint known to be satisfiable; model must satisfy it (either it already does, or newModel is given)
void addConstraint(PathCond& pc, Expr* c, const Model* newModel);

// a constraint which only defines new variables (the decimal digits of v): any value of v the
// other constraints allow can be extended to them
struct Definition { Expr* v; std::vector<Expr*> digits; };
extern std::unordered_map<Expr*, Definition> gDefinitions;
