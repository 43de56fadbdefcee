// Path condition bookkeeping and the Z3 back end.
#pragma once
#include "expr.h"
#include <bitset>
#include <memory>
#include <deque>

enum Sat { UNSAT, SAT_, UNKNOWN };

struct SolverStats {
    u64 z3Queries = 0, z3Sat = 0, z3Unsat = 0, z3Unknown = 0, domainDecided = 0, modelDecided = 0, cacheHits = 0, cexHits = 0;
    u64 assertQueries = 0, assertProved = 0, assertTrivial = 0;
    double z3Seconds = 0, z3MaxSeconds = 0;
};
extern SolverStats g_sstats;
extern u64 g_intDecided; // queries decided over the integers

typedef std::bitset<256> Dom;

struct PathCond {
    std::vector<Expr*> cons;
    Model model; // always satisfies cons
    bool known(Expr* c, bool& val) const;
    void add(Expr* c, bool truth = true);
    void popTo(size_t n);
    size_t size() const { return cons.size(); }
    // Is cons && c satisfiable?  On SAT fills out with a full model.
    Sat mayBeTrue(Expr* c, Model& out, bool forceSolver = false);
    bool contradictory = false;
    const Dom* domainOf(u32 var) const;
    u32 multiCount(u32 var) const { return var < multi.size() ? multi[var] : 0; }

private:
    void addAtom(Expr* c, bool truth);
    std::unordered_map<Expr*, bool> knownMap;
    struct Undo { Expr* knownKey; s32 domVar; Dom oldDom; std::vector<u32>* multiVars; };
    std::vector<Undo> undo;
    std::vector<size_t> undoMark; // per cons entry
    std::vector<Dom> dom;
    std::vector<char> domInit;
    std::vector<u32> multi;
    void ensureVar(u32 v);
    std::vector<Expr*> slice(Expr* c);
};

const Dom& truthTable(Expr* c); // c over a single 8-bit variable
void solverInit(u64 rlimit);
Sat z3Check(const std::vector<Expr*>& cs, Model& update);
