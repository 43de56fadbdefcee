// Hash-consed bit-vector / IEEE-float expressions for the symbolic executor.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef int32_t s32;
typedef uint16_t u16;
typedef uint8_t u8;

enum Op : u8 {
    OConst, OVar,
    OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
    OEq, OUlt, OUle, OSlt, OSle,
    OConcat, // a = high part, b = low part
    OExtract, // aux = low bit
    OZExt, OSExt, OIte,
    // IEEE floats, operands and results are bit-vectors
    OFAdd, OFSub, OFMul, OFDiv, OFRem, OFSqrt, OFFloor, OFCeil, OFTrunc_, OFRound,
    OFEq, OFLt, OFLe, OFIsNan, // i1 results
    OFToSI, OFToUI, OSIToF, OUIToF, OFConv,
    OAgg, // aggregate; never reaches the solver
};

struct Expr;
struct SVal {
    u64 lo = 0;
    Expr* e = nullptr; // null: concrete <=64-bit value in lo
    SVal() = default;
    explicit SVal(u64 v) : lo{v} {}
    explicit SVal(Expr* e_);
    bool isConc() const { return e == nullptr; }
    bool operator==(const SVal& o) const { return lo == o.lo && e == o.e; }
};

struct VarSet { // sorted ids
    std::vector<u32> ids;
};

extern u64 g_polyDecided; // comparisons of floats decided by comparing polynomials
struct Expr {
    Op op;
    u16 width;
    u32 aux = 0;
    u32 id = 0;
    u32 depth = 1;
    Expr *a = nullptr, *b = nullptr, *c = nullptr;
    u128 val = 0;
    u128 umin = 0, umax = 0;
    VarSet* vars = nullptr;
    u64 evalEpoch = 0;
    u128 evalVal = 0;
    void* z3 = nullptr;
    std::vector<SVal>* kids = nullptr; // OAgg
    struct Exact* exact = nullptr; // what the bits denote as a float, where that is known exactly
    bool isConst() const { return op == OConst; }
};

inline u128 maskOf(u32 w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
inline s128 sextv(u128 v, u32 w) {
    if (w >= 128) return (s128) v;
    u128 m = (u128) 1 << (w - 1);
    v &= maskOf(w);
    return (s128) ((v ^ m) - m);
}

struct VarInfo {
    std::string name;
    u32 width;
    Expr* e;
};
extern std::vector<VarInfo> g_vars;

Expr* mkConst(u128 v, u32 w);
Expr* mkVar(const std::string& name, u32 w);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a); // i1
Expr* mkExtract(Expr* a, u32 lo, u32 w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* a, u32 w);
Expr* mkSExt(Expr* a, u32 w);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkFUn(Op op, Expr* a, u32 w);
Expr* mkAgg(const std::vector<SVal>& kids);
u128 foldBin(Op op, u128 a, u128 b, u32 w);
u128 foldFUn(Op op, u128 a, u32 wa, u32 w);
VarSet* unionVars(VarSet* a, VarSet* b);
inline bool isNot(Expr* e) { return e->op == OXor && e->width == 1 && e->b->isConst() && e->b->val == 1; }
std::string exprToString(Expr* e, int depth = 6);
extern u64 g_numExprs;

// Evaluate under an assignment (values indexed by var id)
typedef std::vector<u128> Model;
u128 evalExpr(Expr* e, const Model& m, u64 epoch);
extern u64 g_evalEpoch;
inline u128 evalIn(Expr* e, const Model& m) { return evalExpr(e, m, ++g_evalEpoch); }
