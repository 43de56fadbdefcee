#pragma once
#include "solver.h"
#include <atomic>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace llvm { class Function; class Instruction; class Type; class Module; class Constant; class Value; class BasicBlock; class DataLayout; class GlobalVariable; class GEPOperator;}

struct TyDesc {
    bool scalar = true;
    u32 bits = 0;       // scalar
    u64 size = 0;       // store size in bytes
    bool isFloat = false;
    std::vector<TyDesc*> elems;
    std::vector<u64> offs;
};

struct Operand { s32 reg = -1; SVal k; };

struct Func;
struct Engine;
typedef void (Engine::*Builtin)(struct Instr& in, std::vector<SVal>& args, SVal& ret);

enum IOp : u8 {
    I_BIN, I_ICMP, I_FCMP, I_CAST, I_LOAD, I_STORE, I_GEP, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_SELECT,
    I_ALLOCA, I_EXTRACTVAL, I_INSERTVAL, I_EXTRACTEL, I_INSERTEL, I_SHUFFLE, I_UNREACHABLE, I_FNEG, I_FREEZE,
    I_ATOMICRMW, I_CMPXCHG, I_NOP, I_UNSUPPORTED, I_VAARG
};

struct Edge { s32 target = -1; std::vector<std::pair<s32, Operand>> phis; };

struct Instr {
    IOp op = I_NOP;
    u8 sub = 0;   // Op for BIN/CAST kind, predicate
    u16 w = 0;    // result/operand width
    u16 w2 = 0;
    s32 dst = -1;
    std::vector<Operand> ops;
    std::vector<u64> nums; // gep scales, indices, shuffle masks
    u64 cst = 0;           // gep constant offset, alloca size
    TyDesc* ty = nullptr;
    TyDesc* ty2 = nullptr;
    std::vector<Edge> edges;
    Func* callee = nullptr;
    const llvm::Instruction* src = nullptr;
};

struct Func {
    std::string name;
    u32 id = 0;
    u64 addr = 0;
    llvm::Function* f = nullptr;
    bool lowered = false;
    bool executed = false;
    bool isDecl = false;
    Builtin builtin = nullptr;
    u32 numRegs = 0;
    u32 numArgs = 0;
    bool retVoid = true;
    std::vector<Instr> code;
};

enum ObjKind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_CONST };
struct MemObj {
    u64 base = 0, size = 0;
    ObjKind kind = K_GLOBAL;
    bool alive = true;
    bool leakMarked = false;
    u64 trailPos = 0;
    u64 serial = 0;
    u8* conc = nullptr;
    Expr** sym = nullptr;
    const char* name = "";
    std::string allocSite;
    ~MemObj() { ::free(conc); ::free(sym); }
};

struct Frame {
    Func* f;
    u32 pc = 0;
    s32 retDst = -1;
    u64 trailPos = 0;
    std::vector<SVal> regs;
    std::vector<u64> allocas; // object table indices
    std::vector<SVal> varargs;
};

enum TK : u8 { T_NOP, T_REG, T_MEM, T_ALLOC, T_DEAD, T_PUSH, T_POP, T_ALLOCA, T_U64 };
struct TE {
    TK kind; u8 len; u32 x; u64 a; void* p; SVal old;
};

struct InputRec { std::string name; std::vector<Expr*> bytes; u32 width; };

struct Checkpoint {
    u64 trailSize; size_t symTrail; size_t consSize; size_t inputs; u64 steps; u64 forkDepth;
    Expr* alt; std::shared_ptr<Model> model; Frame* frame; u32 pc; size_t nframes;
};

struct PathEnd { int why; };

struct Finding { std::string kind, msg, loc; };

struct Shared; // shared-memory statistics

struct Engine {
    // configuration
    std::map<std::string, s64> params;
    double timeBudget = 60;
    u64 maxSteps = 20000000;
    u64 maxPaths = 0;
    u32 maxProcs = 1;
    u32 maxFindings = 8;
    bool forkSelect = false; // split the path at selects between words, so that addresses and indices stay concrete
    std::string outDir;
    u32 maxSamples = 0;
    bool checkLeaks = false;
    bool verbose = false;
    u8 fillByte = 0xAA;

    // program
    llvm::Module* M = nullptr;
    const llvm::DataLayout* DL = nullptr;
    std::unordered_map<const llvm::Function*, Func*> funcMap;
    std::vector<Func*> funcs;
    std::unordered_map<const llvm::Value*, u64> globalAddr;
    std::unordered_map<const llvm::Type*, TyDesc*> tyCache;
    std::map<std::string, Builtin> builtins;

    // state
    std::vector<MemObj*> table; // slot index -> object (large objects span several)
    std::vector<Frame*> stack;
    std::vector<TE> trail;
    std::vector<Expr*> symTrail;
    std::vector<Checkpoint> cps;
    PathCond pc_;
    std::vector<InputRec> inputs;
    std::map<std::string, Expr*> inputVars;
    u64 steps = 0, totalSteps = 0, forkDepth = 0;
    u64 instrTrailSize = 0; // trail size at the start of current instruction
    u64 heapMark = 0, allocSerial = 0;
    u64 errnoAddr = 0;
    bool heapMarked = false;
    u64 pathsLocal = 0;
    Shared* sh = nullptr;
    double startTime = 0;
    bool isChild = false;
    bool noCpBefore = true;
    u64 pathForks = 0;

    Engine();
    bool load(const std::string& bc);
    int run(const std::string& entry);

    // lowering
    TyDesc* tyDesc(llvm::Type* t);
    void lower(Func* f);
    SVal evalConst(const llvm::Constant* c);
    void writeInit(MemObj* o, u64 off, const llvm::Constant* c);
    Func* getFunc(const llvm::Function* f);

    // memory
    MemObj* newObj(u64 size, ObjKind kind, const char* name);
    void killObj(MemObj* o);
    MemObj* find(u64 addr);
    void memWriteByte(MemObj* o, u64 off, const SVal& byteVal);
    void memWriteConc(MemObj* o, u64 off, const u8* src, u64 len);
    void logMem(MemObj* o, u64 off, u64 len);
    SVal memReadAt(MemObj* o, u64 off, u32 bits);
    void memWriteAt(MemObj* o, u64 off, u32 bits, const SVal& v);
    void copyBytes(MemObj* d, u64 doff, MemObj* s, u64 soff, u64 len);
    MemObj* resolve(SVal addr, u64 size, bool write, SVal& off, const char* what);
    SVal loadScalar(SVal addr, u32 bits);
    void storeScalar(SVal addr, u32 bits, const SVal& v);
    SVal loadTy(SVal addr, TyDesc* t);
    void storeTy(SVal addr, TyDesc* t, const SVal& v);
    std::vector<u64> candidates(Expr* off, u64 maxOff, size_t limit, bool& ok);

    // values
    Expr* toExpr(const SVal& v, u32 w) { return v.e ? v.e : mkConst(v.lo, w); }
    SVal binop(Op op, const SVal& a, const SVal& b, u32 w);
    SVal castop(u32 kind, const SVal& a, u32 from, u32 to);
    SVal elemGet(const SVal& agg, u32 i);
    SVal icmp(u32 pred, const SVal& a, const SVal& b, u32 w);
    SVal fcmp(u32 pred, const SVal& a, const SVal& b, u32 w);
    SVal addv(const SVal& a, const SVal& b) { return binop(OAdd, a, b, 64); }

    // control
    bool branch(const SVal& cond);
    u64 concretize(const SVal& v, u32 w, const char* why);
    void exec();
    void step();
    void execInstr(Frame* fr, Instr& in);
    void jump(Frame* fr, const Edge& e);
    void doCall(Frame* fr, Instr& in);
    void pushFrame(Func* f, const std::vector<SVal>& args, s32 retDst, size_t nfixed);
    void popFrame();
    void setReg(Frame* fr, s32 r, const SVal& v);
    SVal get(Frame* fr, const Operand& o) { return o.reg >= 0 ? fr->regs[o.reg] : o.k; }
    bool backtrack();
    void restore(const Checkpoint& cp);
    void undoTo(u64 n, size_t sym);
    void maybeFork();
    void finishProcess();
    [[noreturn]] void endPath(int why) { throw PathEnd{why}; }
    void writeInputs(std::ostream& o, const Model& m);
    void sample();
    void report(const std::string& kind, const std::string& msg, const Model& m);
    [[noreturn]] void fail(const std::string& kind, const std::string& msg);
    void logU64(u64* p);
    std::string location();
    std::string stackTrace();
    double elapsed();
    bool stopRequested();
    void unsupported(const std::string& what);
    std::string readCStr(SVal v);
    Expr* freshVar(const std::string& name, u32 w);

    // builtins
#define B(n) void n(Instr& in, std::vector<SVal>& a, SVal& r)
    B(b_malloc); B(b_calloc); B(b_realloc); B(b_free); B(b_memcpy); B(b_memmove); B(b_memset); B(b_memcmp); B(b_posix_memalign);
    B(b_nop); B(b_zero); B(b_abort); B(b_trap); B(b_guard_acquire); B(b_guard_release); B(b_errno);
    B(b_sx_bytes); B(b_sx_var); B(b_sx_assume); B(b_sx_assert); B(b_sx_reach); B(b_sx_range); B(b_sx_param);
    B(b_sx_mark_heap); B(b_sx_check_leaks); B(b_sx_eq); B(b_sx_concrete); B(b_sx_print); B(b_sx_is_sym); B(b_sx_stop); B(b_sx_live);
    B(b_intrinsic); B(b_strlen); B(b_math); B(b_identity); B(b_purevirt); B(b_memchr);
#undef B
    void callBuiltin(Func* f, Instr& in, std::vector<SVal>& args, SVal& ret);
};
