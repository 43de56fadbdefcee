// LLVM IR -> internal instruction form.
#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

TyDesc* Engine::tyDesc(Type* t) {
    auto it = tyCache.find(t);
    if (it != tyCache.end()) return it->second;
    TyDesc* d = new TyDesc;
    tyCache[t] = d;
    if (t->isSized()) d->size = DL->getTypeStoreSize(t);
    if (t->isIntegerTy()) d->bits = t->getIntegerBitWidth();
    else if (t->isPointerTy()) d->bits = 64;
    else if (t->isFloatTy()) { d->bits = 32; d->isFloat = true; }
    else if (t->isDoubleTy()) { d->bits = 64; d->isFloat = true; }
    else if (t->isX86_FP80Ty()) { d->bits = 80; d->isFloat = true; }
    else if (t->isHalfTy()) { d->bits = 16; d->isFloat = true; }
    else if (auto* st = dyn_cast<StructType>(t)) {
        d->scalar = false;
        if (st->isSized()) {
            const StructLayout* sl = DL->getStructLayout(st);
            for (u32 i = 0; i < st->getNumElements(); i++) { d->elems.push_back(tyDesc(st->getElementType(i))); d->offs.push_back(sl->getElementOffset(i)); }
        }
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        d->scalar = false;
        TyDesc* e = tyDesc(at->getElementType());
        u64 es = DL->getTypeAllocSize(at->getElementType());
        if (at->getNumElements() <= 4096)
            for (u64 i = 0; i < at->getNumElements(); i++) { d->elems.push_back(e); d->offs.push_back(i * es); }
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        d->scalar = false;
        TyDesc* e = tyDesc(vt->getElementType());
        u64 es = e->bits >= 8 ? e->bits / 8 : 1;
        for (u64 i = 0; i < vt->getNumElements(); i++) { d->elems.push_back(e); d->offs.push_back(i * es); }
    }
    return d;
}

Func* Engine::getFunc(const Function* f) {
    auto it = funcMap.find(f);
    if (it != funcMap.end()) return it->second;
    Func* fn = new Func;
    fn->name = f->getName().str();
    fn->id = funcs.size();
    fn->addr = 0x200000000000ull + (u64) fn->id * 16;
    fn->f = const_cast<Function*>(f);
    fn->isDecl = f->isDeclaration();
    fn->numArgs = f->arg_size();
    fn->retVoid = f->getReturnType()->isVoidTy();
    funcs.push_back(fn);
    funcMap[f] = fn;
    std::string n = fn->name;
    auto b = builtins.find(n);
    if (b != builtins.end()) fn->builtin = b->second;
    else if (fn->isDecl && n.compare(0, 5, "llvm.") == 0) fn->builtin = &Engine::b_intrinsic;
    return fn;
}

static SVal zeroOf(Engine& E, TyDesc* d) {
    if (d->scalar) {
        if (d->bits > 64) return SVal(mkConst(0, d->bits));
        return SVal((u64) 0);
    }
    std::vector<SVal> k;
    for (auto* e : d->elems) k.push_back(zeroOf(E, e));
    return SVal(mkAgg(k));
}

SVal Engine::evalConst(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        const APInt& v = ci->getValue();
        if (v.getBitWidth() <= 64) return SVal(v.getZExtValue());
        if (v.getBitWidth() > 128) { unsupported("wide int constant"); }
        u128 x = v.extractBitsAsZExtValue(64, 0) | ((u128) v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64);
        return SVal(mkConst(x, v.getBitWidth()));
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt v = cf->getValueAPF().bitcastToAPInt();
        if (v.getBitWidth() <= 64) return SVal(v.getZExtValue());
        u128 x = v.extractBitsAsZExtValue(64, 0) | ((u128) v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64);
        return SVal(mkConst(x, v.getBitWidth()));
    }
    if (isa<ConstantPointerNull>(c)) return SVal((u64) 0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(*this, tyDesc(c->getType()));
    if (auto* f = dyn_cast<Function>(c)) return SVal(getFunc(f)->addr);
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
    if (auto* gv = dyn_cast<GlobalVariable>(c)) {
        auto it = globalAddr.find(gv);
        if (it == globalAddr.end()) { fprintf(stderr, "engine: unknown global\n"); abort(); }
        return SVal(it->second);
    }
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<SVal> k;
        for (u32 i = 0; i < cds->getNumElements(); i++) k.push_back(evalConst(cds->getElementAsConstant(i)));
        return SVal(mkAgg(k));
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        std::vector<SVal> k;
        for (u32 i = 0; i < ca->getNumOperands(); i++) k.push_back(evalConst(ca->getOperand(i)));
        return SVal(mkAgg(k));
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* gep = dyn_cast<GEPOperator>(ce)) {
            SVal base = evalConst(cast<Constant>(gep->getPointerOperand()));
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "engine: gep const\n"); abort(); }
            return SVal(base.lo + off.getSExtValue());
        }
        switch (ce->getOpcode()) {
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt:
                return evalConst(ce->getOperand(0));
            case Instruction::Sub: return SVal(evalConst(ce->getOperand(0)).lo - evalConst(ce->getOperand(1)).lo);
            case Instruction::Add: return SVal(evalConst(ce->getOperand(0)).lo + evalConst(ce->getOperand(1)).lo);
            case Instruction::Trunc: return SVal((u64) (evalConst(ce->getOperand(0)).lo & (u64) maskOf(ce->getType()->getIntegerBitWidth())));
            case Instruction::ICmp: return icmp(ce->getPredicate(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), 64);
            case Instruction::Select: return evalConst(ce->getOperand(0)).lo ? evalConst(ce->getOperand(1)) : evalConst(ce->getOperand(2));
            default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "engine: constant %s\n", os.str().c_str());
    abort();
}

void Engine::writeInit(MemObj* o, u64 off, const Constant* c) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    Type* t = c->getType();
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cds->getRawDataValues();
        memcpy(o->conc + off, raw.data(), raw.size());
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        TyDesc* d = tyDesc(t);
        if (auto* at = dyn_cast<ArrayType>(t)) {
            u64 es = DL->getTypeAllocSize(at->getElementType());
            for (u32 i = 0; i < ca->getNumOperands(); i++) writeInit(o, off + i * es, ca->getOperand(i));
        } else
            for (u32 i = 0; i < ca->getNumOperands(); i++) writeInit(o, off + d->offs[i], ca->getOperand(i));
        return;
    }
    SVal v = evalConst(c);
    TyDesc* d = tyDesc(t);
    u128 x = v.e ? v.e->val : v.lo;
    for (u64 i = 0; i < d->size; i++) o->conc[off + i] = (u8) (x >> (8 * i));
}

bool Engine::load(const std::string& bc) {
    static LLVMContext C;
    SMDiagnostic err;
    auto m = parseIRFile(bc, err, C);
    if (!m) { err.print("symex", errs()); return false; }
    M = m.release();
    DL = &M->getDataLayout();
    for (Function& f : *M) getFunc(&f);
    for (GlobalVariable& g : M->globals()) {
        u64 sz = DL->getTypeAllocSize(g.getValueType());
        if (!g.hasInitializer() && sz < 256) sz = 256;
        MemObj* o = newObj(sz, g.isConstant() ? K_CONST : K_GLOBAL, strdup(g.getName().str().c_str()));
        memset(o->conc, 0, sz);
        globalAddr[&g] = o->base;
    }
    for (GlobalVariable& g : M->globals())
        if (g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.global_dtors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used")
            writeInit(find(globalAddr[&g]), 0, g.getInitializer());
    MemObj* eo = newObj(8, K_GLOBAL, "errno");
    memset(eo->conc, 0, 8);
    errnoAddr = eo->base;
    return true;
}

void Engine::lower(Func* fn) {
    fn->lowered = true;
    Function* f = fn->f;
    std::unordered_map<const llvm::Value*, s32> regs;
    s32 nr = 0;
    for (Argument& a : f->args()) regs[&a] = nr++;
    std::unordered_map<const BasicBlock*, s32> bbIndex; // first instruction
    for (BasicBlock& bb : *f)
        for (Instruction& I : bb)
            if (!I.getType()->isVoidTy()) regs[&I] = nr++;
    fn->numRegs = nr;
    auto opnd = [&](llvm::Value* v) -> Operand {
        Operand o;
        if (auto* c = dyn_cast<Constant>(v)) { o.k = evalConst(c); return o; }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return o;
        auto it = regs.find(v);
        if (it == regs.end()) { fprintf(stderr, "engine: operand\n"); abort(); }
        o.reg = it->second;
        return o;
    };
    std::vector<std::tuple<size_t, size_t, BasicBlock*, BasicBlock*>> fix;
    auto addEdge = [&](Instr& in, BasicBlock* from, BasicBlock* to) {
        Edge e;
        for (PHINode& p : to->phis()) e.phis.push_back({regs[&p], opnd(p.getIncomingValueForBlock(from))});
        in.edges.push_back(e);
        fix.push_back({fn->code.size(), in.edges.size() - 1, from, to});
    };
    auto width = [&](Type* t) -> u16 { TyDesc* d = tyDesc(t); return d->scalar ? d->bits : 0; };
    for (BasicBlock& bb : *f) {
        bbIndex[&bb] = fn->code.size();
        for (Instruction& I : bb) {
            if (isa<PHINode>(&I)) continue;
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            Instr in;
            in.src = &I;
            if (!I.getType()->isVoidTy()) { in.dst = regs[&I]; in.ty = tyDesc(I.getType()); in.w = width(I.getType()); }
            if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
                in.op = I_BIN;
                static const std::map<unsigned, Op> m = {
                    {Instruction::Add, OAdd}, {Instruction::Sub, OSub}, {Instruction::Mul, OMul}, {Instruction::UDiv, OUDiv},
                    {Instruction::SDiv, OSDiv}, {Instruction::URem, OURem}, {Instruction::SRem, OSRem}, {Instruction::And, OAnd},
                    {Instruction::Or, OOr}, {Instruction::Xor, OXor}, {Instruction::Shl, OShl}, {Instruction::LShr, OLShr},
                    {Instruction::AShr, OAShr}, {Instruction::FAdd, OFAdd}, {Instruction::FSub, OFSub}, {Instruction::FMul, OFMul},
                    {Instruction::FDiv, OFDiv}, {Instruction::FRem, OFRem}};
                in.sub = m.at(bo->getOpcode());
                in.ops = {opnd(bo->getOperand(0)), opnd(bo->getOperand(1))};
            } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
                in.op = I_ICMP; in.sub = ic->getPredicate();
                in.ty2 = tyDesc(ic->getOperand(0)->getType());
                in.w2 = width(ic->getOperand(0)->getType());
                in.ops = {opnd(ic->getOperand(0)), opnd(ic->getOperand(1))};
            } else if (auto* fc = dyn_cast<FCmpInst>(&I)) {
                in.op = I_FCMP; in.sub = fc->getPredicate();
                in.ty2 = tyDesc(fc->getOperand(0)->getType());
                in.w2 = width(fc->getOperand(0)->getType());
                in.ops = {opnd(fc->getOperand(0)), opnd(fc->getOperand(1))};
            } else if (auto* ca = dyn_cast<CastInst>(&I)) {
                in.op = I_CAST; in.sub = ca->getOpcode();
                in.ty2 = tyDesc(ca->getOperand(0)->getType());
                in.w2 = width(ca->getOperand(0)->getType());
                in.ops = {opnd(ca->getOperand(0))};
            } else if (auto* li = dyn_cast<LoadInst>(&I)) {
                in.op = I_LOAD; in.ops = {opnd(li->getPointerOperand())};
            } else if (auto* si = dyn_cast<StoreInst>(&I)) {
                in.op = I_STORE; in.ty = tyDesc(si->getValueOperand()->getType());
                in.ops = {opnd(si->getValueOperand()), opnd(si->getPointerOperand())};
            } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
                in.op = I_GEP;
                if (gep->getType()->isVectorTy()) in.op = I_UNSUPPORTED;
                else {
                    in.ops.push_back(opnd(gep->getPointerOperand()));
                    for (auto ti = gep_type_begin(gep), te = gep_type_end(gep); ti != te; ++ti) {
                        llvm::Value* idx = ti.getOperand();
                        if (StructType* st = ti.getStructTypeOrNull()) {
                            in.cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                        } else {
                            u64 sc = ti.getSequentialElementStride(*DL);
                            if (auto* ci = dyn_cast<ConstantInt>(idx)) in.cst += sc * (u64) ci->getSExtValue();
                            else {
                                Operand o = opnd(idx);
                                o.k.lo = idx->getType()->getIntegerBitWidth();
                                in.ops.push_back(o);
                                in.nums.push_back(sc);
                            }
                        }
                    }
                }
            } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) {
                    in.op = I_CONDBR; in.ops = {opnd(br->getCondition())};
                    addEdge(in, &bb, br->getSuccessor(0)); addEdge(in, &bb, br->getSuccessor(1));
                } else { in.op = I_BR; addEdge(in, &bb, br->getSuccessor(0)); }
            } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                in.op = I_SWITCH; in.ops = {opnd(sw->getCondition())};
                in.w2 = width(sw->getCondition()->getType());
                addEdge(in, &bb, sw->getDefaultDest());
                for (auto& cs : sw->cases()) { in.nums.push_back(cs.getCaseValue()->getZExtValue()); addEdge(in, &bb, cs.getCaseSuccessor()); }
            } else if (auto* ri = dyn_cast<ReturnInst>(&I)) {
                in.op = I_RET;
                if (ri->getReturnValue()) in.ops = {opnd(ri->getReturnValue())};
            } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                in.op = I_CALL;
                for (auto& a : cb->args()) in.ops.push_back(opnd(a.get()));
                llvm::Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                if (auto* cf = dyn_cast<Function>(cv)) in.callee = getFunc(cf);
                else if (isa<InlineAsm>(cv)) in.op = cast<InlineAsm>(cv)->getAsmString().empty() ? I_NOP : I_UNSUPPORTED;
                else { in.ops.push_back(opnd(cv)); in.cst = 1; }
                if (auto* inv = dyn_cast<InvokeInst>(cb)) { addEdge(in, &bb, inv->getNormalDest()); }
                // byval arguments: record sizes
                for (u32 i = 0; i < cb->arg_size(); i++) in.nums.push_back(cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
            } else if (auto* se = dyn_cast<SelectInst>(&I)) {
                in.op = I_SELECT;
                in.ty2 = tyDesc(se->getCondition()->getType());
                in.ops = {opnd(se->getCondition()), opnd(se->getTrueValue()), opnd(se->getFalseValue())};
            } else if (auto* ai = dyn_cast<AllocaInst>(&I)) {
                in.op = I_ALLOCA; in.cst = DL->getTypeAllocSize(ai->getAllocatedType());
                in.ops = {opnd(ai->getArraySize())};
            } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                in.op = I_EXTRACTVAL; in.ops = {opnd(ev->getAggregateOperand())};
                for (u32 i : ev->indices()) in.nums.push_back(i);
            } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                in.op = I_INSERTVAL; in.ops = {opnd(iv->getAggregateOperand()), opnd(iv->getInsertedValueOperand())};
                for (u32 i : iv->indices()) in.nums.push_back(i);
            } else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
                in.op = I_EXTRACTEL; in.ops = {opnd(ee->getVectorOperand()), opnd(ee->getIndexOperand())};
            } else if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
                in.op = I_INSERTEL; in.ops = {opnd(ie->getOperand(0)), opnd(ie->getOperand(1)), opnd(ie->getOperand(2))};
            } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
                in.op = I_SHUFFLE; in.ops = {opnd(sv->getOperand(0)), opnd(sv->getOperand(1))};
                in.ty2 = tyDesc(sv->getOperand(0)->getType());
                for (int x : sv->getShuffleMask()) in.nums.push_back((u64) (s64) x);
            } else if (isa<UnreachableInst>(&I)) in.op = I_UNREACHABLE;
            else if (auto* un = dyn_cast<UnaryOperator>(&I)) { in.op = I_FNEG; in.ops = {opnd(un->getOperand(0))}; }
            else if (auto* fr = dyn_cast<FreezeInst>(&I)) { in.op = I_FREEZE; in.ops = {opnd(fr->getOperand(0))}; }
            else if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) {
                in.op = I_ATOMICRMW; in.sub = rmw->getOperation();
                in.ops = {opnd(rmw->getPointerOperand()), opnd(rmw->getValOperand())};
            } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                in.op = I_CMPXCHG; in.w2 = width(cx->getCompareOperand()->getType());
                in.ops = {opnd(cx->getPointerOperand()), opnd(cx->getCompareOperand()), opnd(cx->getNewValOperand())};
            } else if (isa<FenceInst>(&I)) in.op = I_NOP;
            else in.op = I_UNSUPPORTED;
            fn->code.push_back(std::move(in));
        }
    }
    for (auto& [ci, ei, from, to] : fix) fn->code[ci].edges[ei].target = bbIndex[to];
}
