// Clang pass plugin: adds symbolic shadow computation to the LLVM IR of the code under test.
// Every integer/pointer/float SSA value gets a 32-bit shadow (0 = concrete, else expression node id).
#include "sxproto.h"
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Passes/PassPlugin.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/Local.h>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
using namespace llvm;

namespace {

std::vector<std::string> splitEnv(const char *name)
{
    std::vector<std::string> r;
    if (const char *v = getenv(name)) {
        std::string s(v), cur;
        for (char c : s) {
            if (c == ';') {
                if (!cur.empty()) r.push_back(cur);
                cur.clear();
            } else
                cur += c;
        }
        if (!cur.empty()) r.push_back(cur);
    }
    return r;
}

bool matches(StringRef n, const std::vector<std::string> &l)
{
    for (auto &s : l)
        if (n.contains(s)) return true;
    return false;
}

struct Inst {
    Module &M;
    LLVMContext &C;
    const DataLayout &DL;
    Type *I1, *I8, *I32, *I64, *VoidT;
    PointerType *Ptr;
    FunctionCallee fEnter, fBin, fCmp, fFCmp, fCast, fIte, fLoad, fStore, fBranch, fSwitch, fGep, fMemcpy, fMemset, fClear, fLost, fLostMem, fIntr, fOvf,
        fConc, fByvalOut, fByvalIn, fPostCall, fPause, fResume, fUnpause, fFUn, fAlloc;
    GlobalVariable *gArgs, *gRet, *gTag, *gN;
    std::vector<std::string> pauseList, skipList;
    std::map<std::string, Constant *> siteCache;

    Inst(Module &m)
        : M(m), C(m.getContext()), DL(m.getDataLayout())
    {
        I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        VoidT = Type::getVoidTy(C);
        Ptr = PointerType::get(C, 0);
        auto F = [&](const char *n, Type *r, std::vector<Type *> a) {
            auto fc = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
            if (auto *f = dyn_cast<Function>(fc.getCallee())) f->setDoesNotThrow();
            return fc;
        };
        fEnter = F("_sx_enter", VoidT, { Ptr, I32 });
        fBin = F("_sx_bin", I32, { I32, I32, I32, I64, I32, I64, Ptr });
        fCmp = F("_sx_cmp", I32, { I32, I32, I32, I64, I32, I64 });
        fFCmp = F("_sx_fcmp", I32, { I32, I32, I32, I64, I32, I64 });
        fCast = F("_sx_cast", I32, { I32, I32, I64, I32, I32 });
        fFUn = F("_sx_fun", I32, { I32, I32, I32, I64 });
        fIte = F("_sx_ite", I32, { I32, I1, I32, I32, I64, I32, I64 });
        fLoad = F("_sx_load", I32, { Ptr, I32, I32, I64, Ptr });
        fStore = F("_sx_store", VoidT, { Ptr, I32, I32, I32, I64, Ptr });
        fBranch = F("_sx_branch", VoidT, { I32, Ptr });
        fSwitch = F("_sx_switch", VoidT, { I32, I64, I32, I32, Ptr, Ptr, Ptr });
        fGep = F("_sx_gep", I32, { I32, I64, I32, I64, I32, I64 });
        fMemcpy = F("_sx_memcpy", VoidT, { Ptr, Ptr, I64, I32, I32, I32, Ptr });
        fMemset = F("_sx_memset", VoidT, { Ptr, I8, I64, I32, I32, I32, Ptr });
        fClear = F("_sx_clear", VoidT, { Ptr, I64 });
        fLost = F("_sx_lost", VoidT, { I32, Ptr });
        fLostMem = F("_sx_lostmem", VoidT, { Ptr, I64, Ptr });
        fIntr = F("_sx_intr", I32, { I32, I32, I32, I64, I32, I64, I32, I64 });
        fOvf = F("_sx_ovf", I32, { I32, I32, I32, I64, I32, I64 });
        fConc = F("_sx_concretize", VoidT, { I32, Ptr });
        fByvalOut = F("_sx_byval_out", VoidT, { I32, Ptr });
        fByvalIn = F("_sx_byval_in", VoidT, { I32, Ptr, I64 });
        fPostCall = F("_sx_postcall", VoidT, { Ptr, I32, Ptr });
        fPause = F("_sx_pause", VoidT, {});
        fResume = F("_sx_resume", VoidT, {});
        fUnpause = F("_sx_unpause", VoidT, {});
        fAlloc = F("_sx_alloc", VoidT, { I32, I64, Ptr });
        auto G = [&](const char *n, Type *t) {
            if (auto *g = M.getGlobalVariable(n)) return g;
            return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
        };
        gArgs = G("__sx_args", ArrayType::get(I32, 64));
        gRet = G("__sx_ret", ArrayType::get(I32, 16));
        gTag = G("__sx_tag", Ptr);
        gN = G("__sx_n", I32);
        pauseList = splitEnv("SX_PAUSE");
        skipList = splitEnv("SX_SKIP");
    }

    static bool scalar(Type *t)
    {
        if (t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) return true;
        if (auto *it = dyn_cast<IntegerType>(t)) return it->getBitWidth() <= 64;
        return false;
    }
    unsigned width(Type *t)
    {
        if (t->isPointerTy()) return 64;
        return t->getPrimitiveSizeInBits();
    }
    // shadow type of an arbitrary first-class type
    Type *shTy(Type *t)
    {
        if (auto *st = dyn_cast<StructType>(t)) {
            std::vector<Type *> e;
            for (auto *x : st->elements()) e.push_back(shTy(x));
            return StructType::get(C, e);
        }
        if (auto *at = dyn_cast<ArrayType>(t)) return ArrayType::get(shTy(at->getElementType()), at->getNumElements());
        return I32;
    }
    unsigned leaves(Type *t)
    {
        if (auto *st = dyn_cast<StructType>(t)) {
            unsigned n = 0;
            for (auto *x : st->elements()) n += leaves(x);
            return n;
        }
        if (auto *at = dyn_cast<ArrayType>(t)) return leaves(at->getElementType()) * at->getNumElements();
        return 1;
    }

    // per function state
    Function *F = nullptr;
    DenseMap<Value *, Value *> sh;
    unsigned siteNo = 0;

    bool isNull(Value *s) { return isa<Constant>(s) && cast<Constant>(s)->isNullValue(); }
    Value *S(Value *v)
    {
        auto it = sh.find(v);
        if (it != sh.end()) return it->second;
        return Constant::getNullValue(shTy(v->getType()));
    }
    Value *V(IRBuilder<> &B, Value *v) // concrete value as i64
    {
        Type *t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        return B.CreateZExt(v, I64);
    }
    Value *c32(uint64_t v) { return ConstantInt::get(I32, v); }
    Value *c64(uint64_t v) { return ConstantInt::get(I64, v); }
    Constant *site(Instruction *I)
    {
        std::string s = F->getName().substr(0, 120).str();
        if (auto &dl = I->getDebugLoc()) s += ":" + std::to_string(dl.getLine());
        s += "#" + std::to_string(siteNo++);
        auto *cda = ConstantDataArray::getString(C, s);
        auto *g = new GlobalVariable(M, cda->getType(), true, GlobalValue::PrivateLinkage, cda, "sx.site");
        g->setUnnamedAddr(GlobalValue::UnnamedAddr::Global);
        noSan(g);
        return g;
    }
    static void noSan(GlobalVariable *g)
    {
        GlobalValue::SanitizerMetadata md;
        md.NoAddress = true;
        g->setSanitizerMetadata(md);
    }
    void nosan(Instruction *I) { I->setMetadata(LLVMContext::MD_nosanitize, MDNode::get(C, {})); }
    Value *argSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, i); }
    Value *retSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstInBoundsGEP2_64(gRet->getValueType(), gRet, 0, i); }

    void storeFlat(IRBuilder<> &B, Value *s, Type *t, unsigned &k)
    {
        if (k >= 16) return;
        if (t->isStructTy() || t->isArrayTy()) {
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; ++i)
                storeFlat(B, isNull(s) ? Constant::getNullValue(shTy(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()))
                                       : B.CreateExtractValue(s, i),
                    t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), k);
            return;
        }
        nosan(B.CreateStore(s, retSlot(B, k++)));
    }
    Value *loadFlat(IRBuilder<> &B, Type *t, unsigned &k)
    {
        if (t->isStructTy() || t->isArrayTy()) {
            Value *agg = Constant::getNullValue(shTy(t));
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; ++i)
                agg = B.CreateInsertValue(agg, loadFlat(B, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), k), i);
            return agg;
        }
        if (k >= 16) return Constant::getNullValue(I32);
        auto *l = B.CreateLoad(I32, retSlot(B, k++));
        nosan(l);
        return l;
    }

    void run(Function &fn)
    {
        F = &fn;
        sh.clear();
        removeUnreachableBlocks(fn);
        std::vector<Instruction *> work;
        std::vector<PHINode *> phis;
        {
            ReversePostOrderTraversal<Function *> rpo(&fn);
            for (BasicBlock *bb : rpo)
                for (Instruction &i : *bb) work.push_back(&i);
        }
        // function entry
        {
            Instruction *first = &*fn.getEntryBlock().getFirstInsertionPt();
            // keep static allocas first
            while (isa<AllocaInst>(first)) first = first->getNextNode();
            IRBuilder<> B(first);
            bool any = false;
            for (auto &a : fn.args())
                if (scalar(a.getType()) || a.hasByValAttr()) any = true;
            B.CreateCall(fEnter, { &fn, c32(any ? std::min<size_t>(fn.arg_size(), 64) : 0) });
            unsigned k = 0;
            for (auto &a : fn.args()) {
                if (k >= 64) break;
                if (a.hasByValAttr())
                    B.CreateCall(fByvalIn, { c32(k), &a, c64(DL.getTypeAllocSize(a.getParamByValType())) });
                else if (scalar(a.getType()) && !a.hasStructRetAttr()) {
                    auto *l = B.CreateLoad(I32, argSlot(B, k));
                    nosan(l);
                    sh[&a] = l;
                }
                ++k;
            }
        }
        // phis
        for (auto *i : work)
            if (auto *p = dyn_cast<PHINode>(i)) {
                IRBuilder<> B(p);
                auto *np = B.CreatePHI(shTy(p->getType()), p->getNumIncomingValues());
                sh[p] = np;
                phis.push_back(p);
            }
        std::vector<std::pair<PHINode *, std::vector<std::pair<Value *, BasicBlock *>>>> dummy;
        for (auto *i : work)
            if (!isa<PHINode>(i)) visit(i);
        for (auto *p : phis) {
            auto *np = cast<PHINode>(sh[p]);
            for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) np->addIncoming(S(p->getIncomingValue(k)), p->getIncomingBlock(k));
        }
    }

    void visit(Instruction *I)
    {
        IRBuilder<> B(I);
        B.SetCurrentDebugLocation(I->getDebugLoc());
        if (auto *bo = dyn_cast<BinaryOperator>(I)) {
            Value *a = bo->getOperand(0), *b = bo->getOperand(1);
            if (isNull(S(a)) && isNull(S(b))) return;
            if (!scalar(I->getType())) {
                if (I->getType()->isIntegerTy()) {
                    B.CreateCall(fLost, { B.CreateOr(S(a), S(b)), site(I) });
                }
                return;
            }
            unsigned op = 0;
            switch (bo->getOpcode()) {
            case Instruction::Add: op = SX_ADD; break;
            case Instruction::Sub: op = SX_SUB; break;
            case Instruction::Mul: op = SX_MUL; break;
            case Instruction::UDiv: op = SX_UDIV; break;
            case Instruction::SDiv: op = SX_SDIV; break;
            case Instruction::URem: op = SX_UREM; break;
            case Instruction::SRem: op = SX_SREM; break;
            case Instruction::And: op = SX_AND; break;
            case Instruction::Or: op = SX_OR; break;
            case Instruction::Xor: op = SX_XOR; break;
            case Instruction::Shl: op = SX_SHL; break;
            case Instruction::LShr: op = SX_LSHR; break;
            case Instruction::AShr: op = SX_ASHR; break;
            case Instruction::FAdd: op = SX_FADD; break;
            case Instruction::FSub: op = SX_FSUB; break;
            case Instruction::FMul: op = SX_FMUL; break;
            case Instruction::FDiv: op = SX_FDIV; break;
            default: B.CreateCall(fLost, { B.CreateOr(S(a), S(b)), site(I) }); return;
            }
            // before the instruction, so that a division by zero is recorded before it traps
            sh[I] = B.CreateCall(fBin, { c32(op), c32(width(I->getType())), S(a), V(B, a), S(b), V(B, b),
                op >= SX_UDIV && op <= SX_SREM ? (Value *)site(I) : (Value *)ConstantPointerNull::get(Ptr) });
            return;
        }
        if (auto *un = dyn_cast<UnaryOperator>(I)) { // fneg
            Value *a = un->getOperand(0);
            if (isNull(S(a)) || !scalar(I->getType())) return;
            unsigned w = width(I->getType());
            sh[I] = B.CreateCall(fBin, { c32(SX_XOR), c32(w), S(a), V(B, a), c32(0), c64(1ull << (w - 1)), ConstantPointerNull::get(Ptr) });
            return;
        }
        if (auto *ci = dyn_cast<ICmpInst>(I)) {
            Value *a = ci->getOperand(0), *b = ci->getOperand(1);
            if (isNull(S(a)) && isNull(S(b))) return;
            if (!scalar(a->getType())) {
                if (!a->getType()->isVectorTy()) B.CreateCall(fLost, { B.CreateOr(S(a), S(b)), site(I) });
                return;
            }
            sh[I] = B.CreateCall(fCmp, { c32(ci->getPredicate()), c32(width(a->getType())), S(a), V(B, a), S(b), V(B, b) });
            return;
        }
        if (auto *fi = dyn_cast<FCmpInst>(I)) {
            Value *a = fi->getOperand(0), *b = fi->getOperand(1);
            if ((isNull(S(a)) && isNull(S(b))) || !scalar(a->getType())) return;
            sh[I] = B.CreateCall(fFCmp, { c32(fi->getPredicate()), c32(width(a->getType())), S(a), V(B, a), S(b), V(B, b) });
            return;
        }
        if (auto *ca = dyn_cast<CastInst>(I)) {
            Value *a = ca->getOperand(0);
            if (isNull(S(a))) return;
            if (!scalar(I->getType()) || !scalar(a->getType())) {
                if (!a->getType()->isVectorTy() && !a->getType()->isAggregateType()) {
                    B.CreateCall(fLost, { S(a), site(I) });
                }
                return;
            }
            unsigned fw = width(a->getType()), tw = width(I->getType()), op = 0;
            switch (ca->getOpcode()) {
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::BitCast:
            case Instruction::AddrSpaceCast: op = tw > fw ? SX_ZEXT : tw < fw ? SX_EXTRACT : 0; break;
            case Instruction::ZExt: op = SX_ZEXT; break;
            case Instruction::SExt: op = SX_SEXT; break;
            case Instruction::Trunc: op = SX_EXTRACT; break;
            case Instruction::UIToFP: op = SX_UITOFP; break;
            case Instruction::SIToFP: op = SX_SITOFP; break;
            case Instruction::FPToUI: op = SX_FPTOUI; break;
            case Instruction::FPToSI: op = SX_FPTOSI; break;
            case Instruction::FPExt:
            case Instruction::FPTrunc: op = SX_FPCVT; break;
            default: return;
            }
            if (!op)
                sh[I] = S(a);
            else
                sh[I] = B.CreateCall(fCast, { c32(op), S(a), V(B, a), c32(fw), c32(tw) });
            return;
        }
        if (isa<FreezeInst>(I)) {
            sh[I] = S(I->getOperand(0));
            return;
        }
        if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
            if (!g->getType()->isPointerTy()) return;
            Value *s = S(g->getPointerOperand());
            MapVector<Value *, APInt> vars;
            APInt off(64, 0);
            bool ok = cast<GEPOperator>(g)->collectOffset(DL, 64, vars, off);
            bool any = !isNull(s);
            if (ok)
                for (auto &p : vars)
                    if (!isNull(S(p.first))) any = true;
            if (!any) return;
            if (!ok) {
                B.CreateCall(fLost, { s, site(I) });
                return;
            }
            Value *cur = V(B, g->getPointerOperand());
            for (auto &p : vars) {
                Value *iv = p.first;
                unsigned w = width(iv->getType());
                Value *idx = w < 64 ? B.CreateSExt(iv, I64) : iv;
                Value *scale = c64(p.second.getZExtValue());
                s = B.CreateCall(fGep, { s, cur, S(iv), V(B, iv), c32(w), scale });
                cur = B.CreateAdd(cur, B.CreateMul(idx, scale));
            }
            if (!!off)
                s = B.CreateCall(fBin, { c32(SX_ADD), c32(64), s, cur, c32(0), c64(off.getZExtValue()), ConstantPointerNull::get(Ptr) });
            sh[I] = s;
            return;
        }
        if (auto *l = dyn_cast<LoadInst>(I)) {
            Type *t = l->getType();
            IRBuilder<> A(I->getNextNode());
            A.SetCurrentDebugLocation(I->getDebugLoc());
            if (!scalar(t)) {
                A.CreateCall(fLostMem, { l->getPointerOperand(), c64(DL.getTypeStoreSize(t)), site(I) });
                return;
            }
            Value *s = A.CreateCall(fLoad, { l->getPointerOperand(), S(l->getPointerOperand()), c32(width(t)), V(A, l), site(I) });
            sh[I] = s;
            return;
        }
        if (auto *st = dyn_cast<StoreInst>(I)) {
            Value *v = st->getValueOperand();
            Type *t = v->getType();
            if (!scalar(t)) {
                B.CreateCall(fClear, { st->getPointerOperand(), c64(DL.getTypeStoreSize(t)) });
                return;
            }
            IRBuilder<> A(I->getNextNode());
            A.SetCurrentDebugLocation(I->getDebugLoc());
            A.CreateCall(fStore, { st->getPointerOperand(), S(st->getPointerOperand()), S(v), c32(width(t)), V(A, v), site(I) });
            return;
        }
        if (auto *rm = dyn_cast<AtomicRMWInst>(I)) {
            B.CreateCall(fClear, { rm->getPointerOperand(), c64(DL.getTypeStoreSize(rm->getType())) });
            return;
        }
        if (auto *cx = dyn_cast<AtomicCmpXchgInst>(I)) {
            B.CreateCall(fClear, { cx->getPointerOperand(), c64(DL.getTypeStoreSize(cx->getCompareOperand()->getType())) });
            return;
        }
        if (auto *se = dyn_cast<SelectInst>(I)) {
            Value *c = se->getCondition(), *a = se->getTrueValue(), *b = se->getFalseValue();
            if (isNull(S(c)) && isNull(S(a)) && isNull(S(b))) return;
            if (c->getType()->isVectorTy()) return;
            Type *t = I->getType();
            if (scalar(t) && !t->isPointerTy()) {
                if (isNull(S(c)))
                    sh[I] = B.CreateSelect(c, S(a), S(b));
                else
                    sh[I] = B.CreateCall(fIte, { S(c), c, c32(width(t)), S(a), V(B, a), S(b), V(B, b) });
                return;
            }
            if (!isNull(S(c))) B.CreateCall(fBranch, { S(c), site(I) });
            sh[I] = B.CreateSelect(c, S(a), S(b));
            return;
        }
        if (auto *ev = dyn_cast<ExtractValueInst>(I)) {
            Value *a = S(ev->getAggregateOperand());
            if (!isNull(a)) sh[I] = B.CreateExtractValue(a, ev->getIndices());
            return;
        }
        if (auto *iv = dyn_cast<InsertValueInst>(I)) {
            Value *a = S(iv->getAggregateOperand()), *b = S(iv->getInsertedValueOperand());
            if (!isNull(a) || !isNull(b)) {
                sh[I] = B.CreateInsertValue(a, b, iv->getIndices());
                if (isa<Constant>(sh[I])) sh.erase(I);
            }
            return;
        }
        if (auto *br = dyn_cast<BranchInst>(I)) {
            if (br->isConditional() && !isNull(S(br->getCondition()))) B.CreateCall(fBranch, { S(br->getCondition()), site(I) });
            return;
        }
        if (auto *sw = dyn_cast<SwitchInst>(I)) {
            Value *c = sw->getCondition();
            if (isNull(S(c))) return;
            std::vector<Constant *> vals, dests;
            std::map<BasicBlock *, unsigned> ids;
            ids[sw->getDefaultDest()] = 0;
            for (auto &cs : sw->cases()) {
                auto it = ids.insert({ cs.getCaseSuccessor(), (unsigned)ids.size() }).first;
                vals.push_back(ConstantInt::get(I64, cs.getCaseValue()->getZExtValue()));
                dests.push_back(ConstantInt::get(I32, it->second));
            }
            auto mk = [&](std::vector<Constant *> &v, Type *t) {
                auto *at = ArrayType::get(t, v.size());
                auto *g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, v), "sx.sw");
                noSan(g);
                return g;
            };
            B.CreateCall(fSwitch, { S(c), V(B, c), c32(width(c->getType())), c32(vals.size()), mk(vals, I64), mk(dests, I32), site(I) });
            return;
        }
        if (auto *r = dyn_cast<ReturnInst>(I)) {
            if (Value *v = r->getReturnValue()) {
                unsigned k = 0;
                storeFlat(B, S(v), v->getType(), k);
            }
            return;
        }
        if (auto *lp = dyn_cast<LandingPadInst>(I)) {
            IRBuilder<> A(lp->getNextNode());
            A.SetCurrentDebugLocation(I->getDebugLoc());
            A.CreateCall(fUnpause);
            return;
        }
        if (auto *al = dyn_cast<AllocaInst>(I)) {
            if (!al->isStaticAlloca() && !isNull(S(al->getArraySize()))) B.CreateCall(fConc, { S(al->getArraySize()), site(I) });
            return;
        }
        if (auto *ind = dyn_cast<IndirectBrInst>(I)) {
            (void)ind;
            return;
        }
        if (auto *cb = dyn_cast<CallBase>(I)) {
            visitCall(cb);
            return;
        }
        if (isa<ExtractElementInst>(I) || isa<InsertElementInst>(I) || isa<ShuffleVectorInst>(I)) {
            for (auto &o : I->operands())
                if (!isNull(S(o)) && S(o)->getType() == I32) B.CreateCall(fLost, { S(o), site(I) });
            return;
        }
    }

    void lostArgs(IRBuilder<> &B, CallBase *cb)
    {
        Value *o = nullptr;
        for (auto &a : cb->args()) {
            Value *s = S(a);
            if (isNull(s) || s->getType() != I32) continue;
            o = o ? B.CreateOr(o, s) : s;
        }
        if (o) B.CreateCall(fLost, { o, site(cb) });
    }

    void visitCall(CallBase *cb)
    {
        if (cb->isInlineAsm()) return;
        IRBuilder<> B(cb);
        B.SetCurrentDebugLocation(cb->getDebugLoc());
        Function *cf = cb->getCalledFunction();
        StringRef name = cf ? cf->getName() : "";
        if (name.starts_with("_sx_") || name.starts_with("__asan") || name.starts_with("__sanitizer")) return;
        if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
            visitIntrinsic(ii, B);
            return;
        }
        if (name == "__gxx_personality_v0" || name == "__cxa_begin_catch" || name == "__cxa_end_catch" || name == "__cxa_allocate_exception"
            || name == "__cxa_throw" || name == "__cxa_rethrow" || name == "__cxa_free_exception" || name == "__cxa_atexit"
            || name == "__cxa_guard_acquire" || name == "__cxa_guard_release" || name == "__cxa_guard_abort" || name == "_ZdlPv" || name == "_ZdlPvm"
            || name == "_ZdaPv" || name == "free")
            return;
        if (name == "_Znwm" || name == "_Znam" || name == "malloc") {
            Value *s = S(cb->getArgOperand(0));
            B.CreateCall(fAlloc, { s, cb->getArgOperand(0), site(cb) });
            return;
        }
        // library functions with a model in the runtime get an extra prefix
        static const std::map<std::string, std::string> lib = { { "memcpy", "_sxl_memcpy" }, { "memmove", "_sxl_memmove" }, { "memset", "_sxl_memset" },
            { "memcmp", "_sxl_memcmp" }, { "bcmp", "_sxl_bcmp" }, { "strlen", "_sxl_strlen" }, { "memchr", "_sxl_memchr" }, { "strcmp", "_sxl_strcmp" },
            { "strncmp", "_sxl_strncmp" } };
        if (cf && cf->isDeclaration()) {
            auto it = lib.find(name.str());
            if (it != lib.end()) {
                auto fc = M.getOrInsertFunction(it->second, cf->getFunctionType());
                cb->setCalledFunction(fc);
            }
        }
        bool paused = cf && matches(name, pauseList);
        if (!cf && !isNull(S(cb->getCalledOperand()))) B.CreateCall(fConc, { S(cb->getCalledOperand()), site(cb) });
        if (paused) B.CreateCall(fPause);
        unsigned k = 0;
        bool anySym = false;
        for (auto &a : cb->args()) {
            if (k >= 64) break;
            if (cb->isByValArgument(k)) {
                B.CreateCall(fByvalOut, { c32(k), a });
                nosan(B.CreateStore(c32(0), argSlot(B, k)));
            } else if (scalar(a->getType())) {
                Value *s = S(a);
                if (!isNull(s)) anySym = true;
                nosan(B.CreateStore(s, argSlot(B, k)));
            } else
                nosan(B.CreateStore(c32(0), argSlot(B, k)));
            ++k;
        }
        nosan(B.CreateStore(c32(k), gN));
        nosan(B.CreateStore(cb->getCalledOperand(), gTag));
        Type *rt = cb->getType();
        unsigned nl = rt->isVoidTy() ? 0 : std::min(16u, leaves(rt));
        for (unsigned i = 0; i < nl; ++i) nosan(B.CreateStore(c32(0), retSlot(B, i)));
        Instruction *ip;
        if (auto *inv = dyn_cast<InvokeInst>(cb)) {
            BasicBlock *nd = inv->getNormalDest();
            if (!nd->getSinglePredecessor()) {
                BasicBlock *nb = BasicBlock::Create(C, "sx.inv", F, nd);
                BranchInst::Create(nd, nb);
                for (auto &phi : nd->phis()) {
                    for (unsigned i = 0; i < phi.getNumIncomingValues(); ++i)
                        if (phi.getIncomingBlock(i) == inv->getParent()) phi.setIncomingBlock(i, nb);
                }
                inv->setNormalDest(nb);
                ip = nb->getTerminator();
            } else
                ip = &*nd->getFirstInsertionPt();
        } else {
            if (auto *ci = dyn_cast<CallInst>(cb); ci && ci->isMustTailCall()) return;
            if (cb->doesNotReturn() && isa<UnreachableInst>(cb->getNextNode())) return;
            ip = cb->getNextNode();
        }
        IRBuilder<> A(ip);
        A.SetCurrentDebugLocation(cb->getDebugLoc());
        if (paused) A.CreateCall(fResume);
        (void)anySym;
        bool knownLocal = cf && !cf->isDeclaration();
        if (!knownLocal) A.CreateCall(fPostCall, { cb->getCalledOperand(), c32(std::min<size_t>(cb->arg_size(), 64)), site(cb) });
        if (!rt->isVoidTy()) {
            unsigned n = 0;
            if (leaves(rt) <= 16) sh[cb] = loadFlat(A, rt, n);
        }
    }

    void visitIntrinsic(IntrinsicInst *ii, IRBuilder<> &B)
    {
        auto arg = [&](unsigned i) { return ii->getArgOperand(i); };
        auto sym = [&](unsigned n) {
            for (unsigned i = 0; i < n; ++i)
                if (!isNull(S(arg(i)))) return true;
            return false;
        };
        switch (ii->getIntrinsicID()) {
        case Intrinsic::memcpy:
        case Intrinsic::memmove:
        case Intrinsic::memcpy_inline:
            B.CreateCall(fMemcpy, { arg(0), arg(1), B.CreateZExtOrTrunc(arg(2), I64), S(arg(0)), S(arg(1)), S(arg(2)), site(ii) });
            return;
        case Intrinsic::memset:
        case Intrinsic::memset_inline:
            B.CreateCall(fMemset, { arg(0), arg(1), B.CreateZExtOrTrunc(arg(2), I64), S(arg(0)), S(arg(1)), S(arg(2)), site(ii) });
            return;
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end: {
            int64_t n = cast<ConstantInt>(arg(0))->getSExtValue();
            if (n > 0) B.CreateCall(fClear, { arg(1), c64(n) });
            return;
        }
        case Intrinsic::expect:
        case Intrinsic::ssa_copy:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group: sh[ii] = S(arg(0)); return;
        case Intrinsic::umin:
        case Intrinsic::umax:
        case Intrinsic::smin:
        case Intrinsic::smax:
        case Intrinsic::abs:
        case Intrinsic::bswap:
        case Intrinsic::bitreverse:
        case Intrinsic::ctpop:
        case Intrinsic::ctlz:
        case Intrinsic::cttz:
        case Intrinsic::fshl:
        case Intrinsic::fshr:
        case Intrinsic::uadd_sat:
        case Intrinsic::usub_sat: {
            if (!scalar(ii->getType())) return;
            unsigned n = 1, code = 0;
            switch (ii->getIntrinsicID()) {
            case Intrinsic::umin: code = 1; n = 2; break;
            case Intrinsic::umax: code = 2; n = 2; break;
            case Intrinsic::smin: code = 3; n = 2; break;
            case Intrinsic::smax: code = 4; n = 2; break;
            case Intrinsic::abs: code = 5; break;
            case Intrinsic::bswap: code = 6; break;
            case Intrinsic::ctpop: code = 7; break;
            case Intrinsic::ctlz: code = 8; break;
            case Intrinsic::cttz: code = 9; break;
            case Intrinsic::fshl: code = 10; n = 3; break;
            case Intrinsic::fshr: code = 11; n = 3; break;
            case Intrinsic::uadd_sat: code = 12; n = 2; break;
            case Intrinsic::usub_sat: code = 13; n = 2; break;
            case Intrinsic::bitreverse: code = 14; break;
            default:;
            }
            if (!sym(n)) return;
            Value *z = c64(0), *s0 = c32(0);
            sh[ii] = B.CreateCall(fIntr, { c32(code), c32(width(ii->getType())), S(arg(0)), V(B, arg(0)), n > 1 ? S(arg(1)) : s0, n > 1 ? V(B, arg(1)) : z,
                n > 2 ? S(arg(2)) : s0, n > 2 ? V(B, arg(2)) : z });
            return;
        }
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow:
        case Intrinsic::smul_with_overflow: {
            if (!sym(2) || !scalar(arg(0)->getType())) return;
            unsigned code = 0, op = SX_ADD;
            switch (ii->getIntrinsicID()) {
            case Intrinsic::uadd_with_overflow: code = 1; op = SX_ADD; break;
            case Intrinsic::usub_with_overflow: code = 2; op = SX_SUB; break;
            case Intrinsic::umul_with_overflow: code = 3; op = SX_MUL; break;
            case Intrinsic::sadd_with_overflow: code = 4; op = SX_ADD; break;
            case Intrinsic::ssub_with_overflow: code = 5; op = SX_SUB; break;
            case Intrinsic::smul_with_overflow: code = 6; op = SX_MUL; break;
            default:;
            }
            Value *w = c32(width(arg(0)->getType()));
            Value *r = B.CreateCall(fBin, { c32(op), w, S(arg(0)), V(B, arg(0)), S(arg(1)), V(B, arg(1)), ConstantPointerNull::get(Ptr) });
            Value *o = B.CreateCall(fOvf, { c32(code), w, S(arg(0)), V(B, arg(0)), S(arg(1)), V(B, arg(1)) });
            Value *agg = Constant::getNullValue(shTy(ii->getType()));
            agg = B.CreateInsertValue(agg, r, 0);
            agg = B.CreateInsertValue(agg, o, 1);
            sh[ii] = agg;
            return;
        }
        case Intrinsic::fabs:
            if (!sym(1) || !scalar(ii->getType())) return;
            sh[ii] = B.CreateCall(fBin, { c32(SX_AND), c32(width(ii->getType())), S(arg(0)), V(B, arg(0)), c32(0), c64((1ull << (width(ii->getType()) - 1)) - 1), ConstantPointerNull::get(Ptr) });
            return;
        case Intrinsic::floor:
        case Intrinsic::ceil:
        case Intrinsic::trunc:
        case Intrinsic::round:
        case Intrinsic::nearbyint:
        case Intrinsic::rint:
        case Intrinsic::sqrt: {
            if (!sym(1) || !scalar(ii->getType())) return;
            unsigned m = 4;
            switch (ii->getIntrinsicID()) {
            case Intrinsic::floor: m = 0; break;
            case Intrinsic::ceil: m = 1; break;
            case Intrinsic::trunc: m = 2; break;
            case Intrinsic::round: m = 3; break;
            case Intrinsic::sqrt: m = 5; break;
            default:;
            }
            sh[ii] = B.CreateCall(fFUn, { c32(m), c32(width(ii->getType())), S(arg(0)), V(B, arg(0)) });
            return;
        }
        case Intrinsic::fmuladd:
        case Intrinsic::fma: {
            if (!sym(3) || !scalar(ii->getType())) return;
            Value *w = c32(width(ii->getType())), *np = ConstantPointerNull::get(Ptr);
            Value *mv = B.CreateFMul(arg(0), arg(1));
            Value *m = B.CreateCall(fBin, { c32(SX_FMUL), w, S(arg(0)), V(B, arg(0)), S(arg(1)), V(B, arg(1)), np });
            sh[ii] = B.CreateCall(fBin, { c32(SX_FADD), w, m, V(B, mv), S(arg(2)), V(B, arg(2)), np });
            return;
        }
        case Intrinsic::assume:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_label:
        case Intrinsic::dbg_assign:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::objectsize:
        case Intrinsic::is_constant:
        case Intrinsic::eh_typeid_for:
        case Intrinsic::stacksave:
        case Intrinsic::stackrestore:
        case Intrinsic::prefetch:
        case Intrinsic::invariant_start:
        case Intrinsic::invariant_end: return;
        default: lostArgs(B, ii); return;
        }
    }

    bool runModule()
    {
        std::vector<Function *> fs;
        for (auto &f : M) {
            if (f.isDeclaration()) continue;
            StringRef n = f.getName();
            if (n.starts_with("_sx") || n.starts_with("sx_") || n.starts_with("__clang_call_terminate") || n.starts_with("asan.")) continue;
            if (f.hasFnAttribute(Attribute::Naked)) continue;
            if (f.hasFnAttribute("sx_skip") || matches(n, skipList)) continue;
            if (f.hasAvailableExternallyLinkage()) continue;
            fs.push_back(&f);
        }
        for (auto *f : fs) {
            // the values of nounwind/readnone/argmemonly attributes no longer hold
            f->removeFnAttr(Attribute::Memory);
            f->removeFnAttr(Attribute::NoSync);
            f->removeFnAttr(Attribute::NoFree);
            f->removeFnAttr(Attribute::WillReturn);
            f->removeFnAttr(Attribute::Speculatable);
        }
        for (auto *f : fs)
            for (auto &i : instructions(*f))
                if (auto *cb = dyn_cast<CallBase>(&i); cb && !isa<IntrinsicInst>(cb)) {
                    cb->removeFnAttr(Attribute::Memory);
                    cb->removeFnAttr(Attribute::NoSync);
                    cb->removeFnAttr(Attribute::WillReturn);
                    cb->removeFnAttr(Attribute::Speculatable);
                    if (auto *ci = dyn_cast<CallInst>(cb); ci && ci->isTailCall() && !ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None);
                    if (auto *cf = cb->getCalledFunction(); cf && cf->isDeclaration()) {
                        cf->removeFnAttr(Attribute::Memory);
                        cf->removeFnAttr(Attribute::NoSync);
                        cf->removeFnAttr(Attribute::WillReturn);
                    }
                }
        for (auto *f : fs) run(*f);
        return true;
    }
};

struct SxPass : PassInfoMixin<SxPass> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
    {
        Inst(M).runModule();
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

// keeps "paused" functions recognisable by their name
struct SxEarly : PassInfoMixin<SxEarly> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
    {
        auto pl = splitEnv("SX_PAUSE");
        for (auto &f : M)
            if (matches(f.getName(), pl) && !f.isDeclaration()) {
                f.removeFnAttr(Attribute::AlwaysInline);
                f.addFnAttr(Attribute::NoInline);
            }
        return PreservedAnalyses::all();
    }
    static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return { LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder &PB) {
                PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SxEarly()); });
                PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
            } };
}
