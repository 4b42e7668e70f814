// vs-pass: LLVM 18 pass plugin that makes every integer / pointer / floating
// point computation of a module carry a symbolic shadow (see rt.cc).
// The program keeps running natively; every instruction is followed by a call
// that builds the corresponding SMT term when an operand is symbolic.
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "ops.h"
#include <cstdlib>

using namespace llvm;

namespace {

// Functions replaced by instrumented models (models.c)
const char* MODELED[] = {
    "strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "stpcpy", "strchr", "strrchr", "strnlen",
    "memcmp", "bcmp", "memchr", "strtol", "strtoul", "strtoll", "strtoull", "atoi", "atol", "strtod", "strstr",
    "isdigit", "isspace", "isalpha", "isalnum", "isprint", "isupper", "islower", "ispunct", "iscntrl", "isxdigit", "isgraph",
    "toupper", "tolower",
    "snprintf", "vsnprintf", "sprintf", "vsprintf", "strdup", "memrchr", "strspn", "strcspn", "strcasecmp", "strncasecmp",
    "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoll", "__isoc23_strtoull",
    "asprintf", "vasprintf", "memccpy", "mempcpy", "realloc", "reallocarray",
    "fopen", "fopen64", "fclose", "fgets", "fgets_unlocked", "getc", "fgetc", "getc_unlocked", "fgetc_unlocked", "_IO_getc", "ungetc",
    "fread", "fread_unlocked", "ftell", "ftello", "ftello64", "fseek", "fseeko", "fseeko64", "rewind", "feof", "ferror", "feof_unlocked", "ferror_unlocked", "clearerr",
    "fwrite", "fwrite_unlocked", "getline", "fputs", "fputs_unlocked", "fputc", "putc", "fputc_unlocked", "putc_unlocked",
};

bool isModeled(StringRef n)
{
    for (auto m : MODELED) if (n == m) return true;
    return false;
}

// external math functions handled as operators: unary double->double / ->int
int mathUnary(StringRef n)
{
    if (n == "rint" || n == "nearbyint") return VSF_RINT;
    if (n == "round") return VSF_ROUND;
    if (n == "floor") return VSF_FLOOR;
    if (n == "ceil") return VSF_CEIL;
    if (n == "trunc") return VSF_TRUNC;
    if (n == "fabs") return VSF_ABS;
    if (n == "sqrt") return VSF_SQRT;
    return -1;
}
// double -> long conversions (rounding mode, then fptosi 64)
int mathToInt(StringRef n)
{
    if (n == "lrint" || n == "llrint") return VSF_RINT;
    if (n == "lround" || n == "llround") return VSF_ROUND;
    return -1;
}

// External functions whose arguments are output sinks: no constraint is
// recorded when they receive symbolic data.
bool isSink(StringRef n)
{
    static const char* L[] = {"printf", "fprintf", "vfprintf", "puts", "fputs", "fputc", "putc", "putchar", "fwrite", "perror", "abort", "exit", "_exit",
        "free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "strerror", "strerror_r"};
    for (auto m : L) if (n == m) return true;
    if (n.starts_with("__asan") || n.starts_with("__ubsan") || n.starts_with("__cxa_") || n.starts_with("__sanitizer")) return true;
    if (n.starts_with("_ZSt") && n.contains("__throw")) return true;
    return false;
}
bool isAlloc(StringRef n, int& sizearg, int& cntarg)
{
    cntarg = -1;
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t" || n == "valloc") { sizearg = 0; return true; }
    if (n == "calloc") { sizearg = 0; cntarg = 1; return true; }
    return false;
}

struct VsPass : public PassInfoMixin<VsPass>
{
    StringSet<> externals;
    bool haveExternals = false;

    LLVMContext* C; Module* M; const DataLayout* DL;
    Type *I64, *I32, *Void; PointerType* P;
    Constant* Null;
    FunctionCallee fArg, fArgsDone, fPushArg, fClearRet, fRet, fSetRet, fBin, fIcmp, fFcmp, fSelect, fCast, fGep, fLoad, fStore, fStoreC,
        fBranch, fSwitch, fConc, fMemcpy, fMemset, fAlloc, fExt, fIntr2, fOvf, fF2, fF1, fFToI, fVaStart, fLoadVec, fFn, fExtPtr, fSetNArgs;

    void init(Module& m)
    {
        M = &m; C = &m.getContext(); DL = &m.getDataLayout();
        I64 = Type::getInt64Ty(*C); I32 = Type::getInt32Ty(*C); Void = Type::getVoidTy(*C);
        P = PointerType::getUnqual(*C); Null = ConstantPointerNull::get(P);
        AttributeList AL;
        AL = AL.addFnAttribute(*C, Attribute::NoUnwind);
        auto F = [&](const char* n, Type* r, std::vector<Type*> a) { return m.getOrInsertFunction(n, FunctionType::get(r, a, false), AL); };
        fArg = F("__vs_arg", P, {I32, I64, I32});
        fArgsDone = F("__vs_args_done", Void, {});
        fPushArg = F("__vs_push_arg", Void, {I32, P});
        fSetNArgs = F("__vs_set_nargs", Void, {I32, I64});
        fClearRet = F("__vs_clear_ret", Void, {});
        fRet = F("__vs_ret", P, {I32, I64, I32});
        fSetRet = F("__vs_set_ret", Void, {I32, P});
        fBin = F("__vs_bin", P, {I32, I32, P, P, I64, I64, I64});
        fIcmp = F("__vs_icmp", P, {I32, I32, P, P, I64, I64, I64});
        fFcmp = F("__vs_fcmp", P, {I32, I32, P, P, I64, I64, I64});
        fSelect = F("__vs_select", P, {I32, P, P, P, I64, I64, I64});
        fCast = F("__vs_cast", P, {I32, I32, I32, P, I64, I64});
        fGep = F("__vs_gep", P, {P, P, I64, I64, I64});
        fLoad = F("__vs_load", P, {P, I32, I32, P, I64, I32});
        fLoadVec = F("__vs_load_vec", Void, {P, I32, P, P});
        fStore = F("__vs_store", Void, {P, I32, P, P, I64, I32});
        fStoreC = F("__vs_store_c", Void, {P, I64});
        fBranch = F("__vs_branch", Void, {P, P, I64});
        fSwitch = F("__vs_switch", Void, {P, P, I64, I32, I32, P});
        fConc = F("__vs_conc", Void, {P, P, I64, I32, P});
        fMemcpy = F("__vs_memcpy", Void, {P, P, I64, P, P, P});
        fMemset = F("__vs_memset", Void, {P, P, I64, I64, P, P});
        fAlloc = F("__vs_alloc", Void, {P, I64});
        fExt = F("__vs_ext", Void, {P, P, P, I64, I32});
        fExtPtr = F("__vs_ext_ptr", Void, {P, P, P});
        fIntr2 = F("__vs_intr", P, {I32, I32, P, P, P, I64, I64, I64, I64});
        fOvf = F("__vs_ovf", P, {I32, I32, P, P, I64, I64, I64});
        fF2 = F("__vs_f2", P, {I32, I32, P, P, I64, I64, I64});
        fF1 = F("__vs_f1", P, {I32, I32, P, I64, I64});
        fFToI = F("__vs_ftoi", P, {I32, P, I64, I64});
        fVaStart = F("__vs_va_start", Void, {P, P, P});
        fFn = F("__vs_fn", Void, {P});
    }

    static bool supported(Type* t)
    {
        if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64;
        return t->isPointerTy() || t->isDoubleTy() || t->isFloatTy();
    }
    unsigned bits(Type* t)
    {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isFloatTy()) return 32;
        return 64;
    }
    // flatten aggregate leaves; returns false if any leaf is unsupported
    bool flatten(Type* t, SmallVectorImpl<Type*>& out)
    {
        if (auto* S = dyn_cast<StructType>(t)) { for (auto* e : S->elements()) if (!flatten(e, out)) return false; return true; }
        if (auto* A = dyn_cast<ArrayType>(t)) { if (A->getNumElements() > 16) return false; for (unsigned i = 0; i < A->getNumElements(); ++i) if (!flatten(A->getElementType(), out)) return false; return true; }
        out.push_back(t);
        return true;
    }
    unsigned leafIndex(Type* t, ArrayRef<unsigned> idx)
    {
        unsigned res = 0;
        for (unsigned i : idx)
        {
            for (unsigned j = 0; j < i; ++j)
            {
                SmallVector<Type*, 8> l;
                Type* e = isa<StructType>(t) ? cast<StructType>(t)->getElementType(j) : cast<ArrayType>(t)->getElementType();
                flatten(e, l); res += l.size();
            }
            t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : cast<ArrayType>(t)->getElementType();
        }
        return res;
    }

    Value* toI64(IRBuilder<>& B, Value* v)
    {
        Type* t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return B.CreateZExt(v, I64);
        return ConstantInt::get(I64, 0);
    }
    Constant* c32(int64_t v) { return ConstantInt::get(I32, v); }
    Constant* c64(int64_t v) { return ConstantInt::get(I64, v); }

    DenseMap<std::pair<Function*, unsigned>, Constant*> sites;
    StringMap<Constant*> strs;
    Constant* str(StringRef s)
    {
        auto it = strs.find(s);
        if (it != strs.end()) return it->second;
        Constant* d = ConstantDataArray::getString(*C, s);
        auto* g = new GlobalVariable(*M, d->getType(), true, GlobalValue::PrivateLinkage, d, "__vs_str");
        { GlobalValue::SanitizerMetadata md; md.NoAddress = true; g->setSanitizerMetadata(md); }
        strs[s] = g;
        return g;
    }
    unsigned siteN = 0;
    Constant* site(Instruction* I)
    {
        std::string fn = I->getFunction()->getName().str();
        if (DILocation* L = I->getDebugLoc())
            if (DISubprogram* sp = L->getScope()->getSubprogram())
                fn = (sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str();
        std::string s = fn + "#" + std::to_string(siteN++);
        if (DILocation* L = I->getDebugLoc())
        {
            s += "@" + L->getFilename().str() + ":" + std::to_string(L->getLine());
        }
        return str(s);
    }

    bool isExternal(Function* f)
    {
        if (!f) return false;
        if (!f->isDeclaration()) return false;
        StringRef n = f->getName();
        if (n.starts_with("vs_")) return false;
        return externals.count(n);
    }

    // ---- may-be-symbolic analysis
    DenseSet<Value*> may;
    bool maySym(Value* v) { return may.count(v); }
    bool callMay(CallBase* CB)
    {
        if (CB->getType()->isVoidTy()) return false;
        if (auto* II = dyn_cast<IntrinsicInst>(CB)) { (void)II; for (auto& a : CB->args()) if (maySym(a)) return true; return false; }
        if (CB->isInlineAsm()) return false;
        Function* f = CB->getCalledFunction();
        if (!f) return true;
        if (mathUnary(f->getName()) >= 0 || mathToInt(f->getName()) >= 0) { for (auto& a : CB->args()) if (maySym(a)) return true; return false; }
        if (isModeled(f->getName())) return true;
        if (isExternal(f)) return false;
        return true;
    }
    void analyse(Function& F)
    {
        may.clear();
        for (auto& a : F.args()) if (supported(a.getType())) may.insert(&a);
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (auto& BB : F) for (auto& I : BB)
            {
                if (I.getType()->isVoidTy() || may.count(&I)) continue;
                bool m = false;
                if (isa<LoadInst>(I)) m = true;
                else if (isa<AllocaInst>(I) || isa<LandingPadInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<VAArgInst>(I)) m = false;
                else if (auto* CB = dyn_cast<CallBase>(&I)) m = callMay(CB);
                else for (auto& o : I.operands()) if (maySym(o)) { m = true; break; }
                if (m)
                {
                    SmallVector<Type*, 8> l;
                    if (I.getType()->isVectorTy()) continue;
                    if (!flatten(I.getType(), l)) continue;
                    bool any = false; for (auto* t : l) if (supported(t)) any = true;
                    if (!any) continue;
                    may.insert(&I); ch = true;
                }
            }
        }
    }

    // ---- shadows
    DenseMap<Value*, Value*> sh;
    Type* shType(Type* t)
    {
        if (t->isAggregateType()) { SmallVector<Type*, 8> l; flatten(t, l); return ArrayType::get(P, l.size()); }
        return P;
    }
    Value* nullSh(Type* t) { return Constant::getNullValue(shType(t)); }
    Value* S(Value* v)
    {
        auto it = sh.find(v);
        if (it != sh.end()) return it->second;
        return nullSh(v->getType());
    }
    void concOp(IRBuilder<>& B, Instruction* I, Value* v, const char* why)
    {
        if (!maySym(v) || !supported(v->getType())) return;
        B.CreateCall(fConc, {site(I), S(v), toI64(B, v), c32(bits(v->getType())), str(why)});
    }

    bool runOnFunction(Function& F)
    {
        if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) return false;
        if ((F.getName().starts_with("__vs_") && !F.getName().starts_with("__vs_model_")) || F.getName().starts_with("asan.") || F.getName().starts_with("__asan")) return false;
        if (F.hasFnAttribute(Attribute::Naked)) return false;
        if (F.hasFnAttribute("vs_skip") || F.getSection() == "vs_skip") return false;
        removeUnreachableBlocks(F);
        siteN = 0;

        // Strip attributes made wrong by the inserted calls
        F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn); F.removeFnAttr(Attribute::NoSync); F.removeFnAttr(Attribute::NoFree); F.removeFnAttr(Attribute::Speculatable); F.removeFnAttr(Attribute::NoRecurse);
        F.removeFnAttr(Attribute::NoCallback);
        for (auto& BB : F) for (auto& I : BB)
        {
            if (auto* CB = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(CB))
            { CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::WillReturn); CB->removeFnAttr(Attribute::NoSync); CB->removeFnAttr(Attribute::NoFree); }
            if (auto* CI = dyn_cast<CallInst>(&I)) if (CI->isTailCall() && !CI->isMustTailCall()) CI->setTailCall(false);
        }
        // Give every value-returning invoke a dedicated normal destination
        SmallVector<InvokeInst*, 8> invs;
        for (auto& BB : F) if (auto* II = dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(II);
        for (auto* II : invs)
            if (!II->getNormalDest()->getSinglePredecessor())
                SplitEdge(II->getParent(), II->getNormalDest());

        analyse(F);
        sh.clear();

        SmallVector<Instruction*, 256> work;
        ReversePostOrderTraversal<Function*> RPOT(&F);
        for (auto* BB : RPOT) for (auto& I : *BB) work.push_back(&I);

        // entry
        {
            IRBuilder<> B(&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
            // place after allocas
            bool any = false;
            unsigned i = 0;
            for (auto& a : F.args())
            {
                if (supported(a.getType()) && (!a.use_empty()))
                {
                    sh[&a] = B.CreateCall(fArg, {c32(i), toI64(B, &a), c32(bits(a.getType()))});
                    any = true;
                }
                ++i;
            }
            (void)any;
            B.CreateCall(fArgsDone, {});
        }
        // phis first
        SmallVector<PHINode*, 16> phis;
        for (auto* I : work) if (auto* PN = dyn_cast<PHINode>(I)) if (maySym(PN)) phis.push_back(PN);
        for (auto* PN : phis)
        {
            IRBuilder<> B(PN);
            sh[PN] = B.CreatePHI(shType(PN->getType()), PN->getNumIncomingValues());
        }
        for (auto* I : work) visit(F, I);
        for (auto* PN : phis)
        {
            auto* SP = cast<PHINode>(sh[PN]);
            for (unsigned i = 0; i < PN->getNumIncomingValues(); ++i)
                SP->addIncoming(S(PN->getIncomingValue(i)), PN->getIncomingBlock(i));
        }
        return true;
    }

    void visit(Function& F, Instruction* I)
    {
        if (isa<PHINode>(I)) return;
        // insertion point after I
        Instruction* next = I->isTerminator() ? nullptr : I->getNextNode();
        auto after = [&]() { return next; };
        auto before = [&]() { return I; };
        Type* T = I->getType();

        if (auto* BO = dyn_cast<BinaryOperator>(I))
        {
            if (!maySym(I))
            {
                if (T->isVectorTy()) return;
                if (!supported(T)) { IRBuilder<> B(before()); for (auto& o : I->operands()) concOp(B, I, o, "wide-op"); }
                return;
            }
            IRBuilder<> B(after());
            Value *a = BO->getOperand(0), *b = BO->getOperand(1);
            if (T->isFloatingPointTy())
            {
                int op = -1;
                switch (BO->getOpcode()) { case Instruction::FAdd: op = VSF_ADD; break; case Instruction::FSub: op = VSF_SUB; break; case Instruction::FMul: op = VSF_MUL; break; case Instruction::FDiv: op = VSF_DIV; break; case Instruction::FRem: op = VSF_REM; break; default: break; }
                sh[I] = B.CreateCall(fF2, {c32(op), c32(bits(T)), S(a), S(b), toI64(B, a), toI64(B, b), toI64(B, I)});
                return;
            }
            int op = -1;
            switch (BO->getOpcode())
            {
                case Instruction::Add: op = VS_ADD; break; case Instruction::Sub: op = VS_SUB; break; case Instruction::Mul: op = VS_MUL; break;
                case Instruction::UDiv: op = VS_UDIV; break; case Instruction::SDiv: op = VS_SDIV; break; case Instruction::URem: op = VS_UREM; break; case Instruction::SRem: op = VS_SREM; break;
                case Instruction::And: op = VS_AND; break; case Instruction::Or: op = VS_OR; break; case Instruction::Xor: op = VS_XOR; break;
                case Instruction::Shl: op = VS_SHL; break; case Instruction::LShr: op = VS_LSHR; break; case Instruction::AShr: op = VS_ASHR; break;
                default: break;
            }
            sh[I] = B.CreateCall(fBin, {c32(op), c32(bits(T)), S(a), S(b), toI64(B, a), toI64(B, b), toI64(B, I)});
            return;
        }
        if (auto* U = dyn_cast<UnaryOperator>(I))
        {
            if (!maySym(I)) return;
            IRBuilder<> B(after());
            Value* a = U->getOperand(0);
            sh[I] = B.CreateCall(fF1, {c32(VSF_NEG), c32(bits(T)), S(a), toI64(B, a), toI64(B, I)});
            return;
        }
        if (auto* Cm = dyn_cast<CmpInst>(I))
        {
            Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
            if (!supported(a->getType())) { if (maySym(a) || maySym(b)) {} return; }
            if (!maySym(I)) return;
            IRBuilder<> B(after());
            if (isa<ICmpInst>(Cm))
                sh[I] = B.CreateCall(fIcmp, {c32((int)Cm->getPredicate()), c32(bits(a->getType())), S(a), S(b), toI64(B, a), toI64(B, b), toI64(B, I)});
            else
                sh[I] = B.CreateCall(fFcmp, {c32((int)Cm->getPredicate()), c32(bits(a->getType())), S(a), S(b), toI64(B, a), toI64(B, b), toI64(B, I)});
            return;
        }
        if (auto* SI = dyn_cast<SelectInst>(I))
        {
            if (T->isVectorTy() || !(supported(T) || T->isAggregateType())) { IRBuilder<> B(before()); concOp(B, I, SI->getCondition(), "select"); return; }
            if (!maySym(I)) return;
            if (T->isAggregateType())
            {
                IRBuilder<> B(before()); concOp(B, I, SI->getCondition(), "select-agg");
                IRBuilder<> B2(after());
                sh[I] = B2.CreateSelect(SI->getCondition(), S(SI->getTrueValue()), S(SI->getFalseValue()));
                return;
            }
            IRBuilder<> B(after());
            Value *c = SI->getCondition(), *t = SI->getTrueValue(), *f = SI->getFalseValue();
            // freeze: the not-chosen operand may be poison
            sh[I] = B.CreateCall(fSelect, {c32(bits(T)), S(c), S(t), S(f), toI64(B, c), toI64(B, B.CreateFreeze(t)), toI64(B, B.CreateFreeze(f))});
            return;
        }
        if (auto* CI = dyn_cast<CastInst>(I))
        {
            Value* a = CI->getOperand(0);
            if (!maySym(I))
            {
                if (maySym(a) && supported(a->getType())) { IRBuilder<> B(before()); concOp(B, I, a, "cast"); }
                return;
            }
            if (!supported(a->getType()) || !supported(T)) return;
            IRBuilder<> B(after());
            int op = -1;
            switch (CI->getOpcode())
            {
                case Instruction::ZExt: op = VSC_ZEXT; break; case Instruction::SExt: op = VSC_SEXT; break; case Instruction::Trunc: op = VSC_TRUNC; break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: op = bits(T) > bits(a->getType()) ? VSC_ZEXT : VSC_TRUNC; break;
                case Instruction::BitCast: op = VSC_BITCAST; break;
                case Instruction::SIToFP: op = VSC_SITOFP; break; case Instruction::UIToFP: op = VSC_UITOFP; break;
                case Instruction::FPToSI: op = VSC_FPTOSI; break; case Instruction::FPToUI: op = VSC_FPTOUI; break;
                case Instruction::FPExt: op = VSC_FPEXT; break; case Instruction::FPTrunc: op = VSC_FPTRUNC; break;
                default: op = VSC_BITCAST; break;
            }
            sh[I] = B.CreateCall(fCast, {c32(op), c32(bits(a->getType())), c32(bits(T)), S(a), toI64(B, a), toI64(B, I)});
            return;
        }
        if (isa<FreezeInst>(I)) { if (maySym(I)) sh[I] = S(I->getOperand(0)); return; }
        if (auto* G = dyn_cast<GetElementPtrInst>(I))
        {
            if (!maySym(I) || T->isVectorTy()) return;
            IRBuilder<> B(after());
            MapVector<Value*, APInt> vars; APInt cst(64, 0);
            if (!G->collectOffset(*DL, 64, vars, cst)) { return; }
            Value* s = S(G->getPointerOperand());
            Value* base = toI64(B, G->getPointerOperand());
            // (base, s) += idx * scale, one variable at a time; constant last
            for (auto& kv : vars)
            {
                Value* idx = kv.first;
                Value* iv = B.CreateSExtOrTrunc(idx, I64);
                Value* is = S(idx);
                unsigned ib = bits(idx->getType());
                if (maySym(idx) && ib < 64)
                    is = B.CreateCall(fCast, {c32(VSC_SEXT), c32(ib), c32(64), is, toI64(B, idx), iv});
                s = B.CreateCall(fGep, {s, is, base, iv, c64((int64_t)kv.second.getSExtValue())});
                base = B.CreateAdd(base, B.CreateMul(iv, c64((int64_t)kv.second.getSExtValue())));
            }
            if (cst != 0)
                s = B.CreateCall(fGep, {s, Null, base, c64(cst.getSExtValue()), c64(1)});
            sh[I] = s;
            return;
        }
        if (auto* L = dyn_cast<LoadInst>(I))
        {
            Value* p = L->getPointerOperand();
            IRBuilder<> B(after());
            if (supported(T))
            {
                if (maySym(I))
                    sh[I] = B.CreateCall(fLoad, {p, c32(DL->getTypeStoreSize(T)), c32(bits(T)), S(p), toI64(B, I), c32(T->isFloatingPointTy())});
            }
            else if (T->isAggregateType() && maySym(I))
            {
                Value* agg = nullSh(T); unsigned k = 0;
                forLeaves(T, 0, [&](Type* lt, uint64_t off, ArrayRef<unsigned> idx) {
                    if (supported(lt))
                    {
                        Value* v = B.CreateExtractValue(I, idx);
                        Value* s = B.CreateCall(fLoad, {B.CreatePtrAdd(p, c64(off)), c32(DL->getTypeStoreSize(lt)), c32(bits(lt)), Null, toI64(B, v), c32(lt->isFloatingPointTy())});
                        agg = B.CreateInsertValue(agg, s, {k});
                    }
                    ++k;
                });
                sh[I] = agg;
                concOp(B, I, p, "agg-load-addr");
            }
            else
                B.CreateCall(fLoadVec, {p, c32(DL->getTypeStoreSize(T)), S(p), site(I)});
            return;
        }
        if (auto* St = dyn_cast<StoreInst>(I))
        {
            Value *p = St->getPointerOperand(), *v = St->getValueOperand(); Type* vt = v->getType();
            // pointers kept in memory are made concrete, one path per value
            if (vt->isPointerTy() && maySym(v)) { IRBuilder<> B(before()); concOp(B, I, v, "ptr-store"); }
            IRBuilder<> B(after());
            if (supported(vt))
            {
                if (vt->isPointerTy() && !maySym(p))
                    B.CreateCall(fStoreC, {p, c64(DL->getTypeStoreSize(vt))});
                else if (maySym(v) || maySym(p))
                    B.CreateCall(fStore, {p, c32(DL->getTypeStoreSize(vt)), S(p), S(v), toI64(B, v), c32(bits(vt))});
                else
                    B.CreateCall(fStoreC, {p, c64(DL->getTypeStoreSize(vt))});
            }
            else
            {
                B.CreateCall(fStoreC, {p, c64(DL->getTypeStoreSize(vt))});
                if (vt->isAggregateType() && maySym(v))
                {
                    unsigned k = 0;
                    forLeaves(vt, 0, [&](Type* lt, uint64_t off, ArrayRef<unsigned> idx) {
                        if (supported(lt))
                        {
                            Value* x = B.CreateExtractValue(v, idx);
                            Value* s = B.CreateExtractValue(S(v), {k});
                            B.CreateCall(fStore, {B.CreatePtrAdd(p, c64(off)), c32(DL->getTypeStoreSize(lt)), Null, s, toI64(B, x), c32(bits(lt))});
                        }
                        ++k;
                    });
                }
            }
            return;
        }
        if (auto* A = dyn_cast<AtomicRMWInst>(I)) { IRBuilder<> B(after()); B.CreateCall(fStoreC, {A->getPointerOperand(), c64(DL->getTypeStoreSize(A->getValOperand()->getType()))}); return; }
        if (auto* A = dyn_cast<AtomicCmpXchgInst>(I)) { IRBuilder<> B(after()); B.CreateCall(fStoreC, {A->getPointerOperand(), c64(DL->getTypeStoreSize(A->getNewValOperand()->getType()))}); return; }
        if (auto* A = dyn_cast<AllocaInst>(I))
        {
            IRBuilder<> B(after());
            if (maySym(A->getArraySize())) { IRBuilder<> B2(before()); concOp(B2, I, A->getArraySize(), "alloca-size"); }
            (void)A;
            if (!A->isStaticAlloca())
            {
                Value* sz = B.CreateMul(B.CreateZExtOrTrunc(A->getArraySize(), I64), c64(DL->getTypeAllocSize(A->getAllocatedType())));
                B.CreateCall(fAlloc, {A, sz});
            }
            else
                B.CreateCall(fAlloc, {A, c64(DL->getTypeAllocSize(A->getAllocatedType()))});
            return;
        }
        if (auto* Br = dyn_cast<BranchInst>(I))
        {
            if (Br->isConditional() && maySym(Br->getCondition()))
            {
                IRBuilder<> B(before());
                B.CreateCall(fBranch, {site(I), S(Br->getCondition()), toI64(B, Br->getCondition())});
            }
            return;
        }
        if (auto* Sw = dyn_cast<SwitchInst>(I))
        {
            if (!maySym(Sw->getCondition())) return;
            IRBuilder<> B(before());
            std::vector<Constant*> v;
            // (value, successor id) pairs; successor 0 is the default
            DenseMap<BasicBlock*, unsigned> succ; succ[Sw->getDefaultDest()] = 0; unsigned n = 1;
            for (auto& c : Sw->cases())
            {
                if (!succ.count(c.getCaseSuccessor())) succ[c.getCaseSuccessor()] = n++;
                v.push_back(c64(c.getCaseValue()->getZExtValue()));
                v.push_back(c64(succ[c.getCaseSuccessor()]));
            }
            auto* AT = ArrayType::get(I64, v.size());
            auto* g = new GlobalVariable(*M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, v), "__vs_sw");
            { GlobalValue::SanitizerMetadata md; md.NoAddress = true; g->setSanitizerMetadata(md); }
            B.CreateCall(fSwitch, {site(I), S(Sw->getCondition()), toI64(B, Sw->getCondition()), c32(bits(Sw->getCondition()->getType())), c32(v.size() / 2), g});
            return;
        }
        if (auto* R = dyn_cast<ReturnInst>(I))
        {
            // musttail call before: leave the return shadows alone
            if (I->getPrevNode()) if (auto* CI = dyn_cast<CallInst>(I->getPrevNode())) if (CI->isMustTailCall()) return;
            IRBuilder<> B(before());
            Value* v = R->getReturnValue();
            if (!v) { B.CreateCall(fClearRet, {}); return; }
            if (supported(v->getType())) { if (maySym(v)) B.CreateCall(fSetRet, {c32(0), S(v)}); else B.CreateCall(fClearRet, {}); }
            else if (v->getType()->isAggregateType())
            {
                B.CreateCall(fClearRet, {});
                SmallVector<Type*, 8> l; if (flatten(v->getType(), l) && maySym(v))
                    for (unsigned k = 0; k < l.size(); ++k) B.CreateCall(fSetRet, {c32(k), B.CreateExtractValue(S(v), {k})});
            }
            else B.CreateCall(fClearRet, {});
            return;
        }
        if (auto* E = dyn_cast<ExtractValueInst>(I))
        {
            if (!maySym(I)) return;
            IRBuilder<> B(after());
            unsigned k = leafIndex(E->getAggregateOperand()->getType(), E->getIndices());
            if (T->isAggregateType())
            {
                SmallVector<Type*, 8> l; flatten(T, l);
                Value* agg = nullSh(T);
                for (unsigned i = 0; i < l.size(); ++i) agg = B.CreateInsertValue(agg, B.CreateExtractValue(S(E->getAggregateOperand()), {k + i}), {i});
                sh[I] = agg;
            }
            else sh[I] = B.CreateExtractValue(S(E->getAggregateOperand()), {k});
            return;
        }
        if (auto* E = dyn_cast<InsertValueInst>(I))
        {
            if (!maySym(I)) return;
            IRBuilder<> B(after());
            unsigned k = leafIndex(E->getAggregateOperand()->getType(), E->getIndices());
            Value* v = E->getInsertedValueOperand();
            if (v->getType()->isAggregateType())
            {
                SmallVector<Type*, 8> l; flatten(v->getType(), l);
                Value* agg = S(E->getAggregateOperand());
                for (unsigned i = 0; i < l.size(); ++i) agg = B.CreateInsertValue(agg, B.CreateExtractValue(S(v), {i}), {k + i});
                sh[I] = agg;
            }
            else sh[I] = B.CreateInsertValue(S(E->getAggregateOperand()), S(v), {k});
            return;
        }
        if (auto* II = dyn_cast<IntrinsicInst>(I)) { visitIntrinsic(F, II, next); return; }
        if (auto* CB = dyn_cast<CallBase>(I)) { visitCall(F, CB, next); return; }
        if (isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<LandingPadInst>(I)) return;
        // anything else: concretise operands
        IRBuilder<> B(before());
        for (auto& o : I->operands()) concOp(B, I, o, "unsupported-instr");
    }

    template <typename Fn> void forLeaves(Type* t, uint64_t off, Fn fn)
    {
        SmallVector<unsigned, 4> idx;
        rec(t, off, idx, fn);
    }
    template <typename Fn> void rec(Type* t, uint64_t off, SmallVectorImpl<unsigned>& idx, Fn& fn)
    {
        if (auto* S = dyn_cast<StructType>(t))
        {
            auto* SL = DL->getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); ++i) { idx.push_back(i); rec(S->getElementType(i), off + SL->getElementOffset(i), idx, fn); idx.pop_back(); }
        }
        else if (auto* A = dyn_cast<ArrayType>(t))
        {
            for (unsigned i = 0; i < A->getNumElements(); ++i) { idx.push_back(i); rec(A->getElementType(), off + i * DL->getTypeAllocSize(A->getElementType()), idx, fn); idx.pop_back(); }
        }
        else fn(t, off, idx);
    }

    void visitIntrinsic(Function& F, IntrinsicInst* I, Instruction* next)
    {
        IRBuilder<> Ba(next ? next : I), Bb(I);
        Type* T = I->getType();
        switch (I->getIntrinsicID())
        {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            {
                Value *d = I->getArgOperand(0), *s = I->getArgOperand(1), *n = I->getArgOperand(2);
                concOp(Bb, I, d, "memcpy-dst"); concOp(Bb, I, s, "memcpy-src");
                // before: source may overlap
                Value* n64 = Bb.CreateZExtOrTrunc(n, I64);
                Bb.CreateCall(fMemcpy, {d, s, n64, maySym(n) ? S(n) : Null, site(I), Null});
                return;
            }
            case Intrinsic::memset: case Intrinsic::memset_inline:
            {
                Value *d = I->getArgOperand(0), *v = I->getArgOperand(1), *n = I->getArgOperand(2);
                concOp(Bb, I, d, "memset-dst");
                Value* n64 = Ba.CreateZExtOrTrunc(n, I64);
                Ba.CreateCall(fMemset, {d, S(v), toI64(Ba, v), n64, maySym(n) ? S(n) : Null, site(I)});
                return;
            }
            case Intrinsic::vastart:
            {
                // shadows of the variadic arguments were saved by the caller
                Value* ap = I->getArgOperand(0);
                unsigned gp = 0, fp = 0;
                for (auto& a : F.args()) { if (a.getType()->isFloatingPointTy()) ++fp; else ++gp; }
                Ba.CreateCall(fVaStart, {ap, Ba.CreateIntToPtr(c64(F.arg_size()), P), Ba.CreateIntToPtr(c64(gp * 16 + fp), P)});
                return;
            }
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume: case Intrinsic::vaend: case Intrinsic::eh_typeid_for:
            case Intrinsic::trap: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::dbg_label: case Intrinsic::ubsantrap: case Intrinsic::prefetch: case Intrinsic::vacopy:
                return;
            default: break;
        }
        if (!maySym(I)) 
        {
            for (auto& a : I->args()) if (maySym(a)) concOp(Bb, I, a, "intrinsic");
            return;
        }
        Value* a = I->getArgOperand(0);
        Value* b = I->arg_size() > 1 ? I->getArgOperand(1) : nullptr;
        Value* c = I->arg_size() > 2 ? I->getArgOperand(2) : nullptr;
        int ov = -1, in = -1, f1 = -1, f2 = -1;
        switch (I->getIntrinsicID())
        {
            case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability:
                sh[I] = S(a); return;
            case Intrinsic::sadd_with_overflow: ov = VSO_SADD; break;
            case Intrinsic::uadd_with_overflow: ov = VSO_UADD; break;
            case Intrinsic::ssub_with_overflow: ov = VSO_SSUB; break;
            case Intrinsic::usub_with_overflow: ov = VSO_USUB; break;
            case Intrinsic::smul_with_overflow: ov = VSO_SMUL; break;
            case Intrinsic::umul_with_overflow: ov = VSO_UMUL; break;
            case Intrinsic::smin: in = VSI_SMIN; break; case Intrinsic::smax: in = VSI_SMAX; break;
            case Intrinsic::umin: in = VSI_UMIN; break; case Intrinsic::umax: in = VSI_UMAX; break;
            case Intrinsic::abs: in = VSI_ABS; break; case Intrinsic::bswap: in = VSI_BSWAP; break;
            case Intrinsic::ctlz: in = VSI_CTLZ; break; case Intrinsic::cttz: in = VSI_CTTZ; break; case Intrinsic::ctpop: in = VSI_CTPOP; break;
            case Intrinsic::fshl: in = VSI_FSHL; break; case Intrinsic::fshr: in = VSI_FSHR; break;
            case Intrinsic::usub_sat: in = VSI_USUBSAT; break; case Intrinsic::uadd_sat: in = VSI_UADDSAT; break;
            case Intrinsic::ssub_sat: in = VSI_SSUBSAT; break; case Intrinsic::sadd_sat: in = VSI_SADDSAT; break;
            case Intrinsic::bitreverse: in = VSI_BITREV; break;
            case Intrinsic::fabs: f1 = VSF_ABS; break; case Intrinsic::rint: case Intrinsic::nearbyint: f1 = VSF_RINT; break;
            case Intrinsic::floor: f1 = VSF_FLOOR; break; case Intrinsic::ceil: f1 = VSF_CEIL; break; case Intrinsic::trunc: f1 = VSF_TRUNC; break; case Intrinsic::round: f1 = VSF_ROUND; break; case Intrinsic::sqrt: f1 = VSF_SQRT; break; case Intrinsic::roundeven: f1 = VSF_RINT; break;
            case Intrinsic::lrint: case Intrinsic::llrint: case Intrinsic::lround: case Intrinsic::llround:
            {
                if (!a->getType()->isDoubleTy()) break;
                int m = (I->getIntrinsicID() == Intrinsic::lrint || I->getIntrinsicID() == Intrinsic::llrint) ? VSF_RINT : VSF_ROUND;
                sh[I] = Ba.CreateCall(fFToI, {c32(m), S(a), toI64(Ba, a), toI64(Ba, I)});
                return;
            }
            case Intrinsic::fmuladd:
            {
                // x86 baseline: separate multiply and add; validated by value
                f2 = -2; break;
            }
            case Intrinsic::minnum: f2 = VSF_MIN; break; case Intrinsic::maxnum: f2 = VSF_MAX; break; case Intrinsic::copysign: f2 = VSF_COPYSIGN; break;
            case Intrinsic::is_fpclass: 
                sh[I] = Ba.CreateCall(fIntr2, {c32(VSI_FPCLASS), c32(bits(a->getType())), S(a), Null, Null, toI64(Ba, a), toI64(Ba, b), c64(0), toI64(Ba, I)});
                return;
            default: break;
        }
        if (ov >= 0)
        {
            Value* r = Ba.CreateExtractValue(I, {0u}); Value* o = Ba.CreateExtractValue(I, {1u});
            unsigned w = bits(a->getType());
            if (!supported(a->getType())) { concOp(Bb, I, a, "wide"); concOp(Bb, I, b, "wide"); return; }
            int bop = (ov == VSO_SADD || ov == VSO_UADD) ? VS_ADD : (ov == VSO_SSUB || ov == VSO_USUB) ? VS_SUB : VS_MUL;
            Value* s0 = Ba.CreateCall(fBin, {c32(bop), c32(w), S(a), S(b), toI64(Ba, a), toI64(Ba, b), toI64(Ba, r)});
            Value* s1 = Ba.CreateCall(fOvf, {c32(ov), c32(w), S(a), S(b), toI64(Ba, a), toI64(Ba, b), toI64(Ba, o)});
            Value* agg = nullSh(T);
            agg = Ba.CreateInsertValue(agg, s0, {0u}); agg = Ba.CreateInsertValue(agg, s1, {1u});
            sh[I] = agg; return;
        }
        if (in >= 0 && supported(T))
        {
            unsigned w = bits(T);
            if (in == VSI_CTLZ || in == VSI_CTTZ) I->setArgOperand(1, ConstantInt::getFalse(I->getContext())); // the value at zero may be computed and not used: give it a definition
            if (in == VSI_ABS || in == VSI_CTLZ || in == VSI_CTTZ) b = nullptr;
            sh[I] = Ba.CreateCall(fIntr2, {c32(in), c32(w), S(a), b ? S(b) : Null, c ? S(c) : Null, toI64(Ba, a), b ? toI64(Ba, b) : c64(0), c ? toI64(Ba, c) : c64(0), toI64(Ba, I)});
            return;
        }
        if (f1 >= 0 && supported(T)) { sh[I] = Ba.CreateCall(fF1, {c32(f1), c32(bits(T)), S(a), toI64(Ba, a), toI64(Ba, I)}); return; }
        if (f2 >= 0 && supported(T)) { sh[I] = Ba.CreateCall(fF2, {c32(f2), c32(bits(T)), S(a), S(b), toI64(Ba, a), toI64(Ba, b), toI64(Ba, I)}); return; }
        if (f2 == -2 && supported(T))
        {
            Value* m = Ba.CreateFMul(a, b);
            Value* sm = Ba.CreateCall(fF2, {c32(VSF_MUL), c32(bits(T)), S(a), S(b), toI64(Ba, a), toI64(Ba, b), toI64(Ba, m)});
            sh[I] = Ba.CreateCall(fF2, {c32(VSF_ADD), c32(bits(T)), sm, S(c), toI64(Ba, m), toI64(Ba, c), toI64(Ba, I)});
            return;
        }
        for (auto& x : I->args()) concOp(Bb, I, x, "intrinsic");
    }

    void visitCall(Function& F, CallBase* CB, Instruction* next)
    {
        IRBuilder<> Bb(CB);
        if (CB->isInlineAsm()) { for (auto& a : CB->args()) concOp(Bb, CB, a, "asm"); return; }
        Function* f = CB->getCalledFunction();
        StringRef n = f ? f->getName() : "";
        if (n.starts_with("__vs_") && !n.starts_with("__vs_model")) return;
        if (n == "memcpy" || n == "memmove" || n == "memset" )
        {
            Value *d = CB->getArgOperand(0), *s = CB->getArgOperand(1), *len = CB->getArgOperand(2);
            concOp(Bb, CB, d, "mem-dst");
            if (n == "memset") Bb.CreateCall(fMemset, {d, S(s), toI64(Bb, s), len, maySym(len) ? S(len) : Null, site(CB)});
            else { concOp(Bb, CB, s, "mem-src"); Bb.CreateCall(fMemcpy, {d, s, len, maySym(len) ? S(len) : Null, site(CB), Null}); }
            return;
        }
        auto resultBuilder = [&]() -> Instruction* {
            if (auto* II = dyn_cast<InvokeInst>(CB)) return &*II->getNormalDest()->getFirstInsertionPt();
            return next;
        };
        if (f && f->isDeclaration() && (mathUnary(n) >= 0 || mathToInt(n) >= 0))
        {
            if (!maySym(CB)) return;
            IRBuilder<> B(resultBuilder());
            Value* a = CB->getArgOperand(0);
            if (mathUnary(n) >= 0) sh[CB] = B.CreateCall(fF1, {c32(mathUnary(n)), c32(bits(CB->getType())), S(a), toI64(B, a), toI64(B, CB)});
            else sh[CB] = B.CreateCall(fFToI, {c32(mathToInt(n)), S(a), toI64(B, a), toI64(B, CB)});
            return;
        }
        int sa, ca;
        if (f && f->isDeclaration() && isAlloc(n, sa, ca))
        {
            concOp(Bb, CB, CB->getArgOperand(sa), "alloc-size");
            if (ca >= 0) concOp(Bb, CB, CB->getArgOperand(ca), "alloc-size");
            IRBuilder<> B(resultBuilder());
            Value* sz = CB->getArgOperand(sa);
            if (ca >= 0) sz = B.CreateMul(sz, CB->getArgOperand(ca));
            B.CreateCall(fAlloc, {CB, sz});
            return;
        }
        if (f && f->isDeclaration() && isModeled(n))
        {
            auto nf = M->getOrInsertFunction(("__vs_model_" + n).str(), f->getFunctionType());
            CB->setCalledFunction(nf);
            CB->setAttributes(AttributeList());
        }
        else if (isExternal(f))
        {
            if (isSink(n)) return;
            unsigned i = 0;
            for (auto& a : CB->args())
            {
                if (supported(a->getType()) && maySym(a)) Bb.CreateCall(fExt, {site(CB), str(n), S(a), toI64(Bb, a), c32(bits(a->getType()))});
                if (a->getType()->isPointerTy() && !isa<Constant>(a)) Bb.CreateCall(fExtPtr, {site(CB), str(n), a});
                ++i;
            }
            // results written through pointer arguments are picked up by value
            // comparison at the next load
            return;
        }
        unsigned i = 0; bool any = false;
        for (auto& a : CB->args())
        {
            if (supported(a->getType()) && maySym(a)) { Bb.CreateCall(fPushArg, {c32(i), S(a)}); any = true; }
            ++i;
        }
        (void)any;
        uint64_t fpm = 0; { unsigned j = 0; for (auto& a : CB->args()) { if (j < 64 && a->getType()->isFloatingPointTy()) fpm |= 1ULL << j; ++j; } }
        Bb.CreateCall(fSetNArgs, {c32(i), c64(fpm)});
        Bb.CreateCall(fClearRet, {});
        if (CB->isMustTailCall()) return;
        if (CB->getType()->isVoidTy() || !maySym(CB)) return;
        IRBuilder<> B(resultBuilder());
        Type* T = CB->getType();
        if (supported(T)) sh[CB] = B.CreateCall(fRet, {c32(0), toI64(B, CB), c32(bits(T))});
        else if (T->isAggregateType())
        {
            Value* agg = nullSh(T); unsigned k = 0;
            forLeaves(T, 0, [&](Type* lt, uint64_t, ArrayRef<unsigned> idx) {
                if (supported(lt))
                {
                    Value* s = B.CreateCall(fRet, {c32(k), toI64(B, B.CreateExtractValue(CB, idx)), c32(bits(lt))});
                    agg = B.CreateInsertValue(agg, s, {k});
                }
                ++k;
            });
            sh[CB] = agg;
        }
    }

    PreservedAnalyses run(Module& m, ModuleAnalysisManager&)
    {
        init(m);
        sites.clear(); strs.clear();
        if (!haveExternals)
        {
            haveExternals = true;
            if (const char* p = getenv("VS_EXTERNALS"))
            {
                auto b = MemoryBuffer::getFile(p);
                if (b) { SmallVector<StringRef, 0> l; (*b)->getBuffer().split(l, '\n', -1, false); for (auto s : l) externals.insert(s); }
            }
            if (externals.empty()) report_fatal_error("vs-pass: VS_EXTERNALS list missing");
        }
        std::vector<Function*> fs;
        for (auto& F : m) fs.push_back(&F);
        for (auto* F : fs) runOnFunction(*F);
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "vs-pass", "1", [](PassBuilder& PB) {
                PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(VsPass()); });
                PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
                    if (n != "vs") return false;
                    MPM.addPass(VsPass());
                    return true;
                });
            }};
}
