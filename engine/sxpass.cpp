// LLVM 18 pass plugin: instruments a module so that every scalar SSA value carries a 32-bit
// symbolic-expression id next to its concrete value (0 = concrete).  The runtime (sxrt.c) owns the
// expression arena and the shadow memory.  Passed pipelines: -passes=sx
#include "llvm/ADT/DenseMap.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

enum { MAXARGS = 64 };

struct FnModel { const char* name; int id; };
// ids shared with sxrt.c / driver
enum {
    F_EXP = 1, F_POW, F_SQRT, F_COS, F_SIN, F_LOG, F_FABS, F_FLOOR, F_CEIL, F_FMOD, F_TAN, F_ACOS, F_ASIN,
    F_ATAN, F_ATAN2, F_COSH, F_SINH, F_TANH, F_LOG10, F_ACOSH, F_ASINH, F_ATANH, F_LOG1P, F_ROUND, F_TRUNC,
    F_FMIN, F_FMAX, F_COPYSIGN, F_RINT, F_CBRT, F_HYPOT, F_EXP2, F_LOG2, F_EXPM1
};
static const FnModel LibM[] = {
    {"exp", F_EXP}, {"pow", F_POW}, {"sqrt", F_SQRT}, {"cos", F_COS}, {"sin", F_SIN}, {"log", F_LOG},
    {"fabs", F_FABS}, {"floor", F_FLOOR}, {"ceil", F_CEIL}, {"fmod", F_FMOD}, {"tan", F_TAN}, {"acos", F_ACOS},
    {"asin", F_ASIN}, {"atan", F_ATAN}, {"atan2", F_ATAN2}, {"cosh", F_COSH}, {"sinh", F_SINH}, {"tanh", F_TANH},
    {"log10", F_LOG10}, {"acosh", F_ACOSH}, {"asinh", F_ASINH}, {"atanh", F_ATANH}, {"log1p", F_LOG1P},
    {"round", F_ROUND}, {"trunc", F_TRUNC}, {"fmin", F_FMIN}, {"fmax", F_FMAX}, {"copysign", F_COPYSIGN},
    {"rint", F_RINT}, {"nearbyint", F_RINT}, {"cbrt", F_CBRT}, {"hypot", F_HYPOT}, {"exp2", F_EXP2},
    {"log2", F_LOG2}, {"expm1", F_EXPM1}};

// Calls replaced by instrumented models (models.cpp) so that symbolic bytes are followed.
static const std::pair<const char*, const char*> Replace[] = {
    {"memcmp", "sxm_memcmp"}, {"bcmp", "sxm_memcmp"}, {"strlen", "sxm_strlen"}, {"memchr", "sxm_memchr"},
    {"strcmp", "sxm_strcmp"}, {"strncmp", "sxm_strncmp"}, {"strchr", "sxm_strchr"},
    {"isspace", "sxm_isspace"}, {"isalnum", "sxm_isalnum"}, {"isalpha", "sxm_isalpha"}, {"isdigit", "sxm_isdigit"},
    {"isgraph", "sxm_isgraph"}, {"isprint", "sxm_isprint"}, {"isupper", "sxm_isupper"}, {"islower", "sxm_islower"},
    {"ispunct", "sxm_ispunct"}, {"isxdigit", "sxm_isxdigit"}, {"tolower", "sxm_tolower"}, {"toupper", "sxm_toupper"},
    // libstdc++ explicit specialisations / non-template members living in the shared object
    {"_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", "sxm_extract_string"},
    {"_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", "sxm_getline"},
    {"_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", "sxm_getline2"},
    {"_ZNSi10_M_extractIdEERSiRT_", "sxm_extract_double"},
    {"_ZNSirsERd", "sxm_extract_double"},
    {"_ZNSo9_M_insertIdEERSoT_", "sxm_insert_double"},
    {"_ZNSolsEd", "sxm_insert_double"},
    {"_ZNSo9_M_insertIlEERSoT_", "sxm_insert_long"},
    {"_ZNSo9_M_insertImEERSoT_", "sxm_insert_ulong"},
    {"_ZNSolsEi", "sxm_insert_int"},
};

struct Sx {
    Module& M;
    LLVMContext& C;
    const DataLayout& DL;
    Type *I1, *I8, *I32, *I64, *Ptr, *Void;
    FunctionCallee fBin, fCmp, fUn, fCast, fIte, fLoad, fStore, fClear, fBranch, fSwitch, fConc, fCopy, fSet, fFn, fLost, fVaStart, fOvf;
    GlobalVariable *gArgs, *gCallee, *gRet, *gRetTag, *gVaN, *gVaVals, *gVaSh;
    std::map<std::string, std::string> repl;
    std::map<std::string, int> libm;

    Sx(Module& M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
        I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
        Ptr = PointerType::get(C, 0); Void = Type::getVoidTy(C);
        auto fn = [&](const char* n, Type* r, std::initializer_list<Type*> a) {
            FunctionCallee c = M.getOrInsertFunction(n, FunctionType::get(r, ArrayRef<Type*>(a.begin(), a.size()), false));
            if (auto* F = dyn_cast<Function>(c.getCallee())) F->setDoesNotThrow();
            return c;
        };
        fBin = fn("sxr_bin", I32, {I32, I32, I32, I64, I32, I64, I64, Ptr});
        fCmp = fn("sxr_cmp", I32, {I32, I32, I32, I64, I32, I64, I1, Ptr});
        fUn = fn("sxr_un", I32, {I32, I32, I32, I64, I64, Ptr});
        fCast = fn("sxr_cast", I32, {I32, I32, I32, I32, I64, I64, Ptr});
        fIte = fn("sxr_ite", I32, {I32, I32, I1, I32, I64, I32, I64, Ptr});
        fLoad = fn("sxr_load", I32, {Ptr, I32, I64});
        fStore = fn("sxr_store", Void, {Ptr, I32, I32});
        fClear = fn("sxr_clear", Void, {Ptr, I64});
        fBranch = fn("sxr_branch", I1, {I32, I1, Ptr, I32});
        fSwitch = fn("sxr_switch", Void, {I32, I32, I64, I32, Ptr, Ptr, I32});
        fConc = fn("sxr_concretize", Void, {I32, I64, Ptr, I32});
        fCopy = fn("sxr_copy", Void, {Ptr, Ptr, I64});
        fSet = fn("sxr_memset", Void, {Ptr, I32, I64});
        fFn = fn("sxr_fn", I32, {I32, I32, I32, I64, I32, I64, I64, Ptr});
        fLost = fn("sxr_lost", Void, {I32, I64, Ptr, Ptr});
        fVaStart = fn("sxr_va_start", Void, {Ptr, I32, I32});
        fOvf = fn("sxr_ovf", I32, {I32, I32, I32, I64, I32, I64, I64, Ptr});
        auto gv = [&](const char* n, Type* t) {
            auto* g = cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
            return g;
        };
        gArgs = gv("sxr_args", ArrayType::get(I32, MAXARGS));
        gRet = gv("sxr_ret", ArrayType::get(I32, 8));
        gCallee = gv("sxr_callee", Ptr);
        gRetTag = gv("sxr_rettag", Ptr);
        gVaN = gv("sxr_va_n", I32);
        gVaSh = gv("sxr_va_sh", ArrayType::get(I32, MAXARGS));
        gVaVals = gv("sxr_va_vals", ArrayType::get(I64, MAXARGS));
        for (auto& p : Replace) repl[p.first] = p.second;
        for (auto& p : LibM) libm[p.name] = p.id;
    }

    // ---- shadow types
    Type* ST(Type* t) {
        if (auto* s = dyn_cast<StructType>(t)) {
            SmallVector<Type*, 4> e;
            for (auto* x : s->elements()) e.push_back(ST(x));
            return StructType::get(C, e);
        }
        if (auto* a = dyn_cast<ArrayType>(t)) return ArrayType::get(ST(a->getElementType()), a->getNumElements());
        return I32;
    }
    static bool scalar(Type* t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64;
        return t->isDoubleTy() || t->isFloatTy();
    }
    void leaves(Type* t, SmallVector<unsigned, 4>& path, SmallVectorImpl<std::pair<SmallVector<unsigned, 4>, Type*>>& out) {
        if (auto* s = dyn_cast<StructType>(t)) {
            for (unsigned i = 0; i < s->getNumElements(); ++i) { path.push_back(i); leaves(s->getElementType(i), path, out); path.pop_back(); }
        } else if (auto* a = dyn_cast<ArrayType>(t)) {
            for (unsigned i = 0; i < a->getNumElements(); ++i) { path.push_back(i); leaves(a->getElementType(), path, out); path.pop_back(); }
        } else out.push_back({path, t});
    }

    // ---- per function
    Function* F = nullptr;
    DenseMap<Value*, Value*> sh;
    Value* fnName = nullptr;
    unsigned site = 0;

    Constant* z(Type* t) { return Constant::getNullValue(ST(t)); }
    Value* S(Value* v) {
        if (isa<Constant>(v) || isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return z(v->getType());
        auto it = sh.find(v);
        if (it != sh.end()) return it->second;
        return z(v->getType());
    }
    bool isZero(Value* s) { auto* c = dyn_cast<Constant>(s); return c && c->isNullValue(); }
    static unsigned width(Type* t) { return t->isDoubleTy() ? 64 : t->isFloatTy() ? 32 : t->isIntegerTy() ? t->getIntegerBitWidth() : 0; }
    Value* bits(IRBuilder<>& B, Value* v) {
        Type* t = v->getType();
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isIntegerTy()) return t->getIntegerBitWidth() == 64 ? v : t->getIntegerBitWidth() < 64 ? B.CreateZExt(v, I64) : B.CreateTrunc(v, I64);
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        return B.getInt64(0);
    }
    Value* i32(unsigned v) { return ConstantInt::get(I32, v); }
    Value* slot(IRBuilder<>& B, GlobalVariable* g, unsigned i) { return B.CreateConstInBoundsGEP2_32(g->getValueType(), g, 0, i); }

    Instruction* after(Instruction* I) {
        if (isa<PHINode>(I)) return &*I->getParent()->getFirstInsertionPt();
        return I->getNextNode();
    }

    bool skipFunction(Function& F) {
        if (F.isDeclaration()) return true;
        StringRef n = F.getName();
        if (n.starts_with("sxr_") || n.starts_with("llvm.")) return true;
        if (n == "__clang_call_terminate" || n.starts_with("_GLOBAL__") || n.starts_with("__cxx_global")) {
            return n == "__clang_call_terminate";
        }
        return false;
    }

    void loadAgg(IRBuilder<>& B, LoadInst* L) {
        Type* T = L->getType();
        SmallVector<std::pair<SmallVector<unsigned, 4>, Type*>, 8> out; SmallVector<unsigned, 4> p;
        leaves(T, p, out);
        Value* agg = z(T);
        for (auto& l : out) if (scalar(l.second)) {
            SmallVector<Value*, 4> idx{i32(0)};
            for (unsigned k : l.first) idx.push_back(i32(k));
            Value* ptr = B.CreateGEP(T, L->getPointerOperand(), idx);
            Value* v = B.CreateExtractValue(L, l.first);
            unsigned n = DL.getTypeStoreSize(l.second);
            Value* s = B.CreateCall(fLoad, {ptr, i32(n | (width(l.second) << 8)), bits(B, v)});
            agg = B.CreateInsertValue(agg, s, l.first);
        }
        sh[L] = agg;
    }

    void run(Function& Fn) {
        if (skipFunction(Fn)) return;
        F = &Fn; sh.clear(); site = 0;
        std::vector<Instruction*> work;
        for (auto& I : instructions(Fn)) work.push_back(&I);
        {
            IRBuilder<> B(&*Fn.getEntryBlock().getFirstInsertionPt());
            fnName = B.CreateGlobalStringPtr(Fn.getName(), "sxn");
        }
        // phis first (placeholders)
        std::vector<PHINode*> phis;
        for (auto* I : work) if (auto* P = dyn_cast<PHINode>(I)) {
            if (P->getType()->isPointerTy() || P->getType()->isVectorTy()) continue;
            IRBuilder<> B(P);
            sh[P] = B.CreatePHI(ST(P->getType()), P->getNumIncomingValues());
            phis.push_back(P);
        }
        // arguments
        {
            unsigned n = 0;
            for (auto& A : Fn.args()) if (scalar(A.getType())) n++;
            if (n) {
                IRBuilder<> B(&*Fn.getEntryBlock().getFirstInsertionPt());
                Value* m = B.CreateICmpEQ(B.CreateLoad(Ptr, gCallee), &Fn);
                unsigned i = 0;
                for (auto& A : Fn.args()) if (scalar(A.getType()) && i < MAXARGS) {
                    Value* v = B.CreateLoad(I32, slot(B, gArgs, i++));
                    sh[&A] = B.CreateSelect(m, v, i32(0));
                }
                B.CreateStore(Constant::getNullValue(Ptr), gCallee);
            }
        }
        for (auto* I : work) visit(I);
        for (auto* P : phis) {
            auto* sp = cast<PHINode>(sh[P]);
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) sp->addIncoming(S(P->getIncomingValue(i)), P->getIncomingBlock(i));
        }
    }

    void concretize(IRBuilder<>& B, Value* v) {
        Value* s = S(v);
        if (!s->getType()->isIntegerTy() || isZero(s)) return;
        B.CreateCall(fConc, {s, bits(B, v), fnName, i32(site++)});
    }

    void visit(Instruction* I) {
        if (isa<PHINode>(I)) return;
        Type* T = I->getType();
        if (auto* X = dyn_cast<BinaryOperator>(I)) {
            if (!scalar(T)) return;
            Value *a = X->getOperand(0), *b = X->getOperand(1), *sa = S(a), *sb = S(b);
            if (isZero(sa) && isZero(sb)) return;
            IRBuilder<> B(after(I));
            unsigned fp = T->isFloatingPointTy();
            // integer division: concretize nothing, runtime handles
            sh[I] = B.CreateCall(fBin, {i32(X->getOpcode()), i32(width(T) | (fp << 8)), sa, bits(B, a), sb, bits(B, b), bits(B, I), fnName});
            return;
        }
        if (auto* X = dyn_cast<UnaryOperator>(I)) {
            if (!scalar(T) || isZero(S(X->getOperand(0)))) return;
            IRBuilder<> B(after(I));
            sh[I] = B.CreateCall(fUn, {i32(X->getOpcode()), i32(width(T) | (1 << 8)), S(X->getOperand(0)), bits(B, X->getOperand(0)), bits(B, I), fnName});
            return;
        }
        if (auto* X = dyn_cast<CmpInst>(I)) {
            Value *a = X->getOperand(0), *b = X->getOperand(1);
            if (!scalar(a->getType())) return;
            Value *sa = S(a), *sb = S(b);
            if (isZero(sa) && isZero(sb)) return;
            IRBuilder<> B(after(I));
            unsigned fp = a->getType()->isFloatingPointTy();
            sh[I] = B.CreateCall(fCmp, {i32(X->getPredicate()), i32(width(a->getType()) | (fp << 8)), sa, bits(B, a), sb, bits(B, b), I, fnName});
            return;
        }
        if (auto* X = dyn_cast<CastInst>(I)) {
            Value* a = X->getOperand(0);
            if (X->getOpcode() == Instruction::IntToPtr) { IRBuilder<> B(I); concretize(B, a); return; }
            if (!scalar(a->getType())) return;
            Value* sa = S(a);
            if (isZero(sa)) return;
            IRBuilder<> B(after(I));
            if (!scalar(T)) { IRBuilder<> B2(I); concretize(B2, a); return; }
            unsigned fi = a->getType()->isFloatingPointTy(), fo = T->isFloatingPointTy();
            sh[I] = B.CreateCall(fCast, {i32(X->getOpcode()), i32(width(a->getType()) | (fi << 8)), i32(width(T) | (fo << 8)), sa, bits(B, a), bits(B, I), fnName});
            return;
        }
        if (auto* X = dyn_cast<SelectInst>(I)) {
            Value *c = X->getCondition(), *a = X->getTrueValue(), *b = X->getFalseValue();
            if (!c->getType()->isIntegerTy(1)) return;
            Value *sc = S(c), *sa = S(a), *sb = S(b);
            if (!scalar(T)) {
                if (!isZero(sc)) {
                    IRBuilder<> B(I);
                    Value* c2 = B.CreateCall(fBranch, {sc, c, fnName, i32(site++)});
                    X->setCondition(c2);
                    c = c2;
                }
                if (!T->isPointerTy() && !(isZero(sa) && isZero(sb))) { IRBuilder<> B(after(I)); sh[I] = B.CreateSelect(c, sa, sb); }
                return;
            }
            if (isZero(sc) && isZero(sa) && isZero(sb)) return;
            IRBuilder<> B(after(I));
            unsigned fp = T->isFloatingPointTy();
            sh[I] = B.CreateCall(fIte, {i32(width(T) | (fp << 8)), sc, c, sa, bits(B, a), sb, bits(B, b), fnName});
            return;
        }
        if (auto* X = dyn_cast<FreezeInst>(I)) { sh[I] = S(X->getOperand(0)); return; }
        if (auto* X = dyn_cast<ExtractValueInst>(I)) {
            Value* s = S(X->getAggregateOperand());
            if (isZero(s) || T->isPointerTy()) return;
            IRBuilder<> B(after(I)); sh[I] = B.CreateExtractValue(s, X->getIndices()); return;
        }
        if (auto* X = dyn_cast<InsertValueInst>(I)) {
            Value *s = S(X->getAggregateOperand()), *e = S(X->getInsertedValueOperand());
            if (isZero(s) && isZero(e)) return;
            IRBuilder<> B(after(I)); sh[I] = B.CreateInsertValue(s, e, X->getIndices()); return;
        }
        if (isa<AllocaInst>(I)) {
            auto* A = cast<AllocaInst>(I);
            if (!isa<ConstantInt>(A->getArraySize())) return;
            Instruction* ip = I->getNextNode();
            while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
            IRBuilder<> B(ip);
            uint64_t n = DL.getTypeAllocSize(A->getAllocatedType()) * cast<ConstantInt>(A->getArraySize())->getZExtValue();
            B.CreateCall(fClear, {A, ConstantInt::get(I64, n)});
            return;
        }
        if (auto* X = dyn_cast<LoadInst>(I)) {
            if (T->isPointerTy() || T->isVectorTy()) return;
            IRBuilder<> B(after(I));
            if (T->isAggregateType()) { loadAgg(B, X); return; }
            if (!scalar(T)) return;
            unsigned n = DL.getTypeStoreSize(T);
            sh[I] = B.CreateCall(fLoad, {X->getPointerOperand(), i32(n | (width(T) << 8)), bits(B, I)});
            return;
        }
        if (auto* X = dyn_cast<StoreInst>(I)) {
            Value* v = X->getValueOperand(); Type* vt = v->getType();
            IRBuilder<> B(after(I));
            if (vt->isAggregateType() && !isZero(S(v))) {
                SmallVector<std::pair<SmallVector<unsigned, 4>, Type*>, 8> out; SmallVector<unsigned, 4> p;
                leaves(vt, p, out);
                B.CreateCall(fClear, {X->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(vt))});
                for (auto& l : out) if (scalar(l.second)) {
                    SmallVector<Value*, 4> idx{i32(0)};
                    for (unsigned k : l.first) idx.push_back(i32(k));
                    Value* ptr = B.CreateGEP(vt, X->getPointerOperand(), idx);
                    B.CreateCall(fStore, {ptr, i32(DL.getTypeStoreSize(l.second)), B.CreateExtractValue(S(v), l.first)});
                }
                return;
            }
            if (scalar(vt) && !isZero(S(v)))
                B.CreateCall(fStore, {X->getPointerOperand(), i32(DL.getTypeStoreSize(vt)), S(v)});
            else
                B.CreateCall(fClear, {X->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(vt))});
            return;
        }
        if (auto* X = dyn_cast<GetElementPtrInst>(I)) {
            IRBuilder<> B(I);
            for (auto& op : X->indices()) concretize(B, op);
            return;
        }
        if (auto* X = dyn_cast<BranchInst>(I)) {
            if (!X->isConditional()) return;
            Value* s = S(X->getCondition());
            if (isZero(s)) return;
            IRBuilder<> B(I);
            X->setCondition(B.CreateCall(fBranch, {s, X->getCondition(), fnName, i32(site++)}));
            return;
        }
        if (auto* X = dyn_cast<SwitchInst>(I)) {
            Value* c = X->getCondition(); Value* s = S(c);
            if (isZero(s)) return;
            std::vector<Constant*> vals;
            for (auto& cs : X->cases()) vals.push_back(ConstantInt::get(I64, cs.getCaseValue()->getZExtValue()));
            auto* at = ArrayType::get(I64, vals.size());
            auto* g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, vals), "sxsw");
            IRBuilder<> B(I);
            B.CreateCall(fSwitch, {s, i32(width(c->getType())), bits(B, c), i32(vals.size()), g, fnName, i32(site++)});
            return;
        }
        if (auto* X = dyn_cast<ReturnInst>(I)) {
            if (I->getPrevNode() && isa<CallInst>(I->getPrevNode()) && cast<CallInst>(I->getPrevNode())->isMustTailCall()) return;
            IRBuilder<> B(I);
            if (Value* v = X->getReturnValue()) {
                if (!v->getType()->isPointerTy() && !v->getType()->isVectorTy()) {
                    SmallVector<std::pair<SmallVector<unsigned, 4>, Type*>, 8> out; SmallVector<unsigned, 4> p;
                    leaves(v->getType(), p, out);
                    for (unsigned i = 0; i < out.size() && i < 8; ++i) {
                        Value* s = S(v);
                        if (!out[i].first.empty()) s = isZero(s) ? (Value*) i32(0) : B.CreateExtractValue(s, out[i].first);
                        B.CreateStore(s, slot(B, gRet, i));
                    }
                }
            }
            B.CreateStore(F, gRetTag);
            return;
        }
        if (auto* X = dyn_cast<CallBase>(I)) { call(X); return; }
        if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
            IRBuilder<> B(after(I));
            Value* p = isa<AtomicRMWInst>(I) ? cast<AtomicRMWInst>(I)->getPointerOperand() : cast<AtomicCmpXchgInst>(I)->getPointerOperand();
            B.CreateCall(fClear, {p, ConstantInt::get(I64, 8)});
            return;
        }
    }

    // insertion point after a call/invoke (normal path)
    Instruction* afterCall(CallBase* X) {
        if (auto* inv = dyn_cast<InvokeInst>(X)) {
            BasicBlock* N = inv->getNormalDest();
            if (!N->getSinglePredecessor() || isa<PHINode>(N->front()))
            {
                BasicBlock* src = inv->getParent();
                BasicBlock* nb = BasicBlock::Create(C, "sxe", src->getParent(), N);
                BranchInst::Create(N, nb);
                inv->setNormalDest(nb);
                for (PHINode& P : N->phis())
                    for (unsigned i = 0; i < P.getNumIncomingValues(); ++i)
                        if (P.getIncomingBlock(i) == src) P.setIncomingBlock(i, nb);
                N = nb;
            }
            return &*N->getFirstInsertionPt();
        }
        return X->getNextNode();
    }

    void call(CallBase* X) {
        if (X->isInlineAsm()) return;
        Type* T = X->getType();
        Function* callee = X->getCalledFunction();
        if (callee && callee->isIntrinsic()) { intrinsic(X, callee); return; }
        StringRef name = callee ? callee->getName() : StringRef();
        if (callee && (name.starts_with("sxr_"))) return;
        if (auto* ci = dyn_cast<CallInst>(X)) if (ci->isMustTailCall()) return;
        if (callee) {
            auto r = repl.find(name.str());
            if (r != repl.end() && !F->getName().starts_with("sxm_")) {
                FunctionCallee nc = M.getOrInsertFunction(r->second, callee->getFunctionType());
                X->setCalledFunction(nc);
                X->removeFnAttr(Attribute::ReadNone); X->removeFnAttr(Attribute::ReadOnly);
                X->setAttributes(AttributeList());
                callee = dyn_cast<Function>(nc.getCallee());
                name = callee ? callee->getName() : StringRef();
            }
            auto l = libm.find(name.str());
            if (l != libm.end() && callee->isDeclaration() && (T->isDoubleTy())) {
                Value* sa = S(X->getArgOperand(0));
                Value* sb = X->arg_size() > 1 ? S(X->getArgOperand(1)) : i32(0);
                if (isZero(sa) && isZero(sb)) return;
                IRBuilder<> B(afterCall(X));
                Value* vb = X->arg_size() > 1 ? bits(B, X->getArgOperand(1)) : B.getInt64(0);
                sh[X] = B.CreateCall(fFn, {i32(l->second), i32(width(T) | 256), sa, bits(B, X->getArgOperand(0)), sb, vb, bits(B, X), fnName});
                return;
            }
        }
        IRBuilder<> B(X);
        // where a tree node is linked is decided by the order of keys: one path per side
        if (name.starts_with("_ZSt29_Rb_tree_insert_and_rebalance")) { concretize(B, X->getArgOperand(0)); return; }
        unsigned i = 0, fixed = X->getFunctionType()->getNumParams();
        Value* any = nullptr; Value* anyv = nullptr;
        bool va = X->getFunctionType()->isVarArg();
        unsigned vn = 0;
        for (unsigned k = 0; k < X->arg_size(); ++k) {
            Value* a = X->getArgOperand(k);
            Value* s = S(a);
            if (va && k >= fixed) {
                if (vn < MAXARGS) {
                    Value* s1 = s->getType()->isIntegerTy() ? s : i32(0);
                    B.CreateStore(s1, slot(B, gVaSh, vn));
                    // type code in the value table is not needed: fp flag is packed in shadow list
                    B.CreateStore(ConstantInt::get(I64, a->getType()->isFloatingPointTy() ? 1 : 0), slot(B, gVaVals, vn));
                    vn++;
                }
                continue;
            }
            if (!scalar(a->getType())) continue;
            if (i >= MAXARGS) break;
            B.CreateStore(s, slot(B, gArgs, i++));
            if (!isZero(s)) { any = s; anyv = a; }
        }
        if (va) B.CreateStore(i32(vn), gVaN);
        Value* target = X->getCalledOperand();
        B.CreateStore(target, gCallee);
        B.CreateStore(Constant::getNullValue(Ptr), gRetTag);
        bool wantRet = !T->isVoidTy() && !T->isPointerTy() && !T->isVectorTy();
        bool isAlloc = name == "malloc" || name == "_Znwm" || name == "_Znam" || name == "calloc";
        if (!wantRet && !any && !isAlloc) return;
        if (!X->isTerminator() && !X->getNextNode()) return;
        IRBuilder<> A(afterCall(X));
        Value* m = A.CreateICmpEQ(A.CreateLoad(Ptr, gRetTag), target);
        if (wantRet) {
            SmallVector<std::pair<SmallVector<unsigned, 4>, Type*>, 8> out; SmallVector<unsigned, 4> p;
            leaves(T, p, out);
            if (out.size() == 1 && out[0].first.empty()) {
                sh[X] = A.CreateSelect(m, A.CreateLoad(I32, slot(A, gRet, 0)), i32(0));
            } else {
                Value* agg = z(T);
                for (unsigned j = 0; j < out.size() && j < 8; ++j) if (scalar(out[j].second))
                    agg = A.CreateInsertValue(agg, A.CreateSelect(m, A.CreateLoad(I32, slot(A, gRet, j)), i32(0)), out[j].first);
                sh[X] = agg;
            }
        }
        if (isAlloc) {
            A.CreateCall(fClear, {X, A.CreateZExtOrTrunc(X->getArgOperand(0), I64)});
        }
        if (any) {
            // every symbolic scalar argument given to an uninstrumented callee is reported
            unsigned k = 0;
            for (unsigned q = 0; q < X->arg_size() && q < fixed; ++q) {
                Value* a = X->getArgOperand(q);
                if (!scalar(a->getType())) continue;
                Value* s = S(a);
                if (!isZero(s)) A.CreateCall(fLost, {A.CreateSelect(m, i32(0), s), bits(A, a), callee ? (Value*) A.CreateGlobalStringPtr(name, "sxc") : Constant::getNullValue(Ptr), fnName});
                k++;
            }
        }
    }

    void intrinsic(CallBase* X, Function* callee) {
        Type* T = X->getType();
        Intrinsic::ID id = callee->getIntrinsicID();
        auto A = [&](unsigned i) { return X->getArgOperand(i); };
        if (auto* MT = dyn_cast<MemTransferInst>(X)) {
            IRBuilder<> B(X);
            concretize(B, MT->getLength());
            B.CreateCall(fCopy, {MT->getDest(), MT->getSource(), B.CreateZExtOrTrunc(MT->getLength(), I64)});
            return;
        }
        if (auto* MS = dyn_cast<MemSetInst>(X)) {
            IRBuilder<> B(X->getNextNode());
            B.CreateCall(fSet, {MS->getDest(), S(MS->getValue()), B.CreateZExtOrTrunc(MS->getLength(), I64)});
            return;
        }
        int f = 0;
        switch (id) {
            case Intrinsic::fabs: f = F_FABS; break;
            case Intrinsic::sqrt: f = F_SQRT; break;
            case Intrinsic::floor: f = F_FLOOR; break;
            case Intrinsic::ceil: f = F_CEIL; break;
            case Intrinsic::round: f = F_ROUND; break;
            case Intrinsic::trunc: f = F_TRUNC; break;
            case Intrinsic::rint: case Intrinsic::nearbyint: f = F_RINT; break;
            case Intrinsic::pow: f = F_POW; break;
            case Intrinsic::exp: f = F_EXP; break;
            case Intrinsic::log: f = F_LOG; break;
            case Intrinsic::log10: f = F_LOG10; break;
            case Intrinsic::cos: f = F_COS; break;
            case Intrinsic::sin: f = F_SIN; break;
            case Intrinsic::minnum: f = F_FMIN; break;
            case Intrinsic::maxnum: f = F_FMAX; break;
            case Intrinsic::copysign: f = F_COPYSIGN; break;
            default: break;
        }
        if (f && T->isDoubleTy()) {
            Value *sa = S(A(0)), *sb = X->arg_size() > 1 ? S(A(1)) : i32(0);
            if (isZero(sa) && isZero(sb)) return;
            IRBuilder<> B(X->getNextNode());
            Value* vb = X->arg_size() > 1 ? bits(B, A(1)) : B.getInt64(0);
            sh[X] = B.CreateCall(fFn, {i32(f), i32(64 | 256), sa, bits(B, A(0)), sb, vb, bits(B, X), fnName});
            return;
        }
        switch (id) {
            case Intrinsic::expect: sh[X] = S(A(0)); return;
            case Intrinsic::vastart: {
                IRBuilder<> B(X->getNextNode());
                unsigned gp = 0, fp = 0;
                for (auto& P : F->args()) { if (P.getType()->isFloatingPointTy()) fp++; else gp++; }
                B.CreateCall(fVaStart, {A(0), i32(gp), i32(fp)});
                return;
            }
            case Intrinsic::vacopy: {
                IRBuilder<> B(X->getNextNode());
                B.CreateCall(fCopy, {A(0), A(1), ConstantInt::get(I64, 24)});
                return;
            }
            case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
                if (!scalar(T)) return;
                Value *a = A(0), *b = A(1), *sa = S(a), *sb = S(b);
                if (isZero(sa) && isZero(sb)) return;
                IRBuilder<> B(X->getNextNode());
                CmpInst::Predicate p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
                Value* c = B.CreateICmp(p, a, b);
                Value* sc = B.CreateCall(fCmp, {i32(p), i32(width(T)), sa, bits(B, a), sb, bits(B, b), c, fnName});
                sh[X] = B.CreateCall(fIte, {i32(width(T)), sc, c, sa, bits(B, a), sb, bits(B, b), fnName});
                return;
            }
            case Intrinsic::abs: {
                Value *a = A(0), *sa = S(a);
                if (isZero(sa)) return;
                IRBuilder<> B(X->getNextNode());
                Value* zero = ConstantInt::get(T, 0);
                Value* c = B.CreateICmpSLT(a, zero);
                Value* n = B.CreateNeg(a);
                Value* sc = B.CreateCall(fCmp, {i32(CmpInst::ICMP_SLT), i32(width(T)), sa, bits(B, a), i32(0), B.getInt64(0), c, fnName});
                Value* sn = B.CreateCall(fBin, {i32(Instruction::Sub), i32(width(T)), i32(0), B.getInt64(0), sa, bits(B, a), bits(B, n), fnName});
                sh[X] = B.CreateCall(fIte, {i32(width(T)), sc, c, sn, bits(B, n), sa, bits(B, a), fnName});
                return;
            }
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { // stack slots are used again, also by code outside: what an object left in the shadow is void
                int64_t n = cast<ConstantInt>(A(0))->getSExtValue();
                IRBuilder<> B(id == Intrinsic::lifetime_end ? X : X->getNextNode());
                if (n > 0) B.CreateCall(fClear, {A(1), ConstantInt::get(I64, n)});
                return;
            }
            default: break;
        }
        // anything else that consumes symbolic scalars is reported
        bool anySym = false;
        for (unsigned q = 0; q < X->arg_size(); ++q) if (scalar(A(q)->getType()) && !isZero(S(A(q)))) anySym = true;
        if (!anySym) return;
        switch (id) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value:
            case Intrinsic::dbg_declare: case Intrinsic::is_constant: return;
            default: break;
        }
        IRBuilder<> B(X);
        for (unsigned q = 0; q < X->arg_size(); ++q) if (scalar(A(q)->getType()) && !isZero(S(A(q))))
            B.CreateCall(fLost, {S(A(q)), bits(B, A(q)), B.CreateGlobalStringPtr(callee->getName(), "sxc"), fnName});
    }
};

struct SxPass : PassInfoMixin<SxPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        // addresses of libm routines (tables of function pointers) -> instrumented wrappers of models.cpp
        for (auto& m : LibM) {
            Function* f = M.getFunction(m.name);
            if (!f || !f->isDeclaration()) continue;
            FunctionCallee w = M.getOrInsertFunction((std::string("sxw_") + m.name), f->getFunctionType());
            f->replaceUsesWithIf(w.getCallee(), [](Use& u) {
                auto* cb = dyn_cast<CallBase>(u.getUser());
                return !(cb && cb->isCallee(&u));
            });
        }
        std::vector<Function*> fs;
        for (auto& F : M) fs.push_back(&F);
        Sx sx(M);
        for (auto* F : fs) sx.run(*F);
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
// before inlining: every function of the library records that it was entered
struct SxMark : PassInfoMixin<SxMark> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        LLVMContext& C = M.getContext();
        Type* P = PointerType::getUnqual(C);
        StructType* T = StructType::get(C, {P, P, Type::getInt32Ty(C)});
        FunctionCallee mark = M.getOrInsertFunction("sxr_enter", FunctionType::get(Type::getVoidTy(C), {P}, false));
        std::vector<Function*> fs;
        for (auto& F : M) if (!F.isDeclaration() && F.getName().starts_with("_ZN") && F.getName().contains("9fuzzylite") && F.getName().substr(0, 16).contains("9fuzzylite")) fs.push_back(&F);
        for (auto* F : fs) {
            IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt());
            Constant* n = cast<Constant>(B.CreateGlobalStringPtr(F->getName(), "sxf"));
            auto* g = new GlobalVariable(M, T, false, GlobalValue::PrivateLinkage, ConstantStruct::get(T, {ConstantPointerNull::get(cast<PointerType>(P)), n, ConstantInt::get(Type::getInt32Ty(C), 0)}), "sxfn");
            B.CreateCall(mark, {g});
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder& PB) {
        PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
            if (N == "sxmark") { MPM.addPass(SxMark()); return true; }
            if (N == "sx") { MPM.addPass(SxPass()); return true; }
            return false;
        });
    }};
}
