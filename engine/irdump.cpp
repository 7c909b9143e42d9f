// irdump: lower LLVM bitcode of the real sources to a JSON form the VC generator reads.
//   irdump IN.bc OUT.json --roots=REGEX [--keep=REGEX ...] [--passes=PIPELINE]
// Functions matching --roots are verification roots; functions matching --keep are contract boundaries and are never
// inlined.  Everything else that is not address-taken from a root is dropped.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <vector>
#include <string>

using namespace llvm;
using json::Array; using json::Object; using json::Value;

static const DataLayout *DL;
static std::map<const llvm::Value*, int> ids;
static std::map<const BasicBlock*, int> bbids;
static int64_t blockIndex(Function *F, BasicBlock *B) { int64_t i = 0; for (auto &X : *F) { if (&X == B) return i; ++i; } return -1; }
static std::set<const GlobalVariable*> usedGlobals;
static std::set<const Function*> usedFuncs;

static json::Value ty(Type *T) {
    if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
    if (T->isPointerTy()) return "p";
    if (T->isVoidTy()) return "void";
    if (T->isFloatTy()) return "f32";
    if (T->isDoubleTy()) return "f64";
    if (T->isX86_FP80Ty()) return "f80";
    if (auto *S = dyn_cast<StructType>(T)) {
        Array a; Array offs;
        for (auto *E : S->elements()) a.push_back(ty(E));
        if (S->isSized()) { auto *L = DL->getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); ++i) offs.push_back((int64_t)L->getElementOffset(i)); }
        return Object{{"s", std::move(a)}, {"offs", std::move(offs)}, {"size", S->isSized() ? (int64_t)DL->getTypeAllocSize(S) : 0}};
    }
    if (auto *A = dyn_cast<ArrayType>(T)) {
        return Object{{"a", ty(A->getElementType())}, {"n", (int64_t)A->getNumElements()}, {"size", (int64_t)DL->getTypeAllocSize(T)}};
    }
    if (auto *V = dyn_cast<FixedVectorType>(T)) {
        return Object{{"v", ty(V->getElementType())}, {"n", (int64_t)V->getNumElements()}, {"size", (int64_t)DL->getTypeAllocSize(T)}};
    }
    std::string s; raw_string_ostream os(s); T->print(os);
    return Object{{"other", os.str()}};
}

static json::Value apint(const APInt &v) { SmallString<64> s; v.toString(s, 10, false); return std::string(s); }

static json::Value opnd(const llvm::Value *V);

static json::Value constant(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) return Object{{"k", "c"}, {"t", ty(CI->getType())}, {"v", apint(CI->getValue())}};
    if (isa<ConstantPointerNull>(C)) return Object{{"k", "null"}};
    if (isa<UndefValue>(C)) return Object{{"k", isa<PoisonValue>(C) ? "poison" : "undef"}, {"t", ty(C->getType())}};
    if (auto *F = dyn_cast<ConstantFP>(C)) return Object{{"k", "fp"}, {"t", ty(F->getType())}, {"v", apint(F->getValueAPF().bitcastToAPInt())}};
    if (isa<ConstantAggregateZero>(C)) return Object{{"k", "zero"}, {"t", ty(C->getType())}};
    if (auto *F = dyn_cast<Function>(C)) { usedFuncs.insert(F); return Object{{"k", "fn"}, {"n", F->getName().str()}}; }
    if (auto *G = dyn_cast<GlobalVariable>(C)) { usedGlobals.insert(G); return Object{{"k", "g"}, {"n", G->getName().str()}, {"o", 0}}; }
    if (auto *GA = dyn_cast<GlobalAlias>(C)) return constant(GA->getAliasee());
    if (auto *BA = dyn_cast<BlockAddress>(C)) return Object{{"k", "ba"}, {"f", BA->getFunction()->getName().str()}, {"b", blockIndex(BA->getFunction(), BA->getBasicBlock())}};
    if (auto *GEP = dyn_cast<GEPOperator>(C)) {
        APInt off(64, 0);
        if (GEP->accumulateConstantOffset(*DL, off)) return Object{{"k", "gep"}, {"b", opnd(GEP->getPointerOperand())}, {"o", off.getSExtValue()}};
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        if (CE->getOpcode() == Instruction::PtrToInt) return Object{{"k", "p2i"}, {"b", opnd(CE->getOperand(0))}, {"t", ty(CE->getType())}};
        if (CE->getOpcode() == Instruction::IntToPtr) return Object{{"k", "i2p"}, {"b", opnd(CE->getOperand(0))}};
        Array ops; for (auto &O : CE->operands()) ops.push_back(opnd(O.get()));
        return Object{{"k", "ce"}, {"op", CE->getOpcodeName()}, {"t", ty(CE->getType())}, {"a", std::move(ops)}};
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
        Array a; for (auto &O : CA->operands()) a.push_back(opnd(O.get()));
        return Object{{"k", "agg"}, {"t", ty(C->getType())}, {"a", std::move(a)}};
    }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
        Array a; for (unsigned i = 0; i < CD->getNumElements(); ++i) a.push_back(constant(CD->getElementAsConstant(i)));
        return Object{{"k", "agg"}, {"t", ty(C->getType())}, {"a", std::move(a)}};
    }
    std::string s; raw_string_ostream os(s); C->print(os);
    return Object{{"k", "unk"}, {"s", os.str()}};
}

static json::Value opnd(const llvm::Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    auto it = ids.find(V);
    if (it != ids.end()) return Object{{"k", "r"}, {"n", it->second}};
    if (isa<MetadataAsValue>(V)) return Object{{"k", "md"}};
    if (isa<InlineAsm>(V)) return Object{{"k", "asm"}};
    return Object{{"k", "unk"}};
}

static json::Value dumpFunction(Function &F) {
    ids.clear(); bbids.clear();
    int n = 0; for (auto &A : F.args()) ids[&A] = n++;
    int b = 0;
    for (auto &BB : F) { bbids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    Object o; o["name"] = F.getName().str(); o["dem"] = demangle(F.getName().str());
    o["rt"] = ty(F.getReturnType());
    o["vararg"] = F.isVarArg();
    Array args;
    for (auto &A : F.args()) {
        Object ao{{"t", ty(A.getType())}};
        if (A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType());
        if (A.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType());
        if (A.getDereferenceableBytes()) ao["deref"] = (int64_t)A.getDereferenceableBytes();
        ao["name"] = A.getName().str();
        args.push_back(std::move(ao));
    }
    o["args"] = std::move(args);
    if (F.isDeclaration()) { o["decl"] = true; o["noreturn"] = F.doesNotReturn(); return o; }
    Array blocks; std::set<std::string> subs;
    for (auto &BB : F) {
        Array ins;
        for (auto &I : BB) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            Object io; io["op"] = I.getOpcodeName(); io["t"] = ty(I.getType()); io["id"] = ids[&I];
            for (const DILocation *DL_ = I.getDebugLoc(); DL_; DL_ = DL_->getInlinedAt())
                if (auto *SP = DL_->getScope()->getSubprogram()) subs.insert(SP->getName().str() + "@" + SP->getFilename().str() + ":" + std::to_string(SP->getLine()));
            if (auto &L = I.getDebugLoc()) { io["line"] = (int64_t)L.getLine();
                if (auto *Sc = dyn_cast_or_null<DIScope>(L.getScope())) io["file"] = Sc->getFilename().str(); }
            if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) io["nsw"] = true; if (OB->hasNoUnsignedWrap()) io["nuw"] = true; }
            if (auto *PE = dyn_cast<PossiblyExactOperator>(&I)) if (PE->isExact()) io["exact"] = true;
            if (auto *C = dyn_cast<CmpInst>(&I)) { io["pred"] = CmpInst::getPredicateName(C->getPredicate()).str(); io["ot"] = ty(C->getOperand(0)->getType()); }
            if (auto *LP = dyn_cast<LandingPadInst>(&I)) io["cleanup"] = LP->isCleanup();
            if (auto *P = dyn_cast<PHINode>(&I)) {
                Array a; for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                    a.push_back(Array{bbids[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))});
                io["in"] = std::move(a);
            } else if (auto *GEP = dyn_cast<GetElementPtrInst>(&I)) {
                MapVector<llvm::Value*, APInt> vo; APInt co(64, 0);
                if (!GEP->getType()->isVectorTy() && GEP->collectOffset(*DL, 64, vo, co)) {
                    io["b"] = opnd(GEP->getPointerOperand()); io["o"] = co.getSExtValue();
                    Array a; for (auto &kv : vo) a.push_back(Array{kv.second.getSExtValue(), opnd(kv.first), ty(kv.first->getType())});
                    io["v"] = std::move(a);
                }
            } else if (auto *B = dyn_cast<BranchInst>(&I)) {
                if (B->isConditional()) io["c"] = opnd(B->getCondition());
                Array s; for (unsigned i = 0; i < B->getNumSuccessors(); ++i) s.push_back(bbids[B->getSuccessor(i)]); io["succ"] = std::move(s);
            } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
                io["c"] = opnd(S->getCondition()); io["ot"] = ty(S->getCondition()->getType()); io["def"] = bbids[S->getDefaultDest()];
                Array a; for (auto &c : S->cases()) a.push_back(Array{apint(c.getCaseValue()->getValue()), bbids[c.getCaseSuccessor()]});
                io["cases"] = std::move(a);
            } else if (auto *IB = dyn_cast<IndirectBrInst>(&I)) {
                io["c"] = opnd(IB->getAddress()); Array a; for (unsigned i = 0; i < IB->getNumDestinations(); ++i) a.push_back(bbids[IB->getDestination(i)]); io["succ"] = std::move(a);
            } else if (auto *C = dyn_cast<CallBase>(&I)) {
                if (C->getCalledFunction() == nullptr) { auto *cv = C->getCalledOperand()->stripPointerCasts(); io["callee"] = opnd(cv); }
                else { usedFuncs.insert(C->getCalledFunction()); io["callee"] = Object{{"k", "fn"}, {"n", C->getCalledFunction()->getName().str()}}; }
                Array a, at; for (auto &A : C->args()) { a.push_back(opnd(A.get())); at.push_back(ty(A->getType())); }
                io["a"] = std::move(a); io["at"] = std::move(at);
                Array bv; for (unsigned i = 0; i < C->arg_size(); ++i) if (C->isByValArgument(i)) bv.push_back(Array{(int64_t)i, (int64_t)DL->getTypeAllocSize(C->getParamByValType(i))});
                if (!bv.empty()) io["byval"] = std::move(bv);
                if (auto *IV = dyn_cast<InvokeInst>(&I)) { io["normal"] = bbids[IV->getNormalDest()]; io["unwind"] = bbids[IV->getUnwindDest()]; }
                if (C->doesNotReturn()) io["noreturn"] = true;
            } else {
                Array a, at; for (auto &O : I.operands()) { a.push_back(opnd(O.get())); at.push_back(ty(O->getType())); }
                io["a"] = std::move(a); io["at"] = std::move(at);
                if (auto *A = dyn_cast<AllocaInst>(&I)) { io["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()); io["ety"] = ty(A->getAllocatedType()); io["name"] = A->getName().str(); }
                if (auto *L = dyn_cast<LoadInst>(&I)) io["size"] = (int64_t)DL->getTypeStoreSize(L->getType());
                if (auto *S = dyn_cast<StoreInst>(&I)) { io["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); }
                if (auto *E = dyn_cast<ExtractValueInst>(&I)) { Array x; for (auto i : E->indices()) x.push_back((int64_t)i); io["idx"] = std::move(x); }
                if (auto *E = dyn_cast<InsertValueInst>(&I)) { Array x; for (auto i : E->indices()) x.push_back((int64_t)i); io["idx"] = std::move(x); }
                if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) { Array x; for (auto i : SV->getShuffleMask()) x.push_back((int64_t)i); io["mask"] = std::move(x); }
                if (auto *R = dyn_cast<AtomicRMWInst>(&I)) io["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str();
            }
            ins.push_back(std::move(io));
        }
        blocks.push_back(std::move(ins));
    }
    { Array sa; for (auto &x : subs) sa.push_back(x); o["subs"] = std::move(sa); }
    o["blocks"] = std::move(blocks);
    return o;
}

int main(int argc, char **argv) {
    std::string in = argv[1], out = argv[2], passes; std::vector<std::string> keep, roots;
    for (int i = 3; i < argc; ++i) { std::string a = argv[i];
        if (a.rfind("--roots=", 0) == 0) roots.push_back(a.substr(8));
        else if (a.rfind("--keep=", 0) == 0) keep.push_back(a.substr(7));
        else if (a.rfind("--passes=", 0) == 0) passes = a.substr(9); }
    LLVMContext Ctx; SMDiagnostic Err; auto M = parseIRFile(in, Err, Ctx);
    if (!M) { Err.print("irdump", errs()); return 2; }
    auto match = [](const std::vector<std::string> &rs, StringRef name, const std::string &dem) {
        for (auto &r : rs) { Regex R(r); if (R.match(name) || R.match(dem)) return true; } return false; };
    std::set<std::string> rootNames;
    for (auto &F : *M) {
        std::string dem = demangle(F.getName().str());
        if (match(roots, F.getName(), dem) && !F.isDeclaration()) rootNames.insert(F.getName().str());
        if (match(keep, F.getName(), dem) || rootNames.count(F.getName().str())) {
            F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline);
            F.setMemoryEffects(MemoryEffects::unknown());
        } else { F.removeFnAttr(Attribute::NoInline); }
        F.removeFnAttr(Attribute::OptimizeNone);
    }
    if (rootNames.empty()) { errs() << "irdump: no root matches\n"; return 3; }
    for (auto &F : *M) if (F.hasAvailableExternallyLinkage()) F.setLinkage(GlobalValue::InternalLinkage);
    internalizeModule(*M, [&](const GlobalValue &GV) { return rootNames.count(GV.getName().str()) || GV.getName().starts_with("__v_") ; });
    if (!passes.empty()) {
        PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        ModulePassManager MPM;
        if (auto E = PB.parsePassPipeline(MPM, passes)) { errs() << "irdump: " << toString(std::move(E)) << "\n"; return 4; }
        MPM.run(*M, MAM);
    }
    DL = &M->getDataLayout();
    Object funcs, globs; std::set<std::string> done; std::vector<Function*> work; std::set<const GlobalVariable*> gdone;
    for (auto &F : *M) if (rootNames.count(F.getName().str())) work.push_back(&F);
    for (bool again = true; again; ) { again = false;
        while (!work.empty()) {
            auto *F = work.back(); work.pop_back();
            if (!done.insert(F->getName().str()).second) continue;
            usedFuncs.clear();
            funcs[F->getName().str()] = dumpFunction(*F);
            for (auto *G : usedFuncs) work.push_back(const_cast<Function*>(G));
        }
        ids.clear(); usedFuncs.clear();
        auto copy = usedGlobals;
        for (auto *G : copy) { if (!gdone.insert(G).second) continue; again = true;
            Object g{{"size", (int64_t)(G->getValueType()->isSized() ? DL->getTypeAllocSize(G->getValueType()) : TypeSize::getFixed(0))}, {"const", G->isConstant()}, {"t", ty(G->getValueType())}};
            if (G->hasInitializer()) g["init"] = constant(G->getInitializer());
            globs[G->getName().str()] = std::move(g); }
        for (auto *G : usedFuncs) { work.push_back(const_cast<Function*>(G)); again = true; }
    }
    std::error_code EC; raw_fd_ostream os(out, EC);
    Array rn; for (auto &r : rootNames) rn.push_back(r);
    os << json::Value(Object{{"funcs", std::move(funcs)}, {"globals", std::move(globs)}, {"roots", std::move(rn)}});
    return 0;
}
