// LLVM pass plugin: rewrites every double-precision floating-point operation of a
// module into a call of the term-building runtime (symrt).  A double that holds a
// symbolic value is a NaN-boxed term handle, so loads, stores, memcpy, containers and
// calls need no change.  Runs at the start of the optimisation pipeline, before any
// floating-point folding or vectorisation can take place.
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

// library functions redirected to the runtime (same signature)
const std::set<std::string> kLibm = {
    "exp", "log", "sqrt", "pow", "fabs", "hypot", "sin", "cos", "tan", "atan2", "atan", "fmin", "fmax", "floor", "ceil",
    "log1p", "expm1", "log10", "log2", "exp2", "fmod", "round", "trunc", "rint", "cbrt", "tanh", "sinh", "cosh",
    "erf", "erfc", "lgamma", "tgamma", "copysign", "ldexp", "frexp", "modf", "fdim", "fma", "asin", "acos",
    "cexp", "clog", "cpow", "csqrt", "cabs", "carg", "csin", "ccos", "__muldc3", "__divdc3"};

// template functions of the standard library whose body is replaced by an exact runtime version
const std::map<std::string, std::string> kOverride = {
    // std::complex<double> std::pow<double>(std::complex<double> const&, double const&)
    {"_ZSt3powIdESt7complexIT_ERKS2_RKS1_", "symrt_std_cpow_d"},
};

struct SymFP : PassInfoMixin<SymFP> {
  static bool isD(Type *T) { return T->isDoubleTy(); }

  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    Type *D = Type::getDoubleTy(C);
    Type *I32 = Type::getInt32Ty(C);
    Type *I64 = Type::getInt64Ty(C);

    for (auto &KV : kOverride)
      if (Function *F = M.getFunction(KV.first)) {
        FunctionCallee N = M.getOrInsertFunction(KV.second, F->getFunctionType());
        auto *NF = cast<Function>(N.getCallee());
        NF->setAttributes(F->getAttributes());
        F->replaceAllUsesWith(NF);
        F->deleteBody();
        F->setComdat(nullptr);
      }

    std::vector<Instruction *> Work;
    for (Function &F : M)
      if (!F.isDeclaration() && !F.getName().starts_with("symrt_"))
        for (Instruction &I : instructions(F)) Work.push_back(&I);

    for (Instruction *I : Work) {
      IRBuilder<> B(I);
      auto Repl = [&](Value *V) { I->replaceAllUsesWith(V); I->eraseFromParent(); };
      auto Call = [&](const char *N, Type *R, std::vector<Value *> A) -> Value * {
        std::vector<Type *> T;
        for (auto *V : A) T.push_back(V->getType());
        return B.CreateCall(M.getOrInsertFunction(N, FunctionType::get(R, T, false)), A);
      };
      if (I->getType()->isVectorTy() && I->getType()->isFPOrFPVectorTy() && (isa<BinaryOperator>(I) || isa<FCmpInst>(I)))
        report_fatal_error("symfp: vector floating-point operation");
      if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        if (!isD(BO->getType())) continue;
        const char *N = nullptr;
        switch (BO->getOpcode()) {
        case Instruction::FAdd: N = "symrt_fadd"; break;
        case Instruction::FSub: N = "symrt_fsub"; break;
        case Instruction::FMul: N = "symrt_fmul"; break;
        case Instruction::FDiv: N = "symrt_fdiv"; break;
        case Instruction::FRem: N = "symrt_fmod"; break;
        default: break;
        }
        if (N) Repl(Call(N, D, {BO->getOperand(0), BO->getOperand(1)}));
      } else if (auto *U = dyn_cast<UnaryOperator>(I)) {
        if (U->getOpcode() == Instruction::FNeg && isD(U->getType())) Repl(Call("symrt_fneg", D, {U->getOperand(0)}));
      } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
        if (!isD(FC->getOperand(0)->getType())) continue;
        Value *R = Call("symrt_fcmp", I32, {ConstantInt::get(I32, FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)});
        Repl(B.CreateICmpNE(R, ConstantInt::get(I32, 0)));
      } else if (auto *CI = dyn_cast<CastInst>(I)) {
        Value *Op = CI->getOperand(0);
        if (!isD(Op->getType())) {
          if (isD(CI->getType()) && (Op->getType()->isX86_FP80Ty() || Op->getType()->isFloatTy())) continue;
          continue;
        }
        switch (CI->getOpcode()) {
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
        case Instruction::BitCast:
          CI->setOperand(0, Call("symrt_concrete", D, {Op}));
          break;
        default: break;
        }
      } else if (auto *CB = dyn_cast<CallBase>(I)) {
        Function *F = CB->getCalledFunction();
        if (!F) continue;
        auto Retarget = [&](const std::string &N) {
          FunctionCallee NC = M.getOrInsertFunction(N, F->getFunctionType());
          CB->setCalledFunction(NC);
          CB->removeFnAttr(Attribute::Memory);
        };
        if (F->isIntrinsic()) {
          switch (F->getIntrinsicID()) {
          case Intrinsic::fabs: if (isD(I->getType())) Repl(Call("symrt_fabs", D, {CB->getArgOperand(0)})); break;
          case Intrinsic::sqrt: if (isD(I->getType())) Repl(Call("symrt_sqrt", D, {CB->getArgOperand(0)})); break;
          case Intrinsic::exp: if (isD(I->getType())) Repl(Call("symrt_exp", D, {CB->getArgOperand(0)})); break;
          case Intrinsic::log: if (isD(I->getType())) Repl(Call("symrt_log", D, {CB->getArgOperand(0)})); break;
          case Intrinsic::sin: if (isD(I->getType())) Repl(Call("symrt_sin", D, {CB->getArgOperand(0)})); break;
          case Intrinsic::cos: if (isD(I->getType())) Repl(Call("symrt_cos", D, {CB->getArgOperand(0)})); break;
          case Intrinsic::floor: if (isD(I->getType())) Repl(Call("symrt_floor", D, {CB->getArgOperand(0)})); break;
          case Intrinsic::ceil: if (isD(I->getType())) Repl(Call("symrt_ceil", D, {CB->getArgOperand(0)})); break;
          case Intrinsic::round: if (isD(I->getType())) Repl(Call("symrt_round", D, {CB->getArgOperand(0)})); break;
          case Intrinsic::trunc: if (isD(I->getType())) Repl(Call("symrt_trunc", D, {CB->getArgOperand(0)})); break;
          case Intrinsic::pow: if (isD(I->getType())) Repl(Call("symrt_pow", D, {CB->getArgOperand(0), CB->getArgOperand(1)})); break;
          case Intrinsic::powi:
            if (isD(I->getType())) {
              Value *E = B.CreateSIToFP(CB->getArgOperand(1), D);
              Repl(Call("symrt_pow", D, {CB->getArgOperand(0), E}));
            }
            break;
          case Intrinsic::minnum: case Intrinsic::minimum:
            if (isD(I->getType())) Repl(Call("symrt_fmin", D, {CB->getArgOperand(0), CB->getArgOperand(1)})); break;
          case Intrinsic::maxnum: case Intrinsic::maximum:
            if (isD(I->getType())) Repl(Call("symrt_fmax", D, {CB->getArgOperand(0), CB->getArgOperand(1)})); break;
          case Intrinsic::copysign: if (isD(I->getType())) Repl(Call("symrt_copysign", D, {CB->getArgOperand(0), CB->getArgOperand(1)})); break;
          case Intrinsic::fma: case Intrinsic::fmuladd:
            if (isD(I->getType())) {
              Value *P = Call("symrt_fmul", D, {CB->getArgOperand(0), CB->getArgOperand(1)});
              Repl(Call("symrt_fadd", D, {P, CB->getArgOperand(2)}));
            }
            break;
          case Intrinsic::is_fpclass:
            if (isD(CB->getArgOperand(0)->getType())) {
              Value *R = Call("symrt_fpclass", I32, {CB->getArgOperand(0), B.CreateZExtOrTrunc(CB->getArgOperand(1), I32)});
              Repl(B.CreateICmpNE(R, ConstantInt::get(I32, 0)));
            }
            break;
          default: break;
          }
          continue;
        }
        if (F->isDeclaration() && kLibm.count(F->getName().str())) Retarget("symrt_" + F->getName().str());
      }
    }
    (void)I64;
    // report which functions of the code under test are executed
    for (Function &F : M) {
      DISubprogram *SP = F.getSubprogram();
      if (F.isDeclaration() || !SP || !SP->getFile()) continue;
      std::string Path = (SP->getFile()->getDirectory() + "/" + SP->getFile()->getFilename()).str();
      if (SP->getFile()->getFilename().starts_with("/")) Path = SP->getFile()->getFilename().str();
      if (!StringRef(Path).starts_with("/repo/")) continue;
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      B.SetCurrentDebugLocation(DebugLoc(DILocation::get(C, SP->getLine(), 0, SP)));
      Value *S = B.CreateGlobalStringPtr(F.getName());
      B.CreateCall(M.getOrInsertFunction("symrt_fn", FunctionType::get(Type::getVoidTy(C), {S->getType()}, false)), {S});
    }
    // attributes such as memory(none) on callers may now be wrong
    for (Function &F : M)
      if (!F.isIntrinsic()) { F.removeFnAttr(Attribute::Memory); for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(CB)) CB->removeFnAttr(Attribute::Memory); }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symfp", "1", [](PassBuilder &PB) {
            PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymFP()); });
          }};
}
