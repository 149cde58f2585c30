// LLVM-18 pass plugin: rewrites every floating-point operation of a translation
// unit into a call to the symbolic runtime (symrt.cpp).  A symbolic double is a
// quiet NaN whose payload names a node of the runtime's expression DAG; loads,
// stores, moves and containers therefore need no instrumentation at all.
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace llvm;

namespace {

struct SymPass : public PassInfoMixin<SymPass> {
  Module *M = nullptr;
  Type *DT, *I64, *I32, *I1, *VoidT;

  FunctionCallee fn(StringRef name, Type *ret, ArrayRef<Type *> args) {
    return M->getOrInsertFunction(name, FunctionType::get(ret, args, false));
  }

  static bool isD(Type *T) { return T->isDoubleTy(); }
  static bool isVD(Type *T) {
    auto *V = dyn_cast<FixedVectorType>(T);
    return V && V->getElementType()->isDoubleTy();
  }

  Value *binop(IRBuilder<> &B, unsigned opc, Value *a, Value *b) {
    const char *n = nullptr;
    switch (opc) {
    case Instruction::FAdd: n = "__sym_fadd"; break;
    case Instruction::FSub: n = "__sym_fsub"; break;
    case Instruction::FMul: n = "__sym_fmul"; break;
    case Instruction::FDiv: n = "__sym_fdiv"; break;
    case Instruction::FRem: n = "__sym_frem"; break;
    default: return nullptr;
    }
    return B.CreateCall(fn(n, DT, {DT, DT}), {a, b});
  }
  Value *cmp(IRBuilder<> &B, unsigned pred, Value *a, Value *b) {
    Value *r = B.CreateCall(fn("__sym_fcmp", I32, {I32, DT, DT}),
                            {B.getInt32(pred), a, b});
    return B.CreateTrunc(r, I1);
  }

  // names of libm functions (double -> double etc.) routed to the runtime
  static const std::map<std::string, std::string> &libm() {
    static std::map<std::string, std::string> m;
    if (m.empty()) {
      for (const char *n :
           {"exp", "log", "log10", "log2", "log1p", "expm1", "exp2", "exp10",
            "sqrt", "fabs", "floor", "ceil", "round", "trunc", "rint",
            "nearbyint", "sin", "cos", "tan", "asin", "acos", "atan", "sinh",
            "cosh", "tanh", "erf", "erfc", "cbrt", "tgamma", "lgamma"})
        m[n] = "d_d";
      for (const char *n :
           {"pow", "fmod", "atan2", "hypot", "fmin", "fmax", "copysign",
            "fdim", "remainder", "nextafter"})
        m[n] = "d_dd";
      for (const char *n : {"lround", "llround", "lrint", "llrint"})
        m[n] = "l_d";
    }
    return m;
  }

  bool instrumentCall(CallBase *CB) {
    Function *F = CB->getCalledFunction();
    if (!F)
      return false;
    IRBuilder<> B(CB);
    StringRef N = F->getName();
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      auto id = II->getIntrinsicID();
      const char *n = nullptr;
      int nargs = 1;
      switch (id) {
      case Intrinsic::fabs: n = "__sym_fabs"; break;
      case Intrinsic::sqrt: n = "__sym_sqrt"; break;
      case Intrinsic::exp: n = "__sym_exp"; break;
      case Intrinsic::exp2: n = "__sym_exp2"; break;
      case Intrinsic::log: n = "__sym_log"; break;
      case Intrinsic::log10: n = "__sym_log10"; break;
      case Intrinsic::log2: n = "__sym_log2"; break;
      case Intrinsic::sin: n = "__sym_sin"; break;
      case Intrinsic::cos: n = "__sym_cos"; break;
      case Intrinsic::floor: n = "__sym_floor"; break;
      case Intrinsic::ceil: n = "__sym_ceil"; break;
      case Intrinsic::trunc: n = "__sym_trunc"; break;
      case Intrinsic::rint: n = "__sym_rint"; break;
      case Intrinsic::nearbyint: n = "__sym_nearbyint"; break;
      case Intrinsic::round: n = "__sym_round"; break;
      case Intrinsic::pow: n = "__sym_pow"; nargs = 2; break;
      case Intrinsic::minnum: n = "__sym_fmin"; nargs = 2; break;
      case Intrinsic::maxnum: n = "__sym_fmax"; nargs = 2; break;
      case Intrinsic::copysign: n = "__sym_copysign"; nargs = 2; break;
      case Intrinsic::fmuladd:
      case Intrinsic::fma: {
        if (!isD(CB->getType())) break;
        Value *m = B.CreateCall(fn("__sym_fmul", DT, {DT, DT}),
                                {CB->getArgOperand(0), CB->getArgOperand(1)});
        Value *s = B.CreateCall(fn("__sym_fadd", DT, {DT, DT}),
                                {m, CB->getArgOperand(2)});
        CB->replaceAllUsesWith(s);
        return true;
      }
      case Intrinsic::powi: {
        if (!isD(CB->getType())) break;
        Value *s = B.CreateCall(fn("__sym_powi", DT, {DT, I32}),
                                {CB->getArgOperand(0), CB->getArgOperand(1)});
        CB->replaceAllUsesWith(s);
        return true;
      }
      case Intrinsic::is_fpclass: {
        if (!isD(CB->getArgOperand(0)->getType())) break;
        Value *s = B.CreateCall(fn("__sym_isfpclass", I32, {DT, I32}),
                                {CB->getArgOperand(0), CB->getArgOperand(1)});
        CB->replaceAllUsesWith(B.CreateTrunc(s, I1));
        return true;
      }
      default: break;
      }
      if (!n) {
        if (isD(CB->getType()))
          errs() << "SymPass: unhandled intrinsic " << N << "\n";
        return false;
      }
      if (isVD(CB->getType())) {
        Value *res = PoisonValue::get(CB->getType());
        unsigned cnt = cast<FixedVectorType>(CB->getType())->getNumElements();
        for (unsigned i = 0; i < cnt; i++) {
          Value *a = B.CreateExtractElement(CB->getArgOperand(0), i), *r;
          if (nargs == 1)
            r = B.CreateCall(fn(n, DT, {DT}), {a});
          else
            r = B.CreateCall(fn(n, DT, {DT, DT}),
                             {a, B.CreateExtractElement(CB->getArgOperand(1), i)});
          res = B.CreateInsertElement(res, r, i);
        }
        CB->replaceAllUsesWith(res);
        return true;
      }
      if (!isD(CB->getType()))
        return false;
      Value *r;
      if (nargs == 1)
        r = B.CreateCall(fn(n, DT, {DT}), {CB->getArgOperand(0)});
      else
        r = B.CreateCall(fn(n, DT, {DT, DT}),
                         {CB->getArgOperand(0), CB->getArgOperand(1)});
      CB->replaceAllUsesWith(r);
      return true;
    }
    if (!F->isDeclaration())
      return false;
    auto it = libm().find(N.str());
    if (it != libm().end()) {
      const std::string &k = it->second;
      FunctionType *FT = F->getFunctionType();
      FunctionType *want =
          k == "d_d"    ? FunctionType::get(DT, {DT}, false)
          : k == "d_dd" ? FunctionType::get(DT, {DT, DT}, false)
                        : FunctionType::get(I64, {DT}, false);
      if (FT == want) {
        FunctionCallee c = fn(("__sym_" + N).str(), want->getReturnType(),
                              want->params());
        CB->setCalledFunction(c);
        return false;
      }
    }
    // uninstrumented callee receiving doubles by value: guarded
    if (!N.starts_with("__sym_") && !N.starts_with("sym_") &&
        !N.starts_with("_ZNSo") && !N.starts_with("_Z") &&
        !N.starts_with("gsl_")) {
      for (auto &A : CB->args())
        if (isD(A->getType())) {
          Value *nm = B.CreateGlobalStringPtr(N);
          B.CreateCall(fn("__sym_extchk", VoidT, {DT, nm->getType()}),
                       {A.get(), nm});
        }
    }
    return false;
  }

  bool runOnFunction(Function &F) {
    std::vector<Instruction *> work;
    for (auto &I : instructions(F))
      work.push_back(&I);
    std::vector<Instruction *> dead;
    for (Instruction *I : work) {
      IRBuilder<> B(I);
      if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        if (isD(I->getType())) {
          if (Value *r = binop(B, BO->getOpcode(), BO->getOperand(0),
                               BO->getOperand(1))) {
            I->replaceAllUsesWith(r);
            dead.push_back(I);
          }
        } else if (isVD(I->getType())) {
          Value *res = PoisonValue::get(I->getType());
          unsigned cnt = cast<FixedVectorType>(I->getType())->getNumElements();
          for (unsigned i = 0; i < cnt; i++)
            res = B.CreateInsertElement(
                res,
                binop(B, BO->getOpcode(),
                      B.CreateExtractElement(BO->getOperand(0), i),
                      B.CreateExtractElement(BO->getOperand(1), i)),
                i);
          I->replaceAllUsesWith(res);
          dead.push_back(I);
        }
      } else if (auto *UO = dyn_cast<UnaryOperator>(I)) {
        if (UO->getOpcode() != Instruction::FNeg) continue;
        if (isD(I->getType())) {
          I->replaceAllUsesWith(
              B.CreateCall(fn("__sym_fneg", DT, {DT}), {UO->getOperand(0)}));
          dead.push_back(I);
        } else if (isVD(I->getType())) {
          Value *res = PoisonValue::get(I->getType());
          unsigned cnt = cast<FixedVectorType>(I->getType())->getNumElements();
          for (unsigned i = 0; i < cnt; i++)
            res = B.CreateInsertElement(
                res,
                B.CreateCall(fn("__sym_fneg", DT, {DT}),
                             {B.CreateExtractElement(UO->getOperand(0), i)}),
                i);
          I->replaceAllUsesWith(res);
          dead.push_back(I);
        }
      } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
        Type *T = FC->getOperand(0)->getType();
        if (isD(T)) {
          // merge into ITE when every user is a select of doubles
          bool allSel = !FC->use_empty();
          for (User *U : FC->users()) {
            auto *S = dyn_cast<SelectInst>(U);
            if (!S || S->getCondition() != FC || !isD(S->getType()))
              allSel = false;
          }
          if (allSel) {
            std::vector<SelectInst *> sels;
            for (User *U : FC->users())
              sels.push_back(cast<SelectInst>(U));
            for (auto *S : sels) {
              IRBuilder<> SB(S);
              Value *r = SB.CreateCall(
                  fn("__sym_fsel", DT, {I32, DT, DT, DT, DT}),
                  {SB.getInt32(FC->getPredicate()), FC->getOperand(0),
                   FC->getOperand(1), S->getTrueValue(), S->getFalseValue()});
              S->replaceAllUsesWith(r);
              dead.push_back(S);
            }
            dead.push_back(FC);
          } else {
            Value *r =
                cmp(B, FC->getPredicate(), FC->getOperand(0), FC->getOperand(1));
            I->replaceAllUsesWith(r);
            dead.push_back(I);
          }
        } else if (isVD(T)) {
          Value *res = PoisonValue::get(I->getType());
          unsigned cnt = cast<FixedVectorType>(T)->getNumElements();
          for (unsigned i = 0; i < cnt; i++)
            res = B.CreateInsertElement(
                res,
                cmp(B, FC->getPredicate(),
                    B.CreateExtractElement(FC->getOperand(0), i),
                    B.CreateExtractElement(FC->getOperand(1), i)),
                i);
          I->replaceAllUsesWith(res);
          dead.push_back(I);
        }
      } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
        Type *T = I->getOperand(0)->getType();
        if (isD(T) && I->getType()->isIntegerTy() &&
            I->getType()->getIntegerBitWidth() <= 64) {
          Value *r = B.CreateCall(
              fn(isa<FPToSIInst>(I) ? "__sym_fptosi" : "__sym_fptoui", I64,
                 {DT}),
              {I->getOperand(0)});
          I->replaceAllUsesWith(B.CreateTruncOrBitCast(r, I->getType()));
          dead.push_back(I);
        } else if (isVD(T))
          errs() << "SymPass: vector fptosi unhandled in " << F.getName() << "\n";
      } else if (isa<FPTruncInst>(I)) {
        if (isD(I->getOperand(0)->getType())) {
          Value *nm = B.CreateGlobalStringPtr("fptrunc");
          B.CreateCall(fn("__sym_extchk", VoidT, {DT, nm->getType()}),
                       {I->getOperand(0), nm});
        }
      } else if (isa<FPExtInst>(I) && isD(I->getOperand(0)->getType())) {
        Value *nm = B.CreateGlobalStringPtr("fpext");
        B.CreateCall(fn("__sym_extchk", VoidT, {DT, nm->getType()}),
                     {I->getOperand(0), nm});
      } else if (auto *BC = dyn_cast<BitCastInst>(I)) {
        if (isD(BC->getOperand(0)->getType()) && BC->getType()->isIntegerTy(64)) {
          // sign tests (signbit) become symbolic comparisons
          std::vector<User *> us(BC->user_begin(), BC->user_end());
          for (User *U : us) {
            auto *IC = dyn_cast<ICmpInst>(U);
            if (IC && IC->getOperand(0) == BC) {
              auto *C = dyn_cast<ConstantInt>(IC->getOperand(1));
              IRBuilder<> CB(IC);
              if (C && C->isZero() && IC->getPredicate() == ICmpInst::ICMP_SLT) {
                Value *r = CB.CreateCall(fn("__sym_signbit", I32, {DT}),
                                         {BC->getOperand(0)});
                IC->replaceAllUsesWith(CB.CreateTrunc(r, I1));
                dead.push_back(IC);
                continue;
              }
              if (C && C->isMinusOne() &&
                  IC->getPredicate() == ICmpInst::ICMP_SGT) {
                Value *r = CB.CreateCall(fn("__sym_signbit", I32, {DT}),
                                         {BC->getOperand(0)});
                IC->replaceAllUsesWith(CB.CreateNot(CB.CreateTrunc(r, I1)));
                dead.push_back(IC);
                continue;
              }
            }
            if (isa<StoreInst>(U) || isa<PHINode>(U) || isa<BitCastInst>(U) ||
                isa<SelectInst>(U))
              continue;
            Value *nm = B.CreateGlobalStringPtr("bitcast");
            B.CreateCall(fn("__sym_extchk", VoidT, {DT, nm->getType()}),
                         {BC->getOperand(0), nm});
            break;
          }
        }
      } else if (auto *CB = dyn_cast<CallBase>(I)) {
        if (instrumentCall(CB))
          dead.push_back(CB);
      }
    }
    for (auto *I : dead)
      if (I->use_empty())
        I->eraseFromParent();
    // a fcmp merged in selects may be listed before its selects
    for (auto *I : dead)
      (void)I;
    return !work.empty();
  }

  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &) {
    M = &Mod;
    LLVMContext &C = Mod.getContext();
    DT = Type::getDoubleTy(C);
    I64 = Type::getInt64Ty(C);
    I32 = Type::getInt32Ty(C);
    I1 = Type::getInt1Ty(C);
    VoidT = Type::getVoidTy(C);
    std::vector<Function *> fs;
    for (auto &F : Mod)
      if (!F.isDeclaration())
        fs.push_back(&F);
    for (Function *F : fs)
      runOnFunction(*F);
    // function-entry coverage of the project's own functions
    for (Function *F : fs) {
      StringRef N = F->getName();
      if (N.find("NSEpic") == StringRef::npos)
        continue;
      if (N.starts_with("_ZNSt") || N.starts_with("_ZSt") ||
          N.starts_with("_ZNKSt") || N.starts_with("_GLOBAL"))
        continue;
      auto *flag = new GlobalVariable(Mod, Type::getInt8Ty(C), false,
                                      GlobalValue::PrivateLinkage,
                                      ConstantInt::get(Type::getInt8Ty(C), 0),
                                      "__symcov");
      Instruction *ip = &*F->getEntryBlock().getFirstInsertionPt();
      IRBuilder<> B(ip);
      Value *nm = B.CreateGlobalStringPtr(N);
      B.CreateCall(fn("__sym_fn", VoidT, {flag->getType(), nm->getType()}),
                   {flag, nm});
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager &MPM, OptimizationLevel) {
                  MPM.addPass(SymPass());
                });
          }};
}
