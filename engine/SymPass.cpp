// LLVM 18 pass: makes the program it compiles compute on symbolic values that
// travel "in band": a symbolic double is a *signalling NaN* whose payload is an
// expression id, a symbolic 64-bit integer is a 64-bit pattern with a reserved
// upper half (only when SYM_INT=1).  Loads, stores, copies, calls, returns, phis
// and selects therefore need no instrumentation at all; only operations that
// compute on the values are replaced by calls into the runtime (rt.cpp).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <cstdlib>
#include <map>
#include <set>
using namespace llvm;

namespace {
bool intMode() { const char* e = getenv("SYM_INT"); return e && *e == '1'; }

// ---------------------------------------------------------------- early pass
// (a) marks the entry of every function of the code under test, so that the
//     evidence lists the functions that were executed symbolically;
// (b) SYM_STUB=name1:name2 removes the bodies of functions the harness replaces
//     (environment stubs), matched on the demangled name without arguments.
struct EarlyPass : PassInfoMixin<EarlyPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    LLVMContext& C = M.getContext();
    std::set<std::string> stubs, noinl;
    auto split = [](const char* e, std::set<std::string>& out) {
      if (!e) return;
      std::string cur;
      for (const char* p = e;; ++p) {
        if (*p == ';' || !*p) { if (!cur.empty()) out.insert(cur); cur.clear(); if (!*p) break; }
        else cur += *p;
      }
    };
    split(getenv("SYM_STUB"), stubs);
    unsigned n = 0;
    for (Function& F : M) {
      if (F.isDeclaration()) continue;
      std::string dn = demangle(F.getName().str());
      if (!stubs.empty()) {
        size_t par = dn.find('(');
        std::string base = dn.substr(0, par);
        // drop a leading return type of templates
        for (const std::string& s : stubs)
          if (base == s || (base.size() > s.size() && base.compare(base.size() - s.size(), s.size(), s) == 0 && base[base.size() - s.size() - 1] == ' ')) {
            F.deleteBody();
            F.setComdat(nullptr);
            F.setLinkage(GlobalValue::ExternalLinkage);
            break;
          }
        if (F.isDeclaration()) continue;
      }
      if (dn.find("hpp::constraints") == std::string::npos &&
          dn.find("Eigen::MatrixBlock") == std::string::npos &&
          dn.find("Eigen::BlockIndex") == std::string::npos)
        continue;
      if (dn.find("boost::") == 0 || dn.find("__cxx_global") != std::string::npos) continue;
      // flag byte + name pointer, in two parallel linker sections via one record
      Constant* nm = ConstantDataArray::getString(C, dn.substr(0, 160));
      auto* gn = new GlobalVariable(M, nm->getType(), true, GlobalValue::PrivateLinkage, nm, "__symname");
      Type* i8p = PointerType::getUnqual(C);
      StructType* rec = StructType::get(C, {i8p, Type::getInt64Ty(C)});
      auto* gr = new GlobalVariable(M, rec, false, GlobalValue::PrivateLinkage,
          ConstantStruct::get(rec, {gn, ConstantInt::get(Type::getInt64Ty(C), 0)}), "__symrec");
      gr->setSection("symrecs");
      gr->setAlignment(Align(16));
      appendToCompilerUsed(M, {gr});
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      Value* fld = B.CreateStructGEP(rec, gr, 1);
      B.CreateStore(ConstantInt::get(Type::getInt64Ty(C), 1), fld, true);
      ++n;
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

// ----------------------------------------------------------------- late pass
struct LatePass : PassInfoMixin<LatePass> {
  Module* M;
  Type *D, *I64, *I32, *I1;
  bool ints;

  FunctionCallee fn(StringRef n, Type* r, ArrayRef<Type*> a) {
    return M->getOrInsertFunction(n, FunctionType::get(r, a, false));
  }

  Value* conc(IRBuilder<>& B, Value* v) {
    if (isa<Constant>(v)) return v;
    return B.CreateCall(fn("__sym_conc", I64, {I64}), {v});
  }

  PreservedAnalyses run(Module& Mod, ModuleAnalysisManager&) {
    M = &Mod;
    LLVMContext& C = Mod.getContext();
    D = Type::getDoubleTy(C); I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I1 = Type::getInt1Ty(C);
    ints = intMode();
    for (Function& F : Mod) {
      if (F.isDeclaration() || F.getName().starts_with("__sym_")) continue;
      std::vector<Instruction*> work;
      for (Instruction& I : instructions(F)) work.push_back(&I);
      for (Instruction* I : work) visit(I);
    }
    return PreservedAnalyses::none();
  }

  void repl(Instruction* I, Value* V) {
    I->replaceAllUsesWith(V);
    I->eraseFromParent();
  }

  void visit(Instruction* I) {
    IRBuilder<> B(I);
    Type* T = I->getType();
    // ---- floating point
    if (auto* bo = dyn_cast<BinaryOperator>(I)) {
      if (T == D) {
        const char* n = nullptr;
        switch (bo->getOpcode()) {
          case Instruction::FAdd: n = "__sym_fadd"; break;
          case Instruction::FSub: n = "__sym_fsub"; break;
          case Instruction::FMul: n = "__sym_fmul"; break;
          case Instruction::FDiv: n = "__sym_fdiv"; break;
          case Instruction::FRem: n = "__sym_frem"; break;
          default: break;
        }
        if (n) repl(I, B.CreateCall(fn(n, D, {D, D}), {I->getOperand(0), I->getOperand(1)}));
        return;
      }
      if (T->isVectorTy() && T->getScalarType() == D) { vecBin(I, bo, B); return; }
    }
    if (I->getOpcode() == Instruction::FNeg) {
      if (T == D) { repl(I, B.CreateCall(fn("__sym_fneg", D, {D}), {I->getOperand(0)})); return; }
      if (T->isVectorTy() && T->getScalarType() == D) report_fatal_error("vector fneg");
    }
    if (auto* fc = dyn_cast<FCmpInst>(I)) {
      if (fc->getOperand(0)->getType() == D) {
        Value* r = B.CreateCall(fn("__sym_fcmp", I32, {I32, D, D}),
            {ConstantInt::get(I32, fc->getPredicate()), fc->getOperand(0), fc->getOperand(1)});
        repl(I, B.CreateICmpNE(r, ConstantInt::get(I32, 0)));
        return;
      }
      if (fc->getOperand(0)->getType()->isVectorTy() && fc->getOperand(0)->getType()->getScalarType() == D)
        report_fatal_error("vector fcmp");
    }
    if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
      if (I->getOperand(0)->getType() == D) {
        Value* r = B.CreateCall(fn(isa<FPToSIInst>(I) ? "__sym_fptosi" : "__sym_fptoui", I64, {D}), {I->getOperand(0)});
        repl(I, B.CreateTruncOrBitCast(r, T));
        return;
      }
    }
    if ((isa<SIToFPInst>(I) || isa<UIToFPInst>(I)) && ints && T == D && I->getOperand(0)->getType() == I64) {
      repl(I, B.CreateCall(fn(isa<SIToFPInst>(I) ? "__sym_sitofp" : "__sym_uitofp", D, {I64}), {I->getOperand(0)}));
      return;
    }
    if ((isa<FPTruncInst>(I) && I->getOperand(0)->getType() == D) ||
        (isa<FPExtInst>(I) && I->getOperand(0)->getType() == D)) {
      I->setOperand(0, B.CreateCall(fn("__sym_needconc", D, {D}), {I->getOperand(0)}));
      return;
    }
    if (auto* cb = dyn_cast<CallBase>(I)) { call(cb, B); return; }
    if (!ints) return;
    // ---- 64-bit integers
    if (auto* bo = dyn_cast<BinaryOperator>(I)) {
      if (T != I64) return;
      switch (bo->getOpcode()) {
        case Instruction::Add: repl(I, B.CreateCall(fn("__sym_add", I64, {I64, I64}), {I->getOperand(0), I->getOperand(1)})); return;
        case Instruction::Sub: repl(I, B.CreateCall(fn("__sym_sub", I64, {I64, I64}), {I->getOperand(0), I->getOperand(1)})); return;
        case Instruction::Mul: repl(I, B.CreateCall(fn("__sym_mul", I64, {I64, I64}), {I->getOperand(0), I->getOperand(1)})); return;
        case Instruction::Xor:
          if (auto* c = dyn_cast<ConstantInt>(I->getOperand(1)); c && c->isMinusOne()) {  // ~x = -1 - x
            repl(I, B.CreateCall(fn("__sym_sub", I64, {I64, I64}), {ConstantInt::get(I64, -1), I->getOperand(0)}));
            return;
          }
          [[fallthrough]];
        default:
          for (unsigned k = 0; k < 2; ++k) I->setOperand(k, conc(B, I->getOperand(k)));
          return;
      }
    }
    if (auto* ic = dyn_cast<ICmpInst>(I)) {
      if (ic->getOperand(0)->getType() != I64) return;
      Value* r = B.CreateCall(fn("__sym_icmp", I32, {I32, I64, I64}),
          {ConstantInt::get(I32, ic->getPredicate()), ic->getOperand(0), ic->getOperand(1)});
      repl(I, B.CreateICmpNE(r, ConstantInt::get(I32, 0)));
      return;
    }
    if (auto* g = dyn_cast<GetElementPtrInst>(I)) {
      for (unsigned k = 1; k < g->getNumOperands(); ++k)
        if (g->getOperand(k)->getType() == I64) g->setOperand(k, conc(B, g->getOperand(k)));
      return;
    }
    if (isa<TruncInst>(I) || isa<IntToPtrInst>(I)) {
      if (I->getOperand(0)->getType() == I64) I->setOperand(0, conc(B, I->getOperand(0)));
      return;
    }
    if (auto* s = dyn_cast<SwitchInst>(I)) {
      if (s->getCondition()->getType() == I64) s->setCondition(conc(B, s->getCondition()));
      return;
    }
  }

  void vecBin(Instruction* I, BinaryOperator* bo, IRBuilder<>& B) {
    auto* vt = cast<FixedVectorType>(I->getType());
    const char* n = nullptr;
    switch (bo->getOpcode()) {
      case Instruction::FAdd: n = "__sym_fadd"; break;
      case Instruction::FSub: n = "__sym_fsub"; break;
      case Instruction::FMul: n = "__sym_fmul"; break;
      case Instruction::FDiv: n = "__sym_fdiv"; break;
      default: return;
    }
    Value* r = PoisonValue::get(vt);
    for (unsigned k = 0; k < vt->getNumElements(); ++k)
      r = B.CreateInsertElement(r, B.CreateCall(fn(n, D, {D, D}),
            {B.CreateExtractElement(I->getOperand(0), k), B.CreateExtractElement(I->getOperand(1), k)}), k);
    repl(I, r);
  }

  void call(CallBase* cb, IRBuilder<>& B) {
    Function* f = cb->getCalledFunction();
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
      Type* T = cb->getType();
      auto un = [&](const char* n) { repl(cb, B.CreateCall(fn(n, D, {D}), {cb->getArgOperand(0)})); };
      auto bi = [&](const char* n) { repl(cb, B.CreateCall(fn(n, D, {D, D}), {cb->getArgOperand(0), cb->getArgOperand(1)})); };
      if (T == D) switch (ii->getIntrinsicID()) {
        case Intrinsic::fabs: un("__sym_fabs"); return;
        case Intrinsic::sqrt: un("__sym_sqrt"); return;
        case Intrinsic::sin: un("__sym_sin"); return;
        case Intrinsic::cos: un("__sym_cos"); return;
        case Intrinsic::exp: un("__sym_exp"); return;
        case Intrinsic::log: un("__sym_log"); return;
        case Intrinsic::log10: un("__sym_log10"); return;
        case Intrinsic::floor: un("__sym_floor"); return;
        case Intrinsic::ceil: un("__sym_ceil"); return;
        case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: un("__sym_needconc"); return;
        case Intrinsic::minnum: case Intrinsic::minimum: bi("__sym_fmin"); return;
        case Intrinsic::maxnum: case Intrinsic::maximum: bi("__sym_fmax"); return;
        case Intrinsic::copysign: bi("__sym_copysign"); return;
        case Intrinsic::pow: bi("__sym_pow"); return;
        case Intrinsic::fma: case Intrinsic::fmuladd:
          repl(cb, B.CreateCall(fn("__sym_fma", D, {D, D, D}), {cb->getArgOperand(0), cb->getArgOperand(1), cb->getArgOperand(2)}));
          return;
        default: break;
      }
      if (ii->getIntrinsicID() == Intrinsic::is_fpclass && cb->getArgOperand(0)->getType() == D) {
        Value* r = B.CreateCall(fn("__sym_fpclass", I32, {D, I32}), {cb->getArgOperand(0), cb->getArgOperand(1)});
        repl(cb, B.CreateICmpNE(r, ConstantInt::get(I32, 0)));
        return;
      }
      if (ints) switch (ii->getIntrinsicID()) {
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
          if (T == I64) {
            const char* n = ii->getIntrinsicID() == Intrinsic::smax ? "__sym_smax" : ii->getIntrinsicID() == Intrinsic::smin ? "__sym_smin" :
                            ii->getIntrinsicID() == Intrinsic::umax ? "__sym_umax" : "__sym_umin";
            repl(cb, B.CreateCall(fn(n, I64, {I64, I64}), {cb->getArgOperand(0), cb->getArgOperand(1)}));
          }
          return;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::assume: return;
        default:
          for (unsigned k = 0; k < cb->arg_size(); ++k)
            if (cb->getArgOperand(k)->getType() == I64 && !isa<Constant>(cb->getArgOperand(k)))
              cb->setArgOperand(k, conc(B, cb->getArgOperand(k)));
          return;
      }
      return;
    }
    if (cb->isInlineAsm() || !f) return;
    StringRef n = f->getName();
    static const std::map<std::string, std::string> one = {
      {"sqrt","__sym_sqrt"},{"sin","__sym_sin"},{"cos","__sym_cos"},{"tan","__sym_tan"},{"acos","__sym_acos"},{"asin","__sym_asin"},
      {"atan","__sym_atan"},{"exp","__sym_exp"},{"log","__sym_log"},{"log10","__sym_log10"},{"fabs","__sym_fabs"},
      {"floor","__sym_floor"},{"ceil","__sym_ceil"},{"tanh","__sym_tanh"}};
    static const std::map<std::string, std::string> two = {
      {"atan2","__sym_atan2"},{"pow","__sym_pow"},{"fmin","__sym_fmin"},{"fmax","__sym_fmax"},{"hypot","__sym_hypot"},{"fmod","__sym_frem"}};
    if (f->isDeclaration()) {
      auto a = one.find(n.str());
      if (a != one.end() && cb->arg_size() == 1 && cb->getType() == D) {
        Value* r = B.CreateCall(fn(a->second, D, {D}), {cb->getArgOperand(0)});
        finish(cb, r); return;
      }
      auto b = two.find(n.str());
      if (b != two.end() && cb->arg_size() == 2 && cb->getType() == D) {
        Value* r = B.CreateCall(fn(b->second, D, {D, D}), {cb->getArgOperand(0), cb->getArgOperand(1)});
        finish(cb, r); return;
      }
      if (n == "sincos" && cb->arg_size() == 3) {
        B.CreateStore(B.CreateCall(fn("__sym_sin", D, {D}), {cb->getArgOperand(0)}), cb->getArgOperand(1));
        B.CreateStore(B.CreateCall(fn("__sym_cos", D, {D}), {cb->getArgOperand(0)}), cb->getArgOperand(2));
        finish(cb, nullptr); return;
      }
      if (ints && !n.starts_with("__sym") && !n.contains("3sym") ) {
        // library functions that must see real numbers (allocation, copies); functions of
        // other instrumented modules keep symbolic arguments
        static const std::set<std::string> libc = {"_Znwm","_Znam","_ZnwmSt11align_val_t","_ZdlPvm","_ZdaPvm","malloc","calloc","realloc","memcpy","memmove","memset","memcmp","aligned_alloc","posix_memalign"};
        bool lib = libc.count(n.str()) || n.starts_with("_ZSt") || n.starts_with("_ZNSo") || n.starts_with("_ZNSt");
        if (lib)
          for (unsigned k = 0; k < cb->arg_size(); ++k)
            if (cb->getArgOperand(k)->getType() == I64 && !isa<Constant>(cb->getArgOperand(k)))
              cb->setArgOperand(k, conc(B, cb->getArgOperand(k)));
      }
    }
  }
  void finish(CallBase* cb, Value* r) {
    if (r) cb->replaceAllUsesWith(r);
    if (auto* inv = dyn_cast<InvokeInst>(cb)) {
      BranchInst::Create(inv->getNormalDest(), inv);
      inv->getUnwindDest()->removePredecessor(inv->getParent());
    }
    cb->eraseFromParent();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
    PB.registerPipelineStartEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(EarlyPass()); });
    PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(LatePass()); });
  }};
}
