// kvpass: LLVM module pass that compiles symbolic execution into a program.
//
// Every SSA value of integer/pointer/floating type gets an i32 "shadow": the index of a node of the
// run-time expression DAG (0 = the value does not depend on the symbolic input).  Every instruction
// is followed by a call into the run time (kvrt.cpp) that builds the expression of its result, every
// conditional branch on a symbolic condition is recorded as a path decision.  Operations the
// expression language does not cover concretise their operands; a concretisation is recorded as a
// decision too, so the explorer enumerates (by solver) every other value: nothing is dropped silently.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/LowerMemIntrinsics.h"
#include <fstream>
#include <map>
#include <set>
#include <cstdlib>
#include "kvops.h"
using namespace llvm;

namespace {
typedef SmallVector<Value*, 2> Sh;

struct KV {
  Module& M; LLVMContext& C; const DataLayout& DL;
  Type *I1, *I8, *I32, *I64, *Ptr, *Void, *Dbl;
  GlobalVariable *ArgSh, *ArgPtr, *Callee, *RetSh, *RetFn, *Cov;
  FunctionCallee fBin, fCmp, fCast, fFBin, fFCmp, fFUn, fSel, fBr, fConc, fLoad, fStore, fGep, fClear,
      fMemcpy, fMemset, fMemcmp, fNatPtr, fNatEnd, fOvf, fIntr, fConcMem, fLdAddr, fSw, fByval, fNatWr, fIndirect, fMemcmpV, fZ;
  std::vector<std::string> FnNames, Sites;
  std::set<std::string> Quiet;   // native functions that never look at (or write) user data
  KV(Module& M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    Ptr = PointerType::get(C, 0); Void = Type::getVoidTy(C); Dbl = Type::getDoubleTy(C);
    auto ext = [&](StringRef n, Type* t) {
      return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
    };
    ArgSh = ext("__kv_argsh", ArrayType::get(I32, 64));
    ArgPtr = ext("__kv_argptr", ArrayType::get(Ptr, 64));
    Callee = ext("__kv_callee", Ptr);
    RetSh = ext("__kv_retsh", ArrayType::get(I32, 8));
    RetFn = ext("__kv_retfn", Ptr);
    Cov = ext("__kv_cov", Ptr);
    auto f = [&](const char* n, Type* r, ArrayRef<Type*> a) {
      FunctionCallee fc = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
      if (auto* F = dyn_cast<Function>(fc.getCallee())) F->setDoesNotThrow();
      return fc;
    };
    fBin = f("__kv_bin", I32, {I32, I32, I32, I32, I64, I64});
    fCmp = f("__kv_cmp", I32, {I32, I32, I32, I32, I64, I64});
    fCast = f("__kv_cast", I32, {I32, I32, I32, I32});
    fFBin = f("__kv_fbin", I32, {I32, I32, I32, I32, Dbl, Dbl});
    fFCmp = f("__kv_fcmp", I32, {I32, I32, I32, I32, Dbl, Dbl});
    fFUn = f("__kv_fun", I32, {I32, I32, I32});
    fSel = f("__kv_sel", I32, {I32, I1, I32, I32, I64, I64, I32});
    fBr = f("__kv_br", Void, {I32, I1, I32});
    fSw = f("__kv_sw", Void, {I32, I64, I32, I32, I32, Ptr});
    fConc = f("__kv_conc", Void, {I32, I64, I32});
    fConcMem = f("__kv_conc_mem", Void, {Ptr, I64, I32});
    fLdAddr = f("__kv_ldaddr", I32, {Ptr, I32, I32, I32, I32});
    fLoad = f("__kv_load", I32, {Ptr, I32, I64, I32});
    fStore = f("__kv_store", Void, {Ptr, I32, I32, I32, I32, I32});
    fGep = f("__kv_gep", I32, {I32, Ptr, I32, I64, I64, I64});
    fClear = f("__kv_clear", Void, {Ptr, I64});
    fMemcpy = f("__kv_memcpy", Void, {Ptr, Ptr, I64});
    fMemset = f("__kv_memset", Void, {Ptr, I32, I64});
    fMemcmp = f("__kv_memcmp", I32, {Ptr, Ptr, I64, I32});
    fZ = f("__kv_zstream", Void, {Ptr, I32});
    fNatPtr = f("__kv_natptr", Void, {Ptr, I32, I32});
    fIndirect = f("__kv_indirect", I32, {Ptr, I32, I32});
    fMemcmpV = f("__kv_memcmpv", I32, {Ptr, Ptr, I64});
    fNatWr = f("__kv_natwr", Void, {Ptr});
    fIntr = f("__kv_intr", I32, {I32, I32, I32, I32, I32, I64, I64, I64});
    fByval = f("__kv_byval", Void, {Ptr, Ptr, I64});
    for (const char* q : {
        "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
        "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
        "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
        "_ZNSt8__detail15_List_node_base7_M_hookEPS0_", "_ZNSt8__detail15_List_node_base9_M_unhookEv",
        "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_", "_ZNSt8__detail15_List_node_base4swapERS0_S1_",
        "_ZNSt8ios_base5imbueERKSt6locale", "_ZNSt8ios_base7_M_initEv", "_ZNSt8ios_baseC2Ev", "_ZNSt8ios_baseD2Ev",
        "_ZNSt6localeC1ERKS_", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "_ZNSt6localeaSERKS_", "_ZNSt6locale7classicEv",
        "_ZNKSt6locale2id5_M_idEv", "_ZNKSt5ctypeIcE13_M_widen_initEv", "__cxa_begin_catch", "__cxa_end_catch",
        "__cxa_rethrow", "__cxa_allocate_exception", "__cxa_free_exception", "__cxa_throw", "__cxa_atexit", "__cxa_guard_acquire", "__cxa_guard_release",
        "__cxa_guard_abort", "_ZSt9terminatev", "_ZSt18uncaught_exceptionv", "_ZSt17__throw_bad_allocv", "_ZSt16__throw_bad_castv",
        "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz",
        "_ZSt28__throw_bad_array_new_lengthv", "_ZSt21ios_base_library_initv", "_ZSt32__throw_", "__cxa_pure_virtual", "abort", "_Unwind_Resume",
        "__errno_location", "__clang_call_terminate"})
      Quiet.insert(q);
  }
  int kind(Type* t) {  // 0 int/ptr, 1 double, 2 float, -1 unsupported
    if (t->isDoubleTy()) return 1;
    if (t->isFloatTy()) return 2;
    if (t->isPointerTy()) return 0;
    if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return 0;
    return -1;
  }
  unsigned width(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
  }
  void leaves(Type* t, SmallVectorImpl<Type*>& out) {
    if (auto* s = dyn_cast<StructType>(t)) { for (Type* e : s->elements()) leaves(e, out); }
    else if (auto* a = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), out); }
    else out.push_back(t);
  }
  unsigned nleaves(Type* t) { if (!t->isAggregateType()) return 1; SmallVector<Type*, 4> v; leaves(t, v); return v.size(); }

  DenseMap<Value*, Sh> S;
  ConstantInt* k32(uint32_t v) { return ConstantInt::get(cast<IntegerType>(I32), v); }
  ConstantInt* k64(uint64_t v) { return ConstantInt::get(cast<IntegerType>(I64), v); }
  Sh zeros(Type* t) { return Sh(nleaves(t), k32(0)); }
  Sh getS(Value* v) {
    auto it = S.find(v);
    if (it != S.end()) return it->second;
    return zeros(v->getType());
  }
  Value* get(Value* v) { Sh s = getS(v); return s.empty() ? k32(0) : s[0]; }
  bool isz(Value* s) { auto* c = dyn_cast<ConstantInt>(s); return c && c->isZero(); }
  void set(Value* v, Value* s) { S[v] = Sh(1, s); }
  // concrete value as i64
  Value* bits(IRBuilder<>& B, Value* v) {
    Type* t = v->getType();
    if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
    if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w == 64) return v; if (w < 64) return B.CreateZExt(v, I64); return B.CreateTrunc(v, I64); }
    return k64(0);
  }
  Value* dbl(IRBuilder<>& B, Value* v) { return v->getType()->isFloatTy() ? B.CreateFPExt(v, Dbl) : v; }
  std::string CurFn;
  uint32_t site(const char* what) { Sites.push_back(CurFn + ":" + what); return Sites.size(); }
  void concretise(IRBuilder<>& B, Value* v) {
    if (isa<Constant>(v)) return;
    Sh s = getS(v);
    Type* t = v->getType();
    if (t->isAggregateType()) {
      SmallVector<Type*, 4> lv; leaves(t, lv);
      for (unsigned i = 0; i < s.size(); i++) if (!isz(s[i])) B.CreateCall(fConc, {s[i], k64(0), k32(0)});
      return;
    }
    if (!s.empty() && !isz(s[0])) B.CreateCall(fConc, {s[0], bits(B, v), k32(site("concretise"))});
  }

  std::set<Function*> Instr;
  bool instrumented(Function* F) { return Instr.count(F); }

  // ---- calls
  void doCall(CallBase* CB) {
    Function* F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    if (!F) if (auto* ga = dyn_cast<GlobalAlias>(CB->getCalledOperand())) F = dyn_cast<Function>(ga->getAliaseeObject());
    IRBuilder<> B(CB);
    if (auto* ci = dyn_cast<CallInst>(CB)) if (ci->isInlineAsm()) { for (auto& a : CB->args()) concretise(B, a.get()); return; }
    if (F && F->isIntrinsic()) { doIntrinsic(cast<CallInst>(CB), F); return; }
    StringRef nm = F ? F->getName() : "";
    Instruction* after = nullptr;
    auto afterPt = [&]() -> Instruction* {
      if (after) return after;
      if (auto* iv = dyn_cast<InvokeInst>(CB)) {
        BasicBlock* nd = iv->getNormalDest();
        if (!nd->getSinglePredecessor()) nd = SplitEdge(CB->getParent(), nd);  // done beforehand normally
        after = &*nd->getFirstInsertionPt();
      } else after = CB->getNextNode();
      return after;
    };
    if (nm.starts_with("__kv_")) {
      // direct run-time API (from models): shadow-aware entry points take (value) and read arg shadows
      if (nm == "__kv_mkdec") {  // double __kv_mkdec(int64 m, int32 k, double concrete)
        B.CreateStore(get(CB->getArgOperand(0)), gepArr(B, ArgSh, 0));
        IRBuilder<> A(afterPt());
        set(CB, A.CreateLoad(I32, gepArr(A, RetSh, 0)));
      } else if (nm == "__kv_issym" || nm == "__kv_decm" || nm == "__kv_deck" || nm == "__kv_decdig" || nm == "__kv_fmtd") {  // query shadow of double/int arg
        for (unsigned i = 0; i < CB->arg_size() && i < 4; i++) B.CreateStore(get(CB->getArgOperand(i)), gepArr(B, ArgSh, i));
        IRBuilder<> A(afterPt());
        if (nm == "__kv_decm") set(CB, A.CreateLoad(I32, gepArr(A, RetSh, 0)));
      } else if (nm == "__kv_assert_" || nm == "__kv_assume_") {
        B.CreateStore(get(CB->getArgOperand(0)), gepArr(B, ArgSh, 0));
      } else if (nm == "__kv_obs_") {
      }
      return;
    }
    if (nm == "memcpy" || nm == "memmove") {
      concretise(B, CB->getArgOperand(0)); concretise(B, CB->getArgOperand(1)); concretise(B, CB->getArgOperand(2));
      IRBuilder<> A(CB); A.CreateCall(fMemcpy, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
      return;
    }
    if (nm == "memset") {
      concretise(B, CB->getArgOperand(0)); concretise(B, CB->getArgOperand(2));
      IRBuilder<> A(afterPt()); A.CreateCall(fMemset, {CB->getArgOperand(0), get(CB->getArgOperand(1)), CB->getArgOperand(2)});
      return;
    }
    if (nm == "memcmp" || nm == "bcmp") {
      for (int i = 0; i < 3; i++) concretise(B, CB->getArgOperand(i));
      Value* r = B.CreateCall(fMemcmpV, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
      set(r, B.CreateLoad(I32, gepArr(B, RetSh, 0)));
      S[CB] = S[r];
      CB->replaceAllUsesWith(r);
      return;
    }
    bool native = F && !instrumented(F);
    if (native) {
      if (Quiet.count(nm.str()) || nm.starts_with("_ZSt") && nm.contains("__throw_")) { return; }
      uint32_t st = site(("native:" + nm.str()).c_str());
      bool z = nm.starts_with("inflate") || nm.starts_with("deflate");  // zlib: exactly the input bytes of the stream
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        Value* a = CB->getArgOperand(i);
        concretise(B, a);
        if (z) { if (i == 0) B.CreateCall(fZ, {a, k32(st)}); continue; }
        if (a->getType()->isPointerTy() && !isa<ConstantPointerNull>(a)) B.CreateCall(fNatPtr, {a, k32(st), k32(1)});
      }
      return;
    }
    // instrumented or indirect: pass shadows
    unsigned n = CB->arg_size();
    unsigned slot = 0;
    for (unsigned i = 0; i < n && slot < 60; i++) {
      Value* a = CB->getArgOperand(i);
      Sh s = getS(a);
      for (Value* x : s) if (slot < 60) B.CreateStore(x, gepArr(B, ArgSh, slot++));
      if (CB->isByValArgument(i) && i < 64) B.CreateStore(a, gepArr(B, ArgPtr, i));
    }
    B.CreateStore(CB->getCalledOperand(), Callee);
    B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)), RetFn);
    if (!F) {  // an indirect callee may be native (not in the function table): then its inputs are concretised
      uint32_t st = site("indirect");
      Value* nat = B.CreateCall(fIndirect, {CB->getCalledOperand(), k32(slot), k32(st)});
      for (unsigned i = 0; i < n; i++) {
        Value* a = CB->getArgOperand(i);
        if (a->getType()->isPointerTy() && !isa<Constant>(a)) B.CreateCall(fNatPtr, {a, k32(st), nat});
      }
    }
    if (auto* ci = dyn_cast<CallInst>(CB)) if (ci->isMustTailCall()) return;
    if (!CB->getType()->isVoidTy()) {
      IRBuilder<> A(afterPt());
      Value* ok = A.CreateICmpEQ(A.CreateLoad(Ptr, RetFn), CB->getCalledOperand());
      Sh r;
      unsigned nl = nleaves(CB->getType());
      for (unsigned i = 0; i < nl; i++)
        r.push_back(i < 8 ? A.CreateSelect(ok, A.CreateLoad(I32, gepArr(A, RetSh, i)), k32(0)) : (Value*)k32(0));
      S[CB] = r;
    }
  }
  Value* gepArr(IRBuilder<>& B, GlobalVariable* G, unsigned i) { return B.CreateConstInBoundsGEP2_32(G->getValueType(), G, 0, i); }

  void doIntrinsic(CallInst* CI, Function* F) {
    IRBuilder<> B(CI);
    IRBuilder<> A(CI->getNextNode());
    auto a = [&](int i) { return CI->getArgOperand(i); };
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        concretise(B, a(0)); concretise(B, a(1)); concretise(B, a(2));
        // shadow copy must precede the move for overlapping regions; it does not depend on memory contents
        B.CreateCall(fMemcpy, {a(0), a(1), B.CreateZExtOrTrunc(a(2), I64)});
        return;
      case Intrinsic::memset: case Intrinsic::memset_inline:
        concretise(B, a(0)); concretise(B, a(2));
        A.CreateCall(fMemset, {a(0), get(a(1)), A.CreateZExtOrTrunc(a(2), I64)});
        return;
      case Intrinsic::lifetime_start: {
        if (auto* sz = dyn_cast<ConstantInt>(a(0))) if (sz->getSExtValue() > 0) A.CreateCall(fClear, {a(1), k64(sz->getZExtValue())});
        return;
      }
      case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
      case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
      case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for: case Intrinsic::trap:
      case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect:
      case Intrinsic::threadlocal_address: case Intrinsic::is_constant: case Intrinsic::objectsize:
        return;
      case Intrinsic::expect: set(CI, get(a(0))); return;
      case Intrinsic::ptrmask:
        set(CI, A.CreateCall(fBin, {k32(OP_AND), k32(64), get(a(0)), get(a(1)), bits(A, a(0)), bits(A, a(1))})); return;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        if (kind(CI->getType()) != 0) break;
        unsigned w = width(CI->getType());
        int pred; switch (F->getIntrinsicID()) { case Intrinsic::umin: pred = CmpInst::ICMP_ULT; break; case Intrinsic::umax: pred = CmpInst::ICMP_UGT; break;
          case Intrinsic::smin: pred = CmpInst::ICMP_SLT; break; default: pred = CmpInst::ICMP_SGT; }
        Value* c = A.CreateCall(fCmp, {k32(pred), k32(w), get(a(0)), get(a(1)), bits(A, a(0)), bits(A, a(1))});
        Value* cv = A.CreateICmp((CmpInst::Predicate)pred, a(0), a(1));
        set(CI, A.CreateCall(fSel, {c, cv, get(a(0)), get(a(1)), bits(A, a(0)), bits(A, a(1)), k32(w)}));
        return;
      }
      case Intrinsic::abs: {
        if (kind(CI->getType()) != 0) break;
        unsigned w = width(CI->getType());
        Value* neg = A.CreateNeg(a(0));
        Value* ns = A.CreateCall(fBin, {k32(OP_SUB), k32(w), k32(0), get(a(0)), k64(0), bits(A, a(0))});
        Value* c = A.CreateCall(fCmp, {k32(CmpInst::ICMP_SLT), k32(w), get(a(0)), k32(0), bits(A, a(0)), k64(0)});
        Value* cv = A.CreateICmpSLT(a(0), ConstantInt::get(CI->getType(), 0));
        set(CI, A.CreateCall(fSel, {c, cv, ns, get(a(0)), bits(A, neg), bits(A, a(0)), k32(w)}));
        return;
      }
      case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
      case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
      case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::bswap: case Intrinsic::fshl: case Intrinsic::fshr: {
        if (kind(a(0)->getType()) != 0) break;
        int id = 0;
        switch (F->getIntrinsicID()) {
          case Intrinsic::uadd_with_overflow: id = IN_UADDO; break; case Intrinsic::sadd_with_overflow: id = IN_SADDO; break;
          case Intrinsic::usub_with_overflow: id = IN_USUBO; break; case Intrinsic::ssub_with_overflow: id = IN_SSUBO; break;
          case Intrinsic::umul_with_overflow: id = IN_UMULO; break; case Intrinsic::smul_with_overflow: id = IN_SMULO; break;
          case Intrinsic::uadd_sat: id = IN_UADDS; break; case Intrinsic::usub_sat: id = IN_USUBS; break;
          case Intrinsic::bswap: id = IN_BSWAP; break; case Intrinsic::fshl: id = IN_FSHL; break; default: id = IN_FSHR; break;
        }
        unsigned w = width(a(0)->getType());
        unsigned n = CI->arg_size();
        Value* z = k32(0); Value* z64 = k64(0);
        Value* s = A.CreateCall(fIntr, {k32(id), k32(w), get(a(0)), n > 1 ? get(a(1)) : z, n > 2 ? get(a(2)) : z,
                                        bits(A, a(0)), n > 1 ? bits(A, a(1)) : z64, n > 2 ? bits(A, a(2)) : z64});
        if (CI->getType()->isStructTy()) {
          Value* o = A.CreateLoad(I32, gepArr(A, RetSh, 1));
          Sh r; r.push_back(s); r.push_back(o); S[CI] = r;
        } else set(CI, s);
        return;
      }
      case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: {
        int k = kind(CI->getType());
        if (k <= 0) break;
        int id = F->getIntrinsicID() == Intrinsic::fabs ? FU_ABS : F->getIntrinsicID() == Intrinsic::sqrt ? FU_SQRT :
                 F->getIntrinsicID() == Intrinsic::floor ? FU_FLOOR : F->getIntrinsicID() == Intrinsic::ceil ? FU_CEIL :
                 F->getIntrinsicID() == Intrinsic::trunc ? FU_TRUNC : FU_RINT;
        set(CI, A.CreateCall(fFUn, {k32(id), k32(k), get(a(0))}));
        return;
      }
      case Intrinsic::fmuladd: {
        int k = kind(CI->getType()); if (k != 1) break;
        Value* m = A.CreateFMul(a(0), a(1));
        Value* ms = A.CreateCall(fFBin, {k32(Instruction::FMul), k32(k), get(a(0)), get(a(1)), a(0), a(1)});
        set(CI, A.CreateCall(fFBin, {k32(Instruction::FAdd), k32(k), ms, get(a(2)), m, a(2)}));
        return;
      }
      default: break;
    }
    for (unsigned i = 0; i < CI->arg_size(); i++) if (!a(i)->getType()->isMetadataTy() && !a(i)->getType()->isVectorTy()) concretise(B, a(i));
  }

  int binop(unsigned op) {
    switch (op) {
      case Instruction::Add: return OP_ADD; case Instruction::Sub: return OP_SUB; case Instruction::Mul: return OP_MUL;
      case Instruction::UDiv: return OP_UDIV; case Instruction::SDiv: return OP_SDIV; case Instruction::URem: return OP_UREM;
      case Instruction::SRem: return OP_SREM; case Instruction::And: return OP_AND; case Instruction::Or: return OP_OR;
      case Instruction::Xor: return OP_XOR; case Instruction::Shl: return OP_SHL; case Instruction::LShr: return OP_LSHR;
      case Instruction::AShr: return OP_ASHR;
    }
    return -1;
  }
  // shadow of the address operand; returns concretised pointer shadow (0) for stores
  void visit(Instruction* I) {
    if (isa<PHINode>(I)) return;
    IRBuilder<> A(C);
    if (!I->isTerminator()) A.SetInsertPoint(I->getNextNode()); else A.SetInsertPoint(I);
    IRBuilder<> B(I);
    if (auto* bo = dyn_cast<BinaryOperator>(I)) {
      Value *x = bo->getOperand(0), *y = bo->getOperand(1);
      int k = kind(I->getType());
      if (k < 0) { concretise(B, x); concretise(B, y); return; }
      if (isz(get(x)) && isz(get(y))) return;
      if (k == 0) set(I, A.CreateCall(fBin, {k32(binop(bo->getOpcode())), k32(width(I->getType())), get(x), get(y), bits(A, x), bits(A, y)}));
      else set(I, A.CreateCall(fFBin, {k32(bo->getOpcode()), k32(k), get(x), get(y), dbl(A, x), dbl(A, y)}));
      return;
    }
    if (auto* uo = dyn_cast<UnaryOperator>(I)) {
      int k = kind(I->getType());
      if (k > 0 && !isz(get(uo->getOperand(0)))) set(I, A.CreateCall(fFUn, {k32(FU_NEG), k32(k), get(uo->getOperand(0))}));
      else concretise(B, uo->getOperand(0));
      return;
    }
    if (auto* ic = dyn_cast<ICmpInst>(I)) {
      Value *x = ic->getOperand(0), *y = ic->getOperand(1);
      if (kind(x->getType()) != 0) { concretise(B, x); concretise(B, y); return; }
      if (isz(get(x)) && isz(get(y))) return;
      set(I, A.CreateCall(fCmp, {k32(ic->getPredicate()), k32(width(x->getType())), get(x), get(y), bits(A, x), bits(A, y)}));
      return;
    }
    if (auto* fc = dyn_cast<FCmpInst>(I)) {
      Value *x = fc->getOperand(0), *y = fc->getOperand(1);
      int k = kind(x->getType());
      if (k <= 0) { concretise(B, x); concretise(B, y); return; }
      if (isz(get(x)) && isz(get(y))) return;
      set(I, A.CreateCall(fFCmp, {k32(fc->getPredicate()), k32(k), get(x), get(y), dbl(A, x), dbl(A, y)}));
      return;
    }
    if (auto* ca = dyn_cast<CastInst>(I)) {
      Value* x = ca->getOperand(0);
      if (isz(get(x)) && !x->getType()->isVectorTy()) return;
      int kf = kind(x->getType()), kt = kind(I->getType());
      if (kf < 0 || kt < 0) { concretise(B, x); return; }
      int op = -1;
      switch (ca->getOpcode()) {
        case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: op = CA_ZEXT; break;
        case Instruction::SExt: op = CA_SEXT; break; case Instruction::Trunc: op = CA_TRUNC; break;
        case Instruction::SIToFP: op = CA_SITOFP; break; case Instruction::UIToFP: op = CA_UITOFP; break;
        case Instruction::FPToSI: op = CA_FPTOSI; break; case Instruction::FPToUI: op = CA_FPTOUI; break;
        case Instruction::FPExt: op = CA_FPEXT; break; case Instruction::FPTrunc: op = CA_FPTRUNC; break;
        case Instruction::BitCast: op = kf == kt ? CA_NOP : kf > 0 ? CA_FTOBV : CA_BVTOF; break;
        default: break;
      }
      if (op < 0) { concretise(B, x); return; }
      if (op == CA_ZEXT && width(x->getType()) > width(I->getType())) op = CA_TRUNC;
      if (op == CA_ZEXT && width(x->getType()) == width(I->getType())) op = CA_NOP;
      set(I, A.CreateCall(fCast, {k32(op), k32(width(x->getType())), k32(width(I->getType())), get(x)}));
      return;
    }
    if (auto* se = dyn_cast<SelectInst>(I)) {
      Value *c = se->getCondition(), *x = se->getTrueValue(), *y = se->getFalseValue();
      if (!c->getType()->isIntegerTy(1)) return;
      if (I->getType()->isAggregateType()) {
        concretise(B, c); Sh r, sx = getS(x), sy = getS(y);
        for (unsigned i = 0; i < sx.size(); i++) r.push_back(A.CreateSelect(c, sx[i], sy[i]));
        S[I] = r; return;
      }
      int k = kind(I->getType());
      if (isz(get(c)) && isz(get(x)) && isz(get(y))) return;
      if (k < 0) { concretise(B, c); return; }
      set(I, A.CreateCall(fSel, {get(c), c, get(x), get(y), bits(A, x), bits(A, y), k32(width(I->getType()) | (k << 8))}));
      return;
    }
    if (auto* fr = dyn_cast<FreezeInst>(I)) { S[I] = getS(fr->getOperand(0)); return; }
    if (auto* gp = dyn_cast<GetElementPtrInst>(I)) {
      if (I->getType()->isVectorTy()) return;
      bool any = !isz(get(gp->getPointerOperand()));
      for (auto& ix : gp->indices()) if (!isz(get(ix.get()))) any = true;
      if (!any) return;
      // decompose
      APInt off(64, 0);
      MapVector<Value*, APInt> vars;
      if (!gp->collectOffset(DL, 64, vars, off)) { for (auto& ix : gp->indices()) concretise(B, ix.get()); concretise(B, gp->getPointerOperand()); return; }
      Value* cur = get(gp->getPointerOperand());
      Value* curv = gp->getPointerOperand();
      if (vars.empty()) { set(I, A.CreateCall(fGep, {cur, curv, k32(0), k64(0), k64(0), k64(off.getZExtValue())})); return; }
      bool first = true;
      for (auto& kv : vars) {
        Value* ix = kv.first; Value* is = get(ix);
        Value* iv = A.CreateSExtOrTrunc(ix, I64);
        if (width(ix->getType()) < 64 && !isz(is)) is = A.CreateCall(fCast, {k32(CA_SEXT), k32(width(ix->getType())), k32(64), is});
        uint64_t o = first ? off.getZExtValue() : 0;
        Value* ns = A.CreateCall(fGep, {cur, curv, is, iv, k64(kv.second.getZExtValue()), k64(o)});
        curv = A.CreateGEP(I8, curv, A.CreateAdd(A.CreateMul(iv, k64(kv.second.getZExtValue())), k64(o)));
        cur = ns; first = false;
      }
      set(I, cur);
      return;
    }
    if (auto* ld = dyn_cast<LoadInst>(I)) {
      Type* t = I->getType();
      uint64_t sz = DL.getTypeStoreSize(t).getFixedValue();
      Value* p = ld->getPointerOperand();
      Value* ps = get(p);
      int k = kind(t);
      if (k < 0 || t->isAggregateType()) {
        concretise(B, p);
        if (t->isAggregateType()) B.CreateCall(fConcMem, {p, k64(sz), k32(site("aggload"))});
        else B.CreateCall(fConcMem, {p, k64(sz), k32(site("vecload"))});
        return;
      }
      if (!isz(ps)) {
        // symbolic address: the run time builds a table expression or concretises the address
        Value* s = A.CreateCall(fLdAddr, {p, ps, k32(sz), k32(k | (width(t) << 8)), k32(site("loadaddr"))});
        set(I, s); return;
      }
      if (auto* gv = dyn_cast<GlobalVariable>(p->stripPointerCasts())) if (gv->isConstant()) return;
      set(I, A.CreateCall(fLoad, {p, k32(sz), bits(A, I), k32(k | (width(t) << 8))}));
      return;
    }
    if (auto* st = dyn_cast<StoreInst>(I)) {
      Value *v = st->getValueOperand(), *p = st->getPointerOperand();
      Type* t = v->getType();
      uint64_t sz = DL.getTypeStoreSize(t).getFixedValue();
      concretise(B, p);
      int k = kind(t);
      if (k < 0 || t->isAggregateType()) {
        if (t->isAggregateType()) {
          Sh s = getS(v); bool any = false; for (Value* x : s) if (!isz(x)) any = true;
          A.CreateCall(fClear, {p, k64(sz)});
          if (any) {
            // store leaf shadows at their offsets
            SmallVector<std::pair<uint64_t, Type*>, 4> offs; leafOffs(t, 0, offs);
            for (unsigned i = 0; i < offs.size(); i++) if (!isz(s[i]) && kind(offs[i].second) >= 0)
              A.CreateCall(fStore, {A.CreateConstGEP1_64(I8, p, offs[i].first), k32(DL.getTypeStoreSize(offs[i].second).getFixedValue()), s[i], k32(kind(offs[i].second)), k32(width(offs[i].second)), k32(0)});
          }
        } else { concretise(B, v); A.CreateCall(fClear, {p, k64(sz)}); }
        return;
      }
      A.CreateCall(fStore, {p, k32(sz), get(v), k32(k), k32(width(t)), k32(0)});
      return;
    }
    if (auto* ev = dyn_cast<ExtractValueInst>(I)) {
      Sh s = getS(ev->getAggregateOperand());
      unsigned b = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
      unsigned n = nleaves(I->getType()); Sh r;
      for (unsigned i = 0; i < n; i++) r.push_back(b + i < s.size() ? s[b + i] : k32(0));
      S[I] = r; return;
    }
    if (auto* iv = dyn_cast<InsertValueInst>(I)) {
      Sh s = getS(iv->getAggregateOperand());
      if (isa<Constant>(iv->getAggregateOperand())) s = zeros(I->getType());
      Sh n = getS(iv->getInsertedValueOperand());
      unsigned b = leafIndex(I->getType(), iv->getIndices());
      for (unsigned i = 0; i < n.size() && b + i < s.size(); i++) s[b + i] = n[i];
      S[I] = s; return;
    }
    if (auto* al = dyn_cast<AllocaInst>(I)) {
      concretise(B, al->getArraySize());
      if (auto sz = al->getAllocationSize(DL)) A.CreateCall(fClear, {al, k64(sz->getFixedValue())});
      else A.CreateCall(fClear, {al, A.CreateMul(A.CreateZExtOrTrunc(al->getArraySize(), I64), k64(DL.getTypeAllocSize(al->getAllocatedType())))});
      return;
    }
    if (auto* cb = dyn_cast<CallBase>(I)) { doCall(cb); return; }
    if (auto* br = dyn_cast<BranchInst>(I)) {
      if (br->isConditional() && !isz(get(br->getCondition())) && br->getSuccessor(0) != br->getSuccessor(1))
        B.CreateCall(fBr, {get(br->getCondition()), br->getCondition(), k32(site("br"))});
      return;
    }
    if (auto* sw = dyn_cast<SwitchInst>(I)) {
      Value* v = sw->getCondition();
      if (isz(get(v))) return;
      if (kind(v->getType()) < 0) { concretise(B, v); return; }
      // table of (value, successor index)
      std::vector<Constant*> tab; std::map<BasicBlock*, unsigned> idx;
      auto sidx = [&](BasicBlock* b) { auto it = idx.find(b); if (it != idx.end()) return it->second; unsigned n = idx.size(); idx[b] = n; return n; };
      unsigned dflt = sidx(sw->getDefaultDest());
      for (auto& c : sw->cases()) { tab.push_back(k64(c.getCaseValue()->getZExtValue())); tab.push_back(k64(sidx(c.getCaseSuccessor()))); }
      (void)dflt;
      ArrayType* at = ArrayType::get(I64, tab.size());
      auto* gv = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, tab), "__kvsw");
      B.CreateCall(fSw, {get(v), bits(B, v), k32(width(v->getType())), k32(sw->getNumCases()), k32(site("switch")), gv});
      return;
    }
    if (auto* rt = dyn_cast<ReturnInst>(I)) {
      if (auto* ci = dyn_cast_or_null<CallInst>(I->getPrevNode())) if (ci->isMustTailCall()) return;
      Value* v = rt->getReturnValue();
      if (!v) { B.CreateStore(I->getFunction(), RetFn); return; }
      Sh s = getS(v);
      for (unsigned i = 0; i < s.size() && i < 8; i++) B.CreateStore(s[i], gepArr(B, RetSh, i));
      B.CreateStore(I->getFunction(), RetFn);
      return;
    }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
      for (auto& o : I->operands()) concretise(B, o.get());
      Value* p = I->getOperand(0);
      Type* t = isa<AtomicRMWInst>(I) ? I->getType() : I->getOperand(1)->getType();
      B.CreateCall(fConcMem, {p, k64(DL.getTypeStoreSize(t).getFixedValue()), k32(site("atomic"))});
      A.CreateCall(fClear, {p, k64(DL.getTypeStoreSize(t).getFixedValue())});
      return;
    }
    if (isa<IndirectBrInst>(I)) { concretise(B, I->getOperand(0)); return; }
    if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) return;
    // anything else (vector ops, va_arg...): concretise operands
    for (auto& o : I->operands()) if (!o->getType()->isLabelTy() && !o->getType()->isMetadataTy() && !o->getType()->isVectorTy()) concretise(B, o.get());
  }
  void leafOffs(Type* t, uint64_t base, SmallVectorImpl<std::pair<uint64_t, Type*>>& out) {
    if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leafOffs(s->getElementType(i), base + sl->getElementOffset(i), out); }
    else if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) leafOffs(a->getElementType(), base + i * es, out); }
    else out.push_back({base, t});
  }
  unsigned leafIndex(Type* t, ArrayRef<unsigned> ix) {
    unsigned b = 0;
    for (unsigned i : ix) {
      if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) b += nleaves(s->getElementType(j)); t = s->getElementType(i); }
      else { auto* a = cast<ArrayType>(t); b += i * nleaves(a->getElementType()); t = a->getElementType(); }
    }
    return b;
  }

  void runFn(Function& F) {
    CurFn = F.getName().str();
    uint32_t fid = FnNames.size();
    FnNames.push_back(CurFn);
    removeUnreachableBlocks(F);
    // give every invoke a private normal destination
    SmallVector<InvokeInst*, 16> inv;
    for (auto& BB : F) if (auto* iv = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(iv);
    for (auto* iv : inv) if (!iv->getNormalDest()->getSinglePredecessor() || isa<PHINode>(iv->getNormalDest()->front())) {
      BasicBlock* nb = SplitEdge(iv->getParent(), iv->getNormalDest()); (void)nb;
      if (!iv->getNormalDest()->getSinglePredecessor()) {
        BasicBlock* nd = iv->getNormalDest();
        BasicBlock* mid = BasicBlock::Create(C, "kv.inv", &F, nd);
        BranchInst::Create(nd, mid);
        nd->replacePhiUsesWith(iv->getParent(), mid);
        iv->setNormalDest(mid);
      }
    }
    S.clear();
    BasicBlock& E = F.getEntryBlock();
    std::vector<Instruction*> work;
    std::vector<PHINode*> phis;
    ReversePostOrderTraversal<Function*> RPO(&F);
    for (BasicBlock* BB : RPO) for (Instruction& I : *BB) { if (auto* p = dyn_cast<PHINode>(&I)) phis.push_back(p); else work.push_back(&I); }
    // entry: argument shadows
    IRBuilder<> B(&*E.getFirstInsertionPt());
    Value* cov = B.CreateLoad(Ptr, Cov);
    B.CreateStore(ConstantInt::get(I8, 1), B.CreateConstGEP1_64(I8, cov, fid));
    bool isMain = F.getName() == "main";
    if (F.arg_size() && !isMain) {
      Value* ok = B.CreateICmpEQ(B.CreateLoad(Ptr, Callee), &F);
      unsigned slot = 0;
      for (Argument& a : F.args()) {
        unsigned n = nleaves(a.getType()); Sh s;
        for (unsigned i = 0; i < n; i++, slot++)
          s.push_back(slot < 60 && kind(a.getType()->isAggregateType() ? I64 : a.getType()) >= 0 ? B.CreateSelect(ok, B.CreateLoad(I32, gepArr(B, ArgSh, slot)), k32(0)) : (Value*)k32(0));
        S[&a] = s;
        if (a.hasByValAttr() && a.getArgNo() < 64)
          B.CreateCall(fByval, {&a, B.CreateSelect(ok, B.CreateLoad(Ptr, gepArr(B, ArgPtr, a.getArgNo())), ConstantPointerNull::get(cast<PointerType>(Ptr))), k64(DL.getTypeAllocSize(a.getParamByValType()))});
      }
    }
    B.CreateStore(ConstantPointerNull::get(cast<PointerType>(Ptr)), Callee);
    for (PHINode* p : phis) {
      unsigned n = nleaves(p->getType()); Sh s;
      if (p->getType()->isVectorTy()) continue;
      IRBuilder<> PB(p);
      for (unsigned i = 0; i < n; i++) s.push_back(PB.CreatePHI(I32, p->getNumIncomingValues()));
      S[p] = s;
    }
    for (Instruction* I : work) visit(I);
    for (PHINode* p : phis) {
      auto it = S.find(p); if (it == S.end()) continue;
      Sh s = it->second;
      for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
        Sh v = getS(p->getIncomingValue(k));
        for (unsigned i = 0; i < s.size(); i++) cast<PHINode>(s[i])->addIncoming(i < v.size() ? v[i] : k32(0), p->getIncomingBlock(k));
      }
    }
  }

  static void models(Module& M) {
    // models: __m_<name> replaces <name> everywhere
    std::vector<std::pair<Function*, Function*>> rep;
    for (Function& F : M) if (F.getName().starts_with("__m_")) {
      if (F.isDeclaration()) continue;
      if (Function* T = M.getFunction(F.getName().drop_front(4))) rep.push_back({T, &F});
    }
    for (auto& r : rep) { if (r.first->getFunctionType() != r.second->getFunctionType()) errs() << "kvpass: model type mismatch " << r.first->getName() << "\n"; r.first->replaceAllUsesWith(r.second); if (!r.first->isDeclaration()) r.first->deleteBody(); r.first->setLinkage(GlobalValue::ExternalLinkage); r.first->setComdat(nullptr);}
  }
  void run() {
    for (Function& F : M) if (!F.isDeclaration() && !F.getName().starts_with("__kv_") && !F.hasFnAttribute("kv_raw")) Instr.insert(&F);
    std::vector<Function*> fs(Instr.begin(), Instr.end());
    std::vector<Function*> ordered; for (Function& F : M) if (Instr.count(&F)) ordered.push_back(&F);
    for (Function* F : ordered) runFn(*F);
    {
      std::vector<Constant*> tab(ordered.begin(), ordered.end());
      tab.push_back(ConstantPointerNull::get(cast<PointerType>(Ptr)));
      ArrayType* at = ArrayType::get(Ptr, tab.size());
      new GlobalVariable(M, at, true, GlobalValue::ExternalLinkage, ConstantArray::get(at, tab), "__kv_fntab");
    }
    // function and site tables
    if (const char* out = getenv("KV_SITES")) {
      std::ofstream o(out);
      o << FnNames.size() << "\n"; for (auto& f : FnNames) o << f << "\n";
      for (auto& s : Sites) o << s << "\n";
    }
    for (Function* F : ordered) { F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::WillReturn); F->removeFnAttr(Attribute::NoSync); F->removeFnAttr(Attribute::NoFree); F->removeFnAttr(Attribute::Speculatable); F->removeFnAttr(Attribute::NoRecurse);
      for (Argument& a : F->args()) { a.removeAttr(Attribute::ReadOnly); a.removeAttr(Attribute::ReadNone); a.removeAttr(Attribute::WriteOnly); a.removeAttr(Attribute::NoCapture); a.removeAttr(Attribute::NoAlias);} 
      for (auto& BB : *F) for (auto& I : BB) if (auto* cb = dyn_cast<CallBase>(&I)) { if (cb->getCalledFunction() && cb->getCalledFunction()->isIntrinsic()) continue; cb->removeFnAttr(Attribute::Memory); if (auto* ci = dyn_cast<CallInst>(cb)) if (!ci->isMustTailCall()) ci->setTailCall(false); }
    }
  }
};

struct KVModels : PassInfoMixin<KVModels> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) { KV::models(M); return PreservedAnalyses::none(); }
  static bool isRequired() { return true; }
};
struct KVIds : PassInfoMixin<KVIds> {  // locale facet ids must be libstdc++'s own
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    for (GlobalVariable& G : M.globals()) if (G.getName().starts_with("_ZNSt") && G.getName().ends_with("2idE") && G.hasInitializer()) { G.setInitializer(nullptr); G.setLinkage(GlobalValue::ExternalLinkage); G.setComdat(nullptr); }
    return PreservedAnalyses::none(); }
  static bool isRequired() { return true; }
};
struct KVAsanAttr : PassInfoMixin<KVAsanAttr> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) { for (Function& F : M) if (!F.isDeclaration()) F.addFnAttr(Attribute::SanitizeAddress); return PreservedAnalyses::none(); }
  static bool isRequired() { return true; }
};
struct KVPass : PassInfoMixin<KVPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) { KV k(M); k.run(); return PreservedAnalyses::none(); }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "kvpass", "1", [](PassBuilder& PB) {
    PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (n == "kvmodels") { MPM.addPass(KVModels()); return true; }
      if (n == "kvids") { MPM.addPass(KVIds()); return true; }
      if (n == "kvasanattr") { MPM.addPass(KVAsanAttr()); return true; }
      if (n == "kvpass") { MPM.addPass(KVPass()); return true; }
      return false;
    });
  }};
}
