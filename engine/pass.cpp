// Symbolic-shadow instrumentation pass.
//
// For every SSA value that can carry program data (integers up to 64 bits,
// doubles, small aggregates of those) the pass keeps a 32-bit "shadow": the id
// of a symbolic expression in the runtime (engine/rt.cpp), or 0 when the value
// is concrete.  Every arithmetic instruction, comparison, load, store, branch,
// call and return is mirrored onto the shadows, so running the instrumented
// program *is* a symbolic execution of the IR the compiler produced.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

using Sh = SmallVector<Value *, 2>;

struct SymPass : PassInfoMixin<SymPass> {
  Module *M = nullptr;
  Type *I1, *I8, *I32, *I64, *F64, *Vd;
  PointerType *P;
  GlobalVariable *gArgs, *gRet, *gFn, *gRetFn;
  ArrayType *SlotsTy;
  std::map<Value *, Sh> sh;
  std::set<Function *> defined;
  std::set<std::string> unknownExt;
  Constant *Z;

  static bool tracked(Type *T) {
    if (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) return true;
    if (T->isDoubleTy()) return true;
    return false;
  }
  void flatten(Type *T, SmallVectorImpl<Type *> &out) {
    if (auto *S = dyn_cast<StructType>(T)) {
      for (auto *E : S->elements()) flatten(E, out);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      for (unsigned i = 0; i < A->getNumElements() && i < 64; i++) flatten(A->getElementType(), out);
    } else
      out.push_back(T);
  }
  unsigned nflat(Type *T) {
    if (T->isVoidTy() || T->isLabelTy() || T->isTokenTy() || T->isMetadataTy()) return 0;
    SmallVector<Type *, 8> o;
    flatten(T, o);
    return o.size();
  }
  unsigned flatOff(Type *T, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *S = dyn_cast<StructType>(T)) {
        for (unsigned k = 0; k < i; k++) off += nflat(S->getElementType(k));
        T = S->getElementType(i);
      } else {
        auto *A = cast<ArrayType>(T);
        off += i * nflat(A->getElementType());
        T = A->getElementType();
      }
    }
    return off;
  }

  FunctionCallee fn(const char *n, Type *R, ArrayRef<Type *> A) {
    return M->getOrInsertFunction(n, FunctionType::get(R, A, false));
  }
  Sh get(Value *V) {
    auto it = sh.find(V);
    if (it != sh.end()) return it->second;
    return Sh(nflat(V->getType()), Z);
  }
  Value *get1(Value *V) {
    Sh s = get(V);
    return s.empty() ? (Value *)Z : s[0];
  }
  static bool isZ(Value *s) {
    auto *c = dyn_cast<ConstantInt>(s);
    return c && c->isZero();
  }
  Value *c32(int v) { return ConstantInt::get(I32, v); }
  Value *asI64(IRBuilder<> &B, Value *V) {
    if (V->getType()->isPointerTy()) return B.CreatePtrToInt(V, I64);
    if (V->getType() == I64) return V;
    return B.CreateZExt(V, I64);
  }
  Value *asI1(IRBuilder<> &B, Value *V) { return B.CreateZExt(V, I32); }
  Value *slot(IRBuilder<> &B, GlobalVariable *G, unsigned i) {
    return B.CreateConstInBoundsGEP2_64(SlotsTy, G, 0, i);
  }
  void conc(IRBuilder<> &B, Value *V) {  // concretise (value fork) if symbolic
    Type *T = V->getType();
    if (!tracked(T)) return;
    Value *s = get1(V);
    if (isZ(s)) return;
    if (T->isDoubleTy())
      B.CreateCall(fn("rs_concf", Vd, {I32, F64}), {s, V});
    else if (T->isIntegerTy(1))
      B.CreateCall(fn("rs_branch", Vd, {I32, I32}), {s, asI1(B, V)});
    else
      B.CreateCall(fn("rs_conc", Vd, {I32, I32, I64}), {s, c32(T->getIntegerBitWidth()), asI64(B, V)});
  }

  static int mathCode(StringRef n) {
    static const char *names[] = {"sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "floor", "ceil", "round", "trunc", "fabs", "nearbyint", "rint", "log10", "exp2", "log2", "sinh", "cosh", "tanh"};
    for (int i = 0; i < (int)(sizeof(names) / sizeof(*names)); i++)
      if (n == names[i]) return i;
    return -1;
  }
  static int math2Code(StringRef n) {
    static const char *names[] = {"pow", "atan2", "fmin", "fmax", "fmod", "remainder", "hypot", "copysign", "ldexp"};
    for (int i = 0; i < (int)(sizeof(names) / sizeof(*names)); i++)
      if (n == names[i]) return i;
    return -1;
  }

  void doCall(CallBase *CB) {
    Function *F = CB->getCalledFunction();
    IRBuilder<> B(CB);
    auto after = [&]() -> Instruction * {
      if (auto *II = dyn_cast<InvokeInst>(CB)) {
        BasicBlock *N = II->getNormalDest();
        return &*N->getFirstInsertionPt();
      }
      return CB->getNextNode();
    };
    if (CB->isInlineAsm()) {
      for (auto &a : CB->args()) conc(B, a.get());
      return;
    }
    StringRef name = F ? F->getName() : "";
    if (F && F->isIntrinsic()) {
      switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
        conc(B, CB->getArgOperand(2));
        IRBuilder<> A(after());
        A.CreateCall(fn("rs_memcpy", Vd, {P, P, I64}), {CB->getArgOperand(0), CB->getArgOperand(1), asI64(A, CB->getArgOperand(2))});
        return;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        conc(B, CB->getArgOperand(1));
        conc(B, CB->getArgOperand(2));
        IRBuilder<> A(after());
        A.CreateCall(fn("rs_clear", Vd, {P, I64}), {CB->getArgOperand(0), asI64(A, CB->getArgOperand(2))});
        return;
      }
      case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil:
      case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::rint: case Intrinsic::nearbyint: {
        if (!CB->getType()->isDoubleTy()) break;
        const char *n = "";
        switch (F->getIntrinsicID()) {
        case Intrinsic::fabs: n = "fabs"; break;
        case Intrinsic::sqrt: n = "sqrt"; break;
        case Intrinsic::floor: n = "floor"; break;
        case Intrinsic::ceil: n = "ceil"; break;
        case Intrinsic::round: n = "round"; break;
        case Intrinsic::trunc: n = "trunc"; break;
        case Intrinsic::sin: n = "sin"; break;
        case Intrinsic::rint: n = "rint"; break;
        case Intrinsic::nearbyint: n = "nearbyint"; break;
        default: n = "cos";
        }
        Value *s = get1(CB->getArgOperand(0));
        if (isZ(s)) return;
        IRBuilder<> A(after());
        sh[CB] = {A.CreateCall(fn("rs_math1", I32, {I32, I32, F64, F64}), {c32(mathCode(n)), s, CB->getArgOperand(0), CB})};
        return;
      }
      case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::copysign: case Intrinsic::pow: {
        if (!CB->getType()->isDoubleTy()) break;
        const char *n = F->getIntrinsicID() == Intrinsic::minnum ? "fmin" : F->getIntrinsicID() == Intrinsic::maxnum ? "fmax" : F->getIntrinsicID() == Intrinsic::pow ? "pow" : "copysign";
        Value *a = get1(CB->getArgOperand(0)), *b = get1(CB->getArgOperand(1));
        if (isZ(a) && isZ(b)) return;
        IRBuilder<> A(after());
        sh[CB] = {A.CreateCall(fn("rs_math2", I32, {I32, I32, F64, I32, F64, F64}), {c32(math2Code(n)), a, CB->getArgOperand(0), b, CB->getArgOperand(1), CB})};
        return;
      }
      case Intrinsic::fmuladd: case Intrinsic::fma: {
        if (!CB->getType()->isDoubleTy()) break;
        Value *a = get1(CB->getArgOperand(0)), *b = get1(CB->getArgOperand(1)), *c = get1(CB->getArgOperand(2));
        if (isZ(a) && isZ(b) && isZ(c)) return;
        IRBuilder<> A(after());
        Value *m = A.CreateFMul(CB->getArgOperand(0), CB->getArgOperand(1));
        Value *ms = A.CreateCall(fn("rs_fbin", I32, {I32, I32, F64, I32, F64, F64}), {c32(2), a, CB->getArgOperand(0), b, CB->getArgOperand(1), m});
        sh[CB] = {A.CreateCall(fn("rs_fbin", I32, {I32, I32, F64, I32, F64, F64}), {c32(0), ms, m, c, CB->getArgOperand(2), CB})};
        return;
      }
      case Intrinsic::is_fpclass: {
        if (!CB->getArgOperand(0)->getType()->isDoubleTy()) break;
        Value *s = get1(CB->getArgOperand(0));
        if (isZ(s)) return;
        IRBuilder<> A(after());
        sh[CB] = {A.CreateCall(fn("rs_fpclass", I32, {I32, F64, I32, I32}), {s, CB->getArgOperand(0), CB->getArgOperand(1), asI1(A, CB)})};
        return;
      }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::abs: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap:
      case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::fshl: case Intrinsic::fshr:
      case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
      case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:
        break;  // concretise args below
      case Intrinsic::lifetime_start: {
        // a fresh object: no shadow of whatever used this stack slot before
        auto *n = cast<ConstantInt>(CB->getArgOperand(0));
        if (!n->isMinusOne()) {
          IRBuilder<> A(after());
          A.CreateCall(fn("rs_clear", Vd, {P, I64}), {CB->getArgOperand(1), n});
        }
        return;
      }
      case Intrinsic::lifetime_end: case Intrinsic::assume:
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::experimental_noalias_scope_decl:
        return;
      default: break;
      }
      for (auto &a : CB->args())
        if (tracked(a->getType())) conc(B, a.get());
      return;
    }
    bool isHarness = F && name.starts_with("rs_h_");
    if (F && F->isDeclaration() && !isHarness) {
      if (CB->getType()->isDoubleTy() && CB->arg_size() == 1 && CB->getArgOperand(0)->getType()->isDoubleTy() && mathCode(name) >= 0) {
        Value *s = get1(CB->getArgOperand(0));
        if (isZ(s)) return;
        IRBuilder<> A(after());
        sh[CB] = {A.CreateCall(fn("rs_math1", I32, {I32, I32, F64, F64}), {c32(mathCode(name)), s, CB->getArgOperand(0), CB})};
        return;
      }
      if (CB->getType()->isDoubleTy() && CB->arg_size() == 2 && CB->getArgOperand(0)->getType()->isDoubleTy() && CB->getArgOperand(1)->getType()->isDoubleTy() && math2Code(name) >= 0) {
        Value *a = get1(CB->getArgOperand(0)), *b = get1(CB->getArgOperand(1));
        if (isZ(a) && isZ(b)) return;
        IRBuilder<> A(after());
        sh[CB] = {A.CreateCall(fn("rs_math2", I32, {I32, I32, F64, I32, F64, F64}), {c32(math2Code(name)), a, CB->getArgOperand(0), b, CB->getArgOperand(1), CB})};
        return;
      }
      if ((name == "memcpy" || name == "memmove") && CB->arg_size() == 3) {
        conc(B, CB->getArgOperand(2));
        IRBuilder<> A(after());
        A.CreateCall(fn("rs_memcpy", Vd, {P, P, I64}), {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
        return;
      }
      if (name == "memset" && CB->arg_size() == 3) {
        conc(B, CB->getArgOperand(2));
        IRBuilder<> A(after());
        A.CreateCall(fn("rs_clear", Vd, {P, I64}), {CB->getArgOperand(0), CB->getArgOperand(2)});
        return;
      }
      if (name == "strlen" && CB->arg_size() == 1) {
        // shadow-aware strlen: handled by the runtime byte by byte
        B.CreateCall(fn("rs_strlen", Vd, {P}), {CB->getArgOperand(0)});
        return;
      }
      if ((name == "memcmp" || name == "bcmp" || name == "strcmp" || name == "strncmp" || name == "memchr")) {
        B.CreateCall(fn("rs_memread", Vd, {P, I64}), {CB->getArgOperand(0), name == "strcmp" ? (Value *)ConstantInt::get(I64, -1) : (name == "memchr" ? CB->getArgOperand(2) : CB->getArgOperand(2))});
        if (name != "memchr")
          B.CreateCall(fn("rs_memread", Vd, {P, I64}), {CB->getArgOperand(1), name == "strcmp" ? (Value *)ConstantInt::get(I64, -1) : CB->getArgOperand(2)});
        for (auto &a : CB->args()) conc(B, a.get());
        return;
      }
      if (name == "isspace" || name == "isdigit" || name == "isalpha" || name == "isalnum") {
        Value *s = get1(CB->getArgOperand(0));
        if (isZ(s)) return;
        // result only ever tested against zero; model as a boolean turned to int by a fork
        B.CreateCall(fn("rs_ctype", Vd, {I32, I32, I32}), {c32(name == "isspace" ? 0 : name == "isdigit" ? 1 : name == "isalpha" ? 2 : 3), s, CB->getArgOperand(0)});
        return;
      }
      bool any = false;
      for (auto &a : CB->args()) {
        if (tracked(a->getType())) { conc(B, a.get()); any = true; }
      }
      (void)any;
      unknownExt.insert(name.str());
      if (name == "rs_new" || name == "rs_new_nt" || name == "rs_new_al") {
        IRBuilder<> A(after());
        A.CreateCall(fn("rs_clear", Vd, {P, I64}), {CB, asI64(A, CB->getArgOperand(0))});
      }
      B.CreateStore(ConstantPointerNull::get(P), gFn);
      return;
    }
    // instrumented (or indirect, or harness) callee
    unsigned k = 0;
    for (unsigned i = 0; i < CB->arg_size(); i++) {
      Value *a = CB->getArgOperand(i);
      if (CB->isByValArgument(i)) {
        B.CreateStore(B.CreatePtrToInt(a, I64), slot(B, gArgs, k++));
        continue;
      }
      Sh s = get(a);
      for (auto *x : s) {
        if (k >= 128) report_fatal_error("too many arg slots");
        B.CreateStore(B.CreateZExt(x, I64), slot(B, gArgs, k++));
      }
    }
    B.CreateStore(CB->getCalledOperand(), gFn);
    unsigned n = nflat(CB->getType());
    if (n) {
      B.CreateStore(Z, gRetFn);
      IRBuilder<> A(after());
      Value *ok = A.CreateICmpNE(A.CreateLoad(I32, gRetFn), Z);
      Sh r;
      SmallVector<Type *, 8> tys;
      flatten(CB->getType(), tys);
      for (unsigned i = 0; i < n; i++) {
        if (!tracked(tys[i])) { r.push_back(Z); continue; }
        Value *v = A.CreateTrunc(A.CreateLoad(I64, slot(A, gRet, i)), I32);
        r.push_back(A.CreateSelect(ok, v, Z));
      }
      sh[CB] = r;
    }
  }

  void doFunction(Function &F) {
    sh.clear();
    {
      SmallVector<AllocaInst *, 8> as;
      Instruction *pos = nullptr;
      for (auto &I : F.getEntryBlock())
        if (auto *AI = dyn_cast<AllocaInst>(&I)) {
          pos = AI;
          bool marked = false;
          for (auto *U : AI->users())
            if (auto *II = dyn_cast<IntrinsicInst>(U)) marked |= II->getIntrinsicID() == Intrinsic::lifetime_start;
          if (!marked && AI->isStaticAlloca() && !AI->getAllocatedType()->isPointerTy()) as.push_back(AI);
        }
      if (!as.empty()) {
        IRBuilder<> A(pos->getNextNode());
        for (auto *AI : as)
          A.CreateCall(fn("rs_clear", Vd, {P, I64}), {AI, ConstantInt::get(I64, *AI->getAllocationSize(M->getDataLayout()))});
      }
    }
    // split critical normal edges of invokes so that a post-call point exists
    SmallVector<InvokeInst *, 16> inv;
    for (auto &BB : F)
      if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(II);
    for (auto *II : inv) {
      BasicBlock *N = II->getNormalDest();
      if (!N->getSinglePredecessor() || isa<PHINode>(N->begin())) {
        BasicBlock *NB = BasicBlock::Create(F.getContext(), "", &F, N);
        BranchInst::Create(N, NB);
        for (auto &Phi : N->phis())
          for (unsigned i = 0; i < Phi.getNumIncomingValues(); i++)
            if (Phi.getIncomingBlock(i) == II->getParent()) { Phi.setIncomingBlock(i, NB); break; }
        II->setNormalDest(NB);
      }
    }
    SmallVector<Instruction *, 256> work;
    // reverse post order so that operands come first (except via phis)
    {
      std::set<BasicBlock *> seen;
      std::vector<BasicBlock *> post;
      std::vector<std::pair<BasicBlock *, unsigned>> st;
      st.push_back({&F.getEntryBlock(), 0});
      seen.insert(&F.getEntryBlock());
      while (!st.empty()) {
        auto &[b, i] = st.back();
        auto *T = b->getTerminator();
        if (i < T->getNumSuccessors()) {
          BasicBlock *s = T->getSuccessor(i++);
          if (seen.insert(s).second) st.push_back({s, 0});
        } else {
          post.push_back(b);
          st.pop_back();
        }
      }
      for (auto it = post.rbegin(); it != post.rend(); ++it)
        for (auto &I : **it) work.push_back(&I);
    }
    // argument shadows
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      Value *m = nullptr;
      unsigned k = 0;
      m = B.CreateICmpEQ(B.CreateLoad(P, gFn), &F);
      for (auto &A : F.args()) {
        if (A.hasByValAttr()) {
          Value *src = B.CreateSelect(m, B.CreateLoad(I64, slot(B, gArgs, k++)), ConstantInt::get(I64, 0));
          uint64_t sz = M->getDataLayout().getTypeAllocSize(A.getParamByValType());
          B.CreateCall(fn("rs_byval", Vd, {P, I64, I64}), {&A, src, ConstantInt::get(I64, sz)});
          continue;
        }
        SmallVector<Type *, 8> tys;
        flatten(A.getType(), tys);
        Sh s;
        for (auto *T : tys) {
          if (!tracked(T)) { s.push_back(Z); k++; continue; }
          Value *v = B.CreateTrunc(B.CreateLoad(I64, slot(B, gArgs, k++)), I32);
          s.push_back(B.CreateSelect(m, v, Z));
        }
        sh[&A] = s;
      }
      B.CreateStore(ConstantPointerNull::get(P), gFn);
    }
    std::vector<std::pair<PHINode *, Sh>> phis;
    for (auto *I : work) {
      if (auto *Ph = dyn_cast<PHINode>(I)) {
        SmallVector<Type *, 8> tys;
        flatten(Ph->getType(), tys);
        Sh s;
        bool any = false;
        for (auto *T : tys) {
          if (!tracked(T)) { s.push_back(Z); continue; }
          any = true;
          s.push_back(PHINode::Create(I32, Ph->getNumIncomingValues(), "", Ph));
        }
        if (any) { sh[Ph] = s; phis.push_back({Ph, s}); }
        continue;
      }
      doInst(I);
    }
    for (auto &[Ph, s] : phis)
      for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++) {
        Sh v = get(Ph->getIncomingValue(i));
        for (unsigned j = 0; j < s.size(); j++)
          if (auto *sp = dyn_cast<PHINode>(s[j])) sp->addIncoming(v[j], Ph->getIncomingBlock(i));
      }
  }

  // A load from a constant table at a computed index: the index stays symbolic.
  GlobalVariable *tableGep(GetElementPtrInst *G) {
    auto *GV = dyn_cast<GlobalVariable>(G->getPointerOperand());
    if (!GV || !GV->isConstant() || !GV->hasDefinitiveInitializer()) return nullptr;
    // the initialiser may be a packed struct of pieces: go by the access type and the size
    unsigned n = G->getNumOperands();
    Type *ET = G->getResultElementType();
    if (!ET->isIntegerTy() || !(n == 2 || n == 3)) return nullptr;
    unsigned bits = ET->getIntegerBitWidth();
    if (bits != 8 && bits != 16 && bits != 32 && bits != 64) return nullptr;
    if (n == 3) {
      auto *AT = dyn_cast<ArrayType>(G->getSourceElementType());
      auto *c = dyn_cast<ConstantInt>(G->getOperand(1));
      if (!AT || AT->getElementType() != ET || !c || !c->isZero()) return nullptr;
    }
    if (M->getDataLayout().getTypeAllocSize(GV->getValueType()) / (bits / 8) > 512) return nullptr;
    if (!tracked(G->getOperand(n - 1)->getType())) return nullptr;
    for (auto *U : G->users()) {
      auto *L = dyn_cast<LoadInst>(U);
      if (!L || L->getType() != ET) return nullptr;
    }
    return GV;
  }
  void doInst(Instruction *I) {
    IRBuilder<> B(I);
    auto A = [&]() { return IRBuilder<>(I->getNextNode()); };
    Type *T = I->getType();
    if (auto *CB = dyn_cast<CallBase>(I)) { doCall(CB); return; }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      if (!tracked(T)) {
        if (!T->isPointerTy() && !T->isSized()) return;
        if (T->isPointerTy()) return;
        if (T->isAggregateType() || T->isVectorTy() || T->isIntegerTy()) {
          // wide integer / aggregate load: concretise whatever symbolic bytes it covers
          uint64_t sz = M->getDataLayout().getTypeStoreSize(T);
          B.CreateCall(fn("rs_memread", Vd, {P, I64}), {L->getPointerOperand(), ConstantInt::get(I64, sz)});
        }
        return;
      }
      auto b = A();
      uint64_t sz = M->getDataLayout().getTypeStoreSize(T);
      if (auto *G = dyn_cast<GetElementPtrInst>(L->getPointerOperand()))
        if (auto *GV = tableGep(G)) {
          Value *ix = G->getOperand(G->getNumOperands() - 1);
          Value *s = get1(ix);
          if (isZ(s)) return;
          uint64_t n = M->getDataLayout().getTypeAllocSize(GV->getValueType()) / (T->getIntegerBitWidth() / 8);
          sh[I] = {b.CreateCall(fn("rs_table", I32, {I32, I32, P, I32, I64, I64}), {s, c32(ix->getType()->getIntegerBitWidth()), GV, c32(T->getIntegerBitWidth()), ConstantInt::get(I64, n), asI64(b, I)})};
          return;
        }
      sh[I] = {b.CreateCall(fn("rs_load", I32, {P, I32}), {L->getPointerOperand(), c32(sz)})};
      return;
    }
    if (auto *S = dyn_cast<StoreInst>(I)) {
      Value *V = S->getValueOperand();
      auto b = A();
      uint64_t sz = M->getDataLayout().getTypeStoreSize(V->getType());
      if (tracked(V->getType())) {
        Value *s = get1(V);
        if (V->getType()->isIntegerTy(1) && !isZ(s)) { conc(B, V); s = Z; }
        b.CreateCall(fn("rs_store", Vd, {P, I32, I32}), {S->getPointerOperand(), c32(sz), s});
      } else {
        if (!V->getType()->isPointerTy())
          for (auto *s : get(V)) if (!isZ(s)) report_fatal_error("aggregate store of shadowed value");
        b.CreateCall(fn("rs_clear", Vd, {P, I64}), {S->getPointerOperand(), ConstantInt::get(I64, sz)});
      }
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      if (tableGep(G)) return;
      for (auto &ix : G->indices()) conc(B, ix.get());
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(I)) {
      Value *s = get1(U->getOperand(0));
      if (!T->isDoubleTy() || isZ(s)) return;
      auto b = A();
      sh[I] = {b.CreateCall(fn("rs_fneg", I32, {I32, F64}), {s, U->getOperand(0)})};
      return;
    }
    if (auto *O = dyn_cast<BinaryOperator>(I)) {
      Value *x = O->getOperand(0), *y = O->getOperand(1);
      if (!tracked(T)) { conc(B, x); conc(B, y); return; }
      Value *a = get1(x), *c = get1(y);
      if (isZ(a) && isZ(c)) return;
      auto b = A();
      if (T->isDoubleTy()) {
        int op = -1;
        switch (O->getOpcode()) {
        case Instruction::FAdd: op = 0; break;
        case Instruction::FSub: op = 1; break;
        case Instruction::FMul: op = 2; break;
        case Instruction::FDiv: op = 3; break;
        case Instruction::FRem: op = 4; break;
        default: report_fatal_error("fp op");
        }
        sh[I] = {b.CreateCall(fn("rs_fbin", I32, {I32, I32, F64, I32, F64, F64}), {c32(op), a, x, c, y, I})};
      } else if (T->isIntegerTy(1)) {
        int op = O->getOpcode() == Instruction::And ? 0 : O->getOpcode() == Instruction::Or ? 1 : O->getOpcode() == Instruction::Xor ? 2 : -1;
        if (op < 0) { conc(B, x); conc(B, y); return; }
        sh[I] = {b.CreateCall(fn("rs_bool", I32, {I32, I32, I32, I32, I32}), {c32(op), a, asI1(b, x), c, asI1(b, y)})};
      } else {
        sh[I] = {b.CreateCall(fn("rs_ibin", I32, {I32, I32, I32, I64, I32, I64, I64}), {c32(O->getOpcode()), c32(T->getIntegerBitWidth()), a, asI64(b, x), c, asI64(b, y), asI64(b, I)})};
      }
      return;
    }
    if (auto *C = dyn_cast<FCmpInst>(I)) {
      Value *x = C->getOperand(0), *y = C->getOperand(1);
      if (!x->getType()->isDoubleTy()) return;
      Value *a = get1(x), *c = get1(y);
      if (isZ(a) && isZ(c)) return;
      auto b = A();
      sh[I] = {b.CreateCall(fn("rs_fcmp", I32, {I32, I32, F64, I32, F64, I32}), {c32(C->getPredicate()), a, x, c, y, asI1(b, I)})};
      return;
    }
    if (auto *C = dyn_cast<ICmpInst>(I)) {
      Value *x = C->getOperand(0), *y = C->getOperand(1);
      if (!tracked(x->getType())) { if (x->getType()->isIntegerTy()) { conc(B, x); conc(B, y); } return; }
      Value *a = get1(x), *c = get1(y);
      if (isZ(a) && isZ(c)) return;
      if (x->getType()->isIntegerTy(1)) { conc(B, x); conc(B, y); return; }
      auto b = A();
      sh[I] = {b.CreateCall(fn("rs_icmp", I32, {I32, I32, I32, I64, I32, I64, I32}), {c32(C->getPredicate()), c32(x->getType()->getIntegerBitWidth()), a, asI64(b, x), c, asI64(b, y), asI1(b, I)})};
      return;
    }
    if (auto *C = dyn_cast<CastInst>(I)) {
      Value *x = C->getOperand(0);
      if (x->getType()->isPointerTy() || T->isPointerTy()) {
        if (tracked(x->getType())) conc(B, x);
        return;
      }
      if (!tracked(x->getType())) return;
      Value *a = get1(x);
      if (isZ(a)) return;
      if (!tracked(T)) { conc(B, x); return; }
      auto b = A();
      switch (C->getOpcode()) {
      case Instruction::BitCast: sh[I] = {a}; return;
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
        if (x->getType()->isIntegerTy(1)) { conc(B, x); return; }
        if (T->isIntegerTy(1)) {
          sh[I] = {b.CreateCall(fn("rs_trunc1", I32, {I32, I32, I64}), {a, c32(x->getType()->getIntegerBitWidth()), asI64(b, x)})};
          return;
        }
        sh[I] = {b.CreateCall(fn("rs_icast", I32, {I32, I32, I32, I32, I64}), {c32(C->getOpcode() == Instruction::ZExt ? 0 : C->getOpcode() == Instruction::SExt ? 1 : 2), c32(x->getType()->getIntegerBitWidth()), c32(T->getIntegerBitWidth()), a, asI64(b, x)})};
        return;
      case Instruction::SIToFP: case Instruction::UIToFP:
        if (x->getType()->isIntegerTy(1)) { conc(B, x); return; }
        sh[I] = {b.CreateCall(fn("rs_itof", I32, {I32, I32, I32, I64}), {c32(C->getOpcode() == Instruction::SIToFP), c32(x->getType()->getIntegerBitWidth()), a, asI64(b, x)})};
        return;
      default: conc(B, x); return;  // FPToSI, FPToUI, FPTrunc, ...
      }
    }
    if (auto *S = dyn_cast<SelectInst>(I)) {
      Value *c = get1(S->getCondition());
      if (S->getCondition()->getType()->isVectorTy()) return;
      Value *tv = S->getTrueValue(), *fv = S->getFalseValue();
      auto b = A();
      if (T->isIntegerTy(1)) {
        Value *x = get1(tv), *y = get1(fv);
        if (isZ(c) && isZ(x) && isZ(y)) return;
        sh[I] = {b.CreateCall(fn("rs_boolite", I32, {I32, I32, I32, I32, I32, I32}), {c, asI1(b, S->getCondition()), x, asI1(b, tv), y, asI1(b, fv)})};
        return;
      }
      if (!isZ(c)) B.CreateCall(fn("rs_branch", Vd, {I32, I32}), {c, asI1(B, S->getCondition())});
      Sh x = get(tv), y = get(fv), r;
      for (unsigned i = 0; i < x.size(); i++) {
        if (isZ(x[i]) && isZ(y[i])) r.push_back(Z);
        else r.push_back(b.CreateSelect(S->getCondition(), x[i], y[i]));
      }
      sh[I] = r;
      return;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(I)) {
      Sh s = get(E->getAggregateOperand());
      unsigned off = flatOff(E->getAggregateOperand()->getType(), E->getIndices()), n = nflat(T);
      Sh r;
      for (unsigned i = 0; i < n; i++) r.push_back(off + i < s.size() ? s[off + i] : Z);
      sh[I] = r;
      return;
    }
    if (auto *E = dyn_cast<InsertValueInst>(I)) {
      Sh s = get(E->getAggregateOperand());
      unsigned off = flatOff(T, E->getIndices());
      Sh v = get(E->getInsertedValueOperand());
      for (unsigned i = 0; i < v.size(); i++) if (off + i < s.size()) s[off + i] = v[i];
      sh[I] = s;
      return;
    }
    if (auto *F = dyn_cast<FreezeInst>(I)) { sh[I] = get(F->getOperand(0)); return; }
    if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (Br->isConditional()) {
        Value *c = get1(Br->getCondition());
        if (!isZ(c)) B.CreateCall(fn("rs_branch", Vd, {I32, I32}), {c, asI1(B, Br->getCondition())});
      }
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(I)) {
      Value *c = get1(Sw->getCondition());
      if (isZ(c) || !tracked(Sw->getCondition()->getType())) return;
      // decide case by case
      Value *v = asI64(B, Sw->getCondition());
      unsigned bits = Sw->getCondition()->getType()->getIntegerBitWidth();
      B.CreateCall(fn("rs_switch_begin", Vd, {I32, I32, I64}), {c, c32(bits), v});
      for (auto &cs : Sw->cases())
        B.CreateCall(fn("rs_switch_case", Vd, {I64}), {ConstantInt::get(I64, cs.getCaseValue()->getZExtValue())});
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      if (Value *V = R->getReturnValue()) {
        Sh s = get(V);
        bool any = false;
        for (auto *x : s) any |= !isZ(x);
        if (any) {
          for (unsigned i = 0; i < s.size(); i++) B.CreateStore(B.CreateZExt(s[i], I64), slot(B, gRet, i));
          B.CreateStore(ConstantInt::get(I32, 1), gRetFn);
        } else
          B.CreateStore(Z, gRetFn);
      }
      return;
    }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
      for (auto &o : I->operands()) if (tracked(o->getType())) conc(B, o.get());
      return;
    }
    if (T->isVectorTy()) report_fatal_error(Twine("vector instruction: ") + I->getOpcodeName());
  }

  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &) {
    M = &Mod;
    auto &C = M->getContext();
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    F64 = Type::getDoubleTy(C); Vd = Type::getVoidTy(C); P = PointerType::getUnqual(C);
    Z = ConstantInt::get(I32, 0);
    SlotsTy = ArrayType::get(I64, 128);
    auto ext = [&](const char *n, Type *T) {
      return new GlobalVariable(*M, T, false, GlobalValue::ExternalLinkage, nullptr, n);
    };
    gArgs = ext("rs_args", SlotsTy);
    gRet = ext("rs_ret", SlotsTy);
    gFn = ext("rs_argfn", P);
    gRetFn = ext("rs_retvalid", I32);
    // allocation goes to the runtime's deterministic arena
    auto redirect = [&](const char *from, const char *to, FunctionType *FT) {
      Function *F = M->getFunction(from);
      if (!F || !F->isDeclaration()) return;
      Function *G = cast<Function>(M->getOrInsertFunction(to, FT).getCallee());
      F->replaceAllUsesWith(G);
    };
    auto *NewT = FunctionType::get(P, {I64}, false), *NewNT = FunctionType::get(P, {I64, P}, false);
    auto *NewAT = FunctionType::get(P, {I64, I64}, false), *DelT = FunctionType::get(Vd, {P}, false), *DelST = FunctionType::get(Vd, {P, I64}, false);
    for (auto *n : {"_Znwm", "_Znam", "malloc"}) redirect(n, "rs_new", NewT);
    for (auto *n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) redirect(n, "rs_new_nt", NewNT);
    for (auto *n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) redirect(n, "rs_new_al", NewAT);
    for (auto *n : {"_ZdlPv", "_ZdaPv", "free"}) redirect(n, "rs_delete", DelT);
    for (auto *n : {"_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t"}) redirect(n, "rs_delete_s", DelST);
    // keep the instrumented program's symbols away from the runtime's own
    for (auto &GO : M->global_objects()) {
      if (GO.isDeclaration() || GO.getName().starts_with("llvm.") || GO.getName() == "harness") continue;
      GO.setComdat(nullptr);
      GO.setLinkage(GlobalValue::InternalLinkage);
      GO.setVisibility(GlobalValue::DefaultVisibility);
    }
    for (auto &A : M->aliases()) { A.setLinkage(GlobalValue::InternalLinkage); A.setVisibility(GlobalValue::DefaultVisibility); }
    std::vector<Function *> fs;
    for (auto &F : *M)
      if (!F.isDeclaration()) fs.push_back(&F);
    for (auto *F : fs) {
      F->removeFnAttr(Attribute::Memory);
      for (auto k : {Attribute::NoSync, Attribute::NoFree, Attribute::WillReturn, Attribute::MustProgress, Attribute::NoUnwind, Attribute::Speculatable})
        F->removeFnAttr(k);
      for (auto &BB : *F)
        for (auto &I : BB)
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            CB->removeFnAttr(Attribute::Memory);
            if (auto *CI = dyn_cast<CallInst>(CB)) if (!CI->isMustTailCall()) CI->setTailCall(false);
          }
    }
    for (auto *F : fs) doFunction(*F);
    // entry flags: which functions were executed symbolically (for the evidence)
    {
      auto *AT = ArrayType::get(I8, fs.size());
      auto *G = new GlobalVariable(*M, AT, false, GlobalValue::InternalLinkage, ConstantAggregateZero::get(AT), "rs_cov");
      std::string names;
      for (unsigned i = 0; i < fs.size(); i++) {
        IRBuilder<> B(&*fs[i]->getEntryBlock().getFirstInsertionPt());
        B.CreateStore(ConstantInt::get(I8, 1), B.CreateConstInBoundsGEP2_64(AT, G, 0, i));
        names += fs[i]->getName().str() + "\n";
      }
      auto *S = ConstantDataArray::getString(C, names);
      auto *GN = new GlobalVariable(*M, S->getType(), true, GlobalValue::ExternalLinkage, S, "rs_cov_names");
      (void)GN;
      new GlobalVariable(*M, I64, true, GlobalValue::ExternalLinkage, ConstantInt::get(I64, fs.size()), "rs_cov_n");
      new GlobalVariable(*M, P, true, GlobalValue::ExternalLinkage, G, "rs_cov_ptr");
    }
    // the program's own mutable globals: every path starts from their initial contents
    {
      std::vector<Constant *> gp, gs;
      for (auto &G : M->globals()) {
        StringRef n = G.getName();
        if (G.isDeclaration() || G.isConstant() || G.isThreadLocal() || n.starts_with("llvm.") || n.starts_with("rs_")) continue;
        gp.push_back(&G);
        gs.push_back(ConstantInt::get(I64, M->getDataLayout().getTypeAllocSize(G.getValueType())));
      }
      auto *PT = ArrayType::get(P, gp.size()), *ST = ArrayType::get(I64, gs.size());
      new GlobalVariable(*M, PT, true, GlobalValue::ExternalLinkage, ConstantArray::get(PT, gp), "rs_glob_ptr");
      new GlobalVariable(*M, ST, true, GlobalValue::ExternalLinkage, ConstantArray::get(ST, gs), "rs_glob_size");
      new GlobalVariable(*M, I64, true, GlobalValue::ExternalLinkage, ConstantInt::get(I64, gp.size()), "rs_glob_n");
    }
    if (getenv("RS_SHOW_EXT"))
      for (auto &s : unknownExt) errs() << "ext: " << s << "\n";
    return PreservedAnalyses::none();
  }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "sympass", "1", [](PassBuilder &PB) {
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "sympass") { MPM.addPass(SymPass()); return true; }
              return false;
            });
          }};
}
