// LLVM 18 module pass: rewrites bitcode so that every integer / pointer SSA value carries a shadow
// SMT term (null = concrete), memory carries per-byte shadow terms, and every branch on a symbolic
// condition asks the runtime (rt.cpp), which asks the solver.  See /verif/DESIGN.md, "Engine".
#include "llvm/ADT/DenseMap.h"
#include "llvm/Analysis/Utils/Local.h"
#include "llvm/IR/AttributeMask.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/Analysis/InstructionSimplify.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

namespace {

constexpr unsigned MAXARGS = 64;

struct Instr {
  Module& M;
  LLVMContext& C;
  const DataLayout& DL;
  PointerType* P;
  Type *I1, *I8, *I32, *I64, *VoidT;
  Constant* NullP;
  GlobalVariable *GArgs, *GRet, *GTarget, *GRetTag;
  FunctionCallee Binop, Icmp, BinopW, IcmpW, Cast, Select, SelectW, Branch, Conc, Load, Store, Memcpy,
      Memmove, Memset, Clear, Intr, Ext, ExtPtr, Unsup, CopyShadow, DivGuard, Tick, FnHit, ConcShadow;
  std::set<std::string> extNames;
  std::vector<std::string> fnNames;

  // externals replaced by runtime versions
  std::map<std::string, std::string> repl{
      {"malloc", "__sym_malloc"},       {"free", "__sym_free"},
      {"calloc", "__sym_calloc"},       {"realloc", "__sym_realloc"},
      {"_Znwm", "__sym_new"},           {"_Znam", "__sym_new"},
      {"_ZdlPv", "__sym_free"},         {"_ZdaPv", "__sym_free"},
      {"_ZdlPvm", "__sym_free_sized"},  {"_ZdaPvm", "__sym_free_sized"},
      {"_ZnwmRKSt9nothrow_t", "__sym_new_nt"}, {"_ZnamRKSt9nothrow_t", "__sym_new_nt"},
      {"_ZdlPvRKSt9nothrow_t", "__sym_free_nt"}, {"_ZdaPvRKSt9nothrow_t", "__sym_free_nt"},
      {"_ZnwmSt11align_val_t", "__sym_new_al"}, {"_ZdlPvSt11align_val_t", "__sym_free_al"},
      {"aligned_alloc", "__sym_aligned_alloc"}, {"posix_memalign", "__sym_posix_memalign"},
      {"memcpy", "__sym_memcpy_r"},     {"memmove", "__sym_memmove_r"},
      {"memset", "__symx_memset"},      {"memcmp", "__symx_memcmp"},
      {"bcmp", "__symx_memcmp"},        {"strlen", "__sym_strlen"},
      {"strcmp", "__sym_strcmp"},
      {"__cxa_allocate_exception", "__sym_cxa_alloc"},
      {"_ZSt11_Hash_bytesPKvmm", "__symx_hash_bytes"}, {"__assert_fail", "__sym_assert_fail"},
  };
  // externals that are known not to look at payload bytes
  std::set<std::string> noPtrCheck{
      "__cxa_throw", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_free_exception", "__cxa_rethrow",
      "__cxa_atexit", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
      "_Unwind_Resume", "__sym_malloc", "__sym_free", "__sym_free_sized", "__sym_free_nt", "__sym_free_al",
      "__sym_memcpy_r", "__sym_memmove_r", "__sym_realloc", "_ZSt9terminatev"};

  Instr(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    P = PointerType::getUnqual(C);
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C); VoidT = Type::getVoidTy(C);
    NullP = ConstantPointerNull::get(P);
    auto* arr = ArrayType::get(P, MAXARGS);
    GArgs = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_args", arr));
    GRet = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_ret", arr));
    GTarget = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_call_target", P));
    GRetTag = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_ret_tag", P));
    auto fn = [&](const char* n, Type* r, std::vector<Type*> a) {
      return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    };
    Binop = fn("__sym_binop", P, {I32, I32, I64, P, I64, P});
    Icmp = fn("__sym_icmp", P, {I32, I32, I64, P, I64, P});
    BinopW = fn("__sym_binop_w", P, {I32, I32, I64, I64, P, I64, I64, P});
    IcmpW = fn("__sym_icmp_w", P, {I32, I32, I64, I64, P, I64, I64, P});
    Cast = fn("__sym_cast", P, {I32, P, I32, I32});
    Select = fn("__sym_select", P, {I8, P, I32, I64, P, I64, P});
    SelectW = fn("__sym_select_w", P, {I8, P, I32, I64, I64, P, I64, I64, P});
    Branch = fn("__sym_branch", I8, {I8, P});
    Conc = fn("__sym_conc", I64, {I64, P, I32});
    ConcShadow = fn("__sym_conc_shadow", P, {P});
    Load = fn("__sym_load", P, {P, I64, I32});
    Store = fn("__sym_store", VoidT, {P, I64, P, I32});
    Memcpy = fn("__sym_memcpy", VoidT, {P, P, I64});
    Memmove = fn("__sym_memmove", VoidT, {P, P, I64});
    Memset = fn("__sym_memset", VoidT, {P, I8, P, I64});
    Clear = fn("__sym_clear", VoidT, {P, I64});
    Intr = fn("__sym_intr", P, {I32, I32, I64, P, I64, P, I64, P});
    Ext = fn("__sym_ext", VoidT, {P});
    ExtPtr = fn("__sym_extptr", VoidT, {P, P});
    Unsup = fn("__sym_unsup", VoidT, {P, P});
    CopyShadow = fn("__sym_copy_shadow", VoidT, {P, P, I64});
    DivGuard = fn("__sym_divguard", VoidT, {I64, P, I32});
    Tick = fn("__sym_tick", VoidT, {});
    FnHit = fn("__sym_fnhit", VoidT, {I32});
  }

  Type* shTy(Type* T) {
    if (auto* S = dyn_cast<StructType>(T)) {
      std::vector<Type*> e;
      for (auto* x : S->elements()) e.push_back(shTy(x));
      return StructType::get(C, e);
    }
    if (auto* A = dyn_cast<ArrayType>(T)) return ArrayType::get(shTy(A->getElementType()), A->getNumElements());
    return P;
  }
  static bool trackable(Type* T) { return T->isIntegerTy() || T->isPointerTy(); }
  unsigned bits(Type* T) { return T->isPointerTy() ? 64 : T->getIntegerBitWidth(); }
  Constant* shNull(Type* T) { return Constant::getNullValue(shTy(T)); }
  bool isNull(Value* s) { return isa<Constant>(s) && cast<Constant>(s)->isNullValue(); }
  Constant* c32(unsigned v) { return ConstantInt::get(I32, v); }
  Constant* c64(uint64_t v) { return ConstantInt::get(I64, v); }

  std::map<std::string, Constant*> strs;
  Constant* str(StringRef s) {
    auto& r = strs[s.str()];
    if (!r) {
      auto* init = ConstantDataArray::getString(C, s);
      auto* g = new GlobalVariable(M, init->getType(), true, GlobalValue::PrivateLinkage, init, "__symstr");
      r = g;
    }
    return r;
  }

  // per function
  DenseMap<Value*, Value*> sh;

  Value* shadow(Value* V) {
    if (isa<Constant>(V) || isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return shNull(V->getType());
    auto it = sh.find(V);
    if (it == sh.end()) {
      errs() << "no shadow for " << *V << "\n";
      report_fatal_error("symex: missing shadow");
    }
    return it->second;
  }
  // value as i64 (zext / ptrtoint); only for width<=64
  Value* as64(IRBuilder<>& B, Value* V) {
    if (V->getType()->isPointerTy()) return B.CreatePtrToInt(V, I64);
    unsigned w = V->getType()->getIntegerBitWidth();
    if (w == 64) return V;
    if (w < 64) return B.CreateZExt(V, I64);
    return B.CreateTrunc(V, I64);
  }
  Value* hi64(IRBuilder<>& B, Value* V) {
    unsigned w = V->getType()->getIntegerBitWidth();
    if (w > 128) report_fatal_error("symex: >128 bit integer");
    return B.CreateTrunc(B.CreateLShr(V, 64), I64);
  }
  Value* concretize(IRBuilder<>& B, Value* V) {
    Value* s = shadow(V);
    if (!trackable(V->getType()) || isNull(s)) return V;
    unsigned w = bits(V->getType());
    if (w > 64) return V;
    Value* r = B.CreateCall(Conc, {as64(B, V), s, c32(w)});
    if (V->getType()->isPointerTy()) return B.CreateIntToPtr(r, P);
    return B.CreateTrunc(r, V->getType());
  }
  Value* mkBin(IRBuilder<>& B, unsigned op, Value* a, Value* b) {
    Value *sa = shadow(a), *sb = shadow(b);
    return mkBinS(B, op, a, sa, b, sb);
  }
  Value* mkBinS(IRBuilder<>& B, unsigned op, Value* a, Value* sa, Value* b, Value* sb) {
    if (isNull(sa) && isNull(sb)) return NullP;
    unsigned w = bits(a->getType());
    if (w <= 64) return B.CreateCall(Binop, {c32(op), c32(w), as64(B, a), sa, as64(B, b), sb});
    return B.CreateCall(BinopW, {c32(op), c32(w), as64(B, a), hi64(B, a), sa, as64(B, b), hi64(B, b), sb});
  }
  Value* mkIcmp(IRBuilder<>& B, unsigned pred, Value* a, Value* sa, Value* b, Value* sb) {
    if (isNull(sa) && isNull(sb)) return NullP;
    unsigned w = bits(a->getType());
    if (w <= 64) return B.CreateCall(Icmp, {c32(pred), c32(w), as64(B, a), sa, as64(B, b), sb});
    return B.CreateCall(IcmpW, {c32(pred), c32(w), as64(B, a), hi64(B, a), sa, as64(B, b), hi64(B, b), sb});
  }

  void leafPaths(Type* T, std::vector<unsigned>& cur, std::vector<std::pair<std::vector<unsigned>, Type*>>& out) {
    if (auto* S = dyn_cast<StructType>(T)) {
      for (unsigned i = 0; i < S->getNumElements(); ++i) { cur.push_back(i); leafPaths(S->getElementType(i), cur, out); cur.pop_back(); }
    } else if (auto* A = dyn_cast<ArrayType>(T)) {
      for (unsigned i = 0; i < A->getNumElements(); ++i) { cur.push_back(i); leafPaths(A->getElementType(), cur, out); cur.pop_back(); }
    } else out.push_back({cur, T});
  }
  std::vector<std::pair<std::vector<unsigned>, Type*>> leaves(Type* T) {
    std::vector<unsigned> cur; std::vector<std::pair<std::vector<unsigned>, Type*>> out;
    leafPaths(T, cur, out); return out;
  }
  uint64_t leafOff(Type* T, const std::vector<unsigned>& path) {
    uint64_t off = 0;
    for (unsigned i : path) {
      if (auto* S = dyn_cast<StructType>(T)) { off += DL.getStructLayout(S)->getElementOffset(i); T = S->getElementType(i); }
      else { auto* A = cast<ArrayType>(T); off += i * DL.getTypeAllocSize(A->getElementType()); T = A->getElementType(); }
    }
    return off;
  }

  Value* slot(IRBuilder<>& B, GlobalVariable* G, unsigned i) {
    return B.CreateConstInBoundsGEP2_64(G->getValueType(), G, 0, i);
  }

  Value* loadShadow(IRBuilder<>& B, Value* ptr, Type* T) {
    if (T->isStructTy() || T->isArrayTy()) {
      Value* r = shNull(T);
      for (auto& l : leaves(T)) {
        Value* p = B.CreateConstGEP1_64(I8, ptr, leafOff(T, l.first));
        r = B.CreateInsertValue(r, loadShadow(B, p, l.second), l.first);
      }
      return r;
    }
    uint64_t sz = DL.getTypeStoreSize(T);
    if (trackable(T)) return B.CreateCall(Load, {ptr, c64(sz), c32(bits(T))});
    Value* s = B.CreateCall(Load, {ptr, c64(sz), c32(0)});  // non-trackable: only check; runtime flags symbolic bytes
    (void)s;
    return shNull(T);
  }
  void storeShadow(IRBuilder<>& B, Value* ptr, Type* T, Value* s) {
    if (T->isStructTy() || T->isArrayTy()) {
      for (auto& l : leaves(T)) {
        Value* p = B.CreateConstGEP1_64(I8, ptr, leafOff(T, l.first));
        storeShadow(B, p, l.second, B.CreateExtractValue(s, l.first));
      }
      return;
    }
    uint64_t sz = DL.getTypeStoreSize(T);
    if (trackable(T)) B.CreateCall(Store, {ptr, c64(sz), s, c32(bits(T))});
    else B.CreateCall(Store, {ptr, c64(sz), NullP, c32(0)});
  }

  void unsup(IRBuilder<>& B, StringRef what, Value* s) {
    if (isNull(s)) return;
    B.CreateCall(Unsup, {str(what), s});
  }

  void preprocess(Function& F) {
    removeUnreachableBlocks(F);
    std::vector<Instruction*> geps, kill;
    for (auto& I : instructions(F)) {
      I.dropPoisonGeneratingFlags();
      I.setMetadata(LLVMContext::MD_tbaa, nullptr);
      I.dropUnknownNonDebugMetadata();
      if (auto* CB = dyn_cast<CallBase>(&I)) {
        if (auto* CI = dyn_cast<CallInst>(CB)) if (!CI->isMustTailCall()) CI->setTailCallKind(CallInst::TCK_None);
        if (auto* II = dyn_cast<IntrinsicInst>(CB)) {
          switch (II->getIntrinsicID()) {
            case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
            case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start:
            case Intrinsic::invariant_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
              kill.push_back(II); break;
            default: break;
          }
        }
        AttributeMask am;
        for (auto k : {Attribute::NoUndef, Attribute::NonNull, Attribute::Dereferenceable, Attribute::DereferenceableOrNull, Attribute::Returned})
          am.addAttribute(k);
        for (unsigned i = 0; i < CB->arg_size(); ++i) CB->removeParamAttrs(i, am);
        CB->removeRetAttrs(am);
      }
      if (isa<GetElementPtrInst>(&I) && !I.getType()->isVectorTy()) geps.push_back(&I);
    }
    for (auto* k : kill) { if (!k->getType()->isVoidTy()) k->replaceAllUsesWith(UndefValue::get(k->getType())); k->eraseFromParent(); }
    for (auto* g : geps) {
      auto* G = cast<GetElementPtrInst>(g);
      IRBuilder<> B(G);
      Value* base = G->getPointerOperand();
      Value* off = emitGEPOffset(&B, DL, G, true);
      if (auto* CI = dyn_cast<ConstantInt>(off)) if (CI->isZero()) { G->replaceAllUsesWith(base); G->eraseFromParent(); continue; }
      if (isa<Constant>(base) && isa<Constant>(off)) continue;
      Value* r = B.CreateIntToPtr(B.CreateAdd(B.CreatePtrToInt(base, I64), off), P);
      G->replaceAllUsesWith(r); G->eraseFromParent();
    }
    // split normal edges of invokes so that the return shadow can be read there
    for (auto& BB : llvm::make_early_inc_range(F)) {
      if (auto* II = dyn_cast<InvokeInst>(BB.getTerminator())) {
        BasicBlock* N = II->getNormalDest();
        if (!N->getSinglePredecessor() || isa<PHINode>(N->front())) SplitEdge(&BB, N);
      }
    }
    // the callee-side attributes must not promise anything about garbage concrete values
    AttributeMask am;
    for (auto k : {Attribute::NoUndef, Attribute::NonNull, Attribute::Dereferenceable, Attribute::DereferenceableOrNull, Attribute::Returned})
      am.addAttribute(k);
    for (unsigned i = 0; i < F.arg_size(); ++i) F.removeParamAttrs(i, am);
    F.removeRetAttrs(am);
    for (auto k : {Attribute::Memory, Attribute::WillReturn, Attribute::NoFree, Attribute::NoSync, Attribute::NoCallback})
      F.removeFnAttr(k);
  }

  void instrument(Function& F) {
    sh.clear();
    // RPO snapshot
    std::vector<BasicBlock*> order;
    { ReversePostOrderTraversal<Function*> R(&F); for (auto* b : R) order.push_back(b); }
    std::vector<std::vector<Instruction*>> insts;
    std::map<BasicBlock*, unsigned> pos;
    for (auto* b : order) { pos[b] = insts.size(); insts.emplace_back(); for (auto& I : *b) insts.back().push_back(&I); }

    BasicBlock& E = F.getEntryBlock();
    Instruction* first = &*E.getFirstInsertionPt();
    {
      IRBuilder<> B(first);
      fnNames.push_back(F.getName().str());
      B.CreateCall(FnHit, {c32(fnNames.size() - 1)});
      Value* t = B.CreateLoad(P, GTarget);
      Value* valid = B.CreateICmpEQ(t, &F);
      B.CreateStore(NullP, GTarget);
      unsigned i = 0;
      for (auto& A : F.args()) {
        if (A.hasByValAttr()) {
          Value* raw = i < MAXARGS ? (Value*)B.CreateLoad(P, slot(B, GArgs, i)) : NullP;
          raw = B.CreateSelect(valid, raw, NullP);
          B.CreateCall(CopyShadow, {&A, raw, c64(DL.getTypeAllocSize(A.getParamByValType()))});
          sh[&A] = NullP;
        } else if (!trackable(A.getType())) {
          if (A.getType()->isStructTy() || A.getType()->isArrayTy()) report_fatal_error("symex: aggregate argument");
          sh[&A] = NullP;
        } else if (i < MAXARGS) {
          sh[&A] = B.CreateSelect(valid, B.CreateLoad(P, slot(B, GArgs, i)), NullP);
        } else sh[&A] = NullP;
        ++i;
      }
    }
    // phis
    std::vector<std::pair<PHINode*, PHINode*>> phis;
    for (auto& v : insts)
      for (auto* I : v)
        if (auto* PN = dyn_cast<PHINode>(I)) {
          IRBuilder<> B(PN);
          auto* s = B.CreatePHI(shTy(PN->getType()), PN->getNumIncomingValues());
          sh[PN] = s; phis.push_back({PN, s});
        }
    for (unsigned bi = 0; bi < order.size(); ++bi) {
      for (auto* I : insts[bi]) visit(F, I);
      // back edge -> tick
      Instruction* T = order[bi]->getTerminator();
      for (unsigned k = 0; k < T->getNumSuccessors(); ++k) {
        auto it = pos.find(T->getSuccessor(k));
        if (it != pos.end() && it->second <= bi) { IRBuilder<> B(T); B.CreateCall(Tick, {}); break; }
      }
    }
    for (auto& pr : phis)
      for (unsigned k = 0; k < pr.first->getNumIncomingValues(); ++k)
        pr.second->addIncoming(shadow(pr.first->getIncomingValue(k)), pr.first->getIncomingBlock(k));
  }

  void visit(Function& F, Instruction* I) {
    if (isa<PHINode>(I)) return;
    IRBuilder<> B(I);
    Type* T = I->getType();
    if (auto* BO = dyn_cast<BinaryOperator>(I)) {
      if (!T->isIntegerTy()) { sh[I] = NullP; return; }
      unsigned op = BO->getOpcode();
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      Value *sa = shadow(a), *sb = shadow(b);
      bool div = op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem;
      if (div && !(isNull(sa) && isNull(sb))) {
        if (bits(T) <= 64) B.CreateCall(DivGuard, {as64(B, b), sb, c32(bits(T))});
        sh[I] = mkBinS(B, op, a, sa, b, sb);
        Value* symb = B.CreateOr(B.CreateICmpNE(sa, NullP), B.CreateICmpNE(sb, NullP));
        BO->setOperand(1, B.CreateSelect(symb, ConstantInt::get(T, 1), b));
        return;
      }
      sh[I] = mkBinS(B, op, a, sa, b, sb);
      return;
    }
    if (auto* IC = dyn_cast<ICmpInst>(I)) {
      if (!trackable(IC->getOperand(0)->getType())) { sh[I] = NullP; return; }
      sh[I] = mkIcmp(B, IC->getPredicate(), IC->getOperand(0), shadow(IC->getOperand(0)), IC->getOperand(1), shadow(IC->getOperand(1)));
      return;
    }
    if (auto* CI = dyn_cast<CastInst>(I)) {
      Value* o = CI->getOperand(0);
      if (!trackable(o->getType())) { sh[I] = NullP; return; }
      Value* s = shadow(o);
      if (!trackable(T)) { // int -> fp etc: concretize
        if (!isNull(s)) CI->setOperand(0, concretize(B, o));
        sh[I] = NullP; return;
      }
      if (isNull(s)) { sh[I] = NullP; return; }
      unsigned fw = bits(o->getType()), tw = bits(T);
      switch (CI->getOpcode()) {
        case Instruction::ZExt: sh[I] = B.CreateCall(Cast, {c32(0), s, c32(fw), c32(tw)}); return;
        case Instruction::SExt: sh[I] = B.CreateCall(Cast, {c32(1), s, c32(fw), c32(tw)}); return;
        case Instruction::Trunc: sh[I] = B.CreateCall(Cast, {c32(2), s, c32(fw), c32(tw)}); return;
        default:
          if (fw == tw) sh[I] = s;
          else sh[I] = B.CreateCall(Cast, {c32(fw < tw ? 0 : 2), s, c32(fw), c32(tw)});
          return;
      }
    }
    if (auto* SI = dyn_cast<SelectInst>(I)) {
      Value* c = SI->getCondition();
      if (c->getType()->isVectorTy()) { sh[I] = shNull(T); return; }
      Value *sc = shadow(c), *sa = shadow(SI->getTrueValue()), *sb = shadow(SI->getFalseValue());
      if (trackable(T) && !T->isPointerTy()) {
        if (isNull(sc)) {
          sh[I] = (isNull(sa) && isNull(sb)) ? (Value*)NullP : B.CreateSelect(c, sa, sb);
        } else if (bits(T) <= 64) {
          sh[I] = B.CreateCall(Select, {B.CreateZExt(c, I8), sc, c32(bits(T)), as64(B, SI->getTrueValue()), sa, as64(B, SI->getFalseValue()), sb});
        } else {
          sh[I] = B.CreateCall(SelectW, {B.CreateZExt(c, I8), sc, c32(bits(T)), as64(B, SI->getTrueValue()), hi64(B, SI->getTrueValue()), sa,
                                         as64(B, SI->getFalseValue()), hi64(B, SI->getFalseValue()), sb});
        }
      } else {
        Value* c2 = c;
        if (!isNull(sc)) { c2 = B.CreateTrunc(B.CreateCall(Branch, {B.CreateZExt(c, I8), sc}), I1); SI->setCondition(c2); }
        sh[I] = B.CreateSelect(c2, sa, sb);
      }
      return;
    }
    if (auto* FI = dyn_cast<FreezeInst>(I)) { sh[I] = shadow(FI->getOperand(0)); return; }
    if (auto* EV = dyn_cast<ExtractValueInst>(I)) {
      Value* s = shadow(EV->getAggregateOperand());
      sh[I] = isNull(s) ? (Value*)shNull(T) : B.CreateExtractValue(s, EV->getIndices());
      return;
    }
    if (auto* IV = dyn_cast<InsertValueInst>(I)) {
      Value *s = shadow(IV->getAggregateOperand()), *v = shadow(IV->getInsertedValueOperand());
      sh[I] = (isNull(s) && isNull(v)) ? (Value*)shNull(T) : B.CreateInsertValue(s, v, IV->getIndices());
      return;
    }
    if (auto* LI = dyn_cast<LoadInst>(I)) {
      LI->setOperand(0, concretize(B, LI->getPointerOperand()));
      sh[I] = loadShadow(B, LI->getPointerOperand(), T);
      return;
    }
    if (auto* ST = dyn_cast<StoreInst>(I)) {
      Value* v = ST->getValueOperand();
      ST->setOperand(1, concretize(B, ST->getPointerOperand()));
      storeShadow(B, ST->getPointerOperand(), v->getType(), shadow(v));
      return;
    }
    if (auto* AI = dyn_cast<AllocaInst>(I)) {
      if (!isa<Constant>(AI->getArraySize())) AI->setOperand(0, concretize(B, AI->getArraySize()));
      IRBuilder<> B2(I->getNextNode());
      Value* n = B2.CreateMul(B2.CreateZExtOrTrunc(AI->getArraySize(), I64), c64(DL.getTypeAllocSize(AI->getAllocatedType())));
      B2.CreateCall(Clear, {AI, n});
      sh[I] = NullP;
      return;
    }
    if (auto* BI = dyn_cast<BranchInst>(I)) {
      if (BI->isConditional()) {
        Value* s = shadow(BI->getCondition());
        if (!isNull(s))
          BI->setCondition(B.CreateTrunc(B.CreateCall(Branch, {B.CreateZExt(BI->getCondition(), I8), s}), I1));
      }
      return;
    }
    if (auto* SW = dyn_cast<SwitchInst>(I)) { SW->setCondition(concretize(B, SW->getCondition())); return; }
    if (auto* RI = dyn_cast<ReturnInst>(I)) {
      if (Value* v = RI->getReturnValue()) {
        Value* s = shadow(v);
        unsigned k = 0;
        for (auto& l : leaves(v->getType())) {
          if (k >= MAXARGS) report_fatal_error("symex: big return");
          Value* x = l.first.empty() ? s : B.CreateExtractValue(s, l.first);
          B.CreateStore(x, slot(B, GRet, k++));
        }
        B.CreateStore(&F, GRetTag);
      }
      return;
    }
    if (auto* CB = dyn_cast<CallBase>(I)) { call(F, CB); return; }
    if (auto* CX = dyn_cast<AtomicCmpXchgInst>(I)) {
      CX->setOperand(0, concretize(B, CX->getPointerOperand()));
      CX->setOperand(1, concretize(B, CX->getCompareOperand()));
      CX->setOperand(2, concretize(B, CX->getNewValOperand()));
      unsup(B, "cmpxchg", B.CreateCall(Load, {CX->getPointerOperand(), c64(DL.getTypeStoreSize(CX->getCompareOperand()->getType())), c32(64)}));
      sh[I] = shNull(T); return;
    }
    if (auto* RM = dyn_cast<AtomicRMWInst>(I)) {
      RM->setOperand(0, concretize(B, RM->getPointerOperand()));
      RM->setOperand(1, concretize(B, RM->getValOperand()));
      unsup(B, "atomicrmw", B.CreateCall(Load, {RM->getPointerOperand(), c64(DL.getTypeStoreSize(T)), c32(bits(T))}));
      sh[I] = NullP; return;
    }
    if (isa<LandingPadInst>(I) || isa<FCmpInst>(I) || isa<UnaryOperator>(I) || isa<VAArgInst>(I)) { sh[I] = shNull(T); return; }
    if (isa<ExtractElementInst>(I) || isa<InsertElementInst>(I) || isa<ShuffleVectorInst>(I)) { sh[I] = shNull(T); return; }
    if (isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) return;
    if (isa<GetElementPtrInst>(I)) { sh[I] = shNull(T); return; }
    errs() << "symex: unhandled " << *I << "\n";
    report_fatal_error("symex: unhandled instruction");
  }

  bool handleIntrinsic(IntrinsicInst* II) {
    IRBuilder<> B(II);
    Type* T = II->getType();
    auto A = [&](unsigned i) { return II->getArgOperand(i); };
    auto S = [&](unsigned i) { return shadow(II->getArgOperand(i)); };
    auto intr = [&](unsigned kind, unsigned n) {
      bool any = false;
      std::vector<Value*> a{c32(kind), c32(bits(T))};
      for (unsigned i = 0; i < 3; ++i) {
        if (i < n) { if (!isNull(S(i))) any = true; a.push_back(as64(B, A(i))); a.push_back(S(i)); }
        else { a.push_back(c64(0)); a.push_back(NullP); }
      }
      if (!any) { sh[II] = NullP; return; }
      if (bits(T) > 64) { for (unsigned i = 0; i < n; ++i) unsup(B, "wide intrinsic", S(i)); sh[II] = NullP; return; }
      sh[II] = B.CreateCall(Intr, a);
    };
    switch (II->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
        Value *d = concretize(B, A(0)), *s = concretize(B, A(1)), *n = concretize(B, A(2));
        B.CreateCall(II->getIntrinsicID() == Intrinsic::memmove ? Memmove : Memcpy, {d, s, B.CreateZExtOrTrunc(n, I64)});
        II->eraseFromParent(); return true;
      }
      case Intrinsic::memset: {
        Value *d = concretize(B, A(0)), *n = concretize(B, A(2));
        B.CreateCall(Memset, {d, A(1), S(1), B.CreateZExtOrTrunc(n, I64)});
        II->eraseFromParent(); return true;
      }
      case Intrinsic::ctpop: if (!trackable(T)) break; intr(0, 1); return true;
      case Intrinsic::ctlz: if (!trackable(T)) break; intr(1, 1); return true;
      case Intrinsic::cttz: if (!trackable(T)) break; intr(2, 1); return true;
      case Intrinsic::umin: if (!trackable(T)) break; intr(3, 2); return true;
      case Intrinsic::umax: if (!trackable(T)) break; intr(4, 2); return true;
      case Intrinsic::smin: if (!trackable(T)) break; intr(5, 2); return true;
      case Intrinsic::smax: if (!trackable(T)) break; intr(6, 2); return true;
      case Intrinsic::abs: if (!trackable(T)) break; intr(7, 1); return true;
      case Intrinsic::bswap: if (!trackable(T)) break; intr(8, 1); return true;
      case Intrinsic::fshl: if (!trackable(T)) break; intr(9, 3); return true;
      case Intrinsic::fshr: if (!trackable(T)) break; intr(10, 3); return true;
      case Intrinsic::bitreverse: if (!trackable(T)) break; intr(11, 1); return true;
      case Intrinsic::usub_sat: if (!trackable(T)) break; intr(12, 2); return true;
      case Intrinsic::uadd_sat: if (!trackable(T)) break; intr(13, 2); return true;
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        if (isNull(S(0)) && isNull(S(1))) { sh[II] = shNull(T); return true; }
        unsigned k; unsigned op;
        switch (II->getIntrinsicID()) {
          case Intrinsic::uadd_with_overflow: k = 20; op = Instruction::Add; break;
          case Intrinsic::usub_with_overflow: k = 21; op = Instruction::Sub; break;
          case Intrinsic::umul_with_overflow: k = 22; op = Instruction::Mul; break;
          case Intrinsic::sadd_with_overflow: k = 23; op = Instruction::Add; break;
          case Intrinsic::ssub_with_overflow: k = 24; op = Instruction::Sub; break;
          default: k = 25; op = Instruction::Mul; break;
        }
        unsigned w = bits(A(0)->getType());
        if (w > 64) { unsup(B, "wide overflow", S(0)); unsup(B, "wide overflow", S(1)); sh[II] = shNull(T); return true; }
        Value* r = B.CreateCall(Binop, {c32(op), c32(w), as64(B, A(0)), S(0), as64(B, A(1)), S(1)});
        Value* o = B.CreateCall(Intr, {c32(k), c32(w), as64(B, A(0)), S(0), as64(B, A(1)), S(1), c64(0), NullP});
        Value* s = B.CreateInsertValue(shNull(T), r, 0u);
        sh[II] = B.CreateInsertValue(s, o, 1u);
        return true;
      }
      case Intrinsic::x86_addcarry_64: case Intrinsic::x86_subborrow_64: case Intrinsic::x86_addcarry_32: case Intrinsic::x86_subborrow_32: {
        if (isNull(S(0)) && isNull(S(1)) && isNull(S(2))) { sh[II] = shNull(T); return true; }
        bool sub = II->getIntrinsicID() == Intrinsic::x86_subborrow_64 || II->getIntrinsicID() == Intrinsic::x86_subborrow_32;
        unsigned w = bits(A(1)->getType());
        Value* c = B.CreateCall(Intr, {c32(sub ? 32 : 30), c32(w), as64(B, A(1)), S(1), as64(B, A(2)), S(2), as64(B, A(0)), S(0)});
        Value* r = B.CreateCall(Intr, {c32(sub ? 33 : 31), c32(w), as64(B, A(1)), S(1), as64(B, A(2)), S(2), as64(B, A(0)), S(0)});
        Value* s = B.CreateInsertValue(shNull(T), c, 0u);
        sh[II] = B.CreateInsertValue(s, r, 1u);
        return true;
      }
      case Intrinsic::expect: sh[II] = S(0); return true;
      case Intrinsic::trap: case Intrinsic::eh_typeid_for: case Intrinsic::stacksave: case Intrinsic::stackrestore:
      case Intrinsic::donothing: case Intrinsic::prefetch:
        if (!T->isVoidTy()) sh[II] = shNull(T); return true;
      case Intrinsic::is_constant: sh[II] = NullP; return true;
      default: break;
    }
    // fp / vector intrinsics and everything else: concretize integer args
    for (unsigned i = 0; i < II->arg_size(); ++i) {
      if (isa<MetadataAsValue>(A(i)) || isa<Constant>(A(i))) continue;
      if (trackable(A(i)->getType())) II->setArgOperand(i, concretize(B, A(i)));
    }
    if (!T->isVoidTy()) sh[II] = shNull(T);
    return true;
  }

  void call(Function& F, CallBase* CB) {
    IRBuilder<> B(CB);
    Type* T = CB->getType();
    if (auto* II = dyn_cast<IntrinsicInst>(CB)) { handleIntrinsic(II); return; }
    if (CB->isInlineAsm()) {
      for (unsigned i = 0; i < CB->arg_size(); ++i) CB->setArgOperand(i, concretize(B, CB->getArgOperand(i)));
      if (!T->isVoidTy()) sh[CB] = shNull(T);
      return;
    }
    Value* callee = CB->getCalledOperand();
    auto* DF = dyn_cast<Function>(callee->stripPointerCastsAndAliases());
    std::string nm = DF ? DF->getName().str() : "";
    bool tracked = true;
    if (DF && DF->isDeclaration()) {
      auto it = repl.find(nm);
      if (it != repl.end()) {
        nm = it->second;
        auto fc = M.getOrInsertFunction(nm, DF->getFunctionType());
        CB->setCalledFunction(fc);
        DF = cast<Function>(fc.getCallee()); callee = DF;
        CB->setAttributes(AttributeList());
      }
      tracked = StringRef(nm).starts_with("__symx_");
    }
    if (!tracked) {
      if (!StringRef(nm).starts_with("__sym_")) extNames.insert(nm);
      bool chk = !noPtrCheck.count(nm) && !StringRef(nm).starts_with("__sym_");
      for (unsigned i = 0; i < CB->arg_size(); ++i) {
        Value* a = CB->getArgOperand(i);
        if (trackable(a->getType())) {
          Value* c = concretize(B, a);
          CB->setArgOperand(i, c);
          if (chk && a->getType()->isPointerTy() && !isa<Constant>(a)) B.CreateCall(ExtPtr, {c, str(nm)});
        } else if (a->getType()->isStructTy() || a->getType()->isArrayTy()) {
          for (auto& l : leaves(a->getType())) unsup(B, "aggregate to external " + nm, B.CreateExtractValue(shadow(a), l.first));
        }
      }
      if (!T->isVoidTy()) sh[CB] = shNull(T);
      return;
    }
    // instrumented (or indirect) callee
    if (!DF) { callee = concretize(B, callee); CB->setCalledOperand(callee); }
    else callee = DF;
    for (unsigned i = 0; i < CB->arg_size() && i < MAXARGS; ++i) {
      Value* a = CB->getArgOperand(i);
      Value* v;
      if (CB->isByValArgument(i)) { CB->setArgOperand(i, concretize(B, a)); v = CB->getArgOperand(i); }
      else if (trackable(a->getType())) v = shadow(a);
      else v = NullP;
      B.CreateStore(v, slot(B, GArgs, i));
    }
    B.CreateStore(callee, GTarget);
    if (!T->isVoidTy()) {
      B.CreateStore(NullP, GRetTag);
      auto* CI = dyn_cast<CallInst>(CB);
      if (CI && CI->isMustTailCall()) { sh[CB] = shNull(T); return; }
      Instruction* ip;
      if (auto* Inv = dyn_cast<InvokeInst>(CB)) ip = &*Inv->getNormalDest()->getFirstInsertionPt();
      else ip = CB->getNextNode();
      IRBuilder<> A(ip);
      Value* valid = A.CreateICmpEQ(A.CreateLoad(P, GRetTag), callee);
      Value* s = shNull(T);
      unsigned k = 0;
      for (auto& l : leaves(T)) {
        Value* x = A.CreateSelect(valid, A.CreateLoad(P, slot(A, GRet, k++)), NullP);
        s = l.first.empty() ? x : A.CreateInsertValue(s, x, l.first);
      }
      sh[CB] = s;
    }
  }

  void run() {
    std::vector<Function*> fs;
    for (auto& F : M)
      if (!F.isDeclaration() && !F.getName().starts_with("__sym")) fs.push_back(&F);
    for (auto* F : fs) if (F->hasAvailableExternallyLinkage()) F->setLinkage(GlobalValue::InternalLinkage);
    // template instances stay private to the module: neither the runtime nor libz3 may end up calling an instrumented copy
    for (auto* F : fs) if (F->hasLinkOnceLinkage() || F->hasWeakLinkage()) { F->setComdat(nullptr); F->setLinkage(GlobalValue::InternalLinkage); F->setVisibility(GlobalValue::DefaultVisibility); }
    std::vector<Function*> live;
    for (auto* F : fs) if (!F->isDeclaration()) live.push_back(F);
    for (auto* F : live) preprocess(*F);
    // declarations: their attributes (memory(none), returned, ...) concern native behaviour only; drop noundef etc.
    for (auto& F : M) if (F.isDeclaration() && !F.isIntrinsic()) {
      AttributeMask am;
      for (auto k : {Attribute::NoUndef, Attribute::NonNull, Attribute::Returned}) am.addAttribute(k);
      for (unsigned i = 0; i < F.arg_size(); ++i) F.removeParamAttrs(i, am);
      F.removeRetAttrs(am);
    }
    for (auto* F : live) instrument(*F);
    // function name table
    std::vector<Constant*> tbl;
    for (auto& n : fnNames) tbl.push_back(str(n));
    auto* at = ArrayType::get(P, tbl.size() + 1);
    tbl.push_back(NullP);
    new GlobalVariable(M, at, true, GlobalValue::ExternalLinkage, ConstantArray::get(at, tbl), "__sym_fn_names");
    new GlobalVariable(M, I32, true, GlobalValue::ExternalLinkage, c32(fnNames.size()), "__sym_fn_count");
    std::string e;
    for (auto& n : extNames) { e += n; e += '\n'; }
    auto* init = ConstantDataArray::getString(C, e);
    new GlobalVariable(M, init->getType(), true, GlobalValue::ExternalLinkage, init, "__sym_ext_names");
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    Instr(M).run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symex", "1", [](PassBuilder& PB) {
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "symex") { MPM.addPass(SymPass()); return true; }
              return false;
            });
          }};
}
