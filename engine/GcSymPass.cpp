#include <functional>
// Instruments LLVM IR for concolic (dynamic symbolic) execution: every SSA value gets a shadow (pointer to a
// symbolic expression, null = concrete), every store/load goes through shadow memory, every conditional branch on a
// symbolic value is reported to the runtime, which explores the other side by asking the SMT solver.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "gs_ops.h"
using namespace llvm;

namespace {
typedef SmallVector<Value*, 2> Shadow;

struct Instr {
  Module& M;
  LLVMContext& C;
  const DataLayout& DL;
  Type *I1, *I8, *I32, *I64, *Ptr, *Void;
  Constant* Null;
  FunctionCallee fBin, fCmp, fFcmp, fCast, fUn, fSelect, fGep, fLoad, fStore, fBr, fSwitch, fConc, fMemcpy, fMemset,
      fAlloca, fCopyShadow, fMath, fConcTag;
  GlobalVariable *gArgs, *gRets, *gCallee, *gRetValid;
  Constant* gFv;
  DenseMap<Value*, Shadow> sh;
  unsigned siteCounter = 0;
  bool memcheck = true;

  Instr(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
    I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
    Ptr = PointerType::get(C, 0); Void = Type::getVoidTy(C);
    Null = ConstantPointerNull::get(cast<PointerType>(Ptr));
    auto f = [&](const char* n, Type* r, std::initializer_list<Type*> a) {
      FunctionCallee fc = M.getOrInsertFunction(n, FunctionType::get(r, ArrayRef<Type*>(a), false));
      cast<Function>(fc.getCallee())->setDoesNotThrow();
      return fc;
    };
    fBin = f("__gs_bin", Ptr, {I32, I32, Ptr, I64, Ptr, I64});
    fCmp = f("__gs_cmp", Ptr, {I32, I32, Ptr, I64, Ptr, I64});
    gFv = M.getOrInsertGlobal("__gs_fv", I32);
    fFcmp = f("__gs_fcmp", Ptr, {I32, I32, Ptr, I64, Ptr, I64});
    fCast = f("__gs_cast", Ptr, {I32, I32, I32, Ptr, I64});
    fUn = f("__gs_un", Ptr, {I32, I32, Ptr, I64});
    fSelect = f("__gs_select", Ptr, {I32, Ptr, I1, Ptr, I64, Ptr, I64});
    fGep = f("__gs_gep", Ptr, {Ptr, I64, Ptr, I64, I64});
    fLoad = f("__gs_load", Ptr, {I64, Ptr, I32, I32});
    fStore = f("__gs_store", Void, {I64, Ptr, I32, I32, Ptr, I64});
    fBr = f("__gs_br", I1, {Ptr, I1, I32});
    fSwitch = f("__gs_switch", Void, {Ptr, I64, I32, Ptr, I32, I32});
    fConc = f("__gs_conc", Void, {Ptr, I64, I32});
    fConcTag = f("__gs_conc_tag", Void, {Ptr, I64, I32, Ptr});
    fMemcpy = f("__gs_memcpy", Void, {I64, Ptr, I64, Ptr, I64, Ptr});
    fMemset = f("__gs_memset", Void, {I64, Ptr, Ptr, I64, I64, Ptr});
    fAlloca = f("__gs_alloca", Void, {Ptr, I64});
    fCopyShadow = f("__gs_copyshadow", Void, {Ptr, Ptr, I64});
    fMath = f("__gs_math", Ptr, {Ptr, I32, I32, Ptr, I64, Ptr, I64, Ptr, I64});
    auto g = [&](const char* n, Type* t) {
      return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
    };
    gArgs = g("__gs_args", ArrayType::get(Ptr, 64));
    gRets = g("__gs_rets", ArrayType::get(Ptr, 16));
    gCallee = g("__gs_callee", Ptr);
    gRetValid = g("__gs_retvalid", I32);
  }

  // ---- type helpers
  static bool leafOk(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64;
    return t->isPointerTy() || t->isDoubleTy() || t->isFloatTy();
  }
  unsigned nLeaves(Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) {
      unsigned n = 0;
      for (Type* e : st->elements()) n += nLeaves(e);
      return n;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * nLeaves(at->getElementType());
    return 1;
  }
  bool isScalarOk(Type* t) { return leafOk(t); }
  unsigned tyCode(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return GS_FPFLAG | 64;
    if (t->isFloatTy()) return GS_FPFLAG | 32;
    return 0;
  }
  Value* i32(unsigned v) { return ConstantInt::get(I32, v); }
  Value* i64(uint64_t v) { return ConstantInt::get(I64, v); }

  Value* toI64(IRBuilder<>& B, Value* v) {
    Type* t = v->getType();
    if (t->isIntegerTy()) {
      unsigned w = t->getIntegerBitWidth();
      if (w == 64) return v;
      if (w < 64) return B.CreateZExt(v, I64);
      return B.CreateTrunc(v, I64);
    }
    if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
    if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    return i64(0);
  }

  Shadow get(Value* v) {
    auto it = sh.find(v);
    if (it != sh.end()) return it->second;
    return Shadow(nLeaves(v->getType()), Null);
  }
  Value* get1(Value* v) {
    Shadow s = get(v);
    return s.size() == 1 ? s[0] : Null;
  }
  bool isNull(Value* s) { return s == Null; }
  void conc(IRBuilder<>& B, Value* v) {
    if (!isScalarOk(v->getType())) return;
    Value* s = get1(v);
    if (!isNull(s)) B.CreateCall(fConc, {s, toI64(B, v), i32(tyCode(v->getType()))});
  }
  void setNull(Instruction* I) {
    if (!I->getType()->isVoidTy()) sh[I] = Shadow(nLeaves(I->getType()), Null);
  }

  static bool isOursName(StringRef n) {
    return n.contains("geometrycentral") || n.starts_with("gs_") || n.starts_with("_ZN3gsh") || n.contains("gsh_");
  }
  // math functions modelled by the runtime: name -> op (GS_UF for uninterpreted)
  int mathOp(StringRef n, unsigned& op) {
    op = GS_UF;
    if (n == "sqrt" || n == "sqrtf") { op = GS_FSQRT; return 1; }
    if (n == "fabs" || n == "fabsf") { op = GS_FABS; return 1; }
    if (n == "floor") { op = GS_FFLOOR; return 1; }
    if (n == "ceil") { op = GS_FCEIL; return 1; }
    if (n == "trunc") { op = GS_FTRUNC; return 1; }
    if (n == "round") { op = GS_FROUND; return 1; }
    if (n == "rint" || n == "nearbyint") { op = GS_FRINT; return 1; }
    if (n == "fmin") { op = GS_FMIN; return 2; }
    if (n == "fmax") { op = GS_FMAX; return 2; }
    if (n == "fmod") { op = GS_FREM; return 2; }
    if (n == "sin" || n == "cos" || n == "tan" || n == "asin" || n == "acos" || n == "atan" || n == "exp" ||
        n == "log" || n == "sinh" || n == "cosh" || n == "tanh" || n == "cbrt" || n == "log2" || n == "log10") return 1;
    if (n == "atan2" || n == "pow" || n == "hypot" || n == "cabs") return 2;
    return 0;
  }

  Constant* strConst(StringRef s) {
    Constant* c = ConstantDataArray::getString(C, s);
    auto* gv = new GlobalVariable(M, c->getType(), true, GlobalValue::PrivateLinkage, c, "gsstr");
    return gv;
  }

  void instrument(Function& F) {
    removeUnreachableBlocks(F);
    sh.clear();
    // split critical-ish invoke normal edges so result shadows have a place to live
    {
      SmallVector<InvokeInst*, 8> invs;
      for (auto& BB : F)
        if (auto* II = dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(II);
      for (auto* II : invs) {
        BasicBlock* nd = II->getNormalDest();
        if (!nd->getSinglePredecessor()) {
          // new block on the edge
          BasicBlock* nb = BasicBlock::Create(C, "gs.inv", &F, nd);
          BranchInst::Create(nd, nb);
          II->setNormalDest(nb);
          nd->replacePhiUsesWith(II->getParent(), nb);
        }
      }
    }
    std::vector<BasicBlock*> order;
    {
      ReversePostOrderTraversal<Function*> rpo(&F);
      for (BasicBlock* bb : rpo) order.push_back(bb);
    }
    std::vector<std::vector<Instruction*>> work;
    for (BasicBlock* bb : order) {
      work.emplace_back();
      for (Instruction& I : *bb) work.back().push_back(&I);
    }

    // entry: fetch argument shadows
    {
      BasicBlock& E = F.getEntryBlock();
      Instruction* ip = &*E.getFirstInsertionPt();
      while (isa<AllocaInst>(ip) && cast<AllocaInst>(ip)->isStaticAlloca()) ip = ip->getNextNode();
      IRBuilder<> B(ip);
      unsigned slot = 0;
      bool any = false;
      for (Argument& A : F.args()) if (nLeaves(A.getType()) > 0) any = true;
      if (any) {
        Value* ok = B.CreateICmpEQ(B.CreateLoad(Ptr, gCallee), &F);
        B.CreateStore(Null, gCallee);
        for (Argument& A : F.args()) {
          unsigned n = nLeaves(A.getType());
          Shadow s;
          for (unsigned k = 0; k < n; k++) {
            if (slot >= 64) { s.push_back(Null); continue; }
            Value* p = B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, slot);
            Value* l = B.CreateSelect(ok, B.CreateLoad(Ptr, p), Null);
            slot++;
            s.push_back(l);
          }
          if (A.hasByValAttr()) {
            // shadow slot carries the caller's source pointer
            uint64_t sz = DL.getTypeAllocSize(A.getParamByValType());
            B.CreateCall(fCopyShadow, {&A, s[0], i64(sz)});
            s[0] = Null;
          }
          sh[&A] = s;
        }
      } else {
        B.CreateStore(Null, gCallee);
      }
      if (F.getName().contains("geometrycentral")) {
        // coverage record: {hit, mangled name} in section gs_funcs
        auto* st = StructType::get(C, {I8, Ptr});
        auto* rec = new GlobalVariable(M, st, false, GlobalValue::PrivateLinkage,
                                       ConstantStruct::get(st, {ConstantInt::get(I8, 0), strConst(F.getName())}), "gsfn");
        rec->setSection("gs_funcs");
        rec->setAlignment(Align(8));
        B.CreateStore(ConstantInt::get(I8, 1), rec);
      }
    }

    SmallVector<std::pair<PHINode*, Shadow>, 16> phis;
    for (size_t bi = 0; bi < order.size(); bi++) {
      for (Instruction* I : work[bi]) {
        if (auto* P = dyn_cast<PHINode>(I)) {
          unsigned n = nLeaves(P->getType());
          Shadow s;
          for (unsigned k = 0; k < n; k++) {
            PHINode* sp = PHINode::Create(Ptr, P->getNumIncomingValues(), "gs.phi", P);
            s.push_back(sp);
          }
          sh[P] = s;
          phis.push_back({P, s});
        } else {
          visit(I);
        }
      }
    }
    for (auto& pr : phis) {
      PHINode* P = pr.first;
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
        Shadow s = get(P->getIncomingValue(i));
        for (unsigned k = 0; k < s.size(); k++) cast<PHINode>(pr.second[k])->addIncoming(s[k], P->getIncomingBlock(i));
      }
    }
    // iteratively remove all-null phis (keeps code small)
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto& pr : phis) {
        for (unsigned k = 0; k < pr.second.size(); k++) {
          auto* sp = dyn_cast<PHINode>(pr.second[k]);
          if (!sp) continue;
          bool all = true;
          for (Value* v : sp->incoming_values()) if (v != Null && v != sp) { all = false; break; }
          if (all) { sp->replaceAllUsesWith(Null); sp->eraseFromParent(); pr.second[k] = Null; ch = true; }
        }
      }
    }
  }

  void emitLoadShadow(IRBuilder<>& B, Type* t, Value* addr, Value* sa, uint64_t off, Shadow& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
      const StructLayout* sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++)
        emitLoadShadow(B, st->getElementType(i), addr, sa, off + sl->getElementOffset(i), out);
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL.getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++)
        emitLoadShadow(B, at->getElementType(), addr, sa, off + i * es, out);
      return;
    }
    if (!leafOk(t)) { out.push_back(Null); return; }
    Value* a = off ? B.CreateAdd(addr, i64(off)) : addr;
    out.push_back(B.CreateCall(fLoad, {a, sa, i32(DL.getTypeStoreSize(t)), i32(tyCode(t))}));
  }
  void emitStoreShadow(IRBuilder<>& B, Value* v, Type* t, Value* addr, Value* sa, uint64_t off, Shadow& s, unsigned& k,
                       SmallVector<unsigned, 4> idx) {
    if (auto* st = dyn_cast<StructType>(t)) {
      const StructLayout* sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) {
        auto id2 = idx; id2.push_back(i);
        emitStoreShadow(B, v, st->getElementType(i), addr, sa, off + sl->getElementOffset(i), s, k, id2);
      }
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL.getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++) {
        auto id2 = idx; id2.push_back(i);
        emitStoreShadow(B, v, at->getElementType(), addr, sa, off + i * es, s, k, id2);
      }
      return;
    }
    Value* a = off ? B.CreateAdd(addr, i64(off)) : addr;
    unsigned sz = DL.getTypeStoreSize(t);
    if (!leafOk(t)) {
      B.CreateCall(fStore, {a, sa, i32(sz), i32(0), Null, i64(0)});
      k++;
      return;
    }
    Value* lv = idx.empty() ? v : B.CreateExtractValue(v, idx);
    B.CreateCall(fStore, {a, sa, i32(sz), i32(tyCode(t)), s[k], toI64(B, lv)});
    k++;
  }

  void visit(Instruction* I) {
    IRBuilder<> B(I);
    if (auto* BO = dyn_cast<BinaryOperator>(I)) {
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      if (!isScalarOk(BO->getType())) { conc(B, a); conc(B, b); return setNull(I); }
      Value *sa = get1(a), *sb = get1(b);
      if (isNull(sa) && isNull(sb)) return setNull(I);
      unsigned op;
      switch (BO->getOpcode()) {
        case Instruction::Add: op = GS_ADD; break;
        case Instruction::Sub: op = GS_SUB; break;
        case Instruction::Mul: op = GS_MUL; break;
        case Instruction::UDiv: op = GS_UDIV; break;
        case Instruction::SDiv: op = GS_SDIV; break;
        case Instruction::URem: op = GS_UREM; break;
        case Instruction::SRem: op = GS_SREM; break;
        case Instruction::Shl: op = GS_SHL; break;
        case Instruction::LShr: op = GS_LSHR; break;
        case Instruction::AShr: op = GS_ASHR; break;
        case Instruction::And: op = GS_AND; break;
        case Instruction::Or: op = GS_OR; break;
        case Instruction::Xor: op = GS_XOR; break;
        case Instruction::FAdd: op = GS_FADD; break;
        case Instruction::FSub: op = GS_FSUB; break;
        case Instruction::FMul: op = GS_FMUL; break;
        case Instruction::FDiv: op = GS_FDIV; break;
        case Instruction::FRem: op = GS_FREM; break;
        default: conc(B, a); conc(B, b); return setNull(I);
      }
      sh[I] = {B.CreateCall(fBin, {i32(op), i32(tyCode(BO->getType())), sa, toI64(B, a), sb, toI64(B, b)})};
      return;
    }
    if (auto* UO = dyn_cast<UnaryOperator>(I)) {
      Value* a = UO->getOperand(0);
      Value* sa = get1(a);
      if (!isScalarOk(UO->getType()) || isNull(sa)) { conc(B, a); return setNull(I); }
      sh[I] = {B.CreateCall(fUn, {i32(GS_FNEG), i32(tyCode(UO->getType())), sa, toI64(B, a)})};
      return;
    }
    if (auto* CI = dyn_cast<ICmpInst>(I)) {
      Value *a = CI->getOperand(0), *b = CI->getOperand(1);
      if (!isScalarOk(a->getType())) { conc(B, a); conc(B, b); return setNull(I); }
      Value *sa = get1(a), *sb = get1(b);
      if (isNull(sa) && isNull(sb)) return setNull(I);
      unsigned op = 0;
      switch (CI->getPredicate()) {
        case CmpInst::ICMP_EQ: op = GS_EQ; break;
        case CmpInst::ICMP_NE: op = GS_NE; break;
        case CmpInst::ICMP_ULT: op = GS_ULT; break;
        case CmpInst::ICMP_ULE: op = GS_ULE; break;
        case CmpInst::ICMP_UGT: op = GS_UGT; break;
        case CmpInst::ICMP_UGE: op = GS_UGE; break;
        case CmpInst::ICMP_SLT: op = GS_SLT; break;
        case CmpInst::ICMP_SLE: op = GS_SLE; break;
        case CmpInst::ICMP_SGT: op = GS_SGT; break;
        default: op = GS_SGE; break;
      }
      sh[I] = {B.CreateCall(fCmp, {i32(op), i32(tyCode(a->getType())), sa, toI64(B, a), sb, toI64(B, b)})};
      return;
    }
    if (auto* FI = dyn_cast<FCmpInst>(I)) {
      Value *a = FI->getOperand(0), *b = FI->getOperand(1);
      if (!isScalarOk(a->getType())) { conc(B, a); conc(B, b); return setNull(I); }
      Value *sa = get1(a), *sb = get1(b);
      if (isNull(sa) && isNull(sb)) return setNull(I);
      Value* r = B.CreateCall(fFcmp, {i32((unsigned)FI->getPredicate()), i32(tyCode(a->getType())), sa, toI64(B, a), sb, toI64(B, b)});
      // the outcome according to the runtime (exact arithmetic can disagree with the rounded operands)
      IRBuilder<> BA(I->getNextNode());
      Value* nv = BA.CreateSelect(BA.CreateICmpNE(r, Null), BA.CreateTrunc(BA.CreateLoad(I32, gFv), I1), I);
      I->replaceUsesWithIf(nv, [&](Use& u) { return u.getUser() != nv; });
      sh[I] = {r};
      sh[nv] = {r};
      return;
    }
    if (auto* CI = dyn_cast<CastInst>(I)) {
      Value* a = CI->getOperand(0);
      Value* sa = get1(a);
      if (!isScalarOk(a->getType()) || !isScalarOk(CI->getType())) { conc(B, a); return setNull(I); }
      if (isNull(sa)) return setNull(I);
      unsigned f = tyCode(a->getType()), t = tyCode(CI->getType());
      unsigned op = 0;
      switch (CI->getOpcode()) {
        case Instruction::ZExt: op = GS_ZEXT; break;
        case Instruction::SExt: op = GS_SEXT; break;
        case Instruction::Trunc: op = GS_TRUNC; break;
        case Instruction::PtrToInt: op = t < 64 ? GS_TRUNC : GS_CONST; break;
        case Instruction::IntToPtr: op = f < 64 ? GS_ZEXT : GS_CONST; break;
        case Instruction::BitCast:
          if ((f & GS_FPFLAG) && !(t & GS_FPFLAG)) op = GS_FP2BV;
          else if (!(f & GS_FPFLAG) && (t & GS_FPFLAG)) op = GS_BV2FP;
          else op = GS_CONST;
          break;
        case Instruction::FPExt: op = GS_FPEXT; break;
        case Instruction::FPTrunc: op = GS_FPTRUNC; break;
        case Instruction::SIToFP: op = GS_SITOFP; break;
        case Instruction::UIToFP: op = GS_UITOFP; break;
        case Instruction::FPToSI: op = GS_FPTOSI; break;
        case Instruction::FPToUI: op = GS_FPTOUI; break;
        default: conc(B, a); return setNull(I);
      }
      if (op == GS_CONST) { sh[I] = {sa}; return; }
      sh[I] = {B.CreateCall(fCast, {i32(op), i32(f), i32(t), sa, toI64(B, a)})};
      return;
    }
    if (auto* FI = dyn_cast<FreezeInst>(I)) { sh[I] = get(FI->getOperand(0)); return; }
    if (auto* SI = dyn_cast<SelectInst>(I)) {
      Value *c = SI->getCondition(), *a = SI->getTrueValue(), *b = SI->getFalseValue();
      if (!c->getType()->isIntegerTy(1)) return setNull(I);
      Value* sc = get1(c);
      Shadow s1 = get(a), s2 = get(b);
      if (isScalarOk(SI->getType())) {
        if (isNull(sc) && isNull(s1[0]) && isNull(s2[0])) return setNull(I);
        sh[I] = {B.CreateCall(fSelect, {i32(tyCode(SI->getType())), sc, c, s1[0], toI64(B, a), s2[0], toI64(B, b)})};
      } else {
        conc(B, c);
        Shadow r;
        for (unsigned k = 0; k < s1.size(); k++) r.push_back(B.CreateSelect(c, s1[k], s2[k]));
        sh[I] = r;
      }
      return;
    }
    if (auto* EV = dyn_cast<ExtractValueInst>(I)) {
      Shadow s = get(EV->getAggregateOperand());
      unsigned off = 0;
      Type* t = EV->getAggregateOperand()->getType();
      for (unsigned ix : EV->indices()) {
        if (auto* st = dyn_cast<StructType>(t)) {
          for (unsigned i = 0; i < ix; i++) off += nLeaves(st->getElementType(i));
          t = st->getElementType(ix);
        } else {
          t = cast<ArrayType>(t)->getElementType();
          off += ix * nLeaves(t);
        }
      }
      Shadow r;
      for (unsigned k = 0; k < nLeaves(t); k++) r.push_back(s[off + k]);
      sh[I] = r;
      return;
    }
    if (auto* IV = dyn_cast<InsertValueInst>(I)) {
      Shadow s = get(IV->getAggregateOperand());
      unsigned off = 0;
      Type* t = IV->getType();
      for (unsigned ix : IV->indices()) {
        if (auto* st = dyn_cast<StructType>(t)) {
          for (unsigned i = 0; i < ix; i++) off += nLeaves(st->getElementType(i));
          t = st->getElementType(ix);
        } else {
          t = cast<ArrayType>(t)->getElementType();
          off += ix * nLeaves(t);
        }
      }
      Shadow v = get(IV->getInsertedValueOperand());
      for (unsigned k = 0; k < v.size(); k++) s[off + k] = v[k];
      sh[I] = s;
      return;
    }
    if (auto* G = dyn_cast<GetElementPtrInst>(I)) {
      if (!G->getType()->isPointerTy()) return setNull(I);
      Value* acc = get1(G->getPointerOperand());
      bool any = !isNull(acc);
      for (auto it = G->idx_begin(); it != G->idx_end(); ++it) if (!isNull(get1(*it))) any = true;
      if (!any) return setNull(I);
      Value* val = B.CreatePtrToInt(G->getPointerOperand(), I64);
      for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
        Value* idx = gi.getOperand();
        if (StructType* st = gi.getStructTypeOrNull()) {
          uint64_t o = DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          if (o) {
            acc = B.CreateCall(fGep, {acc, val, Null, i64(o), i64(1)});
            val = B.CreateAdd(val, i64(o));
          }
        } else {
          uint64_t sz = gi.getSequentialElementStride(DL);
          Value* si = get1(idx);
          Value* iv = B.CreateSExtOrTrunc(idx, I64);
          if (!isNull(si) && idx->getType()->getIntegerBitWidth() < 64)
            si = B.CreateCall(fCast, {i32(GS_SEXT), i32(idx->getType()->getIntegerBitWidth()), i32(64), si, toI64(B, idx)});
          acc = B.CreateCall(fGep, {acc, val, si, iv, i64(sz)});
          val = B.CreateAdd(val, B.CreateMul(iv, i64(sz)));
        }
      }
      sh[I] = {acc};
      return;
    }
    if (auto* L = dyn_cast<LoadInst>(I)) {
      Shadow out;
      emitLoadShadow(B, L->getType(), B.CreatePtrToInt(L->getPointerOperand(), I64), get1(L->getPointerOperand()), 0, out);
      sh[I] = out;
      return;
    }
    if (auto* S = dyn_cast<StoreInst>(I)) {
      Shadow s = get(S->getValueOperand());
      unsigned k = 0;
      emitStoreShadow(B, S->getValueOperand(), S->getValueOperand()->getType(),
                      B.CreatePtrToInt(S->getPointerOperand(), I64), get1(S->getPointerOperand()), 0, s, k, {});
      return;
    }
    if (auto* A = dyn_cast<AllocaInst>(I)) {
      if (auto* ci = dyn_cast<ConstantInt>(A->getArraySize())) {
        uint64_t sz = DL.getTypeAllocSize(A->getAllocatedType()) * ci->getZExtValue();
        Instruction* ip = A->getNextNode();
        while (isa<AllocaInst>(ip) && cast<AllocaInst>(ip)->isStaticAlloca()) ip = ip->getNextNode();
        IRBuilder<> B2(ip);
        B2.CreateCall(fAlloca, {A, i64(sz)});
      } else conc(B, A->getArraySize());
      return setNull(I);
    }
    if (auto* BI = dyn_cast<BranchInst>(I)) {
      if (BI->isConditional()) {
        Value* c = BI->getCondition();
        Value* sc = get1(c);
        if (!isNull(sc)) {
          Value* r = B.CreateCall(fBr, {sc, c, i32(siteCounter++)});
          BI->setCondition(r);
        }
      }
      return;
    }
    if (auto* SW = dyn_cast<SwitchInst>(I)) {
      Value* c = SW->getCondition();
      Value* sc = get1(c);
      if (!isNull(sc)) {
        std::vector<Constant*> vals;
        for (auto& cs : SW->cases()) vals.push_back(ConstantInt::get(I64, cs.getCaseValue()->getZExtValue()));
        auto* at = ArrayType::get(I64, vals.size());
        auto* gv = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, vals), "gssw");
        B.CreateCall(fSwitch, {sc, toI64(B, c), i32(tyCode(c->getType())), gv, i32(vals.size()), i32(siteCounter++)});
      }
      return;
    }
    if (auto* R = dyn_cast<ReturnInst>(I)) {
      if (Value* v = R->getReturnValue()) {
        Shadow s = get(v);
        for (unsigned k = 0; k < s.size() && k < 16; k++)
          B.CreateStore(s[k], B.CreateConstInBoundsGEP2_64(gRets->getValueType(), gRets, 0, k));
        B.CreateStore(i32(1), gRetValid);
      }
      return;
    }
    if (auto* CB = dyn_cast<CallBase>(I)) return visitCall(CB);
    if (isa<LandingPadInst>(I)) return setNull(I);
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
      for (Value* o : I->operands()) conc(B, o);
      Value* p = I->getOperand(0);
      B.CreateCall(fStore, {B.CreatePtrToInt(p, I64), Null, i32(8), i32(0), Null, i64(0)});
      return setNull(I);
    }
    // anything else: concretise symbolic scalar operands
    if (!I->isTerminator())
      for (Value* o : I->operands())
        if (!isa<Constant>(o) && !o->getType()->isLabelTy() && !o->getType()->isMetadataTy()) conc(B, o);
    if (!I->getType()->isVoidTy()) setNull(I);
  }

  void visitCall(CallBase* CB) {
    IRBuilder<> B(CB);
    if (auto* II = dyn_cast<IntrinsicInst>(CB)) {
      if (visitIntrinsic(II)) return;
      // unknown intrinsic: concretise
      if (II->isAssumeLikeIntrinsic() || II->getIntrinsicID() == Intrinsic::lifetime_start ||
          II->getIntrinsicID() == Intrinsic::lifetime_end || isa<DbgInfoIntrinsic>(II)) {
        if (!II->getType()->isVoidTy()) setNull(II);
        return;
      }
      for (Value* o : II->args())
        if (!isa<Constant>(o) && !o->getType()->isMetadataTy()) conc(B, o);
      if (!II->getType()->isVoidTy()) setNull(II);
      return;
    }
    if (CB->isInlineAsm()) {
      for (Value* o : CB->args()) if (!isa<Constant>(o)) conc(B, o);
      if (!CB->getType()->isVoidTy()) setNull(CB);
      return;
    }
    Function* callee = CB->getCalledFunction();
    if (!callee) {
      if (auto* al = dyn_cast<GlobalAlias>(CB->getCalledOperand())) callee = dyn_cast<Function>(al->getAliaseeObject());
    }
    StringRef name = callee ? callee->getName() : "";
    bool external = callee && callee->isDeclaration() && !isOursName(name);
    if (external) {
      unsigned op;
      int ar = mathOp(name, op);
      if (ar && (CB->getType()->isDoubleTy())) {
        Value* a = CB->getArgOperand(0);
        Value* b = ar == 2 ? CB->getArgOperand(1) : nullptr;
        Value *sa = get1(a), *sb = b ? get1(b) : Null;
        if (isNull(sa) && isNull(sb)) return setNull(CB);
        // needs the result: insert after
        Instruction* after = CB->isTerminator() ? &*cast<InvokeInst>(CB)->getNormalDest()->getFirstInsertionPt()
                                                : CB->getNextNode();
        IRBuilder<> BA(after);
        sh[CB] = {BA.CreateCall(fMath, {strConst(name), i32(op), i32(tyCode(CB->getType())), sa, toI64(BA, a), sb,
                                        b ? toI64(BA, b) : i64(0), Null, toI64(BA, CB)})};
        return;
      }
      if (name == "memcpy" || name == "memmove") {
        B.CreateCall(fMemcpy, {toI64(B, CB->getArgOperand(0)), get1(CB->getArgOperand(0)), toI64(B, CB->getArgOperand(1)),
                               get1(CB->getArgOperand(1)), toI64(B, CB->getArgOperand(2)), get1(CB->getArgOperand(2))});
        return setNull(CB);
      }
      if (name == "memset") {
        B.CreateCall(fMemset, {toI64(B, CB->getArgOperand(0)), get1(CB->getArgOperand(0)), get1(CB->getArgOperand(1)),
                               toI64(B, CB->getArgOperand(1)), toI64(B, CB->getArgOperand(2)), get1(CB->getArgOperand(2))});
        return setNull(CB);
      }
      // redirect allocation and byte-comparison functions
      static const char* redir[] = {"_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "malloc", "free",
                                    "calloc", "realloc", "memcmp", "strlen", "bcmp", "_ZnwmSt11align_val_t",
                                    "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZnwmRKSt9nothrow_t",
                                    "posix_memalign", "aligned_alloc", "memchr"};
      for (const char* r : redir) {
        if (name == r) {
          FunctionCallee nf = M.getOrInsertFunction(("__gsw_" + name).str(), callee->getFunctionType());
          for (Value* o : CB->args()) conc(B, o);
          CB->setCalledFunction(nf);
          if (!CB->getType()->isVoidTy()) setNull(CB);
          return;
        }
      }
      // numbers written to a text stream (exception messages) do not restrict the path
      bool text = name.starts_with("_ZNSo9_M_insertI") || name.starts_with("_ZNSolsE");
      for (Value* o : CB->args())
        if (!text && !isa<Constant>(o) && isScalarOk(o->getType())) {
          Value* s = get1(o);
          if (!isNull(s)) B.CreateCall(fConcTag, {s, toI64(B, o), i32(tyCode(o->getType())), strConst(name)});
        }
      if (!CB->getType()->isVoidTy()) setNull(CB);
      return;
    }
    // (potentially) instrumented callee
    if (!callee) conc(B, CB->getCalledOperand());
    unsigned slot = 0;
    for (unsigned i = 0; i < CB->arg_size(); i++) {
      Value* a = CB->getArgOperand(i);
      if (CB->isByValArgument(i)) {
        conc(B, a);
        if (slot < 64) B.CreateStore(a, B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, slot));
        slot++;
        continue;
      }
      Shadow s = get(a);
      for (unsigned k = 0; k < s.size(); k++) {
        if (slot < 64) B.CreateStore(s[k], B.CreateConstInBoundsGEP2_64(gArgs->getValueType(), gArgs, 0, slot));
        slot++;
      }
    }
    B.CreateStore(CB->getCalledOperand(), gCallee);
    B.CreateStore(i32(0), gRetValid);
    if (CB->getType()->isVoidTy()) return;
    if (auto* ci = dyn_cast<CallInst>(CB)) if (ci->isMustTailCall()) { setNull(CB); return; }
    Instruction* after = CB->isTerminator() ? &*cast<InvokeInst>(CB)->getNormalDest()->getFirstInsertionPt()
                                            : CB->getNextNode();
    IRBuilder<> BA(after);
    Value* ok = BA.CreateICmpNE(BA.CreateLoad(I32, gRetValid), i32(0));
    unsigned n = nLeaves(CB->getType());
    Shadow s;
    for (unsigned k = 0; k < n; k++) {
      if (k >= 16) { s.push_back(Null); continue; }
      s.push_back(BA.CreateSelect(
          ok, BA.CreateLoad(Ptr, BA.CreateConstInBoundsGEP2_64(gRets->getValueType(), gRets, 0, k)), Null));
    }
    sh[CB] = s;
  }

  bool visitIntrinsic(IntrinsicInst* II) {
    IRBuilder<> B(II);
    auto arg = [&](unsigned i) { return II->getArgOperand(i); };
    switch (II->getIntrinsicID()) {
      case Intrinsic::memcpy:
      case Intrinsic::memmove:
      case Intrinsic::memcpy_inline:
        B.CreateCall(fMemcpy, {toI64(B, arg(0)), get1(arg(0)), toI64(B, arg(1)), get1(arg(1)), toI64(B, arg(2)), get1(arg(2))});
        return true;
      case Intrinsic::memset:
        B.CreateCall(fMemset, {toI64(B, arg(0)), get1(arg(0)), get1(arg(1)), toI64(B, arg(1)), toI64(B, arg(2)), get1(arg(2))});
        return true;
      default: break;
    }
    if (II->getType()->isStructTy()) {
      // *.with.overflow
      unsigned op = 0;
      Intrinsic::ID id = II->getIntrinsicID();
      if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow || id == Intrinsic::umul_with_overflow ||
          id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow) {
        Value *a = arg(0), *b = arg(1), *sa = get1(a), *sb = get1(b);
        if (!isScalarOk(a->getType())) { setNull(II); return true; }
        if (isNull(sa) && isNull(sb)) { setNull(II); return true; }
        unsigned w = tyCode(a->getType());
        Value *va = toI64(B, a), *vb = toI64(B, b);
        op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? GS_ADD
             : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? GS_SUB : GS_MUL;
        Value* r = B.CreateCall(fBin, {i32(op), i32(w), sa, va, sb, vb});
        Value* o = nullptr;
        Value* rv = op == GS_ADD ? B.CreateAdd(a, b) : op == GS_SUB ? B.CreateSub(a, b) : B.CreateMul(a, b);
        if (id == Intrinsic::uadd_with_overflow) o = B.CreateCall(fCmp, {i32(GS_ULT), i32(w), r, toI64(B, rv), sa, va});
        else if (id == Intrinsic::usub_with_overflow) o = B.CreateCall(fCmp, {i32(GS_ULT), i32(w), sa, va, sb, vb});
        else if (id == Intrinsic::umul_with_overflow) o = B.CreateCall(fCmp, {i32(GS_UMULO), i32(w), sa, va, sb, vb});
        else if (id == Intrinsic::smul_with_overflow) o = B.CreateCall(fCmp, {i32(GS_SMULO), i32(w), sa, va, sb, vb});
        else { conc(B, a); conc(B, b); setNull(II); return true; }
        sh[II] = {r, o};
        return true;
      }
      return false;
    }
    if (II->getType()->isVoidTy()) return false;
    if (!isScalarOk(II->getType())) return false;
    unsigned op = 0;
    int n = 0;
    switch (II->getIntrinsicID()) {
      case Intrinsic::umin: op = GS_UMIN; n = 2; break;
      case Intrinsic::umax: op = GS_UMAX; n = 2; break;
      case Intrinsic::smin: op = GS_SMIN; n = 2; break;
      case Intrinsic::smax: op = GS_SMAX; n = 2; break;
      case Intrinsic::minnum: op = GS_FMIN; n = 2; break;
      case Intrinsic::maxnum: op = GS_FMAX; n = 2; break;
      case Intrinsic::fabs: op = GS_FABS; n = 1; break;
      case Intrinsic::sqrt: op = GS_FSQRT; n = 1; break;
      case Intrinsic::floor: op = GS_FFLOOR; n = 1; break;
      case Intrinsic::ceil: op = GS_FCEIL; n = 1; break;
      case Intrinsic::trunc: op = GS_FTRUNC; n = 1; break;
      case Intrinsic::rint: case Intrinsic::nearbyint: op = GS_FRINT; n = 1; break;
      case Intrinsic::round: op = GS_FROUND; n = 1; break;
      case Intrinsic::ctpop: op = GS_CTPOP; n = 1; break;
      case Intrinsic::bswap: op = GS_BSWAP; n = 1; break;
      default: break;
    }
    if (n == 1) {
      Value* sa = get1(arg(0));
      if (isNull(sa)) { setNull(II); return true; }
      sh[II] = {B.CreateCall(fUn, {i32(op), i32(tyCode(II->getType())), sa, toI64(B, arg(0))})};
      return true;
    }
    if (n == 2) {
      Value *sa = get1(arg(0)), *sb = get1(arg(1));
      if (isNull(sa) && isNull(sb)) { setNull(II); return true; }
      sh[II] = {B.CreateCall(fBin, {i32(op), i32(tyCode(II->getType())), sa, toI64(B, arg(0)), sb, toI64(B, arg(1))})};
      return true;
    }
    switch (II->getIntrinsicID()) {
      case Intrinsic::abs: {
        Value* sa = get1(arg(0));
        if (isNull(sa)) { setNull(II); return true; }
        unsigned w = tyCode(II->getType());
        Value* va = toI64(B, arg(0));
        Value* neg = B.CreateCall(fBin, {i32(GS_SUB), i32(w), Null, i64(0), sa, va});
        Value* lt = B.CreateCall(fCmp, {i32(GS_SLT), i32(w), sa, va, Null, i64(0)});
        Value* z = Constant::getNullValue(arg(0)->getType());
        sh[II] = {B.CreateCall(fSelect, {i32(w), lt, B.CreateICmpSLT(arg(0), z), neg, toI64(B, B.CreateSub(z, arg(0))), sa, va})};
        return true;
      }
      case Intrinsic::copysign: {
        Value *sa = get1(arg(0)), *sb = get1(arg(1));
        if (isNull(sa) && isNull(sb)) { setNull(II); return true; }
        return false;
      }
      case Intrinsic::fmuladd:
      case Intrinsic::fma: {
        Value *a = arg(0), *b = arg(1), *c = arg(2);
        Value *sa = get1(a), *sb = get1(b), *sc = get1(c);
        if (isNull(sa) && isNull(sb) && isNull(sc)) { setNull(II); return true; }
        unsigned t = tyCode(II->getType());
        Value* m = B.CreateCall(fBin, {i32(GS_FMUL), i32(t), sa, toI64(B, a), sb, toI64(B, b)});
        sh[II] = {B.CreateCall(fBin, {i32(GS_FADD), i32(t), m, toI64(B, B.CreateFMul(a, b)), sc, toI64(B, c)})};
        return true;
      }
      case Intrinsic::expect:
      case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group:
        sh[II] = get(arg(0));
        return true;
      case Intrinsic::is_fpclass: {
        return false;
      }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        // rotates / funnel shifts by constants
        auto* k = dyn_cast<ConstantInt>(arg(2));
        Value *a = arg(0), *b = arg(1), *sa = get1(a), *sb = get1(b);
        if (isNull(sa) && isNull(sb) && isNull(get1(arg(2)))) { setNull(II); return true; }
        if (!k) return false;
        unsigned w = tyCode(II->getType());
        uint64_t s = k->getZExtValue() % w;
        if (II->getIntrinsicID() == Intrinsic::fshr) s = (w - s) % w;
        if (s == 0) { sh[II] = {II->getIntrinsicID() == Intrinsic::fshl ? sa : sb}; return true; }
        Value* h = B.CreateCall(fBin, {i32(GS_SHL), i32(w), sa, toI64(B, a), Null, i64(s)});
        Value* l = B.CreateCall(fBin, {i32(GS_LSHR), i32(w), sb, toI64(B, b), Null, i64(w - s)});
        Value* hv = B.CreateShl(a, ConstantInt::get(a->getType(), s));
        Value* lv = B.CreateLShr(b, ConstantInt::get(b->getType(), w - s));
        sh[II] = {B.CreateCall(fBin, {i32(GS_OR), i32(w), h, toI64(B, hv), l, toI64(B, lv)})};
        return true;
      }
      default: return false;
    }
  }
};

struct GcSymPass : PassInfoMixin<GcSymPass> {
  // floating point selections and minima become control flow: one path per outcome instead of conditional terms
  static bool fromFP(Value* v, unsigned depth = 0) {
    if (isa<FCmpInst>(v)) return true;
    auto* I = dyn_cast<Instruction>(v);
    if (!I || depth > 4 || !v->getType()->isIntegerTy(1) || !(isa<BinaryOperator>(I) || isa<SelectInst>(I))) return false;
    for (Value* o : I->operands()) if (fromFP(o, depth + 1)) return true;
    return false;
  }
  static void lowerFP(Function& F) {
    std::vector<Instruction*> sel, mm, ext;
    // so do integers and pointers picked by a floating point comparison (but not plain truth values)
    { // class tests as comparisons
      std::vector<IntrinsicInst*> cls;
      for (auto& BB : F) for (auto& I : BB) if (auto* II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::is_fpclass) cls.push_back(II);
      for (IntrinsicInst* II : cls) {
        unsigned m = cast<ConstantInt>(II->getArgOperand(1))->getZExtValue(); Value* x = II->getArgOperand(0);
        auto same = [&](unsigned p) { return (m & p) == 0 || (m & p) == p; };
        if (!(x->getType()->isDoubleTy() || x->getType()->isFloatTy()) || !same(3) || !same(0x18) || !same(0x60) || !same(0x180)) continue;
        IRBuilder<> B(II); Value *z = ConstantFP::get(x->getType(), 0.), *pi = ConstantFP::getInfinity(x->getType(), false), *ni = ConstantFP::getInfinity(x->getType(), true), *r = nullptr;
        auto add = [&](Value* v) { r = r ? B.CreateOr(r, v) : v; };
        if ((m & 0x1F8) == 0x1F8) { add(B.CreateAnd(B.CreateFCmpOLT(x, pi), B.CreateFCmpOGT(x, ni))); m &= ~0x1F8u; }
        if (m & 3) add(B.CreateFCmpUNO(x, x));
        if (m & 4) add(B.CreateFCmpOEQ(x, ni));
        if (m & 0x200) add(B.CreateFCmpOEQ(x, pi));
        if (m & 0x18) add(B.CreateAnd(B.CreateFCmpOLT(x, z), B.CreateFCmpOGT(x, ni)));
        if (m & 0x60) add(B.CreateFCmpOEQ(x, z));
        if (m & 0x180) add(B.CreateAnd(B.CreateFCmpOGT(x, z), B.CreateFCmpOLT(x, pi)));
        if (!r) r = ConstantInt::getFalse(II->getContext());
        II->replaceAllUsesWith(r); II->eraseFromParent();
      }
    }
    for (auto& BB : F) for (auto& I : BB) {
      Type* T = I.getType();
      if (!(T->isIntegerTy() && T->getIntegerBitWidth() > 8) && !T->isPointerTy()) continue;
      if (auto* S = dyn_cast<SelectInst>(&I)) { if (fromFP(S->getCondition())) sel.push_back(S); }
      else if ((isa<ZExtInst>(I) || isa<SExtInst>(I)) && I.getOperand(0)->getType()->isIntegerTy(1) && fromFP(I.getOperand(0))) ext.push_back(&I);
    }
    for (Instruction* I : ext) {
      IRBuilder<> B(I); Value* one = isa<SExtInst>(I) ? ConstantInt::getAllOnesValue(I->getType()) : ConstantInt::get(I->getType(), 1);
      Value* v = B.CreateSelect(I->getOperand(0), one, ConstantInt::get(I->getType(), 0));
      I->replaceAllUsesWith(v); I->eraseFromParent();
      if (auto* S = dyn_cast<SelectInst>(v)) sel.push_back(S);
    }
    for (auto& BB : F) for (auto& I : BB) {
      if (!I.getType()->isDoubleTy() && !I.getType()->isFloatTy()) continue;
      if (auto* S = dyn_cast<SelectInst>(&I)) { if (!isa<Constant>(S->getCondition())) sel.push_back(S); }
      else if (auto* C = dyn_cast<CallInst>(&I)) if (auto* G = C->getCalledFunction()) {
        StringRef n = G->getName();
        if (n == "fmin" || n == "fmax" || n == "fminf" || n == "fmaxf" || G->getIntrinsicID() == Intrinsic::minnum || G->getIntrinsicID() == Intrinsic::maxnum) mm.push_back(C);
      }
    }
    // whole numbers: the engine forms the minimum of two converted integers without a case split
    std::function<bool(Value*, int)> whole = [&](Value* v, int d) -> bool {
      if (isa<SIToFPInst>(v) || isa<UIToFPInst>(v)) return true;
      if (auto* K = dyn_cast<ConstantFP>(v)) return K->getType()->isDoubleTy() && K->getValueAPF().isInteger();
      auto* C = dyn_cast<CallInst>(v); auto* G = C ? C->getCalledFunction() : nullptr; if (!G || d > 4) return false;
      StringRef n = G->getName();
      return (n == "fmin" || n == "fmax" || G->getIntrinsicID() == Intrinsic::minnum || G->getIntrinsicID() == Intrinsic::maxnum) && whole(C->getArgOperand(0), d + 1) && whole(C->getArgOperand(1), d + 1);
    };
    { std::vector<Instruction*> keep; for (Instruction* I : mm) if (!(I->getType()->isDoubleTy() && whole(I, 0))) keep.push_back(I); mm = keep; }
    for (Instruction* I : mm) {
      auto* C = cast<CallInst>(I); IRBuilder<> B(C); StringRef n = C->getCalledFunction()->getName();
      bool mn = n == "fmin" || n == "fminf" || C->getCalledFunction()->getIntrinsicID() == Intrinsic::minnum;
      Value *a = C->getArgOperand(0), *b = C->getArgOperand(1);
      // a unless b is the smaller (larger), or a is not a number
      Value* nanA = B.CreateFCmpUNO(a, ConstantFP::get(a->getType(), 0.0));
      Value* s0 = B.CreateSelect(mn ? B.CreateFCmpOLT(b, a) : B.CreateFCmpOLT(a, b), b, a);
      Value* r = B.CreateSelect(nanA, b, s0);
      C->replaceAllUsesWith(r);
      if (auto* S = dyn_cast<SelectInst>(s0)) sel.push_back(S);
      if (auto* S = dyn_cast<SelectInst>(r)) sel.push_back(S);
      C->eraseFromParent();
    }
    for (Instruction* I : sel) {
      auto* S = cast<SelectInst>(I);
      Instruction *t, *e; SplitBlockAndInsertIfThenElse(S->getCondition(), S, &t, &e);
      PHINode* P = PHINode::Create(S->getType(), 2, "", S);
      P->addIncoming(S->getTrueValue(), t->getParent()); P->addIncoming(S->getFalseValue(), e->getParent());
      S->replaceAllUsesWith(P); S->eraseFromParent();
    }
  }
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    Instr ins(M);
    std::vector<Function*> fs;
    for (Function& F : M)
      if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() && !F.getName().starts_with("__gs")) fs.push_back(&F);
    // bodies that exist only for inlining would otherwise be treated as instrumented
    for (Function& F : M)
      if (F.hasAvailableExternallyLinkage()) F.deleteBody();
    // stable per-module site base
    ins.siteCounter = (unsigned)(hash_value(StringRef(M.getSourceFileName())) & 0x7fff) << 16;
    for (Function* F : fs) lowerFP(*F);
    for (Function* F : fs) {
      // keep instrumented template bodies private to the executable: the solver library must not run them
      if ((F->hasLinkOnceLinkage() || F->hasWeakLinkage()) && F->hasDefaultVisibility()) {
        F->setVisibility(GlobalValue::HiddenVisibility);
        F->setDSOLocal(true);
      }
      F->removeFnAttr(Attribute::Memory);
      F->setMemoryEffects(MemoryEffects::unknown());
      ins.instrument(*F);
      for (auto& BB : *F)
        for (auto& I : BB)
          if (auto* CB = dyn_cast<CallBase>(&I)) {
            if (!isa<IntrinsicInst>(CB)) {
              CB->setMemoryEffects(MemoryEffects::unknown());
              if (auto* ci = dyn_cast<CallInst>(CB)) if (!ci->isMustTailCall()) ci->setTailCallKind(CallInst::TCK_None);
            }
          }
      // parameter attributes that promise things about memory are no longer true once the runtime is called
      for (unsigned i = 0; i < F->arg_size(); i++) {
        F->removeParamAttr(i, Attribute::ReadNone);
        F->removeParamAttr(i, Attribute::ReadOnly);
        F->removeParamAttr(i, Attribute::WriteOnly);
        F->removeParamAttr(i, Attribute::NoCapture);
      }
    }
    for (Function& F : M) {
      if (F.isDeclaration() && !F.isIntrinsic() && !F.getName().starts_with("__gs"))
        F.setMemoryEffects(MemoryEffects::unknown());
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "gcsym", "1", [](PassBuilder& PB) {
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "gcsym") { MPM.addPass(GcSymPass()); return true; }
              return false;
            });
          }};
}
