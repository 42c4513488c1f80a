// irdump: prints an LLVM module as JSON for the analyses in /verif/lib.
// Usage: irdump IN.bc OUT.json
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace llvm;
using json::Array;
using json::Object;

static const DataLayout *DL;
static std::map<const llvm::Value *, int> Ids;
static std::map<const BasicBlock *, int> BIds;

static json::Value ty(Type *T) {
  if (auto I = dyn_cast<IntegerType>(T))
    return Array{"i", (int64_t)I->getBitWidth()};
  if (T->isPointerTy())
    return Array{"p"};
  if (T->isFloatTy())
    return Array{"f", 32};
  if (T->isDoubleTy())
    return Array{"f", 64};
  if (T->isX86_FP80Ty())
    return Array{"f", 80};
  if (T->isHalfTy())
    return Array{"f", 16};
  if (auto V = dyn_cast<FixedVectorType>(T))
    return Array{"v", (int64_t)V->getNumElements(), ty(V->getElementType())};
  if (auto A = dyn_cast<ArrayType>(T))
    return Array{"a", (int64_t)A->getNumElements(), ty(A->getElementType()),
                 T->isSized() ? (int64_t)DL->getTypeAllocSize(T) : 0};
  if (auto S = dyn_cast<StructType>(T)) {
    if (!S->isSized())
      return Array{"o"};
    Array el, of;
    auto L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) {
      el.push_back(ty(S->getElementType(i)));
      of.push_back((int64_t)L->getElementOffset(i));
    }
    return Array{"s", std::move(el), std::move(of),
                 (int64_t)L->getSizeInBytes(),
                 S->hasName() ? S->getName().str() : std::string()};
  }
  if (T->isVoidTy())
    return Array{"void"};
  return Array{"other"};
}

static std::string apstr(const APInt &V) {
  SmallString<40> S;
  V.toStringUnsigned(S);
  return std::string(S);
}

static json::Value op(const llvm::Value *V);

static json::Value cst(const Constant *C) {
  if (auto I = dyn_cast<ConstantInt>(C))
    return Array{"ci", (int64_t)I->getBitWidth(), apstr(I->getValue())};
  if (auto F = dyn_cast<ConstantFP>(C)) {
    APInt b = F->getValueAPF().bitcastToAPInt();
    return Array{"cf", (int64_t)b.getBitWidth(), apstr(b)};
  }
  if (isa<ConstantPointerNull>(C))
    return Array{"null"};
  if (isa<PoisonValue>(C))
    return Array{"undef", ty(C->getType()), "poison"};
  if (isa<UndefValue>(C))
    return Array{"undef", ty(C->getType())};
  if (isa<ConstantAggregateZero>(C))
    return Array{"zero", ty(C->getType())};
  if (auto D = dyn_cast<ConstantDataSequential>(C)) {
    Array a;
    for (unsigned i = 0; i < D->getNumElements(); i++)
      a.push_back(cst(D->getElementAsConstant(i)));
    return Array{"agg", ty(C->getType()), std::move(a)};
  }
  if (isa<ConstantAggregate>(C)) {
    Array a;
    for (auto &O : C->operands())
      a.push_back(cst(cast<Constant>(O)));
    return Array{"agg", ty(C->getType()), std::move(a)};
  }
  if (C->getType()->isPointerTy()) {
    APInt off(DL->getIndexTypeSizeInBits(C->getType()), 0);
    auto B = C->stripAndAccumulateConstantOffsets(*DL, off, true);
    while (auto A = dyn_cast<GlobalAlias>(B))
      B = A->getAliasee()->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto F = dyn_cast<Function>(B))
      return Array{"fn", F->getName().str()};
    if (auto G = dyn_cast<GlobalVariable>(B))
      return Array{"g", G->getName().str(), (int64_t)off.getSExtValue()};
  }
  if (auto E = dyn_cast<ConstantExpr>(C)) {
    Array a;
    for (auto &O : E->operands())
      a.push_back(cst(cast<Constant>(O)));
    std::string op = E->getOpcodeName();
    if (E->isCompare())
      op += std::string(".") + CmpInst::getPredicateName(CmpInst::Predicate(E->getPredicate())).str();
    return Array{"ce", op, ty(C->getType()), std::move(a)};
  }
  return Array{"cunk"};
}

static json::Value op(const llvm::Value *V) {
  auto it = Ids.find(V);
  if (it != Ids.end())
    return Array{"v", it->second};
  if (auto C = dyn_cast<Constant>(V))
    return cst(C);
  if (auto B = dyn_cast<BasicBlock>(V))
    return Array{"bb", BIds[B]};
  if (isa<InlineAsm>(V))
    return Array{"asm"};
  return Array{"unk"};
}

static json::Value loc(const Instruction &I) {
  Array a;
  const DILocation *L = I.getDebugLoc();
  while (L) {
    auto SP = L->getScope()->getSubprogram();
    std::string fn;
    if (SP) {
      fn = SP->getLinkageName().str();
      if (fn.empty())
        fn = SP->getName().str();
    }
    a.push_back(Array{L->getFilename().str(), (int64_t)L->getLine(), fn});
    L = L->getInlinedAt();
  }
  return a;
}

static std::string scopeName(const DIScope *S) {
  std::string r;
  while (S) {
    if (isa<DIFile>(S) || isa<DICompileUnit>(S))
      break;
    std::string n = S->getName().str();
    if (!n.empty())
      r = r.empty() ? n : n + "::" + r;
    S = S->getScope();
  }
  return r;
}

int main(int argc, char **argv) {
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) {
    Err.print("irdump", errs());
    return 2;
  }
  DL = &M->getDataLayout();
  Object root;
  Object globals;
  for (auto &G : M->globals()) {
    Object o;
    o["size"] = G.getValueType()->isSized()
                    ? (int64_t)DL->getTypeAllocSize(G.getValueType())
                    : 0;
    o["ty"] = ty(G.getValueType());
    o["const"] = G.isConstant();
    o["tls"] = G.isThreadLocal();
    o["dem"] = demangle(G.getName().str());
    if (G.hasInitializer() && !G.hasAppendingLinkage())
      o["init"] = cst(G.getInitializer());
    if (G.hasInitializer() && G.hasAppendingLinkage())
      o["init"] = cst(G.getInitializer());
    globals[G.getName().str()] = std::move(o);
  }
  root["globals"] = std::move(globals);
  Object fns;
  for (auto &F : *M) {
    Ids.clear();
    BIds.clear();
    Object fo;
    fo["dem"] = demangle(F.getName().str());
    fo["decl"] = F.isDeclaration();
    fo["linkage"] = (int64_t)F.getLinkage();
    fo["noreturn"] = F.doesNotReturn();
    fo["nounwind"] = F.doesNotThrow();
    fo["readnone"] = F.doesNotAccessMemory();
    fo["readonly"] = F.onlyReadsMemory();
    fo["ret"] = ty(F.getReturnType());
    if (auto SP = F.getSubprogram()) {
      fo["file"] = SP->getFilename().str();
      fo["line"] = (int64_t)SP->getLine();
    }
    int n = 0, b = 0;
    Array args;
    for (auto &A : F.args()) {
      Ids[&A] = n;
      Object ao;
      ao["id"] = n++;
      ao["t"] = ty(A.getType());
      if (A.hasStructRetAttr())
        ao["sret"] = true;
      if (A.hasByValAttr())
        ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType());
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    for (auto &B : F) {
      BIds[&B] = b++;
      for (auto &I : B)
        Ids[&I] = n++;
    }
    Array blocks;
    for (auto &B : F) {
      Array ins;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I))
          continue;
        Object o;
        o["i"] = Ids[&I];
        o["op"] = I.getOpcodeName();
        o["t"] = ty(I.getType());
        o["loc"] = loc(I);
        if (auto G = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<llvm::Value *, APInt> var;
          unsigned w = DL->getIndexTypeSizeInBits(G->getType());
          APInt cofs(w, 0);
          if (cast<GEPOperator>(G)->collectOffset(*DL, w, var, cofs)) {
            o["base"] = op(G->getPointerOperand());
            o["off"] = cofs.getSExtValue();
            Array ix;
            for (auto &p : var)
              ix.push_back(Array{op(p.first), p.second.getSExtValue(),
                                 ty(p.first->getType())});
            o["idx"] = std::move(ix);
          }
          ins.push_back(std::move(o));
          continue;
        }
        if (auto P = dyn_cast<PHINode>(&I)) {
          Array in;
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            in.push_back(Array{op(P->getIncomingValue(i)),
                               BIds[P->getIncomingBlock(i)]});
          o["in"] = std::move(in);
          ins.push_back(std::move(o));
          continue;
        }
        if (auto CB = dyn_cast<CallBase>(&I)) {
          Array ca, cat;
          for (auto &A : CB->args()) {
            ca.push_back(op(A));
            cat.push_back(ty(A->getType()));
          }
          o["a"] = std::move(ca);
          o["at"] = std::move(cat);
          if (auto CF = dyn_cast<Function>(
                  CB->getCalledOperand()->stripPointerCasts())) {
            o["fn"] = CF->getName().str();
            if (CF->isIntrinsic())
              o["intr"] = true;
          } else
            o["callee"] = op(CB->getCalledOperand());
          if (auto IV = dyn_cast<InvokeInst>(&I))
            o["succ"] = Array{BIds[IV->getNormalDest()],
                              BIds[IV->getUnwindDest()]};
          o["noreturn"] = CB->doesNotReturn();
          o["nounwind"] = CB->doesNotThrow();
          o["readnone"] = CB->doesNotAccessMemory();
          o["readonly"] = CB->onlyReadsMemory();
          for (unsigned k = 0; k < CB->arg_size(); k++) {
            if (CB->paramHasAttr(k, Attribute::StructRet))
              o["sret"] = (int64_t)DL->getTypeAllocSize(
                  CB->getParamStructRetType(k));
          }
          ins.push_back(std::move(o));
          continue;
        }
        if (auto BR = dyn_cast<BranchInst>(&I)) {
          if (BR->isConditional())
            o["cond"] = op(BR->getCondition());
          Array s;
          for (unsigned k = 0; k < BR->getNumSuccessors(); k++)
            s.push_back(BIds[BR->getSuccessor(k)]);
          o["succ"] = std::move(s);
          ins.push_back(std::move(o));
          continue;
        }
        if (auto SW = dyn_cast<SwitchInst>(&I)) {
          o["cond"] = op(SW->getCondition());
          o["ct"] = ty(SW->getCondition()->getType());
          Array c;
          for (auto &k : SW->cases())
            c.push_back(Array{apstr(k.getCaseValue()->getValue()),
                              BIds[k.getCaseSuccessor()]});
          o["cases"] = std::move(c);
          o["default"] = BIds[SW->getDefaultDest()];
          ins.push_back(std::move(o));
          continue;
        }
        Array a, at;
        for (auto &O : I.operands()) {
          a.push_back(op(O));
          at.push_back(ty(O->getType()));
        }
        o["a"] = std::move(a);
        o["at"] = std::move(at);
        if (auto C = dyn_cast<CmpInst>(&I))
          o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
        if (auto S = dyn_cast<ShuffleVectorInst>(&I)) {
          Array m;
          for (int x : S->getShuffleMask())
            m.push_back(x);
          o["mask"] = std::move(m);
        }
        if (auto E = dyn_cast<ExtractValueInst>(&I)) {
          Array m;
          for (unsigned x : E->indices())
            m.push_back((int64_t)x);
          o["ix"] = std::move(m);
        }
        if (auto E = dyn_cast<InsertValueInst>(&I)) {
          Array m;
          for (unsigned x : E->indices())
            m.push_back((int64_t)x);
          o["ix"] = std::move(m);
        }
        if (auto A = dyn_cast<AllocaInst>(&I)) {
          o["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType());
          o["aty"] = ty(A->getAllocatedType());
        }
        if (auto L = dyn_cast<LoadInst>(&I)) {
          o["align"] = (int64_t)L->getAlign().value();
          if (L->isVolatile())
            o["volatile"] = true;
          if (L->isAtomic())
            o["atomic"] = true;
        }
        if (auto L = dyn_cast<StoreInst>(&I)) {
          o["align"] = (int64_t)L->getAlign().value();
          if (L->isVolatile())
            o["volatile"] = true;
          if (L->isAtomic())
            o["atomic"] = true;
        }
        if (auto R = dyn_cast<AtomicRMWInst>(&I))
          o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str();
        if (auto LP = dyn_cast<LandingPadInst>(&I))
          o["cleanup"] = LP->isCleanup();
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    fo["blocks"] = std::move(blocks);
    fns[F.getName().str()] = std::move(fo);
  }
  root["functions"] = std::move(fns);

  // Debug types: enumerations and record layouts.
  DebugInfoFinder Fnd;
  Fnd.processModule(*M);
  Array enums, recs;
  for (auto T : Fnd.types()) {
    auto C = dyn_cast<DICompositeType>(T);
    if (!C)
      continue;
    std::string nm = scopeName(C);
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
      Array e;
      for (auto E : C->getElements())
        if (auto En = dyn_cast<DIEnumerator>(E))
          e.push_back(Array{En->getName().str(), apstr(En->getValue())});
      enums.push_back(Object{{"name", nm},
                             {"size", (int64_t)C->getSizeInBits()},
                             {"file", C->getFilename().str()},
                             {"e", std::move(e)}});
    } else if (C->getTag() == dwarf::DW_TAG_structure_type ||
               C->getTag() == dwarf::DW_TAG_class_type ||
               C->getTag() == dwarf::DW_TAG_union_type) {
      if (C->isForwardDecl())
        continue;
      Array e;
      for (auto E : C->getElements())
        if (auto D = dyn_cast<DIDerivedType>(E))
          e.push_back(Object{{"name", D->getName().str()},
                             {"tag", (int64_t)D->getTag()},
                             {"off", (int64_t)D->getOffsetInBits()},
                             {"size", (int64_t)D->getSizeInBits()},
                             {"static", D->isStaticMember()}});
      recs.push_back(Object{{"name", nm},
                            {"size", (int64_t)C->getSizeInBits()},
                            {"file", C->getFilename().str()},
                            {"line", (int64_t)C->getLine()},
                            {"m", std::move(e)}});
    }
  }
  root["enums"] = std::move(enums);
  root["records"] = std::move(recs);
  std::error_code EC;
  raw_fd_ostream os(argv[2], EC);
  os << json::Value(std::move(root));
  return 0;
}
