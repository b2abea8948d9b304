// irdump: dump an LLVM module (bitcode / .ll) as JSON for the Python analyses in /verif/sa.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> ids;

static void constv(json::OStream &J, const Constant *C);

// operand: ["v",id] ["i",value,bits] ["n"] ["g",name,off] ["f",name] ["u"] ["agg",[..]] ["s",hex] ["x",text]
static void oper(json::OStream &J, const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) { constv(J, C); return; }
  if (isa<BasicBlock>(V)) { J.array([&] { J.value("b"); J.value(ids[V]); }); return; }
  auto it = ids.find(V);
  if (it != ids.end()) { J.array([&] { J.value("v"); J.value(it->second); }); return; }
  if (isa<MetadataAsValue>(V)) { J.array([&] { J.value("m"); }); return; }
  J.array([&] { J.value("x"); J.value("?"); });
}
static std::string bytesHex(StringRef S) { return toHex(S, true); }

static void constv(json::OStream &J, const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    J.array([&] { J.value("i");
      if (CI->getBitWidth() <= 64) J.value(CI->getBitWidth() == 1 ? (int64_t)CI->getZExtValue() : CI->getSExtValue());
      else J.value(0);
      J.value((int64_t)CI->getBitWidth()); });
    return;
  }
  if (isa<ConstantPointerNull>(C)) { J.array([&] { J.value("n"); }); return; }
  if (isa<UndefValue>(C)) { J.array([&] { J.value("u"); }); return; }
  if (auto *F = dyn_cast<Function>(C)) { J.array([&] { J.value("f"); J.value(F->getName()); }); return; }
  if (auto *GA = dyn_cast<GlobalAlias>(C)) { constv(J, GA->getAliasee()); return; }
  if (auto *G = dyn_cast<GlobalVariable>(C)) { J.array([&] { J.value("g"); J.value(G->getName()); J.value(0); }); return; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    if (CD->getElementByteSize() == 1) { J.array([&] { J.value("s"); J.value(bytesHex(CD->getRawDataValues())); }); return; }
    J.array([&] { J.value("agg"); J.array([&] { for (unsigned i = 0; i < CD->getNumElements(); i++) constv(J, CD->getElementAsConstant(i)); });
      J.value((int64_t)CD->getElementByteSize()); });
    return;
  }
  if (isa<ConstantAggregateZero>(C)) { J.array([&] { J.value("z"); }); return; }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    J.array([&] { J.value("agg"); J.array([&] { for (auto &o : CA->operands()) constv(J, cast<Constant>(o)); });
      if (auto *ST = dyn_cast<StructType>(CA->getType())) {
        auto *SL = DL->getStructLayout(ST);
        J.array([&] { for (unsigned i = 0; i < ST->getNumElements(); i++) J.value((int64_t)SL->getElementOffset(i)); });
      } else if (auto *AT = dyn_cast<ArrayType>(CA->getType())) J.value((int64_t)DL->getTypeAllocSize(AT->getElementType()));
    });
    return;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    APInt off(64, 0);
    const Value *B = CE;
    if (CE->getType()->isPointerTy()) {
      B = CE->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *G = dyn_cast<GlobalVariable>(B)) { J.array([&] { J.value("g"); J.value(G->getName()); J.value(off.getSExtValue()); }); return; }
      if (auto *F = dyn_cast<Function>(B)) { J.array([&] { J.value("f"); J.value(F->getName()); }); return; }
      if (isa<ConstantPointerNull>(B)) { J.array([&] { J.value("i"); J.value(off.getSExtValue()); J.value(64); }); return; }
      if (auto *CE2 = dyn_cast<ConstantExpr>(B)) if (CE2->getOpcode() == Instruction::IntToPtr) { constv(J, CE2->getOperand(0)); return; }
    } else if (CE->getOpcode() == Instruction::PtrToInt) { constv(J, CE->getOperand(0)); return; }
    std::string s; raw_string_ostream os(s); CE->print(os);
    J.array([&] { J.value("x"); J.value(os.str()); });
    return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) { std::string s; raw_string_ostream os(s); CF->print(os); J.array([&] { J.value("fp"); J.value(os.str()); }); return; }
  J.array([&] { J.value("x"); J.value("const"); });
}

static std::string tyStr(Type *T) { std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str(); }
static int64_t szOf(Type *T) { return T->isSized() ? (int64_t)DL->getTypeAllocSize(T) : 0; }

static void fileAttr(json::OStream &J, const DIFile *F) { if (F) J.attribute("file", (F->getFilename().starts_with("/") || F->getDirectory().empty()) ? F->getFilename().str() : (F->getDirectory() + "/" + F->getFilename()).str()); }

static void diMembers(json::OStream &J, const DIType *T, uint64_t base, std::string pre, int depth) {
  while (T) {
    if (auto *D = dyn_cast<DIDerivedType>(T)) { T = D->getBaseType(); continue; }
    break;
  }
  auto *C = dyn_cast_or_null<DICompositeType>(T);
  if (!C || depth > 4) return;
  if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_union_type) return;
  for (auto *E : C->getElements()) {
    auto *M = dyn_cast_or_null<DIDerivedType>(E);
    if (!M || M->getTag() != dwarf::DW_TAG_member || M->isStaticMember()) continue;
    uint64_t off = base + M->getOffsetInBits() / 8;
    std::string nm = pre + M->getName().str();
    J.array([&] { J.value((int64_t)off); J.value(nm); J.value((int64_t)(M->getSizeInBits() / 8)); });
    auto *BT = M->getBaseType();
    while (BT && isa<DIDerivedType>(BT) && (BT->getTag() == dwarf::DW_TAG_typedef || BT->getTag() == dwarf::DW_TAG_const_type)) BT = cast<DIDerivedType>(BT)->getBaseType();
    if (BT && isa<DICompositeType>(BT)) diMembers(J, BT, off, nm + ".", depth + 1);
  }
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  std::string out; raw_string_ostream os(out);
  json::OStream J(os);
  J.objectBegin();
  J.attributeBegin("globals"); J.objectBegin();
  for (auto &G : M->globals()) {
    J.attributeBegin(G.getName()); J.objectBegin();
    J.attribute("size", szOf(G.getValueType()));
    J.attribute("const", G.isConstant());
    J.attribute("link", (int)G.getLinkage());
    J.attribute("local", G.hasLocalLinkage());
    J.attribute("decl", G.isDeclaration());
    J.attribute("dem", demangle(G.getName().str()));
    if (G.hasInitializer()) { J.attributeBegin("init"); constv(J, G.getInitializer()); J.attributeEnd(); }
    SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
    if (!GVs.empty()) {
      auto *V = GVs[0]->getVariable();
      J.attribute("name", V->getName()); J.attribute("line", (int64_t)V->getLine()); fileAttr(J, V->getFile());
      J.attributeBegin("members"); J.arrayBegin(); diMembers(J, V->getType(), 0, "", 0); J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("functions"); J.objectBegin();
  for (auto &F : *M) {
    ids.clear();
    int n = 0;
    for (auto &A : F.args()) ids[&A] = n++;
    int bn = 0;
    for (auto &B : F) { ids[&B] = bn++; for (auto &I : B) ids[&I] = n++; }
    J.attributeBegin(F.getName()); J.objectBegin();
    J.attribute("dem", demangle(F.getName().str()));
    J.attribute("decl", F.isDeclaration());
    J.attribute("local", F.hasLocalLinkage());
    J.attribute("odr", F.hasLinkOnceLinkage() || F.hasWeakLinkage());
    J.attribute("avail", F.hasAvailableExternallyLinkage());
    J.attribute("noreturn", F.doesNotReturn());
    J.attribute("nounwind", F.doesNotThrow());
    J.attribute("ret", tyStr(F.getReturnType()));
    J.attribute("vararg", F.isVarArg());
    if (auto *SP = F.getSubprogram()) { J.attribute("name", SP->getName()); J.attribute("line", (int64_t)SP->getLine()); fileAttr(J, SP->getFile()); }
    J.attributeBegin("args"); J.arrayBegin();
    { SmallVector<StringRef, 8> nm(F.arg_size(), "");
      if (auto *SP = F.getSubprogram()) for (auto *N : SP->getRetainedNodes()) if (auto *V = dyn_cast<DILocalVariable>(N)) if (V->getArg() && V->getArg() <= nm.size()) nm[V->getArg() - 1] = V->getName();
      for (auto &A : F.args()) J.object([&] { J.attribute("ty", tyStr(A.getType())); J.attribute("sret", A.hasStructRetAttr()); J.attribute("byval", A.hasByValAttr());
         if (A.hasStructRetAttr()) J.attribute("stysz", szOf(A.getParamStructRetType()));
         J.attribute("name", !A.getName().empty() ? A.getName() : nm[A.getArgNo()]); }); }
    J.arrayEnd(); J.attributeEnd();
    if (!F.isDeclaration()) {
      DominatorTree DT(F); LoopInfo LI(DT);
      J.attributeBegin("blocks"); J.arrayBegin();
      for (auto &B : F) {
        J.objectBegin();
        auto *L = LI.getLoopFor(&B);
        if (L) { J.attribute("hdr", L->getHeader() == &B); J.attribute("loop", ids[L->getHeader()]); J.attribute("exiting", L->isLoopExiting(&B)); J.attribute("depth", (int64_t)L->getLoopDepth()); 
          J.attributeBegin("loops"); J.arrayBegin(); for (auto *P = L; P; P = P->getParentLoop()) J.value(ids[P->getHeader()]); J.arrayEnd(); J.attributeEnd(); }
        J.attributeBegin("i"); J.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          J.objectBegin();
          J.attribute("id", ids[&I]); J.attribute("op", I.getOpcodeName());
          if (!I.getType()->isVoidTy()) { J.attribute("ty", tyStr(I.getType())); if (I.getType()->isIntegerTy()) J.attribute("bits", (int64_t)I.getType()->getIntegerBitWidth()); J.attribute("sz", szOf(I.getType())); }
          if (auto &DLc = I.getDebugLoc()) { J.attribute("l", (int64_t)DLc.getLine());
            auto *F2 = cast<DIScope>(DLc.getScope())->getFile(); auto *SP = F.getSubprogram(); if (!SP || SP->getFile() != F2) fileAttr(J, F2); }
          if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value *, APInt> var; APInt c(64, 0);
            bool ok = G->collectOffset(*DL, 64, var, c);
            J.attributeBegin("base"); oper(J, G->getPointerOperand()); J.attributeEnd();
            J.attribute("off", c.getSExtValue());
            if (!ok) J.attribute("bad", true);
            J.attributeBegin("var"); J.arrayBegin(); for (auto &p : var) J.array([&] { J.value(p.second.getSExtValue()); oper(J, p.first); }); J.arrayEnd(); J.attributeEnd();
            J.attributeBegin("vbits"); J.arrayBegin(); for (auto &p : var) J.value((int64_t)(p.first->getType()->isIntegerTy() ? p.first->getType()->getIntegerBitWidth() : 64)); J.arrayEnd(); J.attributeEnd();
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            J.attributeBegin("inc"); J.arrayBegin(); for (unsigned k = 0; k < P->getNumIncomingValues(); k++) J.array([&] { J.value(ids[P->getIncomingBlock(k)]); oper(J, P->getIncomingValue(k)); }); J.arrayEnd(); J.attributeEnd();
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            J.attributeBegin("callee"); oper(J, CB->getCalledOperand()); J.attributeEnd();
            J.attributeBegin("ops"); J.arrayBegin(); for (auto &a : CB->args()) oper(J, a); J.arrayEnd(); J.attributeEnd();
            J.attributeBegin("aty"); J.arrayBegin(); for (auto &a : CB->args()) J.value(tyStr(a->getType())); J.arrayEnd(); J.attributeEnd();
            if (CB->hasStructRetAttr()) J.attribute("sret", true);
            if (CB->doesNotThrow()) J.attribute("nounwind", true);
            if (CB->doesNotReturn()) J.attribute("noreturn", true);
            if (CB->isIndirectCall()) { std::string s; raw_string_ostream o2(s); CB->getFunctionType()->print(o2); J.attribute("fty", o2.str()); }
            if (auto *IV = dyn_cast<InvokeInst>(CB)) { J.attribute("normal", ids[IV->getNormalDest()]); J.attribute("unwind", ids[IV->getUnwindDest()]); }
          } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
            J.attribute("cleanup", LP->isCleanup());
            J.attributeBegin("clauses"); J.arrayBegin(); for (unsigned k = 0; k < LP->getNumClauses(); k++) J.array([&] { J.value(LP->isCatch(k) ? "catch" : "filter"); oper(J, LP->getClause(k)); }); J.arrayEnd(); J.attributeEnd();
          } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
            J.attributeBegin("cond"); oper(J, SW->getCondition()); J.attributeEnd();
            J.attribute("cbits", (int64_t)SW->getCondition()->getType()->getIntegerBitWidth());
            J.attribute("default", ids[SW->getDefaultDest()]);
            J.attributeBegin("cases"); J.arrayBegin(); for (auto &c : SW->cases()) J.array([&] { J.value(c.getCaseValue()->getSExtValue()); J.value(ids[c.getCaseSuccessor()]); }); J.arrayEnd(); J.attributeEnd();
          } else {
            J.attributeBegin("ops"); J.arrayBegin(); for (auto &o : I.operands()) oper(J, o); J.arrayEnd(); J.attributeEnd();
            if (auto *C = dyn_cast<CmpInst>(&I)) { J.attribute("pred", CmpInst::getPredicateName(C->getPredicate())); auto *T = C->getOperand(0)->getType(); J.attribute("cbits", (int64_t)(T->isIntegerTy() ? T->getIntegerBitWidth() : 64)); }
            if (auto *A = dyn_cast<AllocaInst>(&I)) J.attribute("asz", szOf(A->getAllocatedType()));
            if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("sz", szOf(S->getValueOperand()->getType())); if (S->getValueOperand()->getType()->isAggregateType()) J.attribute("vty", tyStr(S->getValueOperand()->getType())); }
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) { J.attributeBegin("idx"); J.arrayBegin(); for (auto k : E->getIndices()) J.value((int64_t)k); J.arrayEnd(); J.attributeEnd(); }
            if (auto *E = dyn_cast<InsertValueInst>(&I)) { J.attributeBegin("idx"); J.arrayBegin(); for (auto k : E->getIndices()) J.value((int64_t)k); J.arrayEnd(); J.attributeEnd(); }
            if (auto *CI = dyn_cast<CastInst>(&I)) { J.attribute("sbits", CI->getSrcTy()->isIntegerTy() ? (int64_t)CI->getSrcTy()->getIntegerBitWidth() : (int64_t)0); }
          }
          if (I.getName().size()) J.attribute("n", I.getName());
          J.objectEnd();
        }
        J.arrayEnd(); J.attributeEnd();
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.objectEnd();
  os.flush();
  outs() << out;
  return 0;
}
