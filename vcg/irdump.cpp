// irdump: LLVM bitcode/IR -> JSON for the VC generator.  Mechanical, no rewriting.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/MapVector.h>
using namespace llvm;
static const DataLayout *DL;
static json::OStream *J;
static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bbs;

static void ty(Type *t) {
  J->arrayBegin();
  if (t->isIntegerTy()) { J->value("i"); J->value((int64_t)t->getIntegerBitWidth()); }
  else if (t->isPointerTy()) J->value("p");
  else if (t->isVoidTy()) J->value("void");
  else if (t->isFloatTy()) { J->value("f"); J->value(32); }
  else if (t->isDoubleTy()) { J->value("f"); J->value(64); }
  else if (t->isX86_FP80Ty()) { J->value("f"); J->value(80); }
  else if (auto *v = dyn_cast<FixedVectorType>(t)) { J->value("v"); J->value((int64_t)v->getNumElements()); ty(v->getElementType()); }
  else if (auto *a = dyn_cast<ArrayType>(t)) { J->value("a"); J->value((int64_t)a->getNumElements()); ty(a->getElementType()); J->value((int64_t)DL->getTypeAllocSize(a->getElementType())); J->value((int64_t)DL->getTypeAllocSize(t)); }
  else if (auto *s = dyn_cast<StructType>(t)) {
    J->value("s");
    if (s->isOpaque()) { J->value("opaque"); }
    else {
      auto *L = DL->getStructLayout(s);
      J->arrayBegin(); for (unsigned i = 0; i < s->getNumElements(); i++) ty(s->getElementType(i)); J->arrayEnd();
      J->arrayBegin(); for (unsigned i = 0; i < s->getNumElements(); i++) J->value((int64_t)(uint64_t)L->getElementOffset(i)); J->arrayEnd();
      J->value((int64_t)(uint64_t)L->getSizeInBytes());
    }
  } else { J->value("?"); std::string q; raw_string_ostream o(q); t->print(o); J->value(q); }
  J->arrayEnd();
}
static std::string apstr(const APInt &v) { SmallString<40> s; v.toString(s, 10, false); return std::string(s); }
static void opnd(const Value *v);
static void gepBody(const GEPOperator *g) {
  unsigned bw = DL->getIndexTypeSizeInBits(g->getType());
  APInt c(bw, 0); MapVector<Value *, APInt> var;
  bool ok = g->collectOffset(*DL, bw, var, c);
  J->attribute("ok", ok); J->attribute("c", c.getSExtValue());
  J->attributeArray("var", [&] { for (auto &p : var) { J->arrayBegin(); opnd(p.first); J->value(p.second.getSExtValue()); J->arrayEnd(); } });
  J->attribute("inb", g->isInBounds());
}
static void opnd(const Value *v) {
  J->objectBegin();
  if (auto *c = dyn_cast<ConstantInt>(v)) { J->attribute("k", "int"); J->attribute("w", (int64_t)c->getBitWidth()); J->attribute("v", apstr(c->getValue())); }
  else if (auto *f = dyn_cast<ConstantFP>(v)) { J->attribute("k", "fp"); APInt b = f->getValueAPF().bitcastToAPInt(); J->attribute("w", (int64_t)b.getBitWidth()); J->attribute("v", apstr(b)); }
  else if (isa<ConstantPointerNull>(v)) J->attribute("k", "null");
  else if (isa<UndefValue>(v)) { J->attribute("k", isa<PoisonValue>(v) ? "poison" : "undef"); J->attributeBegin("t"); ty(v->getType()); J->attributeEnd(); }
  else if (auto *fn = dyn_cast<Function>(v)) { J->attribute("k", "fn"); J->attribute("n", fn->getName()); }
  else if (auto *gv = dyn_cast<GlobalVariable>(v)) { J->attribute("k", "g"); J->attribute("n", gv->getName()); }
  else if (auto *ga = dyn_cast<GlobalAlias>(v)) { J->attribute("k", "fn"); J->attribute("n", ga->getAliaseeObject()->getName()); }
  else if (isa<ConstantAggregateZero>(v)) { J->attribute("k", "zero"); J->attributeBegin("t"); ty(v->getType()); J->attributeEnd(); }
  else if (auto *cd = dyn_cast<ConstantDataSequential>(v)) { J->attribute("k", "agg"); J->attributeBegin("t"); ty(v->getType()); J->attributeEnd();
    J->attributeArray("e", [&] { for (unsigned i = 0; i < cd->getNumElements(); i++) opnd(cd->getElementAsConstant(i)); }); }
  else if (auto *ca = dyn_cast<ConstantAggregate>(v)) { J->attribute("k", "agg"); J->attributeBegin("t"); ty(v->getType()); J->attributeEnd();
    J->attributeArray("e", [&] { for (auto &o : ca->operands()) opnd(o.get()); }); }
  else if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) { J->attribute("k", "gep"); J->attributeBegin("b"); opnd(g->getPointerOperand()); J->attributeEnd(); gepBody(g); }
    else { J->attribute("k", "ce"); J->attribute("op", ce->getOpcodeName()); J->attributeBegin("t"); ty(v->getType()); J->attributeEnd();
      J->attributeArray("e", [&] { for (auto &o : ce->operands()) opnd(o.get()); }); }
  }
  else if (auto *a = dyn_cast<Argument>(v)) { J->attribute("k", "arg"); J->attribute("i", (int64_t)a->getArgNo()); }
  else if (auto *b = dyn_cast<BasicBlock>(v)) { J->attribute("k", "bb"); J->attribute("i", bbs[b]); }
  else if (isa<Instruction>(v)) { J->attribute("k", "v"); J->attribute("i", ids[v]); }
  else { J->attribute("k", "?"); std::string q; raw_string_ostream o(q); v->printAsOperand(o); J->attribute("s", q); }
  J->objectEnd();
}
static void inst(const Instruction &I) {
  J->objectBegin();
  J->attribute("op", I.getOpcodeName());
  J->attribute("id", ids[&I]);
  J->attributeBegin("t"); ty(I.getType()); J->attributeEnd();
  if (auto &dl = I.getDebugLoc()) { J->attribute("line", (int64_t)dl.getLine()); if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) J->attribute("file", sc->getFilename()); }
  if (auto *b = dyn_cast<OverflowingBinaryOperator>(&I)) { if (b->hasNoSignedWrap()) J->attribute("nsw", true); if (b->hasNoUnsignedWrap()) J->attribute("nuw", true); }
  if (auto *c = dyn_cast<CmpInst>(&I)) J->attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
  if (auto *g = dyn_cast<GEPOperator>(&I)) { J->attributeBegin("b"); opnd(g->getPointerOperand()); J->attributeEnd(); gepBody(g);
    J->attributeBegin("st"); ty(g->getSourceElementType()); J->attributeEnd(); }
  else if (auto *p = dyn_cast<PHINode>(&I)) {
    J->attributeArray("in", [&] { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { J->arrayBegin(); J->value(bbs[p->getIncomingBlock(i)]); opnd(p->getIncomingValue(i)); J->arrayEnd(); } });
  } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
    J->attributeBegin("cond"); opnd(s->getCondition()); J->attributeEnd(); J->attribute("def", bbs[s->getDefaultDest()]);
    J->attributeArray("cases", [&] { for (auto &c : s->cases()) { J->arrayBegin(); J->value(apstr(c.getCaseValue()->getValue())); J->value(bbs[c.getCaseSuccessor()]); J->arrayEnd(); } });
  } else if (auto *c = dyn_cast<CallBase>(&I)) {
    J->attributeBegin("callee"); opnd(c->getCalledOperand()); J->attributeEnd();
    J->attributeArray("args", [&] { for (auto &a : c->args()) { if (isa<MetadataAsValue>(a.get())) { J->objectBegin(); J->attribute("k", "md"); J->objectEnd(); } else opnd(a.get()); } });
    J->attributeArray("at", [&] { for (auto &a : c->args()) ty(a->getType()); });
    J->attributeArray("byval", [&] { for (unsigned i = 0; i < c->arg_size(); i++) if (c->isByValArgument(i)) { J->arrayBegin(); J->value((int64_t)i); J->value((int64_t)DL->getTypeAllocSize(c->getParamByValType(i))); J->arrayEnd(); } });
    if (auto *inv = dyn_cast<InvokeInst>(&I)) { J->attribute("normal", bbs[inv->getNormalDest()]); J->attribute("unwind", bbs[inv->getUnwindDest()]); }
  } else {
    if (auto *a = dyn_cast<AllocaInst>(&I)) { J->attributeBegin("at"); ty(a->getAllocatedType()); J->attributeEnd(); J->attribute("size", (int64_t)(uint64_t)DL->getTypeAllocSize(a->getAllocatedType())); }
    if (isa<StoreInst>(&I)) { J->attributeBegin("vt"); ty(I.getOperand(0)->getType()); J->attributeEnd(); }
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) J->attributeArray("idx", [&] { for (auto x : e->indices()) J->value((int64_t)x); });
    if (auto *e = dyn_cast<InsertValueInst>(&I)) J->attributeArray("idx", [&] { for (auto x : e->indices()) J->value((int64_t)x); });
    if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) J->attributeArray("mask", [&] { for (int x : sv->getShuffleMask()) J->value(x); });
    if (isa<CastInst>(&I) || isa<CmpInst>(&I)) { J->attributeBegin("ot"); ty(I.getOperand(0)->getType()); J->attributeEnd(); }
    J->attributeArray("o", [&] { for (auto &o : I.operands()) opnd(o.get()); });
  }
  J->objectEnd();
}
int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic e;
  auto M = parseIRFile(argv[1], e, C);
  if (!M) { e.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  json::OStream js(os); J = &js;
  J->objectBegin();
  J->attribute("triple", M->getTargetTriple());
  J->attributeArray("types", [&] { DebugInfoFinder DF; DF.processModule(*M); for (auto *T : DF.types()) {
    auto *CT = dyn_cast<DICompositeType>(T); if (!CT) continue;
    if (CT->getTag() != dwarf::DW_TAG_structure_type && CT->getTag() != dwarf::DW_TAG_class_type && CT->getTag() != dwarf::DW_TAG_enumeration_type) continue;
    if (CT->isForwardDecl()) continue;
    std::string qn = CT->getName().str(); for (auto *S = CT->getScope(); S; S = S->getScope()) { if (isa<DIFile>(S) || isa<DICompileUnit>(S)) break; if (!S->getName().empty()) qn = S->getName().str() + "::" + qn; }
    if (CT->getName().empty()) continue;
    if (qn.rfind("std::", 0) == 0 || qn.rfind("__gnu", 0) == 0) continue;
    J->objectBegin(); J->attribute("n", qn); J->attribute("id", CT->getIdentifier()); J->attribute("size", (int64_t)(CT->getSizeInBits() / 8));
    J->attributeArray("m", [&] { for (auto *E : CT->getElements()) {
      if (auto *D = dyn_cast<DIDerivedType>(E)) { if (D->isStaticMember() || (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance)) continue;
        J->arrayBegin(); J->value(D->getName()); J->value((int64_t)D->getOffsetInBits()); J->value((int64_t)D->getSizeInBits()); J->value(D->isBitField()); J->arrayEnd(); }
      else if (auto *N = dyn_cast<DIEnumerator>(E)) { J->arrayBegin(); J->value(N->getName()); J->value(N->getValue().getSExtValue()); J->arrayEnd(); } } });
    J->objectEnd(); } });
  J->attributeArray("globals", [&] { for (auto &g : M->globals()) {
    J->objectBegin(); J->attribute("n", g.getName()); J->attribute("dem", demangle(g.getName().str())); J->attribute("const", g.isConstant());
    if (g.getValueType()->isSized()) J->attribute("size", (int64_t)(uint64_t)DL->getTypeAllocSize(g.getValueType()));
    J->attributeBegin("t"); ty(g.getValueType()); J->attributeEnd();
    if (g.hasInitializer()) { J->attributeBegin("init"); opnd(g.getInitializer()); J->attributeEnd(); }
    J->objectEnd(); } });
  J->attributeArray("functions", [&] { for (auto &F : *M) {
    ids.clear(); bbs.clear();
    J->objectBegin(); J->attribute("n", F.getName()); J->attribute("dem", demangle(F.getName().str()));
    J->attributeBegin("rt"); ty(F.getReturnType()); J->attributeEnd();
    J->attributeArray("args", [&] { for (auto &a : F.args()) { J->objectBegin(); J->attributeBegin("t"); ty(a.getType()); J->attributeEnd(); J->attribute("n", a.getName());
       if (a.hasStructRetAttr()) J->attribute("sret", (int64_t)(uint64_t)DL->getTypeAllocSize(a.getParamStructRetType()));
       if (a.hasByValAttr()) J->attribute("byval", (int64_t)(uint64_t)DL->getTypeAllocSize(a.getParamByValType()));
       J->objectEnd(); } });
    J->attribute("varargs", F.isVarArg());
    if (!F.isDeclaration()) {
      int n = 0, b = 0; for (auto &B : F) { bbs[&B] = b++; for (auto &I : B) ids[&I] = n++; }
      J->attributeArray("blocks", [&] { for (auto &B : F) { J->arrayBegin(); for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; inst(I); } J->arrayEnd(); } });
      DominatorTree DT(F); LoopInfo LI(DT);
      J->attributeArray("loops", [&] { for (auto *L : LI.getLoopsInPreorder()) { J->objectBegin(); J->attribute("h", bbs[L->getHeader()]);
        J->attributeArray("b", [&] { for (auto *x : L->blocks()) J->value(bbs[x]); });
        J->attribute("depth", (int64_t)L->getLoopDepth()); J->objectEnd(); } });
    }
    J->objectEnd(); } });
  J->objectEnd();
  os << "\n"; return 0;
}
