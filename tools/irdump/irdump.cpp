// irdump: dumps a (linked, normalised) LLVM module with debug info as JSON for the Python rules.
// It only reads the module; nothing of the analysed program is executed.
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> Ids;
static std::map<const DIType *, int> TyIds;
static std::vector<const DIType *> TyList;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}
static std::string hexDouble(double d) {
  uint64_t b; memcpy(&b, &d, 8); return utohexstr(b, true);
}
static int tyId(const DIType *T) {
  if (!T) return -1;
  auto it = TyIds.find(T);
  if (it != TyIds.end()) return it->second;
  int id = TyList.size();
  TyIds[T] = id; TyList.push_back(T);
  return id;
}

static json::Value constVal(const Constant *C, int depth = 0);

static json::Value operand(const Value *V) {
  if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
  if (auto *I = dyn_cast<Instruction>(V)) return json::Array{"i", Ids[I]};
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
  if (auto *B = dyn_cast<BasicBlock>(V)) return json::Array{"b", Ids[B]};
  if (isa<MetadataAsValue>(V)) return json::Array{"md"};
  return json::Array{"unk"};
}

static json::Value constVal(const Constant *C, int depth) {
  if (auto *F = dyn_cast<Function>(C)) return json::Array{"f", F->getName()};
  if (auto *G = dyn_cast<GlobalVariable>(C)) return json::Array{"g", G->getName()};
  if (auto *GA = dyn_cast<GlobalAlias>(C)) return constVal(GA->getAliasee());
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    if (I->getBitWidth() <= 64)
      return json::Array{"ci", I->getSExtValue(), (int64_t)I->getBitWidth()};
    return json::Array{"unk"};
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    bool li; APFloat a = F->getValueAPF();
    bool isf = C->getType()->isFloatTy();
    a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    return json::Array{isf ? "cs" : "cf", hexDouble(a.convertToDouble())};
  }
  if (isa<ConstantPointerNull>(C)) return json::Array{"null"};
  if (isa<UndefValue>(C)) return json::Array{"undef", tyStr(C->getType())};
  if (isa<ConstantAggregateZero>(C)) return json::Array{"zero", (int64_t)DL->getTypeAllocSize(C->getType())};
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(E)) {
      APInt off(64, 0);
      if (G->accumulateConstantOffset(*DL, off))
        return json::Array{"cgep", constVal(cast<Constant>(G->getPointerOperand())), off.getSExtValue()};
    }
    json::Array a{"ce", E->getOpcodeName()};
    for (auto &o : E->operands()) a.push_back(constVal(cast<Constant>(o)));
    return a;
  }
  if (isa<ConstantAggregate>(C) || isa<ConstantDataSequential>(C)) {
    json::Array a{"agg"};
    unsigned n = isa<ConstantDataSequential>(C) ? cast<ConstantDataSequential>(C)->getNumElements() : C->getNumOperands();
    for (unsigned i = 0; i < n; i++) a.push_back(constVal(C->getAggregateElement(i)));
    return a;
  }
  return json::Array{"unk"};
}

// flatten an initialiser into [offset, value] scalars (zeros omitted)
static void flatten(const Constant *C, uint64_t off, json::Array &out) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *ST = dyn_cast<StructType>(T)) {
    auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      flatten(C->getAggregateElement(i), off + SL->getElementOffset(i), out);
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(AT->getElementType());
    for (unsigned i = 0; i < AT->getNumElements(); i++)
      flatten(C->getAggregateElement(i), off + i * es, out);
    return;
  }
  if (C->isNullValue()) return;
  out.push_back(json::Array{(int64_t)off, constVal(C)});
}
static void arrayDims(Type *T, json::Array &dims, Type *&elem) {
  while (auto *AT = dyn_cast<ArrayType>(T)) { dims.push_back((int64_t)AT->getNumElements()); T = AT->getElementType(); }
  elem = T;
}

static json::Value loc(const DebugLoc &D) {
  if (!D) return nullptr;
  auto *S = cast<DIScope>(D->getScope());
  return json::Array{S->getFilename(), (int64_t)D.getLine(), (int64_t)D.getCol()};
}

static json::Object dumpInst(const Instruction &I) {
  json::Object o;
  o["id"] = Ids[&I];
  o["op"] = I.getOpcodeName();
  o["ty"] = tyStr(I.getType());
  if (I.getDebugLoc()) o["loc"] = loc(I.getDebugLoc());
  auto ops = [&](const User &U) { json::Array a; for (auto &x : U.operands()) a.push_back(operand(x)); return a; };
  if (auto *P = dyn_cast<PHINode>(&I)) {
    json::Array a;
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
      a.push_back(json::Array{Ids[P->getIncomingBlock(i)], operand(P->getIncomingValue(i))});
    o["in"] = std::move(a);
    return o;
  }
  if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
    MapVector<Value *, APInt> vars; APInt c(64, 0);
    o["base"] = operand(G->getPointerOperand());
    if (G->collectOffset(*DL, 64, vars, c)) {
      o["off"] = c.getSExtValue();
      json::Array a;
      for (auto &kv : vars) a.push_back(json::Array{operand(kv.first), kv.second.getSExtValue()});
      o["vars"] = std::move(a);
    }
    // array dimension info for bounds reasoning
    json::Array idx;
    Type *cur = G->getSourceElementType();
    for (unsigned i = 0; i < G->getNumIndices(); i++) {
      const Value *iv = G->getOperand(i + 1);
      int64_t n = -1, st = 0; const char *k = "a";
      if (i == 0) { st = (int64_t)DL->getTypeAllocSize(cur).getFixedValue(); }
      else if (auto *AT = dyn_cast<ArrayType>(cur)) { n = AT->getNumElements(); cur = AT->getElementType(); st = (int64_t)DL->getTypeAllocSize(cur).getFixedValue(); }
      else if (auto *ST = dyn_cast<StructType>(cur)) { k = "s"; cur = ST->getElementType(cast<ConstantInt>(iv)->getZExtValue()); }
      idx.push_back(json::Array{operand(iv), k, n, st});
    }
    o["idx"] = std::move(idx);
    return o;
  }
  if (auto *C = dyn_cast<CallBase>(&I)) {
    json::Array a;
    for (auto &x : C->args()) a.push_back(operand(x));
    o["args"] = std::move(a);
    o["callee"] = operand(C->getCalledOperand()->stripPointerCasts());
    if (C->hasStructRetAttr()) o["sret"] = 1;
    return o;
  }
  if (auto *A = dyn_cast<AllocaInst>(&I)) {
    o["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType());
    o["aty"] = tyStr(A->getAllocatedType());
    return o;
  }
  if (auto *L = dyn_cast<LoadInst>(&I)) { o["sz"] = (int64_t)DL->getTypeStoreSize(L->getType()); }
  if (auto *S = dyn_cast<StoreInst>(&I)) { o["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); o["vty"] = tyStr(S->getValueOperand()->getType()); }
  if (auto *C = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(C->getPredicate()); o["oty"] = tyStr(C->getOperand(0)->getType()); }
  if (auto *C = dyn_cast<CastInst>(&I)) o["sty"] = tyStr(C->getSrcTy());
  if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array a; for (unsigned i : E->indices()) a.push_back((int64_t)i); o["ix"] = std::move(a); }
  if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array a; for (unsigned i : E->indices()) a.push_back((int64_t)i); o["ix"] = std::move(a); }
  if (auto *PE = dyn_cast<PossiblyExactOperator>(&I)) if (PE->isExact()) o["exact"] = 1;
  if (auto *B = dyn_cast<BranchInst>(&I)) {
    json::Array s; for (unsigned i = 0; i < B->getNumSuccessors(); i++) s.push_back(Ids[B->getSuccessor(i)]);
    o["succ"] = std::move(s);
    if (B->isConditional()) o["cond"] = operand(B->getCondition());
    return o;
  }
  if (auto *S = dyn_cast<SwitchInst>(&I)) {
    o["cond"] = operand(S->getCondition());
    o["default"] = Ids[S->getDefaultDest()];
    json::Array a;
    for (auto &c : S->cases()) a.push_back(json::Array{c.getCaseValue()->getSExtValue(), Ids[c.getCaseSuccessor()]});
    o["cases"] = std::move(a);
    return o;
  }
  o["ops"] = ops(I);
  return o;
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irdump in.bc out.json\n"; return 2; }
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  json::Object root;
  DebugInfoFinder Fnd; Fnd.processModule(*M);
  for (auto *T : Fnd.types()) tyId(T);

  json::Object globals;
  for (auto &G : M->globals()) {
    json::Object o;
    o["dem"] = demangle(G.getName().str());
    o["const"] = G.isConstant();
    o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    o["ty"] = tyStr(G.getValueType());
    json::Array dims; Type *el; arrayDims(G.getValueType(), dims, el);
    o["dims"] = std::move(dims); o["elty"] = tyStr(el); o["elsz"] = (int64_t)DL->getTypeAllocSize(el);
    o["linkage"] = (int64_t)G.getLinkage();
    o["decl"] = G.isDeclaration();
    SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
    if (!gv.empty()) {
      auto *V = gv[0]->getVariable();
      o["diname"] = V->getName(); o["diline"] = (int64_t)V->getLine(); o["difile"] = V->getFilename();
      o["local"] = isa_and_nonnull<DILocalScope>(V->getScope());
      o["ditype"] = tyId(V->getType());
      if (auto *S = V->getScope()) o["discope"] = S->getName();
    }
    if (G.hasInitializer()) { json::Array a; flatten(G.getInitializer(), 0, a); o["init"] = std::move(a); }
    globals[G.getName()] = std::move(o);
  }
  json::Object funcs;
  int next = 0;
  for (auto &F : M->functions()) {
    json::Object o;
    o["dem"] = demangle(F.getName().str());
    o["decl"] = F.isDeclaration();
    o["rty"] = tyStr(F.getReturnType());
    o["linkage"] = (int64_t)F.getLinkage();
    o["noreturn"] = F.doesNotReturn();
    o["addrtaken"] = F.hasAddressTaken();
    json::Array as;
    for (auto &A : F.args()) {
      json::Object a; a["ty"] = tyStr(A.getType());
      if (A.hasStructRetAttr()) { a["sret"] = tyStr(A.getParamStructRetType()); a["sretsz"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType()); }
      if (A.hasByValAttr()) { a["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()); }
      as.push_back(std::move(a));
    }
    o["args"] = std::move(as);
    if (auto *SP = F.getSubprogram()) {
      o["diname"] = SP->getName(); o["file"] = SP->getFilename(); o["line"] = (int64_t)SP->getLine();
      if (auto *S = SP->getScope()) { o["scope"] = S->getName(); }
      json::Array pt;
      if (auto *ST = SP->getType()) for (auto *T : ST->getTypeArray()) pt.push_back(tyId(T));
      o["ditypes"] = std::move(pt);
      json::Array pn;
      for (auto *N : SP->getRetainedNodes())
        if (auto *LV = dyn_cast<DILocalVariable>(N)) if (LV->getArg()) pn.push_back(json::Array{(int64_t)LV->getArg(), LV->getName(), tyId(LV->getType())});
      // parameters described by dbg intrinsics
      std::map<unsigned, const DILocalVariable *> seen;
      for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I))
        if (auto *LV = D->getVariable()) if (LV->getArg() && LV->getScope()->getSubprogram() == SP && !D->getDebugLoc()->getInlinedAt()) seen[LV->getArg()] = LV;
      for (auto &kv : seen) pn.push_back(json::Array{(int64_t)kv.first, kv.second->getName(), tyId(kv.second->getType())});
      o["params"] = std::move(pn);
    }
    if (!F.isDeclaration()) {
      Ids.clear(); int n = 0;
      for (auto &B : F) Ids[&B] = n++;
      int k = 0;
      for (auto &B : F) for (auto &I : B) Ids[&I] = k++;
      json::Array bs;
      for (auto &B : F) {
        json::Array is;
        for (auto &I : B) { if (isa<DbgInfoIntrinsic>(&I)) continue; is.push_back(dumpInst(I)); }
        bs.push_back(std::move(is));
      }
      o["blocks"] = std::move(bs);
    }
    funcs[F.getName()] = std::move(o);
  }
  (void)next;
  // types (list may grow while dumping)
  json::Array types;
  for (size_t i = 0; i < TyList.size(); i++) {
    const DIType *T = TyList[i]; json::Object o;
    o["name"] = T->getName(); o["size"] = (int64_t)(T->getSizeInBits() / 8); o["tag"] = dwarf::TagString(T->getTag());
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      json::Array ms;
      for (auto *E : C->getElements()) {
        if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) {
          if (D->isStaticMember()) continue;
          if (D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance)
            ms.push_back(json::Array{D->getName(), (int64_t)(D->getOffsetInBits() / 8), tyId(D->getBaseType()), dwarf::TagString(D->getTag()), (int64_t)D->getFlags()});
        } else if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) {
          ms.push_back(json::Array{En->getName(), En->getValue().getSExtValue()});
        } else if (auto *SR = dyn_cast_or_null<DISubrange>(E)) {
          int64_t c = -1; if (auto *CI = dyn_cast_if_present<ConstantInt *>(SR->getCount())) c = CI->getSExtValue();
          ms.push_back(json::Array{"#", c});
        }
      }
      o["members"] = std::move(ms);
      o["base"] = tyId(C->getBaseType());
      o["id"] = C->getIdentifier();
      if (auto *S = C->getScope()) o["scope"] = S->getName();
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      o["base"] = tyId(D->getBaseType());
    }
    types.push_back(std::move(o));
  }
  root["globals"] = std::move(globals); root["functions"] = std::move(funcs); root["types"] = std::move(types);
  std::error_code EC; raw_fd_ostream os(argv[2], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  os << json::Value(std::move(root)) << "\n";
  return 0;
}
