// rkir: links LLVM bitcode of the library, flattens it (inlines everything that is defined
// in the repository plus trivial std accessors), normalises it and dumps it as JSON.
// Usage: rkir OUT.json REPO_DIR OPTIONS... -- a.bc b.bc ...
//   --opaque REGEX     repository functions (demangled name) that are NOT inlined
//   --inline REGEX     non repository functions that ARE inlined
//   --emit REGEX       functions that are emitted (default: all functions defined in repo files)
//   --keep-eh          keep invoke/landingpad
//   --no-inline        no inlining at all
#include "llvm/ADT/SCCIterator.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static std::string repo;
static std::string subprogramFile(const DISubprogram *S) {
  if (!S || !S->getFile()) return "";
  std::string f = S->getFile()->getFilename().str();
  if (!f.empty() && f[0] != '/') f = S->getFile()->getDirectory().str() + "/" + f;
  return f;
}
static bool isRepo(const Function &F) {
  auto *S = F.getSubprogram();
  if (!S) return false;
  return StringRef(subprogramFile(S)).starts_with(repo + "/");
}
static std::map<const Function *, std::string> dm;
static const std::string &dem(const Function &F) {
  auto it = dm.find(&F);
  if (it != dm.end()) return it->second;
  return dm[&F] = demangle(F.getName().str());
}
// ---- DI types
static std::map<const DIType *, int> ditId;
static std::vector<const DIType *> ditList;
static std::string scopeName(const DIScope *S) {
  if (!S) return "";
  if (isa<DIFile>(S) || isa<DICompileUnit>(S)) return "";
  std::string p = scopeName(S->getScope());
  std::string n = S->getName().str();
  if (isa<DINamespace>(S) && n.empty()) n = "(anonymous namespace)";
  if (isa<DILexicalBlockBase>(S)) return p;
  return p.empty() ? n : p + "::" + n;
}
static int tid(const DIType *T) {
  if (!T) return -1;
  auto it = ditId.find(T);
  if (it != ditId.end()) return it->second;
  int k = ditList.size();
  ditId[T] = k;
  ditList.push_back(T);
  return k;
}
static json::Value dumpType(const DIType *T) {
  json::Object o;
  std::string n = T->getName().str();
  if (isa<DICompositeType>(T)) n = scopeName(T);
  o["n"] = n;
  o["sz"] = (int64_t)(T->getSizeInBits() / 8);
  if (auto *B = dyn_cast<DIBasicType>(T)) {
    o["k"] = "basic";
    o["enc"] = (int64_t)B->getEncoding();
  } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: o["k"] = "ptr"; break;
    case dwarf::DW_TAG_reference_type: o["k"] = "ref"; break;
    case dwarf::DW_TAG_rvalue_reference_type: o["k"] = "rref"; break;
    case dwarf::DW_TAG_const_type: o["k"] = "const"; break;
    case dwarf::DW_TAG_typedef: o["k"] = "typedef"; break;
    case dwarf::DW_TAG_volatile_type: o["k"] = "volatile"; break;
    default: o["k"] = "derived"; break;
    }
    o["b"] = tid(D->getBaseType());
  } else if (auto *C = dyn_cast<DICompositeType>(T)) {
    o["k"] = C->getTag() == dwarf::DW_TAG_array_type ? "array"
             : C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "struct";
    o["id"] = C->getIdentifier();
    if (C->getTag() == dwarf::DW_TAG_array_type) o["b"] = tid(C->getBaseType());
    json::Array m;
    if (C->getTag() != dwarf::DW_TAG_enumeration_type)
      for (auto *E : C->getElements())
        if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) {
          if (D->isStaticMember()) continue;
          if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
          m.push_back(json::Object{{"n", D->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : D->getName().str()},
                                   {"o", (int64_t)(D->getOffsetInBits() / 8)},
                                   {"t", tid(D->getBaseType())}});
        }
    o["m"] = std::move(m);
    json::Array ta;
    for (auto *P : C->getTemplateParams())
      if (auto *TP = dyn_cast_or_null<DITemplateTypeParameter>(P)) ta.push_back(tid(TP->getType()));
    o["ta"] = std::move(ta);
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
      json::Array e;
      for (auto *E : C->getElements())
        if (auto *En = dyn_cast_or_null<DIEnumerator>(E))
          e.push_back(json::Object{{"n", En->getName().str()}, {"v", En->getValue().getSExtValue()}});
      o["e"] = std::move(e);
    }
  } else
    o["k"] = "other";
  return o;
}
static std::string typeStr(Type *T) {
  std::string s;
  raw_string_ostream os(s);
  T->print(os, false, true);
  return os.str();
}
struct UseInfo { bool fromRepo = false, fromOther = false, addr = false; };
static std::map<const Function *, UseInfo> useInfo;
static std::set<const Function *> recursiveFns;
static std::map<const DILocation *, int> locId;
static std::vector<json::Value> locList;
struct Emitter {
  const DataLayout &DL;
  std::map<const Value *, int> id;
  json::Value constant(const Constant *C) {
    json::Object o;
    if (auto *I = dyn_cast<ConstantInt>(C)) {
      o["c"] = llvm::toString(I->getValue(), 10, false);
      o["w"] = (int64_t)I->getBitWidth();
    } else if (auto *F = dyn_cast<ConstantFP>(C)) {
      SmallString<32> s;
      F->getValueAPF().toString(s);
      o["f"] = s.str().str();
    } else if (isa<ConstantPointerNull>(C)) o["null"] = 1;
    else if (auto *F = dyn_cast<Function>(C)) { o["fn"] = F->getName().str(); }
    else if (auto *G = dyn_cast<GlobalVariable>(C)) {
      o["g"] = G->getName().str();
    } else if (isa<UndefValue>(C)) o["undef"] = 1;
    else if (auto *E = dyn_cast<ConstantExpr>(C)) {
      o["ce"] = E->getOpcodeName();
      if (auto *GEP = dyn_cast<GEPOperator>(E)) {
        APInt off(64, 0);
        if (GEP->accumulateConstantOffset(DL, off)) o["off"] = off.getSExtValue();
      }
      json::Array a;
      for (auto &U : E->operands()) a.push_back(constant(cast<Constant>(U.get())));
      o["ops"] = std::move(a);
    } else if (isa<ConstantAggregateZero>(C)) o["zero"] = 1;
    else if (auto *DV = dyn_cast<ConstantDataSequential>(C)) {
      o["vec"] = 1;
      if (DV->isCString() || DV->isString()) o["str"] = json::fixUTF8(DV->getAsString());
      else {
        json::Array a;
        for (unsigned i = 0; i < DV->getNumElements(); ++i) a.push_back(constant(DV->getElementAsConstant(i)));
        o["elts"] = std::move(a);
      }
    } else if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      json::Array a;
      for (auto &U : CA->operands()) a.push_back(constant(cast<Constant>(U.get())));
      o["agg"] = std::move(a);
    } else o["other"] = typeStr(C->getType());
    return o;
  }
  json::Value ref(const Value *V) {
    if (auto *A = dyn_cast<Argument>(V)) return json::Object{{"a", (int64_t)A->getArgNo()}};
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (auto *B = dyn_cast<BasicBlock>(V)) return json::Object{{"b", id[B]}};
    if (auto *MV = dyn_cast<MetadataAsValue>(V)) { (void)MV; return json::Object{{"md", 1}}; }
    if (isa<InlineAsm>(V)) return json::Object{{"asm", 1}};
    return json::Object{{"v", id[V]}};
  }
  json::Value loc(const DILocation *L) {
    auto it = locId.find(L);
    if (it != locId.end()) return it->second;
    int k = locList.size();
    locId[L] = k;
    locList.push_back(nullptr);
    locList[k] = mkloc(L);
    return k;
  }
  json::Value mkloc(const DILocation *L) {
    json::Array a;
    for (; L; L = L->getInlinedAt()) {
      auto *SP = L->getScope()->getSubprogram();
      std::string f = SP ? L->getFilename().str() : "";
      if (!f.empty() && f[0] != '/') f = L->getDirectory().str() + "/" + f;
      a.push_back(json::Array{f, (int64_t)L->getLine(), (int64_t)L->getColumn(), SP ? SP->getName().str() : ""});
    }
    return a;
  }
  json::Value emit(Function &F) {
    int n = 0, bn = 0;
    for (auto &B : F) {
      id[&B] = bn++;
      for (auto &I : B) id[&I] = n++;
    }
    std::map<const Value *, std::vector<std::pair<std::string, int>>> varName;
    for (auto &B : F)
      for (auto &I : B)
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I))
          for (auto *V : D->location_ops())
            if (V && D->getVariable())
              varName[V].push_back({D->getVariable()->getName().str(), tid(D->getVariable()->getType())});
    json::Object o;
    o["name"] = F.getName().str();
    o["dem"] = dem(F);
    o["link"] = F.hasLocalLinkage() ? "internal" : F.isWeakForLinker() ? "odr" : "external";
    auto &UI = useInfo[&F];
    if (UI.fromRepo) o["from_repo"] = 1;
    if (UI.fromOther) o["from_other"] = 1;
    if (UI.addr) o["addr"] = 1;
    if (recursiveFns.count(&F)) o["rec"] = 1;
    auto *SP = F.getSubprogram();
    o["file"] = subprogramFile(SP);
    o["line"] = SP ? (int64_t)SP->getLine() : 0;
    o["sname"] = SP ? SP->getName().str() : "";
    o["scope"] = SP ? scopeName(SP->getScope()) : "";
    if (SP) o["decl"] = SP->getDeclaration() ? scopeName(SP->getDeclaration()->getScope()) : "";
    json::Array sig;
    if (SP && SP->getType())
      for (auto *T : SP->getType()->getTypeArray()) sig.push_back(tid(T));
    o["sig"] = std::move(sig);
    json::Array params;
    std::map<unsigned, const DILocalVariable *> pv;
    for (auto &B : F)
      for (auto &I : B)
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I))
          if (D->getVariable()->getArg() && !D->getDebugLoc()->getInlinedAt()) pv[D->getVariable()->getArg()] = D->getVariable();
    for (auto *N : SP ? SP->getRetainedNodes() : DINodeArray()) if (auto *LV = dyn_cast<DILocalVariable>(N)) if (LV->getArg()) pv[LV->getArg()] = LV;
    json::Array pvs;
    for (auto &p : pv) pvs.push_back(json::Object{{"i", (int64_t)p.first}, {"n", p.second->getName().str()}, {"t", tid(p.second->getType())}});
    o["pvars"] = std::move(pvs);
    for (auto &A : F.args()) {
      json::Object p{{"ty", typeStr(A.getType())}, {"nm", A.getName().str()}};
      if (A.hasStructRetAttr()) p["sret"] = 1;
      json::Array vn;
      for (auto &v : varName[&A]) vn.push_back(json::Array{v.first, v.second});
      p["vars"] = std::move(vn);
      params.push_back(std::move(p));
    }
    o["params"] = std::move(params);
    o["rty"] = typeStr(F.getReturnType());
    json::Array blocks;
    for (auto &B : F) {
      json::Array insts;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I))
          if (II->isLifetimeStartOrEnd()) continue;
        json::Object io;
        io["i"] = id[&I];
        io["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) io["ty"] = typeStr(I.getType());
        json::Array ops;
        if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) {
            ops.push_back(ref(P->getIncomingValue(k)));
          }
          json::Array in;
          for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) in.push_back(id[P->getIncomingBlock(k)]);
          io["in"] = std::move(in);
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          for (auto &U : C->args()) ops.push_back(ref(U.get()));
          auto *Cal = C->getCalledFunction();
          if (!Cal) Cal = dyn_cast<Function>(C->getCalledOperand()->stripPointerCastsAndAliases());
          if (Cal) {
            io["fn"] = Cal->getName().str();
            io["dem"] = dem(*Cal);
            if (Cal->doesNotReturn() || C->doesNotReturn()) io["noret"] = 1;
          } else
            io["fp"] = ref(C->getCalledOperand());
          if (C->doesNotThrow()) io["nounwind"] = 1;
          if (C->arg_size() && C->paramHasAttr(0, Attribute::StructRet)) io["sret"] = 1;
          if (auto *IV = dyn_cast<InvokeInst>(&I)) {
            io["normal"] = id[IV->getNormalDest()];
            io["unwind"] = id[IV->getUnwindDest()];
          }
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) ops.push_back(ref(Br->getCondition()));
          json::Array s;
          for (unsigned k = 0; k < Br->getNumSuccessors(); ++k) s.push_back(id[Br->getSuccessor(k)]);
          io["succ"] = std::move(s);
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(ref(Sw->getCondition()));
          json::Array s, cv;
          s.push_back(id[Sw->getDefaultDest()]);
          for (auto &c : Sw->cases()) {
            s.push_back(id[c.getCaseSuccessor()]);
            cv.push_back(llvm::toString(c.getCaseValue()->getValue(), 10, true));
          }
          io["succ"] = std::move(s);
          io["cases"] = std::move(cv);
        } else
          for (auto &U : I.operands()) ops.push_back(ref(U.get()));
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          io["sty"] = typeStr(G->getSourceElementType());
          io["rety"] = typeStr(G->getResultElementType());
          if (G->isInBounds()) io["inb"] = 1;
          MapVector<Value *, APInt> vo;
          APInt co(64, 0);
          if (cast<GEPOperator>(G)->collectOffset(DL, 64, vo, co)) {
            io["off"] = co.getSExtValue();
            json::Array v;
            for (auto &p : vo) v.push_back(json::Array{ref(p.first), p.second.getSExtValue()});
            io["var"] = std::move(v);
          }
        } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
          io["aty"] = typeStr(A->getAllocatedType());
          if (A->getAllocatedType()->isSized()) io["asz"] = (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getKnownMinValue();
        } else if (auto *Cmp = dyn_cast<CmpInst>(&I))
          io["pred"] = CmpInst::getPredicateName(Cmp->getPredicate()).str();
        else if (auto *St = dyn_cast<StoreInst>(&I)) {
          io["vty"] = typeStr(St->getValueOperand()->getType());
          if (St->isAtomic()) io["atomic"] = 1;
          if (St->isVolatile()) io["vol"] = 1;
        } else if (auto *Ld = dyn_cast<LoadInst>(&I)) {
          if (Ld->isAtomic()) io["atomic"] = 1;
          if (Ld->isVolatile()) io["vol"] = 1;
        } else if (auto *RMW = dyn_cast<AtomicRMWInst>(&I)) io["rmw"] = AtomicRMWInst::getOperationName(RMW->getOperation()).str();
        else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
          json::Array x;
          for (auto i : EV->indices()) x.push_back((int64_t)i);
          io["idx"] = std::move(x);
        } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
          json::Array x;
          for (auto i : IV->indices()) x.push_back((int64_t)i);
          io["idx"] = std::move(x);
        }
        if (auto *C = dyn_cast<CastInst>(&I)) io["sfrom"] = typeStr(C->getSrcTy());
        if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) {
          if (OB->hasNoSignedWrap()) io["nsw"] = 1;
          if (OB->hasNoUnsignedWrap()) io["nuw"] = 1;
        }
        io["ops"] = std::move(ops);
        auto vi = varName.find(&I);
        if (vi != varName.end()) {
          json::Array vn;
          for (auto &v : vi->second) vn.push_back(json::Array{v.first, v.second});
          io["vars"] = std::move(vn);
        }
        if (I.getDebugLoc()) io["loc"] = loc(I.getDebugLoc().get());
        insts.push_back(std::move(io));
      }
      blocks.push_back(std::move(insts));
    }
    o["blocks"] = std::move(blocks);
    return o;
  }
};
// Replace calls of std::min/std::max on integers by plain loads + select (value semantics).
static void expandMinMax(Module &M) {
  std::vector<CallInst *> todo;
  for (auto &F : M)
    for (auto &B : F)
      for (auto &I : B)
        if (auto *C = dyn_cast<CallInst>(&I))
          if (auto *Cal = C->getCalledFunction()) {
            StringRef d = dem(*Cal);
            if (C->arg_size() == 2 && (d.contains(" std::min<") || d.contains(" std::max<"))) todo.push_back(C);
          }
  for (auto *C : todo) {
    StringRef d = dem(*C->getCalledFunction());
    bool isMin = d.contains("std::min<");
    size_t p = d.find("<"), q = d.find(">", p);
    StringRef t = d.slice(p + 1, q);
    unsigned bits = 0;
    bool sg = false;
    if (t == "unsigned int") bits = 32;
    else if (t == "int") bits = 32, sg = true;
    else if (t == "unsigned long" || t == "unsigned long long") bits = 64;
    else if (t == "long" || t == "long long") bits = 64, sg = true;
    else if (t == "unsigned short") bits = 16;
    else if (t == "unsigned char") bits = 8;
    else continue;
    IRBuilder<> EB(&C->getFunction()->getEntryBlock().front());
    Type *T = IntegerType::get(C->getContext(), bits);
    auto *A = EB.CreateAlloca(T);
    IRBuilder<> B(C);
    B.SetCurrentDebugLocation(C->getDebugLoc());
    auto *l = B.CreateLoad(T, C->getArgOperand(0)), *r = B.CreateLoad(T, C->getArgOperand(1));
    Value *v = B.CreateBinaryIntrinsic(isMin ? (sg ? Intrinsic::smin : Intrinsic::umin) : (sg ? Intrinsic::smax : Intrinsic::umax), l, r);
    B.CreateStore(v, A);
    C->replaceAllUsesWith(A);
    C->eraseFromParent();
  }
}
int main(int argc, char **argv) {
  std::string out = argv[1];
  repo = argv[2];
  std::vector<std::string> opaque, inl, emitR, files;
  bool keepEh = false, noInline = false, rest = false, noSimplify = false;
  for (int i = 3; i < argc; ++i) {
    std::string a = argv[i];
    if (rest) files.push_back(a);
    else if (a == "--") rest = true;
    else if (a == "--opaque") opaque.push_back(argv[++i]);
    else if (a == "--inline") inl.push_back(argv[++i]);
    else if (a == "--emit") emitR.push_back(argv[++i]);
    else if (a == "--keep-eh") keepEh = true;
    else if (a == "--no-inline") noInline = true;
    else if (a == "--no-simplify") noSimplify = true;
  }
  LLVMContext Ctx;
  std::unique_ptr<Module> M;
  for (auto &f : files) {
    SMDiagnostic Err;
    auto m = parseIRFile(f, Err, Ctx);
    if (!m) { Err.print("rkir", errs()); return 2; }
    // keep unreferenced inline functions of the repository
    for (auto &F : *m)
      if (!F.isDeclaration() && F.hasLinkOnceODRLinkage() && isRepo(F)) F.setLinkage(GlobalValue::WeakODRLinkage);
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) return 2;
  }
  auto matchAny = [](const std::vector<std::string> &rs, const std::string &s) {
    for (auto &r : rs) if (Regex(r).match(s)) return true;
    return false;
  };
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  SimplifyCFGOptions SO;
  SO.bonusInstThreshold(0).forwardSwitchCondToPhi(false).convertSwitchRangeToICmp(true).convertSwitchToLookupTable(false).needCanonicalLoops(true).hoistCommonInsts(false).sinkCommonInsts(false).setSimplifyCondBranch(true).speculateBlocks(false);
  auto mk = [&]() {
    FunctionPassManager P;
    P.addPass(SROAPass(SROAOptions::PreserveCFG));
    P.addPass(EarlyCSEPass(true));
    P.addPass(InstCombinePass());
    P.addPass(SimplifyCFGPass(SO));
    P.addPass(SROAPass(SROAOptions::PreserveCFG));
    P.addPass(EarlyCSEPass(true));
    P.addPass(InstCombinePass());
    P.addPass(DCEPass());
    return P;
  };
  expandMinMax(*M);
  for (auto &F : *M)
    for (auto &U : F.uses()) {
      auto &UI = useInfo[&F];
      auto *C = dyn_cast<CallBase>(U.getUser());
      if (C && C->isCallee(&U)) {
        if (isRepo(*C->getFunction())) UI.fromRepo = true;
        else UI.fromOther = true;
      } else
        UI.addr = true;
    }
  std::set<Function *> canInline;
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    if (F.isDeclaration()) continue;
    bool r = isRepo(F);
    if (r ? !matchAny(opaque, dem(F)) : matchAny(inl, dem(F))) canInline.insert(&F);
  }
  auto tryRun = [&](Function &F) {
    if (noSimplify) { FunctionPassManager P; P.addPass(PromotePass()); P.run(F, FAM); FAM.invalidate(F, PreservedAnalyses::none()); return; }
    auto P = mk();
    P.run(F, FAM);
    FAM.invalidate(F, PreservedAnalyses::none());
  };
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (!isRepo(F) && !canInline.count(&F)) continue;
    if (!keepEh) {
      FunctionPassManager P;
      P.addPass(LowerInvokePass());
      P.run(F, FAM);
      FAM.invalidate(F, PreservedAnalyses::none());
      FunctionPassManager P2; P2.addPass(SimplifyCFGPass(SO)); P2.run(F, FAM); FAM.invalidate(F, PreservedAnalyses::none());
    }
    tryRun(F);
  }
  if (!noInline) {
    CallGraph CG(*M);
    std::vector<Function *> order;
    std::set<Function *> recursive;
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      for (auto *N : *it)
        if (auto *F = N->getFunction()) {
          order.push_back(F);
          if (it->size() > 1 || it.hasCycle()) recursive.insert(F);
        }
    }
    for (auto *F : recursive) recursiveFns.insert(F);
    for (auto *F : order) {
      if (F->isDeclaration()) continue;
      if (!isRepo(*F) && !canInline.count(F)) continue;
      bool changed = true;
      int rounds = 0;
      while (changed && rounds++ < 4) {
        changed = false;
        std::vector<CallBase *> calls;
        for (auto &B : *F)
          for (auto &I : B)
            if (auto *C = dyn_cast<CallBase>(&I))
              if (auto *Cal = C->getCalledFunction())
                if (canInline.count(Cal) && !recursive.count(Cal) && Cal != F) calls.push_back(C);
        for (auto *C : calls) {
          InlineFunctionInfo IFI;
          if (InlineFunction(*C, IFI).isSuccess()) changed = true;
        }
      }
      FAM.invalidate(*F, PreservedAnalyses::none());
      tryRun(*F);
      if (!noSimplify) tryRun(*F);
    }
  }
  json::Object root;
  json::Array fns;
  unsigned cnt = 0;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    bool e = emitR.empty() ? isRepo(F) : matchAny(emitR, dem(F));
    if (!e) continue;
    Emitter E{M->getDataLayout(), {}};
    fns.push_back(E.emit(F));
    ++cnt;
  }
  root["functions"] = std::move(fns);
  json::Array gl;
  for (auto &G : M->globals()) {
    Emitter E{M->getDataLayout(), {}};
    json::Object g{{"name", G.getName().str()}, {"dem", demangle(G.getName().str())}, {"ty", typeStr(G.getValueType())}, {"const", G.isConstant()}, {"decl", G.isDeclaration()}, {"tls", G.isThreadLocal()}};
    SmallVector<DIGlobalVariableExpression *, 1> GVs;
    G.getDebugInfo(GVs);
    for (auto *D : GVs) {
      auto *V = D->getVariable();
      std::string f = V->getFilename().str();
      if (!f.empty() && f[0] != '/') f = V->getDirectory().str() + "/" + f;
      g["file"] = f;
      g["line"] = (int64_t)V->getLine();
      g["t"] = tid(V->getType());
      g["vn"] = V->getName().str();
    }
    if (G.hasInitializer() && G.isConstant()) g["init"] = E.constant(G.getInitializer());
    gl.push_back(std::move(g));
  }
  root["globals"] = std::move(gl);
  json::Array ts;
  for (size_t i = 0; i < ditList.size(); ++i) ts.push_back(dumpType(ditList[i]));
  root["types"] = std::move(ts);
  json::Array ls;
  for (auto &l : locList) ls.push_back(std::move(l));
  root["locs"] = std::move(ls);
  std::error_code EC;
  raw_fd_ostream os(out, EC);
  os << json::Value(std::move(root));
  os << "\n";
  errs() << "rkir: " << cnt << " functions\n";
  return 0;
}
