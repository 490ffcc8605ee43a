// irdump: read LLVM bitcode of rgraph, inline every function that is not part of the
// reference API (helpers a refactoring introduced), normalise, and write the result as JSON.
//
// usage: irdump --api=FILE --mode=raw|ssa --only-file=SUBSTR --out=FILE a.bc [b.bc ...]
#include "llvm/ADT/StringSet.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore, cl::desc("<bitcode>"));
static cl::opt<std::string> Api("api", cl::desc("list of functions that must stay un-inlined"));
static cl::opt<std::string> Mode("mode", cl::init("ssa"));
static cl::opt<std::string> OnlyFile("only-file", cl::init(""));
static cl::opt<std::string> Out("out", cl::init("-"));
static cl::opt<bool> NoInline("no-inline", cl::init(false));

static std::map<std::string, std::vector<std::pair<uint64_t, std::string>>> StructMembers;

static void collectStructs(Module &M) {
  DebugInfoFinder F;
  F.processModule(M);
  std::map<const DICompositeType *, std::string> TDName;
  for (DIType *T : F.types())
    if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (C->getName().empty()) TDName[C] = D->getName().str();
  for (DIType *T : F.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->getTag() != dwarf::DW_TAG_structure_type) continue;
    std::string N = C->getName().empty() ? TDName[C] : C->getName().str();
    if (N.empty()) continue;
    std::vector<std::pair<uint64_t, std::string>> Ms;
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast_or_null<DIDerivedType>(E))
        if (D->getTag() == dwarf::DW_TAG_member)
          Ms.push_back({D->getOffsetInBits() / 8, D->getName().str()});
    if (!Ms.empty()) StructMembers[N] = Ms;
  }
}

static std::string diType(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 8) return "?";
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string S = diType(C->getBaseType(), depth + 1);
      for (auto *E : C->getElements())
        if (auto *R = dyn_cast_or_null<DISubrange>(E)) {
          auto Cnt = R->getCount();
          if (auto *CI = dyn_cast_if_present<ConstantInt *>(Cnt))
            S += "[" + std::to_string(CI->getSExtValue()) + "]";
          else S += "[]";
        }
      return S;
    }
    if (C->getTag() == dwarf::DW_TAG_structure_type) return "struct " + C->getName().str();
    return C->getName().str();
  }
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diType(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_typedef: {
      if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
        if (C->getName().empty()) return "struct " + D->getName().str();
      if (D->getName() == "FILE" || D->getName() == "gsl_rng") return D->getName().str();
      return diType(D->getBaseType(), depth + 1);
    }
    default: return diType(D->getBaseType(), depth + 1);
    }
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return "?";
}

static std::string tyStr(Type *T) {
  std::string S;
  raw_string_ostream OS(S);
  if (auto *ST = dyn_cast<StructType>(T)) {
    if (ST->hasName()) {
      StringRef N = ST->getName();
      N.consume_front("struct.");
      // llvm-link renames duplicates struct.x.12
      size_t p = N.rfind('.');
      if (p != StringRef::npos && p + 1 < N.size() && N.substr(p + 1).find_first_not_of("0123456789") == StringRef::npos)
        N = N.substr(0, p);
      return ("struct " + N).str();
    }
  }
  T->print(OS, false, true);
  return OS.str();
}
static std::string structBase(StructType *ST) {
  std::string s = tyStr(ST);
  if (s.rfind("struct ", 0) == 0) return s.substr(7);
  return s;
}
static std::string fieldName(StructType *ST, unsigned idx, const DataLayout &DL) {
  std::string b = structBase(ST);
  auto it = StructMembers.find(b);
  if (it == StructMembers.end()) return "#" + std::to_string(idx);
  uint64_t off = DL.getStructLayout(ST)->getElementOffset(idx);
  for (auto &p : it->second)
    if (p.first == off) return p.second;
  return "#" + std::to_string(idx);
}

struct FnDump {
  Function &F;
  const DataLayout &DL;
  json::OStream &J;
  std::map<const Value *, int> Id;
  std::map<const BasicBlock *, int> BId;
  FnDump(Function &F, json::OStream &J) : F(F), DL(F.getParent()->getDataLayout()), J(J) {}

  void gepPath(json::OStream &J, const GEPOperator *G) {
    J.attributeBegin("path");
    J.arrayBegin();
    Type *T = G->getSourceElementType();
    bool first = true;
    for (auto I = G->idx_begin(); I != G->idx_end(); ++I) {
      J.arrayBegin();
      if (first) {
        J.value("*");
        J.value(tyStr(T));
        J.value(op(*I));
        first = false;
      } else if (auto *ST = dyn_cast<StructType>(T)) {
        unsigned ix = cast<ConstantInt>(*I)->getZExtValue();
        J.value("f");
        J.value(structBase(ST));
        J.value(fieldName(ST, ix, DL));
        T = ST->getElementType(ix);
      } else if (auto *AT = dyn_cast<ArrayType>(T)) {
        J.value("a");
        J.value((int64_t)AT->getNumElements());
        J.value(op(*I));
        T = AT->getElementType();
      } else {
        J.value("?");
      }
      J.arrayEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
  }
  std::string op(const Value *V) {
    if (auto *A = dyn_cast<Argument>(V)) return "a" + std::to_string(A->getArgNo());
    if (auto *B = dyn_cast<BasicBlock>(V)) return "b" + std::to_string(BId[B]);
    if (isa<Instruction>(V)) {
      auto it = Id.find(V);
      return "%" + std::to_string(it == Id.end() ? -1 : it->second);
    }
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() == 1) return std::string("i:") + (C->isZero() ? "0" : "1");
      if (C->getBitWidth() <= 64) return "i:" + std::to_string(C->getSExtValue());
      return "i:big";
    }
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      char buf[64];
      APFloat v = C->getValueAPF();
      bool loses;
      v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &loses);
      snprintf(buf, sizeof buf, "f:%.17g", v.convertToDouble());
      return buf;
    }
    if (isa<ConstantPointerNull>(V)) return "null";
    if (isa<PoisonValue>(V)) return "undef";
    if (isa<UndefValue>(V)) return "undef";
    if (auto *G = dyn_cast<GlobalValue>(V)) return "@" + G->getName().str();
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE)) {
        APInt off(64, 0);
        if (G->accumulateConstantOffset(DL, off))
          return op(G->getPointerOperand()) + "+" + std::to_string(off.getSExtValue());
      }
      if (CE->isCast()) return op(CE->getOperand(0));
      return "ce";
    }
    if (isa<ConstantAggregateZero>(V)) return "zero";
    if (isa<InlineAsm>(V)) return "asm";
    if (isa<MetadataAsValue>(V)) return "md";
    return "?";
  }

  void run() {
    int n = 0, b = 0;
    for (auto &B : F) {
      BId[&B] = b++;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        Id[&I] = n++;
      }
    }
    auto *SP = F.getSubprogram();
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("file", SP ? SP->getFilename() : "");
    J.attribute("line", SP ? (int64_t)SP->getLine() : 0);
    J.attribute("local", F.hasLocalLinkage());
    J.attribute("ret", tyStr(F.getReturnType()));
    J.attribute("vararg", F.isVarArg());
    // argument names and C types
    std::map<unsigned, std::pair<std::string, std::string>> AN;
    std::map<const Value *, std::set<std::string>> VN;
    std::map<const Value *, std::string> VT;
    std::string retdi = "void";
    if (SP)
      if (auto *ST = SP->getType()) {
        auto A = ST->getTypeArray();
        if (A && A.size() > 0) retdi = diType(A[0]);
      }
    for (auto &B : F)
      for (auto &I : B)
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
          auto *Var = D->getVariable();
          bool inl = D->getDebugLoc() && D->getDebugLoc()->getInlinedAt();
          if (Var->getArg() && !inl) AN[Var->getArg() - 1] = {Var->getName().str(), diType(Var->getType())};
          for (Value *V : D->location_ops()) {
            if (!V) continue;
            std::string nm = Var->getName().str();
            if (inl) nm += "@inl";
            VN[V].insert(nm);
            VT[V] = diType(Var->getType());
          }
        }
    if (SP)
      for (auto *N : SP->getRetainedNodes())
        if (auto *Var = dyn_cast<DILocalVariable>(N))
          if (Var->getArg() && !AN.count(Var->getArg() - 1))
            AN[Var->getArg() - 1] = {Var->getName().str(), diType(Var->getType())};
    J.attribute("retc", retdi);
    J.attributeArray("args", [&] {
      for (auto &A : F.args()) {
        J.arrayBegin();
        auto it = AN.find(A.getArgNo());
        J.value(it == AN.end() ? "" : it->second.first);
        J.value(tyStr(A.getType()));
        J.value(it == AN.end() ? "" : it->second.second);
        J.arrayEnd();
      }
    });
    J.attributeArray("blocks", [&] {
      for (auto &B : F) {
        J.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          inst(I, VN, VT);
        }
        J.arrayEnd();
      }
    });
    J.objectEnd();
  }
  void inst(Instruction &I, std::map<const Value *, std::set<std::string>> &VN,
            std::map<const Value *, std::string> &VT) {
    J.objectBegin();
    J.attribute("i", Id[&I]);
    std::string opn = I.getOpcodeName();
    StringRef f0;
    if (auto *C = dyn_cast<CallBase>(&I))
      if (auto *CF = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()))
        if (CF->getName().starts_with("__rgf0$")) { f0 = CF->getName(); opn = "getelementptr"; }
    if (auto *C = dyn_cast<CmpInst>(&I)) {
      opn = isa<ICmpInst>(I) ? "icmp" : "fcmp";
      J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      J.attribute("oty", tyStr(C->getOperand(0)->getType()));
    }
    J.attribute("op", opn);
    J.attribute("ty", tyStr(I.getType()));
    if (auto &DLc = I.getDebugLoc()) {
      // outermost source position inside this function, plus the innermost one
      J.attribute("l", (int64_t)DLc.getLine());
      if (auto *IA = DLc->getInlinedAt()) {
        const DILocation *L = IA;
        while (L->getInlinedAt()) L = L->getInlinedAt();
        J.attribute("lo", (int64_t)L->getLine());
      }
    }
    auto it = VN.find(&I);
    if (it != VN.end()) {
      J.attributeArray("nm", [&] {
        for (auto &s : it->second) J.value(s);
      });
      J.attribute("ct", VT[&I]);
    }
    if (!f0.empty()) {
      auto parts = f0.substr(7).split('$');
      J.attributeArray("ops", [&] { J.value(op(cast<CallBase>(&I)->getArgOperand(0))); });
      J.attributeArray("path", [&] {
        J.arrayBegin(); J.value("*"); J.value(parts.first); J.value("i:0"); J.arrayEnd();
        J.arrayBegin(); J.value("f"); J.value(parts.first); J.value(parts.second); J.arrayEnd();
      });
    } else if (auto *P = dyn_cast<PHINode>(&I)) {
      J.attributeArray("ops", [&] {
        for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) J.value(op(P->getIncomingValue(k)));
      });
      J.attributeArray("in", [&] {
        for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) J.value(BId[P->getIncomingBlock(k)]);
      });
    } else if (auto *C = dyn_cast<CallBase>(&I)) {
      Value *cv = C->getCalledOperand()->stripPointerCasts();
      J.attribute("callee", isa<Function>(cv) ? cv->getName().str() : std::string(""));
      if (!isa<Function>(cv)) J.attribute("cv", op(cv));
      J.attributeArray("ops", [&] {
        for (auto &A : C->args()) J.value(op(A.get()));
      });
      J.attributeArray("at", [&] {
        for (auto &A : C->args()) J.value(tyStr(A.get()->getType()));
      });
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      J.attributeArray("ops", [&] { J.value(op(S->getCondition())); });
      J.attribute("def", BId[S->getDefaultDest()]);
      J.attributeArray("cases", [&] {
        for (auto &c : S->cases()) {
          J.arrayBegin();
          J.value(c.getCaseValue()->getSExtValue());
          J.value(BId[c.getCaseSuccessor()]);
          J.arrayEnd();
        }
      });
    } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
      J.attributeArray("ops", [&] {
        if (Br->isConditional()) J.value(op(Br->getCondition()));
      });
      J.attributeArray("succ", [&] {
        for (unsigned k = 0; k < Br->getNumSuccessors(); ++k) J.value(BId[Br->getSuccessor(k)]);
      });
    } else {
      J.attributeArray("ops", [&] {
        for (auto &O : I.operands()) J.value(op(O.get()));
      });
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) gepPath(J, cast<GEPOperator>(G));
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("aty", tyStr(A->getAllocatedType()));
        J.attribute("arr", A->isArrayAllocation());
        if (!A->isArrayAllocation()) J.attribute("sz", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
      }
      if (isa<StoreInst>(&I)) J.attribute("sty", tyStr(I.getOperand(0)->getType()));
    }
    J.objectEnd();
  }
};

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx;
  StringSet<> Keep;
  bool haveApi = false;
  if (!Api.empty()) {
    std::ifstream f(Api);
    std::string s;
    while (std::getline(f, s))
      if (!s.empty()) { Keep.insert(s); haveApi = true; }
  }
  std::unique_ptr<Module> M;
  for (auto &In : Inputs) {
    SMDiagnostic Err;
    auto X = parseIRFile(In, Err, Ctx);
    if (!X) { Err.print(argv[0], errs()); return 3; }
    if (!M) M = std::move(X);
    else if (Linker::linkModules(*M, std::move(X))) { errs() << "link failed " << In << "\n"; return 3; }
  }
  collectStructs(*M);
  std::vector<std::string> Inlined;
  if (haveApi && !NoInline) {
    for (auto &F : *M) {
      if (F.isDeclaration() || Keep.count(F.getName()) || F.getName() == "main") continue;
      if (F.isVarArg()) continue;
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::OptimizeNone);
      F.addFnAttr(Attribute::AlwaysInline);
      Inlined.push_back(F.getName().str());
    }
  }
  // keep accesses to the first field of a structure visible: "gep T, p, 0, 0" would be folded to p
  if (Mode == "ssa") {
    auto &DL = M->getDataLayout();
    std::vector<GetElementPtrInst *> Gs;
    for (auto &F : *M)
      for (auto &B : F)
        for (auto &I : B)
          if (auto *G = dyn_cast<GetElementPtrInst>(&I))
            if (G->getNumIndices() == 2 && isa<StructType>(G->getSourceElementType()) && G->hasAllZeroIndices() &&
                !isa<AllocaInst>(G->getPointerOperand()->stripPointerCasts()))
              Gs.push_back(G);
    for (auto *G : Gs) {
      auto *ST = cast<StructType>(G->getSourceElementType());
      std::string nm = "__rgf0$" + structBase(ST) + "$" + fieldName(ST, 0, DL);
      auto *FT = FunctionType::get(G->getType(), {G->getPointerOperand()->getType()}, false);
      FunctionCallee C = M->getOrInsertFunction(nm, FT);
      auto *Fn = cast<Function>(C.getCallee());
      Fn->setDoesNotAccessMemory();
      Fn->setDoesNotThrow();
      Fn->setWillReturn();
      auto *CI = CallInst::Create(FT, Fn, {G->getPointerOperand()}, "", G);
      CI->setDebugLoc(G->getDebugLoc());
      G->replaceAllUsesWith(CI);
      G->eraseFromParent();
    }
  }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (!Inlined.empty()) MPM.addPass(AlwaysInlinerPass(false));
  FunctionPassManager FPM;
  if (Mode == "ssa") {
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(PromotePass());
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(InstSimplifyPass());
    FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().hoistCommonInsts(false).sinkCommonInsts(false).convertSwitchToLookupTable(false).speculateBlocks(false).setSimplifyCondBranch(false)));
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(InstSimplifyPass());
    FPM.addPass(ADCEPass());
    FPM.addPass(LoopSimplifyPass());
  } else {
    // unreachable-code clean-up only
    FPM.addPass(DCEPass());
  }
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(*M, MAM);
  if (verifyModule(*M, &errs())) return 3;

  std::error_code EC;
  raw_fd_ostream OS(Out, EC);
  if (EC) return 3;
  json::OStream J(OS);
  J.objectBegin();
  J.attributeArray("inlined", [&] { for (auto &s : Inlined) J.value(s); });
  J.attributeObject("structs", [&] {
    for (auto &p : StructMembers)
      J.attributeArray(p.first, [&] { for (auto &m : p.second) J.value(m.second); });
  });
  J.attributeObject("structsize", [&] {
    for (auto *ST : M->getIdentifiedStructTypes())
      if (!ST->isOpaque()) J.attribute(structBase(ST), (int64_t)M->getDataLayout().getTypeAllocSize(ST).getFixedValue());
  });
  J.attributeObject("structtypes", [&] {
    for (auto *ST : M->getIdentifiedStructTypes())
      if (!ST->isOpaque())
        J.attributeArray(structBase(ST), [&] { for (auto *E : ST->elements()) J.value(tyStr(E)); });
  });
  J.attributeObject("globals", [&] {
    for (auto &G : M->globals()) {
      J.attributeBegin(G.getName());
      J.objectBegin();
      J.attribute("const", G.isConstant());
      J.attribute("decl", G.isDeclaration());
      J.attribute("local", G.hasLocalLinkage());
      J.attribute("ty", tyStr(G.getValueType()));
      if (G.hasInitializer())
        if (auto *CDS = dyn_cast<ConstantDataSequential>(G.getInitializer()))
          if (CDS->isString()) {
            std::string s = CDS->getAsString().str();
            if (!s.empty() && s.back() == 0) s.pop_back();
            J.attribute("str", json::fixUTF8(s));
          }
      J.objectEnd();
      J.attributeEnd();
    }
  });
  J.attributeArray("decls", [&] {
    for (auto &F : *M) {
      if (F.getName().starts_with("__rgf0$")) continue;
      J.objectBegin();
      J.attribute("name", F.getName());
      J.attribute("def", !F.isDeclaration());
      J.attribute("type", tyStr(F.getFunctionType()));
      J.objectEnd();
    }
  });
  std::set<std::string> InlSet(Inlined.begin(), Inlined.end());
  J.attributeArray("functions", [&] {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      if (InlSet.count(F.getName().str()) && F.use_empty()) continue;
      if (!OnlyFile.empty()) {
        auto *SP = F.getSubprogram();
        if (!SP || SP->getFilename().find(OnlyFile) == StringRef::npos) continue;
      }
      FnDump(F, J).run();
    }
  });
  J.objectEnd();
  OS.flush();
  return 0;
}
