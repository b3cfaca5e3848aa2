// irx: links LLVM modules, inlines everything except a configured set of opaque
// functions into the chosen roots, normalises, and dumps the result as JSON.
// Usage: irx OUT.json --roots=a,b --opaque=FILE --passes=PIPELINE in1.ll in2.ll ...
#include "llvm/ADT/StringSet.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <set>
#include <fstream>
#include <map>
#include <regex>
#include <sstream>

using namespace llvm;

// Qualified name without parameter types or return type, e.g. "std::vector<double, std::allocator<double>>::size".
static std::string qualName(StringRef mangled) {
  ItaniumPartialDemangler D; std::string m = mangled.str();
  if (D.partialDemangle(m.c_str()) || !D.isFunction()) return m;
  size_t n = 0; char *c = D.getFunctionDeclContextName(nullptr, &n); std::string ctx = c ? c : ""; free(c);
  n = 0; char *b = D.getFunctionBaseName(nullptr, &n); std::string base = b ? b : ""; free(b);
  return ctx.empty() ? base : ctx + "::" + base;
}

static std::string typeStr(Type *T) {
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}

struct Dumper {
  Module &M; const DataLayout &DL; json::OStream &J;
  DenseMap<const Value *, int> ids; int next = 0;
  Dumper(Module &M, json::OStream &J) : M(M), DL(M.getDataLayout()), J(J) {}
  int id(const Value *V) { auto it = ids.find(V); if (it != ids.end()) return it->second; return ids[V] = next++; }

  void constVal(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      SmallString<32> s; CI->getValue().toStringSigned(s);
      J.object([&] { J.attribute("k", "int"); J.attribute("v", s.str()); J.attribute("w", (int)CI->getBitWidth()); });
    } else if (auto *CF = dyn_cast<ConstantFP>(C)) {
      APFloat F = CF->getValueAPF(); std::string out;
      if (F.isNaN()) out = "nan"; else if (F.isInfinity()) out = F.isNegative() ? "-inf" : "inf";
      else { SmallString<64> s; bool li; APFloat D = F; if (&F.getSemantics() != &APFloat::IEEEdouble()) { D.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);} 
        char buf[64]; snprintf(buf, sizeof buf, "%.17g", D.convertToDouble()); out = buf; }
      J.object([&] { J.attribute("k", "fp"); J.attribute("v", out); });
    } else if (isa<ConstantPointerNull>(C)) J.object([&] { J.attribute("k", "null"); });
    else if (isa<UndefValue>(C)) J.object([&] { J.attribute("k", "undef"); });
    else if (isa<ConstantAggregateZero>(C)) J.object([&] { J.attribute("k", "zero"); J.attribute("ty", typeStr(C->getType())); });
    else if (auto *F = dyn_cast<Function>(C)) J.object([&] { J.attribute("k", "fn"); J.attribute("n", F->getName()); });
    else if (auto *G = dyn_cast<GlobalVariable>(C)) J.object([&] { J.attribute("k", "gv"); J.attribute("n", G->getName()); });
    else if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GO = dyn_cast<GEPOperator>(CE)) {
        APInt off(64, 0);
        if (GO->accumulateConstantOffset(DL, off)) {
          J.object([&] { J.attribute("k", "gep"); J.attributeBegin("b"); constVal(cast<Constant>(GO->getPointerOperand())); J.attributeEnd(); J.attribute("o", off.getSExtValue()); });
          return;
        }
      }
      J.object([&] { J.attribute("k", "cexpr"); std::string s; raw_string_ostream os(s); C->print(os); J.attribute("v", os.str()); });
    } else if (auto *CA = dyn_cast<ConstantDataSequential>(C)) {
      J.object([&] { J.attribute("k", "data"); J.attribute("str", CA->isString() ? toB(CA->getAsString()) : ""); J.attributeArray("el", [&]{ for (unsigned i=0;i<CA->getNumElements() && i<512;i++) constVal(CA->getElementAsConstant(i)); }); });
    } else if (isa<ConstantAggregate>(C)) {
      J.object([&] { J.attribute("k", "agg"); J.attributeArray("el", [&]{ for (auto &o : C->operands()) constVal(cast<Constant>(o)); }); });
    } else J.object([&] { J.attribute("k", "const"); });
  }
  // the scalars of a constant with their byte offsets and sizes
  void scalars(const Constant *C, uint64_t off, int &left) {
    Type *T = C->getType();
    if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements() && left > 0; i++) if (auto *E = C->getAggregateElement(i)) scalars(E, off + L->getElementOffset(i), left);
    } else if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t n = DL.getTypeAllocSize(A->getElementType());
      for (uint64_t i = 0; i < A->getNumElements() && left > 0; i++) if (auto *E = C->getAggregateElement(i)) scalars(E, off + i * n, left);
    } else if (left-- > 0) J.array([&] { J.value((int64_t)off); J.value((int64_t)DL.getTypeStoreSize(T)); J.value(typeStr(T)); constVal(C); });
  }
  static std::string toB(StringRef s) { std::string o; for (unsigned char c : s) { if (c >= 32 && c < 127) o += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }
  void op(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) constVal(C);
    else if (isa<MetadataAsValue>(V)) J.object([&] { J.attribute("k", "md"); });
    else if (auto *B = dyn_cast<BasicBlock>(V)) J.object([&] { J.attribute("k", "bb"); J.attribute("i", id(B)); });
    else if (isa<InlineAsm>(V)) J.object([&] { J.attribute("k", "asm"); });
    else J.object([&] { J.attribute("k", "v"); J.attribute("i", id(V)); });
  }
  void loc(const Instruction &I) {
    const DILocation *L = I.getDebugLoc().get();
    if (!L) return;
    J.attributeArray("loc", [&] {
      for (const DILocation *P = L; P; P = P->getInlinedAt()) {
        auto *SP = P->getScope()->getSubprogram();
        J.array([&] { J.value(P->getFilename()); J.value((int)P->getLine()); J.value(SP ? SP->getName() : ""); });
      }
    });
  }
  void inst(const Instruction &I) {
    J.object([&] {
      J.attribute("i", id(&I));
      J.attribute("op", I.getOpcodeName());
      J.attribute("ty", typeStr(I.getType()));
      if (I.hasName()) J.attribute("nm", I.getName());
      if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("aty", typeStr(A->getAllocatedType()));
        auto sz = A->getAllocationSize(DL); if (sz) J.attribute("size", (int64_t)sz->getFixedValue());
      }
      if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("in", [&] { for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) J.array([&] { op(P->getIncomingValue(i)); J.value(id(P->getIncomingBlock(i))); }); });
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value *, APInt> var; APInt c(64, 0);
        bool ok = cast<GEPOperator>(G)->collectOffset(DL, 64, var, c);
        J.attributeBegin("base"); op(G->getPointerOperand()); J.attributeEnd();
        J.attribute("inb", G->isInBounds());
        J.attribute("sty", typeStr(G->getSourceElementType()));
        if (ok) {
          J.attribute("coff", c.getSExtValue());
          J.attributeArray("voff", [&] { for (auto &p : var) J.array([&] { op(p.first); J.value(p.second.getSExtValue()); }); });
        } else J.attribute("bad", true);
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (auto *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) J.attribute("callee", F->getName());
        else { J.attributeBegin("fptr"); op(CB->getCalledOperand()); J.attributeEnd(); }
        J.attributeArray("args", [&] { for (auto &a : CB->args()) op(a.get()); });
        if (auto *Inv = dyn_cast<InvokeInst>(&I)) { J.attribute("normal", id(Inv->getNormalDest())); J.attribute("unwind", id(Inv->getUnwindDest())); }
        if (CB->doesNotThrow()) J.attribute("nounwind", true);
        if (CB->doesNotReturn()) J.attribute("noreturn", true);
      } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
        J.attributeBegin("cond"); op(SW->getCondition()); J.attributeEnd();
        J.attribute("default", id(SW->getDefaultDest()));
        J.attributeArray("cases", [&] { for (auto &c : SW->cases()) J.array([&] { SmallString<32> s; c.getCaseValue()->getValue().toStringSigned(s); J.value(s.str()); J.value(id(c.getCaseSuccessor())); }); });
      } else {
        J.attributeArray("ops", [&] { for (auto &o : I.operands()) op(o.get()); });
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&] { for (auto x : EV->indices()) J.value((int)x); });
        if (auto *IV = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&] { for (auto x : IV->indices()) J.value((int)x); });
      }
      if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
        J.attribute("cleanup", LP->isCleanup());
        J.attributeArray("clauses", [&] { for (unsigned i = 0; i < LP->getNumClauses(); ++i) J.array([&] { J.value(LP->isCatch(i) ? "catch" : "filter"); constVal(LP->getClause(i)); }); });
      }
      if (isa<LoadInst>(I) || isa<StoreInst>(I)) {
        Type *T = isa<LoadInst>(I) ? I.getType() : cast<StoreInst>(I).getValueOperand()->getType();
        J.attribute("asz", (int64_t)DL.getTypeStoreSize(T).getFixedValue());
        if (isa<StoreInst>(I)) J.attribute("sty", typeStr(T));
        if ((isa<LoadInst>(I) && cast<LoadInst>(I).isVolatile()) || (isa<StoreInst>(I) && cast<StoreInst>(I).isVolatile())) J.attribute("volatile", true);
      }
      if (isa<FPMathOperator>(I) && I.getFastMathFlags().any()) J.attribute("fmf", true);
      if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { if (O->hasNoSignedWrap()) J.attribute("nsw", true); if (O->hasNoUnsignedWrap()) J.attribute("nuw", true); }
      if (auto *E = dyn_cast<PossiblyExactOperator>(&I)) if (E->isExact()) J.attribute("exact", true);
      loc(I);
    });
  }
  void fn(const Function &F) {
    J.object([&] {
      J.attribute("name", F.getName());
      J.attribute("dem", demangle(F.getName().str())); J.attribute("qual", qualName(F.getName()));
      J.attribute("ret", typeStr(F.getReturnType()));
      J.attribute("linkage", F.hasLocalLinkage() ? "internal" : F.hasLinkOnceLinkage() || F.hasWeakLinkage() ? "linkonce" : F.hasAvailableExternallyLinkage() ? "avail" : "external");
      J.attribute("decl", F.isDeclaration());
      J.attribute("nounwind", F.doesNotThrow()); J.attribute("noreturn", F.doesNotReturn());
      if (auto *SP = F.getSubprogram()) { J.attribute("file", SP->getFilename()); J.attribute("line", (int)SP->getLine()); J.attribute("srcname", SP->getName()); }
      J.attributeArray("params", [&] { for (auto &A : F.args()) J.object([&] { J.attribute("i", id(&A)); J.attribute("nm", A.getName()); J.attribute("ty", typeStr(A.getType()));
          if (A.hasStructRetAttr()) J.attribute("sret", true); if (A.onlyReadsMemory()) J.attribute("ro", true);
          if (A.getDereferenceableBytes()) J.attribute("deref", (int64_t)A.getDereferenceableBytes()); }); });
      if (!F.isDeclaration()) {
        J.attributeArray("blocks", [&] {
          for (auto &B : F) J.object([&] {
            J.attribute("i", id(&B)); if (B.hasName()) J.attribute("nm", B.getName());
            J.attributeArray("succ", [&] { for (auto *S : successors(&B)) J.value(id(S)); });
            J.attributeArray("ins", [&] { for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; inst(I); } });
          });
        });
      }
    });
  }
};

int main(int argc, char **argv) {
  std::vector<std::string> xopaque; std::string out = argv[1], roots, opaqueFile, passes, emitll, replFile; std::vector<std::string> ins; bool internalize = true;
  for (int i = 2; i < argc; i++) { std::string a = argv[i];
    if (a.rfind("--roots=", 0) == 0) roots = a.substr(8);
    else if (a.rfind("--opaque=", 0) == 0) opaqueFile = a.substr(9);
    else if (a.rfind("--xopaque=", 0) == 0) xopaque.push_back(a.substr(10));
    else if (a.rfind("--passes=", 0) == 0) passes = a.substr(9);
    else if (a.rfind("--emit-ll=", 0) == 0) emitll = a.substr(10);
    else if (a == "--keep-all") internalize = false;
    else ins.push_back(a); }
  LLVMContext Ctx; SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (auto &f : ins) {
    auto N = parseIRFile(f, Err, Ctx);
    if (!N) { Err.print("irx", errs()); return 3; }
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) { errs() << "link failed: " << f << "\n"; return 3; }
  }
  { SmallVector<GlobalAlias *, 8> al; for (auto &A : M->aliases()) al.push_back(&A);
    for (auto *A : al) if (auto *F = dyn_cast<Function>(A->getAliaseeObject())) { A->replaceAllUsesWith(F); A->eraseFromParent(); } }
  std::vector<std::regex> opq; { std::ifstream f(opaqueFile); std::string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') opq.emplace_back(l); }
  for (auto &x : xopaque) opq.emplace_back(x);
  StringSet<> rootSet; { std::stringstream ss(roots); std::string r; while (std::getline(ss, r, ',')) if (!r.empty()) rootSet.insert(r); }
  // a root may be given by demangled name prefix "name(" too
  auto isRoot = [&](const Function &F) { if (rootSet.count(F.getName())) return true; return (bool)rootSet.count(qualName(F.getName())); };
  std::map<std::string, bool> opaqueNow;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    if (isRoot(F)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); continue; }
    std::string d = qualName(F.getName()); bool o = false;
    for (auto &r : opq) if (std::regex_search(d, r)) { o = true; break; }
    // the operators of namespace std are opaque for strings and streams only (not for iterators and the like)
    if (o && d.rfind("std::operator", 0) == 0 && F.getName().find("char_traits") == StringRef::npos) o = false;
    if (o) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); opaqueNow[F.getName().str()] = true; }
    else { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); if (internalize && !F.hasLocalLinkage()) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); } }
  }
  // user code called back from opaque library code (comparators, predicates): keep it as separate functions
  std::map<std::string, std::vector<std::string>> ucalls;
  {
    auto userFile = [&](const Function &F) { auto *SP = F.getSubprogram(); if (!SP) return false; std::string d = SP->getDirectory().str(), f = SP->getFilename().str(); std::string full = f[0] == '/' ? f : d + "/" + f; return full.rfind("/usr/", 0) != 0; };
    for (auto &kv : opaqueNow) {
      Function *R = M->getFunction(kv.first); std::vector<Function *> st{R}; std::set<Function *> seen{R}; std::vector<std::string> found;
      while (!st.empty()) { Function *F = st.back(); st.pop_back();
        for (auto &I : instructions(*F)) for (auto &U : I.operands()) if (auto *G = dyn_cast<Function>(U->stripPointerCasts())) if (!G->isDeclaration() && seen.insert(G).second) {
          if (userFile(*G)) { found.push_back(G->getName().str()); } else st.push_back(G); } }
      if (!found.empty()) { std::sort(found.begin(), found.end()); ucalls[kv.first] = found; }
    }
    for (auto &kv : ucalls) { bool live = false; for (auto *U : M->getFunction(kv.first)->users()) { (void)U; live = true; } if (!live) continue;
      for (auto &n : kv.second) { Function *F = M->getFunction(n); if (isRoot(*F)) continue; ValueToValueMapTy vm; Function *C = CloneFunction(F, vm); C->setName("cb$" + n); C->setLinkage(GlobalValue::ExternalLinkage); C->setComdat(nullptr); C->removeFnAttr(Attribute::AlwaysInline); C->addFnAttr(Attribute::NoInline); } }
  }
  // opaque functions become declarations: their bodies are never looked at
  for (auto &F : *M) if (opaqueNow.count(F.getName().str())) { bool nt = F.doesNotThrow(); F.deleteBody(); F.setComdat(nullptr); (void)nt; }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (!passes.empty()) { if (auto E = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(E)) << "\n"; return 3; } MPM.run(*M, MAM); }
  if (verifyModule(*M, &errs())) { errs() << "module broken\n"; return 3; }
  if (!emitll.empty()) { std::error_code ec; raw_fd_ostream o(emitll, ec); M->print(o, nullptr); }
  std::error_code ec; raw_fd_ostream os(out, ec); json::OStream J(os); Dumper D(*M, J);
  J.object([&] {
    J.attributeArray("globals", [&] { for (auto &G : M->globals()) J.object([&] { J.attribute("n", G.getName()); J.attribute("const", G.isConstant()); J.attribute("decl", G.isDeclaration()); J.attribute("internal", G.hasLocalLinkage()); J.attribute("ty", typeStr(G.getValueType()));
        if (G.getValueType()->isSized()) J.attribute("size", (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType()).getFixedValue());
        SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv); if (!gv.empty()) { J.attribute("src", gv[0]->getVariable()->getName()); J.attribute("file", gv[0]->getVariable()->getFilename()); J.attribute("line", (int)gv[0]->getVariable()->getLine()); }
        if (G.hasInitializer()) { J.attributeBegin("init"); D.constVal(G.getInitializer()); J.attributeEnd();
          if (G.isConstant() && G.getValueType()->isAggregateType()) { int left = 65; J.attributeArray("flat", [&] { D.scalars(G.getInitializer(), 0, left); }); } } }); });
    J.attributeObject("types", [&] { for (auto *ST : M->getIdentifiedStructTypes()) if (ST->isSized() && ST->hasName()) J.attribute(ST->getName(), (int64_t)M->getDataLayout().getTypeAllocSize(ST).getFixedValue()); });
    J.attributeObject("ucalls", [&] { for (auto &p : ucalls) J.attributeArray(p.first, [&] { for (auto &q : p.second) J.value(q); }); });
    J.attributeArray("functions", [&] { for (auto &F : *M) if (!F.isIntrinsic() || true) D.fn(F); });
  });
  return 0;
}
