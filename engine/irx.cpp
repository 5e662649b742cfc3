// irx: IR exporter for the HYPERCV static analyses.
// Reads the library's bitcode, brings it into a normal form (helpers that are not part of the
// known function set inlined, memory promoted to SSA, loops simplified) and writes it as JSON.
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
using namespace llvm;
// demangled name, without the number the linker appends to clashing local names
static std::string dem(std::string n) {
  size_t p = n.rfind('.');
  if (p != std::string::npos && p > 0 && n.rfind("_Z", 0) == 0 && n.find_first_not_of("0123456789", p + 1) == std::string::npos) n = n.substr(0, p);
  return demangle(n);
}


static std::string tyStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }

static const DIType *strip(const DIType *T) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) break;
    unsigned t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_restrict_type)
      T = D->getBaseType();
    else break;
  }
  return T;
}
static std::string diStr(const DIType *T, int depth = 0) {
  if (!T) return "void";
  bool cst = false;
  const DIType *U = T; std::string td;
  while (auto *D = dyn_cast_or_null<DIDerivedType>(U)) {
    unsigned t = D->getTag();
    if (t == dwarf::DW_TAG_const_type) cst = true;
    else if (t == dwarf::DW_TAG_typedef) { if (td.empty()) td = D->getName().str(); }
    else if (t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_restrict_type) {}
    else break;
    U = D->getBaseType();
  }
  std::string r;
  if (!U) r = "void";
  else if (auto *B = dyn_cast<DIBasicType>(U)) r = B->getName().str();
  else if (auto *C = dyn_cast<DICompositeType>(U)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) r = "array(" + diStr(C->getBaseType(), depth + 1) + "," + std::to_string(C->getSizeInBits()/8) + ")";
    else { r = C->getName().str(); if (r.empty()) r = td; r = (C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "struct ") + r; }
  } else if (auto *D = dyn_cast<DIDerivedType>(U)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type) r = (depth > 4 ? "void" : diStr(D->getBaseType(), depth + 1)) + "*";
    else r = "?";
  } else r = "fn";
  return cst ? "const " + r : r;
}

struct Ex {
  Module &M; const DataLayout &DL;
  DenseMap<const Value *, int> id; DenseMap<const BasicBlock *, int> bid;
  std::map<const Function *, std::map<unsigned, std::pair<std::string, const DIType *>>> &argInfo;
  Ex(Module &M, std::map<const Function *, std::map<unsigned, std::pair<std::string, const DIType *>>> &a) : M(M), DL(M.getDataLayout()), argInfo(a) {}

  json::Value offs(Type *T) {
    json::Array a;
    if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) a.push_back((int64_t)L->getElementOffset(i)); }
    else { Type *E = isa<ArrayType>(T) ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType(); unsigned n = isa<ArrayType>(T) ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); int64_t z = DL.getTypeAllocSize(E).getFixedValue(); for (unsigned i = 0; i < n; i++) a.push_back(z * i); }
    return json::Value(std::move(a));
  }
  json::Value cst(const Constant *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) {
      if (I->getBitWidth() <= 64) return json::Array{"c", I->getSExtValue(), (int64_t)I->getBitWidth()};
      SmallString<64> s; I->getValue().toStringSigned(s); return json::Array{"cbig", s.str().str()};
    }
    if (auto *F = dyn_cast<ConstantFP>(C)) {
      bool lose; APFloat v = F->getValueAPF(); v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
      double d = v.convertToDouble();
      if (d != d || d - d != 0) return json::Array{"f", d != d ? "nan" : (d > 0 ? "inf" : "-inf"), tyStr(C->getType())};
      return json::Array{"f", d, tyStr(C->getType())};
    }
    if (isa<ConstantPointerNull>(C)) return json::Array{"null"};
    if (isa<UndefValue>(C)) return json::Array{"undef"};
    if (isa<Function>(C)) return json::Array{"fn", C->getName().str()};
    if (auto *G = dyn_cast<GlobalVariable>(C)) return json::Array{"g", G->getName().str()};
    if (auto *GA = dyn_cast<GlobalAlias>(C)) return cst(GA->getAliasee());
    if (auto *G = dyn_cast<GEPOperator>(C)) {
      APInt off(64, 0);
      if (G->accumulateConstantOffset(DL, off)) return json::Array{"goff", cst(cast<Constant>(G->getPointerOperand())), off.getSExtValue()};
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) { if (CE->isCast()) return cst(CE->getOperand(0)); }
    if (isa<ConstantAggregateZero>(C)) {
      json::Array a; Type *T = C->getType();
      unsigned n = 0;
      if (auto *AT = dyn_cast<ArrayType>(T)) n = AT->getNumElements(); else if (auto *ST = dyn_cast<StructType>(T)) n = ST->getNumElements(); else if (auto *VT = dyn_cast<FixedVectorType>(T)) n = VT->getNumElements();
      if (n > 4096) return json::Array{"zero"};
      for (unsigned i = 0; i < n; i++) a.push_back(cst(C->getAggregateElement(i)));
      return json::Array{"agg", std::move(a), offs(T)};
    }
    if (auto *S = dyn_cast<ConstantDataSequential>(C)) {
      if (S->isString()) return json::Array{"str", json::fixUTF8(S->getAsString())};
      json::Array a; for (unsigned i = 0; i < S->getNumElements(); i++) a.push_back(cst(S->getElementAsConstant(i)));
      return json::Array{"agg", std::move(a), offs(C->getType())};
    }
    if (isa<ConstantAggregate>(C)) {
      json::Array a; for (unsigned i = 0; i < C->getNumOperands(); i++) a.push_back(cst(cast<Constant>(C->getOperand(i))));
      return json::Array{"agg", std::move(a), offs(C->getType())};
    }
    return json::Array{"unk"};
  }
  json::Value op(const Value *V) {
    if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
    if (auto *B = dyn_cast<BasicBlock>(V)) return json::Array{"b", bid[B]};
    if (auto *C = dyn_cast<Constant>(V)) return cst(C);
    if (isa<InlineAsm>(V)) return json::Array{"asm"};
    auto it = id.find(V);
    if (it != id.end()) return json::Array{"i", it->second};
    return json::Array{"unk"};
  }
  json::Object inst(Instruction &I) {
    json::Object o;
    o["i"] = id[&I]; o["op"] = I.getOpcodeName(); o["ty"] = tyStr(I.getType());
    if (auto L = I.getDebugLoc()) {
      o["ln"] = (int64_t)L.getLine();
      o["file"] = cast<DIScope>(L.getScope())->getFilename().str();
      if (auto *IA = L.getInlinedAt()) { while (IA->getInlinedAt()) IA = IA->getInlinedAt(); o["iln"] = (int64_t)IA->getLine(); }
    }
    if (auto *P = dyn_cast<PHINode>(&I)) {
      json::Array inc; for (unsigned k = 0; k < P->getNumIncomingValues(); k++) inc.push_back(json::Array{bid[P->getIncomingBlock(k)], op(P->getIncomingValue(k))});
      o["inc"] = std::move(inc); return o;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      MapVector<Value *, APInt> vars; APInt off(64, 0);
      if (G->collectOffset(DL, 64, vars, off)) {
        json::Array t; for (auto &kv : vars) t.push_back(json::Array{op(kv.first), kv.second.getSExtValue()});
        o["base"] = op(G->getPointerOperand()); o["off"] = off.getSExtValue(); o["terms"] = std::move(t);
        o["inb"] = G->isInBounds(); o["ety"] = tyStr(G->getSourceElementType());
      }
      return o;
    }
    if (auto *C = dyn_cast<CallBase>(&I)) {
      const Value *cv = C->getCalledOperand()->stripPointerCasts();
      if (auto *F = dyn_cast<Function>(cv)) { o["callee"] = F->getName().str(); o["dem"] = dem(F->getName().str()); if (F->doesNotReturn() || C->doesNotReturn()) o["noret"] = true; o["intr"] = F->isIntrinsic(); }
      else o["indirect"] = op(cv);
      json::Array a; for (auto &u : C->args()) a.push_back(op(u.get())); o["a"] = std::move(a);
      json::Array at; for (auto &u : C->args()) at.push_back(tyStr(u->getType())); o["aty"] = std::move(at);
      if (auto *II = dyn_cast<InvokeInst>(&I)) { o["succ"] = json::Array{bid[II->getNormalDest()], bid[II->getUnwindDest()]}; }
      return o;
    }
    json::Array a; for (auto &u : I.operands()) a.push_back(op(u.get()));
    o["a"] = std::move(a);
    if (auto *C = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str(); o["oty"] = tyStr(C->getOperand(0)->getType()); }
    if (auto *C = dyn_cast<CastInst>(&I)) o["fty"] = tyStr(C->getSrcTy());
    if (auto *A = dyn_cast<AllocaInst>(&I)) { o["aty"] = tyStr(A->getAllocatedType()); if (auto s = A->getAllocationSize(DL)) o["size"] = (int64_t)s->getFixedValue(); o["esize"] = (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue(); }
    if (auto *S = dyn_cast<StoreInst>(&I)) { o["sty"] = tyStr(S->getValueOperand()->getType()); o["size"] = (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(); }
    if (auto *L = dyn_cast<LoadInst>(&I)) { o["size"] = (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue(); }
    if (auto *B = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = B->hasNoSignedWrap(); o["nuw"] = B->hasNoUnsignedWrap(); }
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto k : E->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
    if (auto *S = dyn_cast<SwitchInst>(&I)) {
      json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
      o["cases"] = std::move(cs); o["default"] = bid[S->getDefaultDest()];
    }
    if (auto *B = dyn_cast<BranchInst>(&I)) {
      json::Array s; for (unsigned k = 0; k < B->getNumSuccessors(); k++) s.push_back(bid[B->getSuccessor(k)]);
      o["succ"] = std::move(s); if (B->isConditional()) o["cond"] = op(B->getCondition());
    }
    return o;
  }
  json::Object func(Function &F) {
    id.clear(); bid.clear();
    json::Object o;
    o["name"] = F.getName().str(); o["dem"] = dem(F.getName().str()); o["decl"] = F.isDeclaration(); o["internal"] = F.hasLocalLinkage();
    o["linkonce"] = F.hasLinkOnceLinkage();
    o["ret"] = tyStr(F.getReturnType());
    if (auto *SP = F.getSubprogram()) {
      o["file"] = SP->getFilename().str(); o["line"] = (int64_t)SP->getLine();
      if (auto *ST = SP->getType()) { auto ta = ST->getTypeArray(); if (ta.size()) o["rdi"] = diStr(ta[0]); json::Array ad; for (unsigned k = 1; k < ta.size(); k++) ad.push_back(ta[k] ? diStr(ta[k]) : std::string("...")); o["adi"] = std::move(ad); }
    }
    json::Array args; auto &ai = argInfo[&F];
    for (auto &A : F.args()) {
      json::Object x; x["ty"] = tyStr(A.getType());
      auto it = ai.find(A.getArgNo());
      if (it != ai.end()) { x["name"] = it->second.first; x["di"] = diStr(it->second.second); }
      else x["name"] = A.hasName() ? A.getName().str() : ("a" + std::to_string(A.getArgNo()));
      args.push_back(std::move(x));
    }
    o["args"] = std::move(args); o["vararg"] = F.isVarArg();
    if (F.isDeclaration()) return o;
    int n = 0, b = 0;
    for (auto &B : F) { bid[&B] = b++; for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) id[&I] = n++; }
    json::Array blocks;
    DominatorTree DT(F); PostDominatorTree PDT(F); LoopInfo LI(DT);
    for (auto &B : F) {
      json::Object bo; json::Array is;
      for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) is.push_back(inst(I));
      bo["id"] = bid[&B]; bo["is"] = std::move(is);
      auto *dn = DT.getNode(&B); bo["idom"] = dn && dn->getIDom() ? bid[dn->getIDom()->getBlock()] : -1; bo["reach"] = dn != nullptr;
      auto *L = LI.getLoopFor(&B); bo["loop"] = L ? bid[L->getHeader()] : -1;
      json::Array su; for (auto *S : successors(&B)) su.push_back(bid[S]); bo["succ"] = std::move(su);
      blocks.push_back(std::move(bo));
    }
    o["blocks"] = std::move(blocks);
    json::Array loops;
    for (auto *L : LI.getLoopsInPreorder()) {
      json::Object lo; lo["h"] = bid[L->getHeader()]; lo["parent"] = L->getParentLoop() ? bid[L->getParentLoop()->getHeader()] : -1;
      json::Array bs; for (auto *B : L->getBlocks()) bs.push_back(bid[B]); lo["blocks"] = std::move(bs);
      SmallVector<BasicBlock *, 4> la; L->getLoopLatches(la); json::Array ls; for (auto *B : la) ls.push_back(bid[B]); lo["latch"] = std::move(ls);
      loops.push_back(std::move(lo));
    }
    o["loops"] = std::move(loops);
    return o;
  }
};

// never written: every use only reads (or puts the address in a table that is itself never written)
static bool readOnly(const Value *V, std::set<const Value *> &seen, int depth = 0) {
  if (!seen.insert(V).second) return true;
  for (auto *U : V->users()) {
    if (isa<LoadInst>(U) || isa<CmpInst>(U)) continue;
    if (isa<GetElementPtrInst>(U) || isa<GEPOperator>(U) || isa<BitCastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) { if (!readOnly(U, seen)) return false; continue; }
    if (auto *MT = dyn_cast<MemTransferInst>(U)) { if (MT->getRawSource() == V && MT->getRawDest() != V) continue; return false; }
    if (auto *GV = dyn_cast<GlobalVariable>(U)) { if (!(GV->isConstant() || GV->hasLocalLinkage()) || !readOnly(GV, seen)) return false; continue; }
    if (auto *CA = dyn_cast<ConstantAggregate>(U)) { if (!readOnly(CA, seen)) return false; continue; }
    if (auto *CE = dyn_cast<ConstantExpr>(U)) { if (!readOnly(CE, seen)) return false; continue; }
    if (auto *CB = dyn_cast<CallBase>(U)) {
      bool ok = !CB->isInlineAsm() && CB->getCalledFunction() && !CB->getCalledFunction()->isDeclaration() && depth < 4;
      if (ok) for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->getArgOperand(k) == V) { if (k >= CB->getCalledFunction()->arg_size() || !readOnly(CB->getCalledFunction()->getArg(k), seen, depth + 1)) { ok = false; break; } }
      if (ok) continue;
      return false;
    }
    return false;
  }
  return true;
}

int main(int argc, char **argv) {
  // irx KEEPFILE OUT mode in.bc...   mode: "norm" | "plain"
  if (argc < 5) return 2;
  std::set<std::string> keep; { std::ifstream k(argv[1]); std::string l; while (std::getline(k, l)) if (!l.empty()) keep.insert(l); }
  std::string mode = argv[3];
  LLVMContext C; SMDiagnostic E; std::unique_ptr<Module> M;
  for (int i = 4; i < argc; i++) {
    auto m = parseIRFile(argv[i], E, C);
    if (!m) { E.print(argv[0], errs()); return 3; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failure\n"; return 3; }
  }
  // argument names/types before promotion removes the dbg.declares
  std::map<const Function *, std::map<unsigned, std::pair<std::string, const DIType *>>> ai;
  for (auto &F : *M) for (auto &I : instructions(F)) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
    auto *V = D->getVariable();
    if (V->getArg() && !D->getDebugLoc().getInlinedAt()) ai[&F][V->getArg() - 1] = {V->getName().str(), V->getType()};
  }
  // sret shifts argument numbers: DI numbering is source numbering
  for (auto &F : *M) if (F.hasStructRetAttr()) { std::map<unsigned, std::pair<std::string, const DIType *>> n; for (auto &kv : ai[&F]) n[kv.first + 1] = kv.second; ai[&F] = n; }
  json::Array structs; { DebugInfoFinder DF; DF.processModule(*M); std::map<const DIType *, std::string> tdn;
    for (auto *T : DF.types()) if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef && D->getBaseType() && D->getBaseType()->getName().empty()) tdn[D->getBaseType()] = D->getName().str();
    for (auto *T : DF.types()) if (auto *CT = dyn_cast<DICompositeType>(T)) {
      if (CT->getTag() != dwarf::DW_TAG_structure_type && CT->getTag() != dwarf::DW_TAG_class_type) continue;
      if (CT->isForwardDecl()) continue;
      std::string f = CT->getFilename().str();
      std::string n = CT->getName().str(); if (n.empty()) n = tdn[CT];
      if (f.rfind("/usr/", 0) == 0) continue;
      json::Object so; so["name"] = n; so["size"] = (int64_t)CT->getSizeInBits() / 8; so["file"] = f; so["line"] = (int64_t)CT->getLine();
      json::Array ms; for (auto *e : CT->getElements()) if (auto *D = dyn_cast<DIDerivedType>(e)) if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) ms.push_back(json::Array{D->getName().str(), (int64_t)D->getOffsetInBits() / 8, (int64_t)D->getSizeInBits() / 8, diStr(D->getBaseType())});
      so["members"] = std::move(ms); structs.push_back(std::move(so));
    } }
  if (mode == "norm") {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      std::string n = F.getName().str(), d = dem(n);
      F.removeFnAttr(Attribute::OptimizeNone);
      std::string nb = n; { size_t p = nb.rfind('.'); if (p != std::string::npos && p > 0 && nb.find_first_not_of("0123456789", p + 1) == std::string::npos) nb = nb.substr(0, p); }
      bool ours = keep.count(n) || keep.count(d) || keep.count(nb) || n.rfind("spec_", 0) == 0 || n.rfind("hymat_", 0) == 0;
      bool stdlib = false; if (auto *SP = F.getSubprogram()) { StringRef f = SP->getFilename(); stdlib = f.starts_with("/usr/"); }
      if (!ours && !stdlib) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
      else if (ours) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    }
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "function(sroa),always-inline,function(sroa,instsimplify,simplifycfg,early-cse,lowerswitch,simplifycfg<no-switch-to-lookup>,instsimplify,dce,lowerswitch,loop-simplify,instsimplify)")) { errs() << toString(std::move(e)) << "\n"; return 4; }
    MPM.run(*M, MAM);
  }
  Ex X(*M, ai);
  json::Object root; json::Array fs, gs;
  for (auto &F : *M) fs.push_back(X.func(F));
  for (auto &G : M->globals()) {
    json::Object g; g["name"] = G.getName().str(); g["const"] = G.isConstant(); g["internal"] = G.hasLocalLinkage(); g["ty"] = tyStr(G.getValueType());
    g["size"] = (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType()).getFixedValue();
    if (G.hasInitializer()) g["init"] = X.cst(G.getInitializer());
    { std::set<const Value *> seen; g["ro"] = G.isConstant() || (G.hasLocalLinkage() && readOnly(&G, seen)); }
    SmallVector<DIGlobalVariableExpression *, 1> d; G.getDebugInfo(d); if (!d.empty()) { auto *V = d[0]->getVariable(); g["di"] = V->getName().str(); g["file"] = V->getFilename().str(); g["line"] = (int64_t)V->getLine(); if (auto *SP = dyn_cast_or_null<DISubprogram>(V->getScope())) g["scope"] = SP->getName().str(); g["dty"] = diStr(V->getType()); }
    gs.push_back(std::move(g));
  }
  root["functions"] = std::move(fs); root["globals"] = std::move(gs); root["structs"] = std::move(structs);
  std::error_code ec; raw_fd_ostream os(argv[2], ec); os << json::Value(std::move(root)); os << "\n";
  return 0;
}
