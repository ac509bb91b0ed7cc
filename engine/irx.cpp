// irx: links LLVM bitcode of the translation units under analysis, optionally inlines
// project functions, and exports the resulting functions as JSON for the analysers.
// It never executes any code of the program under analysis.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Path.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string srcdir;
static std::vector<std::string> keepRe, rootRe, libInlineRe;

static bool matchAny(const std::vector<std::string>& res, const std::string& s) {
  for (auto& r : res) if (Regex(r).match(s)) return true;
  return false;
}

static std::string fileOf(const DIFile* f) {
  if (!f) return "";
  std::string p = f->getFilename().str();
  if (!sys::path::is_absolute(p)) p = f->getDirectory().str() + "/" + p;
  SmallString<256> sp(p);
  sys::path::remove_dots(sp, true);
  return std::string(sp.str());
}

static std::map<const Function*, std::string> demName;
static const std::string& dem(const Function* f) {
  auto it = demName.find(f);
  if (it == demName.end()) {
    std::string n = f->getName().str();
    // the linker renames colliding internal symbols: strip the numeric suffix
    std::string base = n;
    auto pos = base.rfind('.');
    if (pos != std::string::npos && pos + 1 < base.size() && base.find_first_not_of("0123456789", pos + 1) == std::string::npos)
      base = base.substr(0, pos);
    it = demName.emplace(f, demangle(base)).first;
  }
  return it->second;
}

static bool isProject(const Function& f) {
  if (f.isDeclaration()) return false;
  auto* sp = f.getSubprogram();
  if (!sp) return false;
  std::string p = fileOf(sp->getFile());
  return p.compare(0, srcdir.size(), srcdir) == 0;
}

static json::Value typeStr(Type* t) {
  std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str();
}

struct Dumper {
  const DataLayout& DL;
  std::map<const Value*, int> ids;
  std::set<std::string> gvars;
  Module& M;
  Dumper(Module& m) : DL(m.getDataLayout()), M(m) {}

  json::Value constant(Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      SmallString<40> s; ci->getValue().toStringSigned(s);
      return json::Array{"c", std::string(s.str()), (int64_t)ci->getBitWidth()};
    }
    if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
    if (isa<PoisonValue>(c) || isa<UndefValue>(c)) return json::Array{"undef"};
    if (isa<ConstantAggregateZero>(c)) return json::Array{"zero"};
    if (auto* fp = dyn_cast<ConstantFP>(c)) {
      SmallString<40> s; fp->getValueAPF().toString(s); return json::Array{"fp", std::string(s.str())};
    }
    if (auto* f = dyn_cast<Function>(c)) return json::Array{"f", f->getName().str()};
    if (auto* g = dyn_cast<GlobalVariable>(c)) { gvars.insert(g->getName().str()); return json::Array{"g", g->getName().str(), 0}; }
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constant(const_cast<Constant*>(cast<Constant>(a->getAliaseeObject())));
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      if (auto* gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (gep->accumulateConstantOffset(DL, off)) {
          auto b = constant(cast<Constant>(gep->getPointerOperand()));
          if (auto* arr = b.getAsArray()) if ((*arr)[0] == json::Value("g")) {
            int64_t o = *(*arr)[2].getAsInteger() + off.getSExtValue();
            return json::Array{"g", (*arr)[1], o};
          }
        }
      }
      if (ce->isCast()) return constant(ce->getOperand(0));
      std::string s; raw_string_ostream os(s); ce->print(os);
      return json::Array{"ce", os.str()};
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
      json::Array els;
      for (auto& o : ca->operands()) els.push_back(constant(cast<Constant>(o)));
      return json::Array{"agg", std::move(els)};
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      json::Array els;
      for (unsigned i = 0; i < cd->getNumElements(); ++i) els.push_back(constant(cd->getElementAsConstant(i)));
      return json::Array{"agg", std::move(els)};
    }
    return json::Array{"other"};
  }
  json::Value operand(Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constant(c);
    if (auto* b = dyn_cast<BasicBlock>(v)) return json::Array{"b", ids[b]};
    if (isa<MetadataAsValue>(v)) return json::Array{"md"};
    auto it = ids.find(v);
    if (it == ids.end()) return json::Array{"other"};
    return json::Array{"v", it->second};
  }
  json::Value loc(const DebugLoc& dl) {
    if (!dl) return nullptr;
    json::Array a;
    const DILocation* l = dl.get();
    while (l) {
      auto* sc = l->getScope()->getSubprogram();
      std::string fn = sc ? sc->getName().str() : "";
      a.push_back(json::Array{fileOf(l->getFile()), (int64_t)l->getLine(), fn, sc ? sc->getLinkageName().str() : ""});
      l = l->getInlinedAt();
    }
    return a;
  }
  json::Value dumpFunction(Function& f, bool project) {
    ids.clear();
    int n = 0;
    json::Object fo;
    fo["name"] = f.getName().str();
    fo["dem"] = dem(&f);
    fo["project"] = project;
    fo["internal"] = f.hasLocalLinkage();
    fo["ret"] = typeStr(f.getReturnType());
    fo["nounwind"] = f.doesNotThrow();
    fo["noreturn"] = f.doesNotReturn();
    if (auto* sp = f.getSubprogram()) {
      fo["file"] = fileOf(sp->getFile()); fo["line"] = (int64_t)sp->getLine();
      fo["diname"] = sp->getName().str();
      if (auto* ct = dyn_cast_or_null<DICompositeType>(sp->getScope())) fo["cls"] = ct->getIdentifier().str();
      fo["artificial"] = sp->isArtificial();
    }
    json::Array args;
    for (auto& a : f.args()) {
      ids[&a] = n++;
      json::Object ao{{"id", ids[&a]}, {"ty", typeStr(a.getType())}, {"name", a.getName().str()}};
      if (a.hasStructRetAttr()) ao["sret"] = true;
      if (a.hasByValAttr()) ao["byval"] = true;
      if (a.hasAttribute(Attribute::ReadOnly)) ao["ro"] = true;
      if (auto* t = f.getParamStructRetType(a.getArgNo())) ao["sret_ty"] = typeStr(t);
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    int bn = 0;
    for (auto& b : f) ids[&b] = bn++;
    for (auto& b : f) for (auto& i : b) ids[&i] = n++;
    json::Array blocks;
    for (auto& b : f) {
      json::Array insts;
      for (auto& i : b) {
        if (isa<DbgInfoIntrinsic>(i)) continue;
        insts.push_back(dumpInst(i));
      }
      blocks.push_back(json::Object{{"id", ids[&b]}, {"name", b.getName().str()}, {"insts", std::move(insts)}});
    }
    fo["blocks"] = std::move(blocks);
    // names of local variables
    json::Object vars;
    for (auto& b : f) for (auto& i : b) {
      if (auto* d = dyn_cast<DbgVariableIntrinsic>(&i)) {
        if (d->getNumVariableLocationOps() != 1) continue;
        Value* v = d->getVariableLocationOp(0);
        if (!v) continue;
        auto it = ids.find(v);
        if (it != ids.end()) vars[std::to_string(it->second)] = d->getVariable()->getName().str();
      }
    }
    fo["vars"] = std::move(vars);
    return fo;
  }
  json::Value dumpInst(Instruction& i) {
    json::Object o;
    o["id"] = ids[&i];
    o["op"] = i.getOpcodeName();
    o["ty"] = typeStr(i.getType());
    if (i.getDebugLoc()) o["loc"] = loc(i.getDebugLoc());
    json::Array ops;
    if (auto* ph = dyn_cast<PHINode>(&i)) {
      for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k)
        ops.push_back(json::Array{ids[ph->getIncomingBlock(k)], operand(ph->getIncomingValue(k))});
      o["ops"] = std::move(ops);
      return o;
    }
    if (auto* cb = dyn_cast<CallBase>(&i)) {
      Value* cv = cb->getCalledOperand()->stripPointerCasts();
      o["callee"] = operand(cv);
      if (auto* f = dyn_cast<Function>(cv)) { o["cname"] = f->getName().str(); o["cdem"] = dem(f); }
      json::Array sret;
      for (unsigned k = 0; k < cb->arg_size(); ++k) {
        ops.push_back(operand(cb->getArgOperand(k)));
        if (cb->paramHasAttr(k, Attribute::StructRet)) o["sret"] = (int64_t)k;
      }
      o["args"] = std::move(ops);
      if (cb->doesNotThrow()) o["nounwind"] = true;
      if (cb->doesNotReturn()) o["noreturn"] = true;
      if (auto* inv = dyn_cast<InvokeInst>(cb)) { o["normal"] = ids[inv->getNormalDest()]; o["unwind"] = ids[inv->getUnwindDest()]; }
      return o;
    }
    for (auto& u : i.operands()) ops.push_back(operand(u.get()));
    o["ops"] = std::move(ops);
    if (auto* br = dyn_cast<BranchInst>(&i)) {
      json::Array s;
      for (unsigned k = 0; k < br->getNumSuccessors(); ++k) s.push_back(ids[br->getSuccessor(k)]);
      o["succ"] = std::move(s);
      o["cond"] = br->isConditional();
      json::Array c; if (br->isConditional()) c.push_back(operand(br->getCondition()));
      o["ops"] = std::move(c);
    } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
      json::Array cs;
      for (auto& c : sw->cases()) {
        SmallString<40> s; c.getCaseValue()->getValue().toStringSigned(s);
        cs.push_back(json::Array{std::string(s.str()), ids[c.getCaseSuccessor()]});
      }
      o["cases"] = std::move(cs);
      o["default"] = ids[sw->getDefaultDest()];
      o["ops"] = json::Array{operand(sw->getCondition())};
    } else if (auto* ic = dyn_cast<CmpInst>(&i)) {
      o["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str();
      o["oty"] = typeStr(ic->getOperand(0)->getType());
    } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
      o["sty"] = typeStr(g->getSourceElementType());
      APInt off(64, 0);
      if (g->accumulateConstantOffset(DL, off)) o["off"] = off.getSExtValue();
      else {
        // symbolic: base + sum(scale * index) + const
        MapVector<Value*, APInt> vo; APInt co(64, 0);
        if (g->collectOffset(DL, 64, vo, co)) {
          json::Array va;
          for (auto& p : vo) va.push_back(json::Array{operand(p.first), p.second.getSExtValue()});
          o["voff"] = std::move(va); o["coff"] = co.getSExtValue();
        }
      }
    } else if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
      json::Array a; for (auto k : ev->indices()) a.push_back((int64_t)k); o["idx"] = std::move(a);
    } else if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
      json::Array a; for (auto k : iv->indices()) a.push_back((int64_t)k); o["idx"] = std::move(a);
    } else if (auto* lp = dyn_cast<LandingPadInst>(&i)) {
      o["cleanup"] = lp->isCleanup();
      json::Array cl;
      for (unsigned k = 0; k < lp->getNumClauses(); ++k)
        cl.push_back(json::Array{lp->isCatch(k) ? "catch" : "filter", constant(lp->getClause(k))});
      o["clauses"] = std::move(cl);
    } else if (auto* al = dyn_cast<AllocaInst>(&i)) {
      o["aty"] = typeStr(al->getAllocatedType());
      o["asize"] = (int64_t)DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue();
      o["vname"] = al->getName().str();
    } else if (auto* bo = dyn_cast<OverflowingBinaryOperator>(&i)) {
      o["nsw"] = bo->hasNoSignedWrap(); o["nuw"] = bo->hasNoUnsignedWrap();
    } else if (auto* ld = dyn_cast<LoadInst>(&i)) {
      o["size"] = (int64_t)DL.getTypeStoreSize(ld->getType()).getFixedValue();
      if (ld->isAtomic()) o["atomic"] = true;
    } else if (auto* st = dyn_cast<StoreInst>(&i)) {
      o["size"] = (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue();
      o["vty"] = typeStr(st->getValueOperand()->getType());
      if (st->isAtomic()) o["atomic"] = true;
    } else if (auto* ca = dyn_cast<CastInst>(&i)) {
      o["sty"] = typeStr(ca->getSrcTy());
    }
    return o;
  }
};

int main(int argc, char** argv) {
  std::vector<std::string> inputs;
  std::string out;
  bool doInline = false, all = false, simplify = true, reach = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
    if (a == "--out") out = next();
    else if (a == "--src") srcdir = next();
    else if (a == "--keep") keepRe.push_back(next());
    else if (a == "--root") rootRe.push_back(next());
    else if (a == "--lib") libInlineRe.push_back(next());
    else if (a == "--inline") doInline = true;
    else if (a == "--all") all = true;
    else if (a == "--raw") simplify = false;
    else if (a == "--reach") reach = true;
    else inputs.push_back(a);
  }
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  for (auto& in : inputs) {
    SMDiagnostic err;
    auto m = parseIRFile(in, err, ctx);
    if (!m) { err.print("irx", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << in << "\n"; return 2; }
  }
  if (!M) return 2;
  std::set<std::string> projectFns;
  for (auto& f : *M) if (isProject(f)) projectFns.insert(f.getName().str());
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  if (doInline) {
    // never inline members of a recursive component
    std::set<const Function*> recursive;
    CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      if (it.hasCycle()) for (auto* n : *it) if (n->getFunction()) recursive.insert(n->getFunction());
    }
    for (auto& f : *M) {
      if (f.isDeclaration()) continue;
      f.removeFnAttr(Attribute::OptimizeNone);
      bool proj = projectFns.count(f.getName().str());
      bool want = (proj && !matchAny(keepRe, dem(&f))) || (!proj && matchAny(libInlineRe, dem(&f)));
      if (want && !recursive.count(&f) && f.getName() != "main") {
        f.removeFnAttr(Attribute::NoInline);
        f.addFnAttr(Attribute::AlwaysInline);
      } else {
        f.removeFnAttr(Attribute::AlwaysInline);
        f.addFnAttr(Attribute::NoInline);
      }
      // keep every function: internal ones would be dropped after inlining
      if (proj && f.hasLocalLinkage()) { f.setLinkage(GlobalValue::WeakAnyLinkage); f.addFnAttr("was-internal"); }
      else if (proj && f.hasLinkOnceLinkage()) { f.setLinkage(GlobalValue::WeakAnyLinkage); f.setComdat(nullptr); }
    }
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(/*InsertLifetime=*/false));
    MPM.run(*M, MAM);
  }
  // --reach: everything a root refers to, directly or indirectly
  std::set<const Function*> reached;
  if (reach) {
    std::vector<const Function*> work;
    auto visit = [&](const Function* f) { if (f && !f->isDeclaration() && reached.insert(f).second) work.push_back(f); };
    std::function<void(const Value*, std::set<const Value*>&)> refs = [&](const Value* v, std::set<const Value*>& seen) {
      if (!isa<Constant>(v) || !seen.insert(v).second) return;
      if (auto* f = dyn_cast<Function>(v)) { visit(f); return; }
      if (auto* g = dyn_cast<GlobalVariable>(v)) { if (g->hasInitializer()) refs(g->getInitializer(), seen); return; }
      for (auto& o : cast<User>(v)->operands()) refs(o.get(), seen);
    };
    for (auto& f : *M) if (!f.isDeclaration() && matchAny(rootRe, dem(&f))) visit(&f);
    std::set<const Value*> seen;
    while (!work.empty()) {
      auto* f = work.back(); work.pop_back();
      for (auto& b : *f) for (auto& i : b) for (auto& o : i.operands()) refs(o.get(), seen);
    }
  }
  json::Array fns;
  Dumper D(*M);
  std::set<std::string> declared;
  for (auto& f : *M) {
    if (f.isDeclaration()) continue;
    bool proj = projectFns.count(f.getName().str());
    if (reach) { if (!reached.count(&f)) continue; }
    else {
      if (!all && !proj) continue;
      if (!rootRe.empty() && !matchAny(rootRe, dem(&f))) continue;
    }
    f.removeFnAttr(Attribute::OptimizeNone);
    if (simplify) {
      for (int round = 0; round < 2; ++round) {
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(InstSimplifyPass());
        FPM.run(f, FAM);
        for (auto& b : f) ConstantFoldTerminator(&b, true);
        removeUnreachableBlocks(f);
        for (auto it = f.begin(); it != f.end();) {
          BasicBlock& b = *it++;
          MergeBlockIntoPredecessor(&b);
        }
        FAM.invalidate(f, PreservedAnalyses::none());
      }
    }
    if (verifyFunction(f, &errs())) { errs() << "broken function\n"; return 2; }
    fns.push_back(D.dumpFunction(f, proj));
  }
  json::Object globals;
  for (auto& g : M->globals()) {
    if (!D.gvars.count(g.getName().str())) continue;
    json::Object go{{"const", g.isConstant()}, {"ty", typeStr(g.getValueType())}, {"tls", g.isThreadLocal()}, {"dem", demangle(g.getName().str())}};
    if (g.hasInitializer()) {
      if (auto* cd = dyn_cast<ConstantDataArray>(g.getInitializer()); cd && cd->isString()) {
        std::string raw = cd->getAsString().str();
        if (!raw.empty() && raw.back() == 0) { raw.pop_back(); if (json::isUTF8(raw)) go["str"] = raw; }
      } else if (isa<ConstantAggregateZero>(g.getInitializer()) && g.getValueType()->isArrayTy() && cast<ArrayType>(g.getValueType())->getElementType()->isIntegerTy(8) && cast<ArrayType>(g.getValueType())->getNumElements() == 1) go["str"] = "";
      else go["init"] = D.constant(g.getInitializer());
    }
    globals[g.getName().str()] = std::move(go);
  }
  // class layouts from debug info
  json::Object classes;
  DebugInfoFinder DIF; DIF.processModule(*M);
  for (auto* t : DIF.types()) {
    auto* ct = dyn_cast<DICompositeType>(t);
    if (!ct || ct->getIdentifier().empty()) continue;
    std::string p = fileOf(ct->getFile());
    if (p.compare(0, srcdir.size(), srcdir) != 0) continue;
    json::Array mem;
    for (auto* e : ct->getElements()) {
      if (auto* dt = dyn_cast<DIDerivedType>(e)) {
        if (dt->getTag() == dwarf::DW_TAG_member && !dt->isStaticMember()) {
          std::string tn;
          DIType* bt = dt->getBaseType();
          std::string quals;
          while (bt) {
            if (auto* d2 = dyn_cast<DIDerivedType>(bt)) { quals += std::string(dwarf::TagString(d2->getTag()).str()) + " "; if (d2->getTag()==dwarf::DW_TAG_typedef && tn.empty()) tn = d2->getName().str(); bt = d2->getBaseType(); }
            else { tn = bt->getName().str(); break; }
          }
          mem.push_back(json::Array{dt->getName().str(), (int64_t)(dt->getOffsetInBits() / 8), (int64_t)(dt->getSizeInBits() / 8), tn, quals});
        }
      } else if (auto* en = dyn_cast<DIEnumerator>(e)) {
        mem.push_back(json::Array{en->getName().str(), en->getValue().getSExtValue()});
      }
    }
    // declarations and partial definitions of the same class: keep the most complete one
    if (auto* old = classes.getObject(ct->getIdentifier().str()))
      if (old->getArray("members")->size() >= mem.size()) continue;
    classes[ct->getIdentifier().str()] = json::Object{{"name", ct->getName().str()}, {"members", std::move(mem)}, {"enum", ct->getTag() == dwarf::DW_TAG_enumeration_type}, {"file", p}, {"size", (int64_t)(ct->getSizeInBits()/8)}};
  }
  json::Object root{{"functions", std::move(fns)}, {"globals", std::move(globals)}, {"classes", std::move(classes)}};
  std::error_code ec;
  raw_fd_ostream os(out.empty() ? "-" : out, ec);
  if (ec) return 2;
  os << json::Value(std::move(root));
  return 0;
}
