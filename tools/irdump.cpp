// irdump: read an LLVM bitcode file, promote memory to registers, and write the
// module as a compact JSON document for the analyser in engine/. No code is run.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include <map>
using namespace llvm;

static const DataLayout* DL;

static std::string sty(Type* t) {
  if (t->isFloatTy()) return "f32";
  if (t->isDoubleTy()) return "f64";
  if (t->isX86_FP80Ty()) return "f80";
  if (t->isPointerTy()) return "p";
  if (auto* it = dyn_cast<IntegerType>(t)) return "i" + std::to_string(it->getBitWidth());
  if (t->isVoidTy()) return "v";
  return "?";
}

static void flatten(Type* t, uint64_t off, json::Array& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    auto es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i)
      flatten(at->getElementType(), off + i * es, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    auto es = DL->getTypeStoreSize(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); ++i)
      flatten(vt->getElementType(), off + i * es, out);
  } else {
    out.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t).getFixedValue(), sty(t)});
  }
}

static json::Value jty(Type* t) {
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return "v";
  if (t->isAggregateType() || t->isVectorTy()) {
    json::Array a;
    flatten(t, 0, a);
    return json::Object{{"agg", std::move(a)}};
  }
  return sty(t);
}

static uint64_t leafCount(Type* t) { json::Array a; flatten(t, 0, a); return a.size(); }

static uint64_t leafStart(Type* t, ArrayRef<unsigned> idx, uint64_t& count) {
  uint64_t s = 0;
  for (unsigned i : idx) {
    if (auto* st = dyn_cast<StructType>(t)) {
      for (unsigned k = 0; k < i; ++k) s += leafCount(st->getElementType(k));
      t = st->getElementType(i);
    } else {
      auto* at = cast<ArrayType>(t);
      s += i * leafCount(at->getElementType());
      t = at->getElementType();
    }
  }
  count = leafCount(t);
  return s;
}

struct Numberer {
  std::map<const Value*, int> ids;
  std::map<const BasicBlock*, int> bbs;
};

static json::Value cst(const Constant* c);

static json::Value gepObj(const GEPOperator* g, std::function<json::Value(const Value*)> opf) {
  int64_t base = 0;
  json::Array vars;
  for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
    const Value* idx = gti.getOperand();
    if (auto* st = gti.getStructTypeOrNull()) {
      base += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
    } else {
      int64_t scale = DL->getTypeAllocSize(gti.getIndexedType()).getFixedValue();
      if (auto* ci = dyn_cast<ConstantInt>(idx)) base += ci->getSExtValue() * scale;
      else vars.push_back(json::Array{opf(idx), scale});
    }
  }
  return json::Object{{"k", "gep"}, {"p", opf(g->getPointerOperand())}, {"o", base}, {"v", std::move(vars)}};
}

static json::Value cst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; ci->getValue().toStringSigned(s);
    return json::Object{{"k", "int"}, {"v", std::string(s)}, {"t", sty(c->getType())}};
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF();
    bool lose; 
    if (c->getType()->isX86_FP80Ty() || true) f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    std::string v;
    if (f.isNaN()) v = "nan";
    else if (f.isInfinity()) v = f.isNegative() ? "-inf" : "inf";
    else { char buf[64]; snprintf(buf, sizeof buf, "%a", f.convertToDouble()); v = buf; }
    return json::Object{{"k", "fp"}, {"v", v}, {"t", sty(c->getType())}};
  }
  if (isa<ConstantPointerNull>(c)) return json::Object{{"k", "null"}};
  if (isa<UndefValue>(c)) return json::Object{{"k", "undef"}, {"t", jty(c->getType())}};  // poison too
  if (auto* g = dyn_cast<GlobalValue>(c)) return json::Object{{"k", "g"}, {"n", g->getName().str()}};
  if (isa<ConstantAggregateZero>(c)) return json::Object{{"k", "zero"}, {"t", jty(c->getType())}};
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    json::Array a;
    for (auto& o : ca->operands()) a.push_back(cst(cast<Constant>(o.get())));
    return json::Object{{"k", "agg"}, {"e", std::move(a)}, {"t", jty(c->getType())}};
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    json::Array a;
    for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(cst(cd->getElementAsConstant(i)));
    return json::Object{{"k", "agg"}, {"e", std::move(a)}, {"t", jty(c->getType())}};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(ce))
      return gepObj(g, [](const Value* v) { return cst(cast<Constant>(v)); });
    json::Array a;
    for (auto& o : ce->operands()) a.push_back(cst(cast<Constant>(o.get())));
    return json::Object{{"k", "ce"}, {"op", ce->getOpcodeName()}, {"a", std::move(a)}, {"t", jty(ce->getType())}};
  }
  return json::Object{{"k", "?"}};
}

static json::Value opnd(const Value* v, Numberer& N) {
  if (auto* c = dyn_cast<Constant>(v)) return cst(c);
  auto it = N.ids.find(v);
  if (it != N.ids.end()) return it->second;
  return json::Object{{"k", "?"}};
}

int main(int argc, char** argv) {
  if (argc < 2) { errs() << "usage: irdump in.bc\n"; return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();

  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    PromotePass pp; 
    FAM.invalidate(F, pp.run(F, FAM));
  }

  json::Array funcs;
  for (auto& F : *M) {
    json::Object fo;
    fo["n"] = F.getName().str();
    fo["d"] = demangle(F.getName().str());
    fo["decl"] = F.isDeclaration();
    fo["ret"] = jty(F.getReturnType());
    if (auto* sp = F.getSubprogram()) {
      fo["file"] = (sp->getDirectory().empty() || sp->getFilename().starts_with("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str());
      fo["line"] = (int64_t)sp->getLine();
    }
    json::Array ps;
    Numberer N; int id = 0;
    for (auto& A : F.args()) {
      N.ids[&A] = id++;
      json::Object po{{"t", jty(A.getType())}};
      if (A.hasByValAttr()) po["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue();
      if (A.hasStructRetAttr()) po["sret"] = true;
      ps.push_back(std::move(po));
    }
    fo["params"] = std::move(ps);
    if (!F.isDeclaration()) {
      int bi = 0;
      for (auto& B : F) { N.bbs[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) N.ids[&I] = id++; }
      PostDominatorTree PDT(F);
      json::Array blocks;
      for (auto& B : F) {
        json::Array is;
        for (auto& I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          json::Object o;
          o["op"] = I.getOpcodeName();
          if (!I.getType()->isVoidTy()) { o["id"] = N.ids[&I]; o["t"] = jty(I.getType()); }
          if (auto& dl = I.getDebugLoc()) o["l"] = (int64_t)dl.getLine();
          json::Array a;
          if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            o["gep"] = gepObj(cast<GEPOperator>(g), [&](const Value* v) { return opnd(v, N); });
          } else if (auto* ph = dyn_cast<PHINode>(&I)) {
            for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
              a.push_back(json::Array{N.bbs[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i), N)});
          } else if (auto* br = dyn_cast<BranchInst>(&I)) {
            json::Array s;
            for (unsigned i = 0; i < br->getNumSuccessors(); ++i) s.push_back(N.bbs[br->getSuccessor(i)]);
            o["succ"] = std::move(s);
            if (br->isConditional()) a.push_back(opnd(br->getCondition(), N));
          } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            a.push_back(opnd(sw->getCondition(), N));
            o["default"] = N.bbs[sw->getDefaultDest()];
            json::Array cs;
            for (auto& c : sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), N.bbs[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
            o["t"] = sty(sw->getCondition()->getType());
          } else if (auto* cb = dyn_cast<CallBase>(&I)) {
            if (auto* iv = dyn_cast<InvokeInst>(&I)) o["succ"] = json::Array{N.bbs[iv->getNormalDest()], N.bbs[iv->getUnwindDest()]};
            const Value* cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto* f = dyn_cast<Function>(cv)) o["callee"] = f->getName().str();
            else o["fp"] = opnd(cv, N);
            json::Array at, bv;
            for (unsigned i = 0; i < cb->arg_size(); ++i) {
              a.push_back(cb->getArgOperand(i)->getType()->isMetadataTy() ? json::Value(nullptr) : opnd(cb->getArgOperand(i), N));
              at.push_back(jty(cb->getArgOperand(i)->getType()));
              bv.push_back(cb->isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() : (int64_t)0);
            }
            o["at"] = std::move(at); o["bv"] = std::move(bv);
          } else {
            for (auto& u : I.operands()) a.push_back(opnd(u.get(), N));
            if (auto* c = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["ot"] = jty(c->getOperand(0)->getType()); }
            else if (auto* al = dyn_cast<AllocaInst>(&I)) { o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); if (al->getName().size()) o["name"] = al->getName().str(); }
            else if (auto* st = dyn_cast<StoreInst>(&I)) o["st"] = jty(st->getValueOperand()->getType());
            else if (auto* ca = dyn_cast<CastInst>(&I)) o["ot"] = jty(ca->getSrcTy());
            else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { uint64_t n; auto s = leafStart(ev->getAggregateOperand()->getType(), ev->getIndices(), n); o["leaf"] = json::Array{(int64_t)s, (int64_t)n}; o["ot"] = jty(ev->getAggregateOperand()->getType()); }
            else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { uint64_t n; auto s = leafStart(iv->getAggregateOperand()->getType(), iv->getIndices(), n); o["leaf"] = json::Array{(int64_t)s, (int64_t)n}; o["ot"] = jty(iv->getInsertedValueOperand()->getType()); }
            else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { json::Array m; for (int x : sv->getShuffleMask()) m.push_back(x); o["mask"] = std::move(m); }
          }
          o["a"] = std::move(a);
          is.push_back(std::move(o));
        }
        auto* node = PDT.getNode(&B);
        int ip = -1;
        if (node && node->getIDom() && node->getIDom()->getBlock()) ip = N.bbs[node->getIDom()->getBlock()];
        blocks.push_back(json::Object{{"i", std::move(is)}, {"ipdom", ip}});
      }
      fo["blocks"] = std::move(blocks);
    }
    funcs.push_back(std::move(fo));
  }
  json::Array globs;
  for (auto& G : M->globals()) {
    json::Object go{{"n", G.getName().str()}, {"d", demangle(G.getName().str())}, {"const", G.isConstant()}, {"size", (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0)}, {"decl", G.isDeclaration()}, {"tls", G.isThreadLocal()}, {"link", (int64_t)G.getLinkage()}};
    go["t"] = G.getValueType()->isSized() && !G.isDeclaration() ? jty(G.getValueType()) : json::Value("v");
    if (G.hasInitializer() && DL->getTypeAllocSize(G.getValueType()).getFixedValue() <= 65536) go["init"] = cst(G.getInitializer());
    globs.push_back(std::move(go));
  }
  outs() << json::Value(json::Object{{"funcs", std::move(funcs)}, {"globals", std::move(globs)}});
  return 0;
}
