// irx: link LLVM IR of /repo, normalise it (inline everything that is not a
// known API boundary, SSA form, CSE) and export it as JSON for the rule engine.
// It never executes anything of the analysed program.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <set>
#include <map>
#include <string>
using namespace llvm;

static std::map<std::string, std::map<uint64_t, std::string>> FieldNames; // struct -> bitoffset -> name
static const DataLayout *DL;

static std::string cleanStruct(StringRef n) {
  for (StringRef p : {"struct.", "class.", "union."})
    if (n.starts_with(p)) { n = n.drop_front(p.size()); break; }
  // drop .NNN suffix
  size_t d = n.rfind('.');
  if (d != StringRef::npos) {
    StringRef s = n.drop_front(d + 1);
    if (!s.empty() && s.find_first_not_of("0123456789") == StringRef::npos) n = n.take_front(d);
  }
  return n.str();
}

static std::string qual(const DIScope *s) {
  std::string r;
  while (s) {
    if (auto *ns = dyn_cast<DINamespace>(s)) r = (ns->getName() + "::" + r).str();
    else if (auto *c = dyn_cast<DICompositeType>(s)) r = (c->getName() + "::" + r).str();
    s = s->getScope();
  }
  return r;
}
static std::map<std::string, std::map<std::string, std::string>> FieldPtr; // struct -> field -> pointee struct
static std::string structOf(DIType *t) {
  std::string td;
  while (t) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_typedef) { td = d->getName().str(); t = d->getBaseType(); continue; }
      if (d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type || d->getTag() == dwarf::DW_TAG_restrict_type) { t = d->getBaseType(); continue; }
      return "";
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_union_type)
        return c->getName().empty() ? td : c->getName().str();
      return "";
    }
    return "";
  }
  return "";
}
static std::string pointeeOf(DIType *t) {
  while (t) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_reference_type) return structOf(d->getBaseType());
      if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type || d->getTag() == dwarf::DW_TAG_restrict_type) { t = d->getBaseType(); continue; }
    }
    return "";
  }
  return "";
}
static bool isUnsignedDI(DIType *t) {
  while (t) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_pointer_type) return false;
      t = d->getBaseType(); continue;
    }
    if (auto *b = dyn_cast<DIBasicType>(t)) return b->getEncoding() == dwarf::DW_ATE_unsigned || b->getEncoding() == dwarf::DW_ATE_unsigned_char || b->getEncoding() == dwarf::DW_ATE_boolean;
    return false;
  }
  return false;
}
static std::map<std::string, std::set<std::string>> FieldUns;
static void addComposite(const std::string &name, DICompositeType *c) {
  if (name.empty()) return;
  auto &m = FieldNames[name];
  if (!c->getElements()) return;
  for (auto *e : c->getElements())
    if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) {
      if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
      {
        m.emplace(d->getOffsetInBits(), d->getName().str());
        std::string p = pointeeOf(d->getBaseType());
        if (!p.empty()) FieldPtr[name][d->getName().str()] = p;
        if (isUnsignedDI(d->getBaseType())) FieldUns[name].insert(d->getName().str());
      }
      else if (d->getTag() == dwarf::DW_TAG_inheritance)
        m.emplace(d->getOffsetInBits(), "<base>");
    }
}
static std::string fieldName(StructType *st, unsigned idx) {
  if (!st->hasName()) return "#" + std::to_string(idx);
  std::string n = cleanStruct(st->getName());
  uint64_t off = DL->getStructLayout(st)->getElementOffset(idx) * 8;
  auto it = FieldNames.find(n);
  if (it != FieldNames.end()) {
    auto f = it->second.find(off);
    if (f != it->second.end()) return f->second;
  }
  return "#" + std::to_string(idx);
}

static std::string tyStr(Type *t) {
  std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str();
}

struct FnCtx { std::map<const Value *, int> ids; std::map<const BasicBlock *, int> bids; };

static json::Value operand(const Value *v, FnCtx *fc, int depth = 0);
static json::Array gepPath(const GEPOperator *g, FnCtx *fc) {
  json::Array path;
  Type *cur = g->getSourceElementType();
  bool first = true;
  for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
    const Value *ix = *it;
    if (first) {
      first = false;
      if (auto *ci = dyn_cast<ConstantInt>(ix)) if (ci->isZero()) continue;
      json::Array e; e.push_back("i"); e.push_back(operand(ix, fc));
      e.push_back((int64_t)(cur->isSized() ? DL->getTypeAllocSize(cur).getFixedValue() : 0));
      e.push_back(-1);
      path.push_back(std::move(e));
      continue;
    }
    if (auto *st = dyn_cast<StructType>(cur)) {
      unsigned n = cast<ConstantInt>(ix)->getZExtValue();
      json::Array e; e.push_back("f");
      e.push_back(st->hasName() ? cleanStruct(st->getName()) : std::string(""));
      e.push_back(fieldName(st, n));
      e.push_back((int64_t)DL->getStructLayout(st)->getElementOffset(n));
      path.push_back(std::move(e));
      cur = st->getElementType(n);
    } else if (auto *at = dyn_cast<ArrayType>(cur)) {
      cur = at->getElementType();
      json::Array e; e.push_back("i"); e.push_back(operand(ix, fc));
      e.push_back((int64_t)DL->getTypeAllocSize(cur).getFixedValue());
      e.push_back((int64_t)at->getNumElements());
      path.push_back(std::move(e));
    } else {
      json::Array e; e.push_back("?"); path.push_back(std::move(e));
    }
  }
  return path;
}
static json::Value initVal(const Constant *c, int &budget) {
  if (budget-- <= 0) return json::Array{"..."};
  if (auto *ci = dyn_cast<ConstantInt>(c)) return json::Array{"c", ci->getBitWidth() <= 64 ? ci->getSExtValue() : 0};
  if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
  if (isa<ConstantAggregateZero>(c)) {
    json::Array a; a.push_back("z"); return json::Value(std::move(a));
  }
  if (auto *ca = dyn_cast<ConstantDataArray>(c)) {
    if (ca->isString() || ca->isCString()) {
      std::string s = ca->getAsString().str();
      while (!s.empty() && s.back() == 0) s.pop_back();
      std::string t; for (char ch : s) t += (ch >= 32 && ch < 127) ? ch : '?';
      json::Array by; for (char ch : s) by.push_back((int64_t)(unsigned char)ch);
      return json::Array{"s", t, std::move(by)};
    }
    json::Array a; a.push_back("a"); json::Array el;
    for (unsigned i = 0; i < ca->getNumElements(); i++) el.push_back(initVal(ca->getElementAsConstant(i), budget));
    a.push_back(std::move(el)); return json::Value(std::move(a));
  }
  if (isa<ConstantArray>(c)) {
    json::Array el; for (auto &o : c->operands()) el.push_back(initVal(cast<Constant>(o), budget));
    json::Array a; a.push_back("a"); a.push_back(std::move(el)); return json::Value(std::move(a));
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    json::Array el, nm; unsigned i = 0;
    for (auto &o : c->operands()) { el.push_back(initVal(cast<Constant>(o), budget)); nm.push_back(fieldName(cs->getType(), i++)); }
    json::Array a; a.push_back("st"); a.push_back(std::move(el)); a.push_back(std::move(nm));
    return json::Value(std::move(a));
  }
  return operand(c, nullptr);
}

static json::Value operand(const Value *v, FnCtx *fc, int depth) {
  if (auto *ci = dyn_cast<ConstantInt>(v)) return json::Array{"c", ci->getBitWidth() <= 64 ? ci->getSExtValue() : 0};
  if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
  if (auto *cf = dyn_cast<ConstantFP>(v)) {
    double d = 0; APFloat f = cf->getValueAPF(); bool li;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); d = f.convertToDouble();
    if (d != d || d - d != 0) return json::Array{"d", "nonfinite"};
    return json::Array{"d", d};
  }
  if (isa<UndefValue>(v)) return json::Array{"u"};
  if (auto *g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str()};
  if (auto *bb = dyn_cast<BasicBlock>(v)) return json::Array{"b", fc ? fc->bids[bb] : -1};
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    json::Array a; a.push_back("ce"); a.push_back(ce->getOpcodeName());
    json::Array ops; if (depth < 8) for (auto &o : ce->operands()) ops.push_back(operand(o, fc, depth + 1));
    a.push_back(std::move(ops));
    if (auto *g = dyn_cast<GEPOperator>(ce)) a.push_back(gepPath(g, fc));
    return json::Value(std::move(a));
  }
  if (fc) { auto it = fc->ids.find(v); if (it != fc->ids.end()) return json::Array{"v", it->second}; }
  if (isa<Constant>(v)) return json::Array{"k", tyStr(v->getType())};
  return json::Array{"?"};
}

static std::string relFile(StringRef dir, StringRef f) {
  std::string s = f.str();
  if (!f.starts_with("/") && !dir.empty()) s = (dir + "/" + f).str();
  return s;
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irx out.json boundaries.txt in.bc...\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err;
  std::set<std::string> boundary;
  {
    auto mb = MemoryBuffer::getFile(argv[2]);
    if (!mb) { errs() << "no boundary file\n"; return 2; }
    StringRef r = (*mb)->getBuffer();
    while (!r.empty()) { auto p = r.split('\n'); if (!p.first.trim().empty()) boundary.insert(p.first.trim().str()); r = p.second; }
  }
  bool inlineAll = boundary.count("*noinline*") == 0;
  std::unique_ptr<Module> M;
  std::set<std::string> declSrc;
  for (int i = 3; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print("irx", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << argv[i] << "\n"; return 2; }
  }
  DL = &M->getDataLayout();
  DebugInfoFinder dif; dif.processModule(*M);
  std::map<std::string, std::map<std::string,int64_t>> enums;
  for (auto *t : dif.types()) {
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_union_type) {
        addComposite(c->getName().str(), c);
        addComposite(qual(c->getScope()) + c->getName().str(), c);
      }
      if (c->getTag() == dwarf::DW_TAG_enumeration_type && c->getElements())
        for (auto *e : c->getElements()) if (auto *en = dyn_cast_or_null<DIEnumerator>(e))
        {
          enums[c->getName().str()][en->getName().str()] = en->getValue().getSExtValue();
          if (c->getName().empty()) if (auto *e0 = dyn_cast_or_null<DIEnumerator>(c->getElements()[0])) enums["<anon:" + e0->getName().str() + ">"][en->getName().str()] = en->getValue().getSExtValue();
        }
    } else if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_typedef && d->getBaseType())
        if (auto *c = dyn_cast<DICompositeType>(d->getBaseType())) if (c->getName().empty())
          addComposite(d->getName().str(), c);
    }
  }
  // inlining marks
  std::set<const Function *> recursive;
  {
    CallGraph cg(*M);
    for (auto it = scc_begin(&cg); !it.isAtEnd(); ++it)
      if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) recursive.insert(n->getFunction());
  }
  int ninl = 0;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); 
    std::string nm = F.getName().str();
    std::string base = nm; size_t d = base.rfind('.');
    if (d != std::string::npos && base.find_first_not_of("0123456789", d + 1) == std::string::npos) base = base.substr(0, d);
    std::string dem = demangle(base);
    bool stdfn = dem.find("std::") == 0 || dem.find("__gnu_cxx") != std::string::npos || (base.compare(0,2,"_Z")==0 && dem.find("rexjson") == std::string::npos && F.hasLinkOnceLinkage());
    if (auto *sp = F.getSubprogram()) if (sp->getFile()) { StringRef fn = sp->getFile()->getFilename(), dn = sp->getFile()->getDirectory(); if (fn.contains("/usr/") || dn.starts_with("/usr/")) stdfn = true; }
    bool b = boundary.count(base) || boundary.count(dem) || stdfn || recursive.count(&F) || base == "main" || !inlineAll;
    if (!b && base.compare(0,2,"_Z")==0) {
      // C++: demangled prefix (up to '(') listed
      std::string q = dem.substr(0, dem.find('('));
      if (boundary.count(q)) b = true;
    }
    if (b) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    else { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); if (F.hasLinkOnceLinkage()) F.setLinkage(GlobalValue::InternalLinkage); ninl++; }
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  const char *pipe = getenv("IRX_PIPE");
  std::string P = pipe ? pipe : "always-inline,function(sroa,instsimplify,early-cse<memssa>,jump-threading,sroa,instsimplify,early-cse<memssa>),cgscc(function-attrs),function(gvn<no-pre;no-load-pre>,jump-threading,instsimplify,early-cse<memssa>,dce)";
  if (auto e = PB.parsePassPipeline(MPM, P)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; return 2; }
  MPM.run(*M, MAM);

  json::Object out; json::Array fns, gls;
  std::map<std::string,int> fileIds; json::Array files;
  auto fid = [&](const std::string &s) { auto it = fileIds.find(s); if (it != fileIds.end()) return it->second; int n = fileIds.size(); fileIds[s] = n; files.push_back(s); return n; };
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    FnCtx fc; int id = 0;
    json::Object fo; fo["name"] = F.getName().str();
    if (F.getName().starts_with("_Z")) fo["dem"] = demangle(F.getName().str());
    fo["internal"] = F.hasLocalLinkage(); fo["addrtaken"] = F.hasAddressTaken(); fo["linkonce"] = F.hasLinkOnceLinkage();
    bool dead = F.hasLocalLinkage() && F.use_empty(); fo["dead"] = dead;
    fo["inl"] = F.hasFnAttribute(Attribute::AlwaysInline);
    fo["ret"] = tyStr(F.getReturnType());
    fo["varargs"] = F.isVarArg();
    if (auto *sp = F.getSubprogram()) {
      fo["file"] = fid(relFile(sp->getDirectory(), sp->getFilename())); fo["line"] = (int64_t)sp->getLine(); fo["sp"] = sp->getName().str();
      json::Array at, au; std::string rt;
      if (auto *st = sp->getType()) { auto ta = st->getTypeArray(); for (unsigned k = 0; k < ta.size(); k++) { std::string p = ta[k] ? pointeeOf(ta[k]) : ""; if (k == 0) rt = p; else { at.push_back(p); au.push_back(ta[k] ? isUnsignedDI(ta[k]) : false); } } }
      fo["at"] = std::move(at); fo["au"] = std::move(au); fo["rt"] = rt; fo["ret_u"] = sp->getType() && sp->getType()->getTypeArray().size() && sp->getType()->getTypeArray()[0] ? isUnsignedDI(sp->getType()->getTypeArray()[0]) : false;
    } else { fo["file"] = -1; fo["line"] = 0; fo["sp"] = ""; }
    json::Array args;
    for (auto &A : F.args()) { fc.ids[&A] = id; args.push_back(json::Array{id, tyStr(A.getType()), A.getName().str(), A.hasStructRetAttr()}); id++; }
    fo["args"] = std::move(args);
    int bid = 0;
    for (auto &B : F) { fc.bids[&B] = bid++; for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; fc.ids[&I] = id++; } }
    json::Object dts, dvars;
    for (auto &B : F) for (auto &I : B) if (auto *dv = dyn_cast<DbgValueInst>(&I)) {
      if (dv->getNumVariableLocationOps() != 1 || !dv->getValue()) continue;
      if (dv->getExpression() && dv->getExpression()->getNumElements()) continue;
      auto it = fc.ids.find(dv->getValue()); if (it == fc.ids.end()) continue;
      std::string p = pointeeOf(dv->getVariable()->getType());
      if (!p.empty()) { auto k = std::to_string(it->second); auto *a = dts.getArray(k); if (!a) { dts[k] = json::Array{}; a = dts.getArray(k); } a->push_back(p); }
      auto k = std::to_string(it->second); auto *a = dvars.getArray(k); if (!a) { dvars[k] = json::Array{}; a = dvars.getArray(k); } a->push_back(dv->getVariable()->getName().str());
      if (isUnsignedDI(dv->getVariable()->getType())) a->push_back("<u>");
    } else if (auto *dd = dyn_cast<DbgDeclareInst>(&I)) {
      if (!dd->getAddress()) continue;
      auto it = fc.ids.find(dd->getAddress()); if (it == fc.ids.end()) continue;
      auto k = std::to_string(it->second); json::Array a; a.push_back(dd->getVariable()->getName().str()); dvars[k] = std::move(a);
    }
    fo["dt"] = std::move(dts); fo["dv"] = std::move(dvars);
    json::Array blocks;
    for (auto &B : F) {
      json::Array insts;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o; o["i"] = fc.ids[&I]; o["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) o["t"] = tyStr(I.getType());
        if (I.hasName()) o["n"] = I.getName().str();
        json::Array ops;
        if (auto *ph = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < ph->getNumIncomingValues(); k++)
            ops.push_back(json::Array{operand(ph->getIncomingValue(k), &fc), fc.bids[ph->getIncomingBlock(k)]});
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
          for (auto &a : cb->args()) ops.push_back(operand(a, &fc));
          o["callee"] = operand(cb->getCalledOperand()->stripPointerCasts(), &fc);
          if (auto *inv = dyn_cast<InvokeInst>(cb)) { o["normal"] = fc.bids[inv->getNormalDest()]; o["unwind"] = fc.bids[inv->getUnwindDest()]; }
          if (cb->doesNotReturn()) o["noret"] = true;
          if (cb->onlyReadsMemory() ) o["ro"] = true;
        } else {
          for (auto &a : I.operands()) ops.push_back(operand(a, &fc));
        }
        o["ops"] = std::move(ops);
        if (auto *c = dyn_cast<CmpInst>(&I)) o["p"] = CmpInst::getPredicateName(c->getPredicate()).str();
        if (auto *s = dyn_cast<StoreInst>(&I)) { o["vt"] = tyStr(s->getValueOperand()->getType()); o["sz"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue(); }
        if (isa<LoadInst>(&I)) o["sz"] = (int64_t)DL->getTypeStoreSize(I.getType()).getFixedValue();
        if (auto *al = dyn_cast<AllocaInst>(&I)) { o["at"] = cleanStruct(tyStr(al->getAllocatedType()).substr(tyStr(al->getAllocatedType())[0]=='%'?1:0)); o["asz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); }
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { o["path"] = gepPath(cast<GEPOperator>(g), &fc); o["inb"] = g->isInBounds(); }
        if (auto *b = dyn_cast<BinaryOperator>(&I)) { if (isa<OverflowingBinaryOperator>(b)) { if (b->hasNoSignedWrap()) o["nsw"] = true; if (b->hasNoUnsignedWrap()) o["nuw"] = true; } }
        if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          json::Array cs; for (auto &c : sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), fc.bids[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs); o["def"] = fc.bids[sw->getDefaultDest()];
        }
        if (isa<CastInst>(&I)) o["st"] = tyStr(I.getOperand(0)->getType());
        if (isa<CmpInst>(&I)) o["st"] = tyStr(I.getOperand(0)->getType());
        if (auto *ar = dyn_cast<AtomicRMWInst>(&I)) o["rmw"] = AtomicRMWInst::getOperationName(ar->getOperation()).str();
        if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (unsigned k : ev->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
        if (auto *l = dyn_cast<LoadInst>(&I)) if (l->isVolatile()) o["vol"] = true;
        if (auto *s = dyn_cast<StoreInst>(&I)) if (s->isVolatile()) o["vol"] = true;
        if (const DebugLoc &dl = I.getDebugLoc()) {
          auto *sp = cast<DILocation>(dl.get())->getScope()->getSubprogram();
          o["l"] = json::Array{(int64_t)dl.getLine(), fid(relFile(dl->getDirectory(), dl->getFilename())), sp ? sp->getName().str() : ""};
        }
        insts.push_back(std::move(o));
      }
      json::Object bo; bo["id"] = fc.bids[&B]; bo["insts"] = std::move(insts);
      json::Array succ; for (auto *s : successors(&B)) succ.push_back(fc.bids[s]); bo["succ"] = std::move(succ);
      blocks.push_back(std::move(bo));
    }
    fo["blocks"] = std::move(blocks);
    fns.push_back(std::move(fo));
  }
  for (auto &G : M->globals()) {
    json::Object g; g["name"] = G.getName().str(); g["internal"] = G.hasLocalLinkage(); g["const"] = G.isConstant();
    g["decl"] = G.isDeclaration(); g["ty"] = tyStr(G.getValueType()); g["tls"] = G.isThreadLocal();
    SmallVector<DIGlobalVariableExpression *, 1> dge; G.getDebugInfo(dge);
    if (!dge.empty()) { auto *v = dge[0]->getVariable(); g["file"] = fid(relFile(v->getDirectory(), v->getFilename())); g["line"] = (int64_t)v->getLine(); g["src"] = v->getName().str(); }
    int budget = 40000;
    if (G.hasInitializer()) g["init"] = initVal(G.getInitializer(), budget);
    gls.push_back(std::move(g));
  }
  json::Object declTypes;
  for (auto &F : *M) if (F.isDeclaration()) if (auto *sp = F.getSubprogram()) if (auto *st = sp->getType()) {
    auto ta = st->getTypeArray(); json::Array a; for (unsigned k = 0; k < ta.size(); k++) a.push_back(ta[k] ? pointeeOf(ta[k]) : ""); declTypes[F.getName().str()] = std::move(a); }
  out["declTypes"] = std::move(declTypes);
  json::Array decls; for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic()) decls.push_back(F.getName().str());
  json::Object structs;
  for (auto *st : M->getIdentifiedStructTypes()) {
    if (st->isOpaque() || !st->isSized()) continue;
    json::Array el; for (unsigned i = 0; i < st->getNumElements(); i++) el.push_back(json::Array{fieldName(st, i), tyStr(st->getElementType(i)), (int64_t)DL->getStructLayout(st)->getElementOffset(i)});
    json::Object so; so["size"] = (int64_t)DL->getTypeAllocSize(st).getFixedValue(); so["el"] = std::move(el);
    { json::Object fp; std::string n = cleanStruct(st->getName()); for (auto &p : FieldPtr[n]) fp[p.first] = p.second; so["fp"] = std::move(fp); json::Array fu; for (auto &p : FieldUns[n]) fu.push_back(p); so["fu"] = std::move(fu);
      json::Object fo2; for (auto &p : FieldNames[n]) fo2[std::to_string(p.first/8)] = p.second; so["off"] = std::move(fo2); }
    structs[cleanStruct(st->getName())] = std::move(so);
  }
  json::Object eo; for (auto &p : enums) { json::Object e; for (auto &q : p.second) e[q.first] = q.second; eo[p.first.empty() ? "<anon>" : p.first] = std::move(e); }
  out["functions"] = std::move(fns); out["globals"] = std::move(gls); out["files"] = std::move(files); out["decls"] = std::move(decls);
  out["structs"] = std::move(structs); out["enums"] = std::move(eo); out["ninlined"] = ninl;
  std::error_code ec; raw_fd_ostream os(argv[1], ec); if (ec) { errs() << ec.message(); return 2; }
  os << json::Value(std::move(out));
  return 0;
}
