// irdump: normalises LLVM bitcode of one translation unit and writes it as one JSON object per line.
//   irdump in.bc out.jsonl
// Line kinds:  {"k":"g",...} global variable with initializer bytes/refs
//              {"k":"f",...} function (declaration or definition, blocks, loops)
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <string>
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstdlib>
using namespace llvm;

static std::string esc(StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
static std::string tystr(Type *t) {
  if (t->isVoidTy()) return "v";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isDoubleTy()) return "d";
  if (t->isFloatTy()) return "f";
  if (t->isPointerTy()) return "p";
  if (auto *vt = dyn_cast<FixedVectorType>(t))
    return "<" + std::to_string(vt->getNumElements()) + "x" + tystr(vt->getElementType()) + ">";
  if (auto *at = dyn_cast<ArrayType>(t))
    return "[" + std::to_string(at->getNumElements()) + "x" + tystr(at->getElementType()) + "]";
  if (auto *st = dyn_cast<StructType>(t)) {
    std::string r = "{";
    for (unsigned i = 0; i < st->getNumElements(); i++) { if (i) r += ","; r += tystr(st->getElementType(i)); }
    return r + "}";
  }
  std::string s; raw_string_ostream os(s); t->print(os); return "?" + os.str();
}
struct Dumper {
  Module &M; const DataLayout &DL; FILE *out;
  std::map<const Value *, int> id;
  std::vector<std::string> dbg; std::map<std::string, int> dbgid;
  Dumper(Module &m, FILE *o) : M(m), DL(m.getDataLayout()), out(o) {}

  std::string dbl(double v) {
    if (std::isnan(v)) return "[\"u\"]";
    if (std::isinf(v)) return v > 0 ? "[\"d\",1e999]" : "[\"d\",-1e999]";
    char b[64]; snprintf(b, 64, "[\"d\",%.17g]", v); return b;
  }
  std::string cst(const Constant *c) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      SmallString<32> s; ci->getValue().toStringSigned(s);
      if (ci->getBitWidth() == 1) return std::string("[\"i\",") + (ci->isZero() ? "0" : "1") + "]";
      return "[\"i\"," + std::string(s.str()) + "]";
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      if (t->isDoubleTy()) return dbl(cf->getValueAPF().convertToDouble());
      if (t->isFloatTy()) return dbl(cf->getValueAPF().convertToFloat());
      if (t->isX86_FP80Ty()) { APFloat f = cf->getValueAPF(); bool lost; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost); return dbl(f.convertToDouble()); }
      return "[\"?\"]";
    }
    if (isa<ConstantPointerNull>(c)) return "[\"n\"]";
    if (isa<UndefValue>(c)) return "[\"u\"," + esc(tystr(t)) + "]";
    if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + esc(tystr(t)) + "]";
    if (auto *f = dyn_cast<Function>(c)) return "[\"F\"," + esc(f->getName()) + "]";
    if (auto *g = dyn_cast<GlobalVariable>(c)) return "[\"g\"," + esc(g->getName()) + ",0]";
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return cst(ga->getAliasee());
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
      std::string r = "[\"c\"," + esc(tystr(t)) + ",[";
      for (unsigned i = 0; i < cds->getNumElements(); i++) { if (i) r += ","; r += cst(cds->getElementAsConstant(i)); }
      return r + "]]";
    }
    if (isa<ConstantVector>(c) || isa<ConstantArray>(c) || isa<ConstantStruct>(c)) {
      std::string r = "[\"c\"," + esc(tystr(t)) + ",[";
      for (unsigned i = 0; i < c->getNumOperands(); i++) { if (i) r += ","; r += cst(cast<Constant>(c->getOperand(i))); }
      return r + "]]";
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (auto *gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (gep->accumulateConstantOffset(DL, off)) {
          const Constant *b = cast<Constant>(gep->getPointerOperand());
          if (auto *g = dyn_cast<GlobalVariable>(b)) return "[\"g\"," + esc(g->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
        }
      }
      if (ce->isCast()) return cst(ce->getOperand(0));
    }
    return "[\"?\"]";
  }
  std::string opnd(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return cst(c);
    auto it = id.find(v);
    if (it != id.end()) return std::to_string(it->second);
    if (isa<MetadataAsValue>(v)) return "[\"m\"]";
    return "[\"?\"]";
  }
  std::string loc(const Instruction &I) {
    const DebugLoc &d = I.getDebugLoc();
    if (!d) return "-1";
    auto *sc = cast<DILocation>(d.get());
    std::string s = (sc->getFilename() + ":" + Twine(sc->getLine())).str();
    if (auto *sp = sc->getScope()->getSubprogram()) { s += " "; s += sp->getName().str(); }
    // outermost position outside tiny helpers: also record the inlined-at chain
    const DILocation *ia = sc->getInlinedAt(); int n = 0;
    while (ia && n < 12) {
      s += (" < " + ia->getFilename() + ":" + Twine(ia->getLine())).str();
      if (auto *sp = ia->getScope()->getSubprogram()) { s += " "; s += sp->getName().str(); }
      ia = ia->getInlinedAt(); n++;
    }
    auto it = dbgid.find(s);
    if (it != dbgid.end()) return std::to_string(it->second);
    int k = dbg.size(); dbg.push_back(s); dbgid[s] = k; return std::to_string(k);
  }
  void inst(std::string &o, const Instruction &I, std::map<const BasicBlock *, int> &bb) {
    int me = id.count(&I) ? id[&I] : -1;
    std::string name = I.getOpcodeName();
    std::string head = "[" + esc(name) + "," + std::to_string(me) + "," + esc(tystr(I.getType()));
    auto ops = [&]() { std::string r; for (auto &op : I.operands()) { r += ","; r += opnd(op.get()); } return r; };
    if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
      MapVector<Value *, APInt> var; APInt off(64, 0);
      if (gep->getType()->isPointerTy() && gep->collectOffset(DL, 64, var, off)) {
        o += head + "," + opnd(gep->getPointerOperand()) + "," + std::to_string(off.getSExtValue()) + ",[";
        bool f = true;
        for (auto &kv : var) { if (!f) o += ","; f = false; o += "[" + opnd(kv.first) + "," + std::to_string(kv.second.getSExtValue()) + "]"; }
        o += "]]"; return;
      }
    }
    if (auto *l = dyn_cast<LoadInst>(&I)) {
      o += head + "," + opnd(l->getPointerOperand()) + "," + std::to_string(DL.getTypeStoreSize(l->getType()).getFixedValue()) + "," + std::to_string(l->getAlign().value()) + "," + std::to_string(l->isVolatile() || l->isAtomic()) + "," + loc(I) + "]"; return;
    }
    if (auto *s = dyn_cast<StoreInst>(&I)) {
      o += head + "," + opnd(s->getValueOperand()) + "," + opnd(s->getPointerOperand()) + "," + esc(tystr(s->getValueOperand()->getType())) + "," +
           std::to_string(DL.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue()) + "," + std::to_string(s->getAlign().value()) + "," + std::to_string(s->isVolatile() || s->isAtomic()) + "," + loc(I) + "]"; return;
    }
    if (auto *a = dyn_cast<AllocaInst>(&I)) {
      o += head + "," + esc(tystr(a->getAllocatedType())) + "," + std::to_string(DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue()) + "," + opnd(a->getArraySize()) + "," + std::to_string(a->getAlign().value()) + "]"; return;
    }
    if (auto *p = dyn_cast<PHINode>(&I)) {
      o += head + ",[";
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) o += ","; o += "[" + opnd(p->getIncomingValue(i)) + "," + std::to_string(bb[p->getIncomingBlock(i)]) + "]"; }
      o += "]]"; return;
    }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
      if (b->isConditional()) o += head + "," + opnd(b->getCondition()) + "," + std::to_string(bb[b->getSuccessor(0)]) + "," + std::to_string(bb[b->getSuccessor(1)]) + "," + loc(I) + "]";
      else o += head + ",null," + std::to_string(bb[b->getSuccessor(0)]) + ",-1,-1]";
      return;
    }
    if (auto *s = dyn_cast<SwitchInst>(&I)) {
      o += head + "," + opnd(s->getCondition()) + "," + std::to_string(bb[s->getDefaultDest()]) + ",[";
      bool f = true;
      for (auto &c : s->cases()) { if (!f) o += ","; f = false; SmallString<32> v; c.getCaseValue()->getValue().toStringSigned(v); o += "[" + std::string(v.str()) + "," + std::to_string(bb[c.getCaseSuccessor()]) + "]"; }
      o += "]," + loc(I) + "]"; return;
    }
    if (auto *cb = dyn_cast<CallBase>(&I)) {
      const Value *cv = cb->getCalledOperand()->stripPointerCasts();
      std::string callee;
      if (auto *f = dyn_cast<Function>(cv)) callee = esc(f->getName()); else callee = opnd(cv);
      if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); callee = esc("asm:" + ia->getAsmString() + "|" + ia->getConstraintString()); }
      o += head + "," + callee + ",[";
      for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) o += ","; o += opnd(cb->getArgOperand(i)); }
      o += "]," + loc(I);
      if (auto *iv = dyn_cast<InvokeInst>(&I)) o += "," + std::to_string(bb[iv->getNormalDest()]) + "," + std::to_string(bb[iv->getUnwindDest()]);
      else o += ",-1,-1";
      // argument types
      o += ",[";
      for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) o += ","; o += esc(tystr(cb->getArgOperand(i)->getType())); }
      o += "]," + std::to_string(cb->doesNotThrow()) + "," + std::to_string(cb->doesNotReturn()) + "]"; return;
    }
    if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
      o += head + "," + loc(I) + "," + std::to_string(lp->isCleanup()) + ",[";
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (i) o += ",";
        if (lp->isCatch(i)) {
          const Value *c = lp->getClause(i)->stripPointerCasts();
          o += isa<ConstantPointerNull>(c) ? std::string("\"*\"") : esc(c->getName());
        } else o += "\"filter\"";
      }
      o += "]]"; return;
    }
    if (auto *c = dyn_cast<CmpInst>(&I)) {
      o += head + "," + esc(CmpInst::getPredicateName(c->getPredicate())) + ops() + "," + esc(tystr(c->getOperand(0)->getType())) + "]"; return;
    }
    if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
      o += head + ops() + ",[";
      bool f = true; for (int m : sv->getShuffleMask()) { if (!f) o += ","; f = false; o += std::to_string(m); }
      o += "]," + std::to_string(cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements()) + "]"; return;
    }
    if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { o += head + ops() + ",["; bool f = true; for (unsigned m : ev->indices()) { if (!f) o += ","; f = false; o += std::to_string(m); } o += "]]"; return; }
    if (auto *ev = dyn_cast<InsertValueInst>(&I)) { o += head + ops() + ",["; bool f = true; for (unsigned m : ev->indices()) { if (!f) o += ","; f = false; o += std::to_string(m); } o += "]]"; return; }
    if (isa<CastInst>(&I)) { o += head + ops() + "," + esc(tystr(I.getOperand(0)->getType())) + "]"; return; }
    if (auto *bo = dyn_cast<OverflowingBinaryOperator>(&I)) {
      o += head + ops() + "," + std::to_string(bo->hasNoSignedWrap()) + "," + loc(I) + "]"; return;
    }
    o += head + ops() + "," + loc(I) + "]";
  }
  void initbytes(std::string &o, const Constant *c, uint64_t off, bool &first) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { if (t->isAggregateType() || t->isVectorTy()) return; }
    if (auto *st = dyn_cast<StructType>(t)) {
      const StructLayout *sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) initbytes(o, c->getAggregateElement(i), off + sl->getElementOffset(i), first);
      return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL.getTypeAllocSize(at->getElementType());
      if (at->getNumElements() > 100000) return;
      for (unsigned i = 0; i < at->getNumElements(); i++) initbytes(o, c->getAggregateElement(i), off + i * es, first);
      return;
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      uint64_t es = DL.getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); i++) initbytes(o, c->getAggregateElement(i), off + i * es, first);
      return;
    }
    if (!first) o += ","; first = false;
    o += "[" + std::to_string(off) + "," + std::to_string(DL.getTypeStoreSize(t).getFixedValue()) + "," + esc(tystr(t)) + "," + cst(c) + "]";
  }
  void run() {
    for (auto &g : M.globals()) {
      std::string o = "{\"k\":\"g\",\"name\":" + esc(g.getName()) + ",\"dem\":" + esc(demangle(g.getName().str())) + ",\"const\":" + (g.isConstant() ? "1" : "0") +
        ",\"tls\":" + (g.isThreadLocal() ? "1" : "0") + ",\"decl\":" + (g.isDeclaration() ? "1" : "0") + ",\"linkage\":" + std::to_string((int)g.getLinkage()) +
        ",\"hidden\":" + (g.hasHiddenVisibility() ? "1" : "0") +
        ",\"size\":" + std::to_string(g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()).getFixedValue() : 0) + ",\"init\":[";
      bool first = true;
      if (g.hasInitializer()) initbytes(o, g.getInitializer(), 0, first);
      o += "]}\n";
      fputs(o.c_str(), out);
    }
    for (auto &F : M) {
      id.clear(); dbg.clear(); dbgid.clear();
      std::string o = "{\"k\":\"f\",\"name\":" + esc(F.getName()) + ",\"dem\":" + esc(demangle(F.getName().str())) + ",\"decl\":" + (F.isDeclaration() ? "1" : "0") +
        ",\"linkage\":" + std::to_string((int)F.getLinkage()) + ",\"nounwind\":" + (F.doesNotThrow() ? "1" : "0") +
        ",\"feat\":" + esc(F.getFnAttribute("target-features").getValueAsString());
      if (auto *sp = F.getSubprogram()) o += ",\"file\":" + esc(sp->getFilename()) + ",\"line\":" + std::to_string(sp->getLine());
      if (F.isDeclaration()) { o += "}\n"; fputs(o.c_str(), out); continue; }
      int n = 0; o += ",\"args\":[";
      for (auto &a : F.args()) { if (n) o += ","; id[&a] = n++; o += esc(tystr(a.getType())); }
      o += "]";
      std::map<const BasicBlock *, int> bb; int nb = 0;
      for (auto &B : F) { bb[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) id[&I] = n++; }
      DominatorTree DT(F); LoopInfo LI(DT);
      o += ",\"nv\":" + std::to_string(n) + ",\"loops\":[";
      std::vector<Loop *> ls = std::vector<Loop *>(); for (Loop *l : LI.getLoopsInPreorder()) ls.push_back(l);
      std::map<Loop *, int> lid; int k = 0;
      for (Loop *l : ls) lid[l] = k++;
      for (Loop *l : ls) {
        if (lid[l]) o += ",";
        o += "{\"h\":" + std::to_string(bb[l->getHeader()]) + ",\"parent\":" + std::to_string(l->getParentLoop() ? lid[l->getParentLoop()] : -1) + ",\"blocks\":[";
        bool f = true; for (auto *B : l->blocks()) { if (!f) o += ","; f = false; o += std::to_string(bb[B]); }
        o += "]}";
      }
      o += "],\"bbs\":[";
      bool fb = true;
      for (auto &B : F) {
        if (!fb) o += ","; fb = false; o += "["; bool fi = true;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
            auto k = ii->getIntrinsicID();
            if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end || k == Intrinsic::assume || k == Intrinsic::experimental_noalias_scope_decl) continue;
          }
          if (!fi) o += ","; fi = false; inst(o, I, bb);
        }
        o += "]";
      }
      o += "],\"dbg\":[";
      for (size_t i = 0; i < dbg.size(); i++) { if (i) o += ","; o += esc(dbg[i]); }
      o += "]}\n";
      fputs(o.c_str(), out);
    }
  }
};
// Functions declared const/pure (memory(none)/memory(read)) whose bodies read/write memory that outlives the call.
struct Lint {
  struct Sum { bool rd = false, wr = false; std::vector<bool> ard, awr; std::string rdat, wrat; };
  std::map<const Function *, Sum> S;
  static std::string at(const Instruction &I) {
    if (auto l = I.getDebugLoc()) { auto *sc = cast<DIScope>(l.getScope()); return (sc->getFilename() + ":" + Twine(l.getLine())).str(); }
    return "";
  }
  // 0: local, 1: argument k, 2: anything else
  static int base(const Value *p, unsigned &k) {
    const Value *b = getUnderlyingObject(p, 64);
    if (isa<AllocaInst>(b)) return 0;
    if (auto *a = dyn_cast<Argument>(b)) { k = a->getArgNo(); return 1; }
    if (auto *g = dyn_cast<GlobalVariable>(b)) if (g->isConstant()) return 0;
    if (isa<ConstantPointerNull>(b) || isa<UndefValue>(b)) return 0;
    return 2;
  }
  bool upd(Sum &s, const Value *p, bool r, bool w, const Instruction &I) {
    unsigned k = 0; int t = base(p, k); bool ch = false;
    if (t == 0) return false;
    if (t == 1) {
      if (r && !s.ard[k]) { s.ard[k] = true; ch = true; if (s.rdat.empty()) s.rdat = at(I); }
      if (w && !s.awr[k]) { s.awr[k] = true; ch = true; if (s.wrat.empty()) s.wrat = at(I); }
    } else {
      if (r && !s.rd) { s.rd = true; ch = true; if (s.rdat.empty()) s.rdat = at(I); }
      if (w && !s.wr) { s.wr = true; ch = true; if (s.wrat.empty()) s.wrat = at(I); }
    }
    return ch;
  }
  void run(Module &M, FILE *out) {
    for (auto &F : M) if (!F.isDeclaration()) { auto &s = S[&F]; s.ard.resize(F.arg_size()); s.awr.resize(F.arg_size()); }
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto &F : M) {
        if (F.isDeclaration()) continue;
        auto &s = S[&F];
        for (auto &B : F) for (auto &I : B) {
          if (auto *l = dyn_cast<LoadInst>(&I)) ch |= upd(s, l->getPointerOperand(), true, false, I);
          else if (auto *st = dyn_cast<StoreInst>(&I)) ch |= upd(s, st->getPointerOperand(), false, true, I);
          else if (auto *mi = dyn_cast<MemIntrinsic>(&I)) {
            ch |= upd(s, mi->getRawDest(), false, true, I);
            if (auto *mt = dyn_cast<MemTransferInst>(mi)) ch |= upd(s, mt->getRawSource(), true, false, I);
          } else if (auto *cb = dyn_cast<CallBase>(&I)) {
            const Function *g = cb->getCalledFunction();
            if (!g || g->isIntrinsic() || cb->doesNotReturn() || g->doesNotReturn() || g->getName().starts_with("__c")) continue;
            auto it = S.find(g);
            if (it == S.end()) {
              for (auto &a : cb->args()) if (a->getType()->isPointerTy()) ch |= upd(s, a, true, true, I);
              continue;
            }
            Sum c = it->second;
            if (c.rd && !s.rd) { s.rd = true; ch = true; if (s.rdat.empty()) s.rdat = at(I); }
            if (c.wr && !s.wr) { s.wr = true; ch = true; if (s.wrat.empty()) s.wrat = at(I); }
            for (unsigned k = 0; k < cb->arg_size() && k < c.ard.size(); k++)
              if (c.ard[k] || c.awr[k]) ch |= upd(s, cb->getArgOperand(k), c.ard[k], c.awr[k], I);
          }
        }
      }
    }
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      auto &s = S[&F];
      bool r = s.rd, w = s.wr;
      for (unsigned k = 0; k < s.ard.size(); k++) {
        if (F.hasStructRetAttr() && F.hasParamAttribute(k, Attribute::StructRet)) continue;
        if (F.getArg(k)->hasByValAttr()) { continue; }
        r |= s.ard[k]; w |= s.awr[k];
      }
      bool none = F.doesNotAccessMemory(), ro = F.onlyReadsMemory();
      std::string file; int line = 0;
      if (auto *sp = F.getSubprogram()) { file = sp->getFilename().str(); line = sp->getLine(); }
      std::string o = "{\"k\":\"l\",\"name\":" + esc(F.getName()) + ",\"dem\":" + esc(demangle(F.getName().str())) + ",\"none\":" + std::to_string(none) +
        ",\"ro\":" + std::to_string(ro) + ",\"reads\":" + std::to_string(r) + ",\"writes\":" + std::to_string(w) +
        ",\"rdat\":" + esc(s.rdat) + ",\"wrat\":" + esc(s.wrat) + ",\"file\":" + esc(file) + ",\"line\":" + std::to_string(line) + "}\n";
      fputs(o.c_str(), out);
    }
  }
};
static void strip_memory(Module &M) {
  for (auto &F : M) {
    if (!F.isDeclaration()) F.removeFnAttr(Attribute::Memory);
    for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) {
      auto *g = cb->getCalledFunction();
      if (g && !g->isIntrinsic() && !g->isDeclaration()) cb->removeFnAttr(Attribute::Memory);
    }
  }
}
static cl::opt<std::string> LintOut("lint", cl::init(""));
static cl::opt<std::string> In(cl::Positional, cl::Required), Out(cl::Positional, cl::Required);
static cl::opt<std::string> Pipe("pipe", cl::init(
  "function(lower-expect,sroa,early-cse,instsimplify,simplifycfg),cgscc(inline),function(sroa,early-cse,instsimplify,simplifycfg,loop-simplify),globaldce"));
int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(In, E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  if (!LintOut.empty()) {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto err = PB.parsePassPipeline(MPM, "function(mem2reg)")) { errs() << "bad pipeline\n"; return 2; }
    MPM.run(*M, MAM);
    FILE *lf = fopen(LintOut.c_str(), "w"); if (!lf) return 2;
    Lint().run(*M, lf); fclose(lf);
  }
  strip_memory(*M);
  if (!Pipe.empty()) {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto err = PB.parsePassPipeline(MPM, Pipe)) { errs() << "bad pipeline\n"; return 2; }
    MPM.run(*M, MAM);
  }
  FILE *f = fopen(Out.c_str(), "w"); if (!f) return 2;
  Dumper d(*M, f); d.run(); fclose(f); return 0;
}
