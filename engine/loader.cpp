// LLVM bitcode -> bytecode.
#include "engine.h"
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

static LLVMContext ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;

struct Leaf { uint64_t off; unsigned w; bool fp; };
static void leaves(Type *t, uint64_t off, std::vector<Leaf> &out) {
  if (t->isIntegerTy()) out.push_back({off, t->getIntegerBitWidth(), false});
  else if (t->isPointerTy()) out.push_back({off, 64, false});
  else if (t->isDoubleTy()) out.push_back({off, 64, true});
  else if (t->isFloatTy()) out.push_back({off, 32, true});
  else if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out);
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = vt->getElementType()->isPointerTy() ? 64 : vt->getElementType()->getPrimitiveSizeInBits();
    for (unsigned i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), off + (uint64_t)i * ew / 8, out);
  } else if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy()) {
  } else { std::string s; raw_string_ostream o(s); t->print(o); fprintf(stderr, "unsupported type %s\n", s.c_str()); out.push_back({off, 64, false}); }
}
static std::unordered_map<Type *, std::vector<Leaf>> leafCache;
static const std::vector<Leaf> &lv(Type *t) {
  auto it = leafCache.find(t);
  if (it != leafCache.end()) return it->second;
  std::vector<Leaf> v; leaves(t, 0, v);
  return leafCache.emplace(t, std::move(v)).first->second;
}
static unsigned nl(Type *t) { return lv(t).size(); }

static u128 ap(const APInt &a) {
  u128 v = a.getRawData()[0];
  if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
  return v & maskw(a.getBitWidth());
}

static void constLeaves(const Constant *c, std::vector<u128> &out);
static u128 constScalar(const Constant *c) {
  std::vector<u128> v; constLeaves(c, v);
  if (v.size() != 1) { fprintf(stderr, "const not scalar\n"); abort(); }
  return v[0];
}
static void constLeaves(const Constant *c, std::vector<u128> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(ap(ci->getValue())); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(ap(cf->getValueAPF().bitcastToAPInt())); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { out.insert(out.end(), nl(t), 0); return; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) { constLeaves(ga->getAliasee(), out); return; }
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", gv->getName().str().c_str()); out.push_back(0); return; }
    out.push_back(it->second); return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (auto &o : ca->operands()) constLeaves(cast<Constant>(o), out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constLeaves(cd->getElementAsConstant(i), out); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); abort(); }
        out.push_back((constScalar(ce->getOperand(0)) + (uint64_t)off.getSExtValue()) & maskw(64)); return;
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::BitCast:
        if (nl(t) == 1) { out.push_back(constScalar(ce->getOperand(0)) & maskw(lv(t)[0].w)); return; }
        break;
      case Instruction::Sub: out.push_back((constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(lv(t)[0].w)); return;
      case Instruction::Add: out.push_back((constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(lv(t)[0].w)); return;
      case Instruction::And: out.push_back(constScalar(ce->getOperand(0)) & constScalar(ce->getOperand(1))); return;
      case Instruction::Or: out.push_back(constScalar(ce->getOperand(0)) | constScalar(ce->getOperand(1))); return;
      case Instruction::Xor: out.push_back(constScalar(ce->getOperand(0)) ^ constScalar(ce->getOperand(1))); return;
      case Instruction::ICmp: {
        u128 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
        auto p = cast<ConstantExpr>(ce)->getPredicate();
        bool r = p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : p == CmpInst::ICMP_ULT ? a < b : p == CmpInst::ICMP_UGT ? a > b : p == CmpInst::ICMP_ULE ? a <= b : a >= b;
        out.push_back(r); return;
      }
      default: break;
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o);
  fprintf(stderr, "unsupported constant %s\n", s.substr(0, 200).c_str());
  out.insert(out.end(), nl(t), 0);
}

static void initBytes(const Constant *c, uint8_t *d, uint64_t size) {
  auto &ls = lv(c->getType());
  std::vector<u128> v; constLeaves(c, v);
  for (size_t i = 0; i < ls.size(); i++) {
    unsigned nb = (ls[i].w + 7) / 8;
    for (unsigned j = 0; j < nb; j++) if (ls[i].off + j < size) d[ls[i].off + j] = (uint8_t)(v[i] >> (8 * j));
  }
}

// ---- source lines
std::vector<SrcLine> g_lines{SrcLine{}};
static std::map<std::pair<const DILocation *, int>, uint32_t> lineIdx;
static std::string fullPath(const DIScope *sc) {
  std::string f = sc->getFilename().str(), d = sc->getDirectory().str();
  if (!f.empty() && f[0] == '/') return f;
  return d + "/" + f;
}
static uint32_t lineOf(const Instruction &I) {
  const DILocation *l = I.getDebugLoc().get();
  if (!l) return 0;
  auto key = std::make_pair(l, 0);
  auto it = lineIdx.find(key);
  if (it != lineIdx.end()) return it->second;
  SrcLine s;
  for (const DILocation *p = l; p; p = p->getInlinedAt()) {
    SrcFrame fr;
    fr.file = fullPath(p->getScope());
    fr.line = p->getLine();
    if (auto *sp = p->getScope()->getSubprogram()) {
      std::string nm = sp->getName().str();
      for (const DIScope *q = sp->getScope(); q; q = q->getScope()) {
        if (isa<DIFile>(q) || isa<DICompileUnit>(q)) break;
        if (!q->getName().empty()) nm = q->getName().str() + "::" + nm;
      }
      fr.func = nm;
    }
    s.frames.push_back(fr);
  }
  uint32_t idx = g_lines.size();
  g_lines.push_back(s);
  lineIdx[key] = idx;
  return idx;
}

// ---- function translation
struct FnTx {
  Fn &f; const Function &F;
  std::unordered_map<const Value *, int32_t> slot;
  std::unordered_map<const BasicBlock *, uint32_t> bbpc;
  std::vector<std::pair<uint32_t, const BasicBlock *>> edgeTargets; // edge index -> target block
  uint32_t curLine = 0;
  FnTx(Fn &f, const Function &F) : f(f), F(F) {}
  int32_t alloc(unsigned n) { int32_t s = f.nslots; f.nslots += n; return s; }
  // operand of leaf i of v
  int32_t opnd(const Value *v, unsigned i) {
    if (auto *c = dyn_cast<Constant>(v)) {
      std::vector<u128> l; constLeaves(c, l);
      return constOp(l[i], lv(v->getType())[i].w);
    }
    auto it = slot.find(v);
    if (it == slot.end()) { fprintf(stderr, "no slot in %s\n", f.name.c_str()); abort(); }
    return it->second + i;
  }
  int32_t constOp(u128 v, unsigned w) {
    Val x{(uint64_t)v, nullptr};
    if (w > 64) { x.e = mkConst(v, w); x.c = 0; }
    return engineConst(x);
  }
  Inst &emit(uint16_t op, unsigned w = 0, int32_t dst = -1, int32_t a = 0, int32_t b = 0, int32_t c = 0, uint32_t aux = 0, uint64_t imm = 0) {
    f.code.push_back(Inst{op, (uint16_t)w, dst, a, b, c, aux, imm, curLine});
    return f.code.back();
  }
  void unsup(const Instruction &I) {
    std::string s; raw_string_ostream o(s); I.print(o);
    emit(O_UNSUP, 0, -1, 0, 0, 0, 0, internStr(s));
  }
  uint32_t edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.pc = 0; e.par = false;
    std::set<int32_t> dsts;
    for (auto &phi : to->phis()) {
      const Value *in = phi.getIncomingValueForBlock(from);
      unsigned n = nl(phi.getType());
      if (isa<UndefValue>(in)) { /* any value */ }
      for (unsigned i = 0; i < n; i++) {
        int32_t d = slot[&phi] + i, s = opnd(in, i);
        if (d == s) continue;
        if (dsts.count(s)) e.par = true;
        dsts.insert(d);
        e.moves.push_back({d, s});
      }
    }
    f.edges.push_back(std::move(e));
    edgeTargets.push_back({(uint32_t)f.edges.size() - 1, to});
    return f.edges.size() - 1;
  }
  void run();
  void inst(const Instruction &I);
  void gep(const GEPOperator &G, int32_t dst);
  void call(const CallBase &C);
  bool intrinsic(const CallBase &C, const Function *callee);
};

void FnTx::gep(const GEPOperator &G, int32_t dst) {
  uint64_t off = 0;
  std::vector<std::pair<const Value *, uint64_t>> vars;
  for (auto it = gep_type_begin(&G), e = gep_type_end(&G); it != e; ++it) {
    const Value *idx = it.getOperand();
    if (auto *st = it.getStructTypeOrNull()) {
      off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
    } else {
      uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(idx)) off += (uint64_t)ci->getSExtValue() * sz;
      else vars.push_back({idx, sz});
    }
  }
  int32_t base = opnd(G.getPointerOperand(), 0);
  if (vars.empty()) { emit(O_GEPC, 64, dst, base, 0, 0, 0, off); return; }
  for (size_t i = 0; i < vars.size(); i++) {
    bool last = i + 1 == vars.size();
    int32_t d = last ? dst : alloc(1);
    // aux = index width, c = const operand: constant offset
    int32_t offc = constOp(last ? off : 0, 64);
    emit(O_GEP1, lv(vars[i].first->getType())[0].w, d, base, opnd(vars[i].first, 0), offc, 0, vars[i].second);
    base = d;
  }
}

bool FnTx::intrinsic(const CallBase &C, const Function *callee) {
  auto id = callee->getIntrinsicID();
  if (id == Intrinsic::not_intrinsic) return false;
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
    case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation:
      if (!C.getType()->isVoidTy()) { slot[&C] = alloc(nl(C.getType())); }
      return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: {
      int32_t d = slot[&C];
      emit(O_MOV, 0, d, opnd(C.getArgOperand(0), 0));
      return true;
    }
    default: break;
  }
  // lane-wise helpers handled as builtins by intrinsic base name
  std::string base = "@" + Intrinsic::getBaseName(id).str();
  auto *vt = dyn_cast<FixedVectorType>(C.getType());
  auto *at = C.arg_size() ? dyn_cast<FixedVectorType>(C.getArgOperand(0)->getType()) : nullptr;
  auto mkCall = [&](int32_t dst, std::vector<int32_t> args, std::vector<uint8_t> aw, std::vector<uint16_t> rw) {
    CallInfo ci; ci.callee = 0; ci.dst = dst; ci.nret = rw.size(); ci.retw = rw;
    for (size_t i = 0; i < args.size(); i++) ci.argStart.push_back(i);
    ci.args = args; ci.argw = aw;
    ci.builtin = findBuiltin(base);
    if (ci.builtin < 0) { emit(O_UNSUP, 0, -1, 0, 0, 0, 0, internStr("intrinsic " + base)); return; }
    f.calls.push_back(ci);
    emit(O_CALL, 0, dst, 0, 0, 0, f.calls.size() - 1);
  };
  int32_t dst = C.getType()->isVoidTy() ? -1 : slot[&C];
  if (id == Intrinsic::vector_reduce_add || id == Intrinsic::vector_reduce_or || id == Intrinsic::vector_reduce_and || id == Intrinsic::vector_reduce_xor || id == Intrinsic::vector_reduce_mul) {
    unsigned n = at->getNumElements(), w = lv(at)[0].w;
    uint16_t op = id == Intrinsic::vector_reduce_add ? O_ADD : id == Intrinsic::vector_reduce_or ? O_OR : id == Intrinsic::vector_reduce_and ? O_AND : id == Intrinsic::vector_reduce_xor ? O_XOR : O_MUL;
    emit(O_MOV, 0, dst, opnd(C.getArgOperand(0), 0));
    for (unsigned i = 1; i < n; i++) emit(op, w, dst, dst, opnd(C.getArgOperand(0), i));
    return true;
  }
  if (vt && id != Intrinsic::masked_load) {
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      std::vector<int32_t> a; std::vector<uint8_t> aw;
      for (unsigned j = 0; j < C.arg_size(); j++) {
        auto *ty = C.getArgOperand(j)->getType();
        if (ty->isVectorTy()) { a.push_back(opnd(C.getArgOperand(j), i)); aw.push_back(lv(ty)[i].w); }
        else { a.push_back(opnd(C.getArgOperand(j), 0)); aw.push_back(lv(ty)[0].w); }
      }
      mkCall(dst + i, a, aw, {(uint16_t)lv(vt)[i].w});
    }
    return true;
  }
  std::vector<int32_t> a; std::vector<uint8_t> aw; std::vector<uint16_t> rw;
  for (unsigned j = 0; j < C.arg_size(); j++) {
    auto *ty = C.getArgOperand(j)->getType();
    if (ty->isMetadataTy()) continue;
    for (unsigned i = 0; i < nl(ty); i++) { a.push_back(opnd(C.getArgOperand(j), i)); aw.push_back(lv(ty)[i].w); }
  }
  if (!C.getType()->isVoidTy()) for (auto &l : lv(C.getType())) rw.push_back(l.w);
  mkCall(dst, a, aw, rw);
  return true;
}

void FnTx::call(const CallBase &C) {
  if (C.isInlineAsm()) {
    auto *ia = cast<InlineAsm>(C.getCalledOperand());
    if (!C.getType()->isVoidTy()) {
      // black_box style asm with an output: unsupported unless empty
      unsup(C); return;
    }
    if (!ia->getAsmString().empty()) { unsup(C); }
    return;
  }
  const Value *cv = C.getCalledOperand()->stripPointerCasts();
  if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
  auto *callee = dyn_cast<Function>(cv);
  bool inv = isa<InvokeInst>(C);
  if (callee && intrinsic(C, callee)) {
    if (inv) { auto &iv = cast<InvokeInst>(C); emit(O_BR, 0, -1, 0, 0, 0, 0, edge(C.getParent(), iv.getNormalDest())); }
    return;
  }
  CallInfo ci;
  ci.callee = callee ? 0 : opnd(C.getCalledOperand(), 0);
  ci.fn = callee ? engineFn(callee) : nullptr;
  for (unsigned j = 0; j < C.arg_size(); j++) {
    auto *ty = C.getArgOperand(j)->getType();
    ci.argStart.push_back(ci.args.size());
    ci.bytevalSize.push_back(C.isByValArgument(j) ? (int64_t)DL->getTypeAllocSize(C.getParamByValType(j)) : -1);
    for (unsigned i = 0; i < nl(ty); i++) { ci.args.push_back(opnd(C.getArgOperand(j), i)); ci.argw.push_back(lv(ty)[i].w); }
  }
  ci.dst = -1; ci.nret = 0;
  if (!C.getType()->isVoidTy()) {
    ci.dst = slot[&C]; ci.nret = nl(C.getType());
    for (auto &l : lv(C.getType())) ci.retw.push_back(l.w);
  }
  if (inv) {
    auto &iv = cast<InvokeInst>(C);
    ci.normalEdge = edge(C.getParent(), iv.getNormalDest());
    ci.unwindEdge = edge(C.getParent(), iv.getUnwindDest());
  }
  f.calls.push_back(ci);
  emit(inv ? O_INVOKE : O_CALL, 0, ci.dst, 0, 0, 0, f.calls.size() - 1);
}

static uint16_t binOp(unsigned opc) {
  switch (opc) {
    case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL;
    case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM;
    case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR;
    case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR;
    default: return O_UNSUP;
  }
}

void FnTx::inst(const Instruction &I) {
  Type *T = I.getType();
  int32_t dst = (!T->isVoidTy() && slot.count(&I)) ? slot[&I] : -1;
  if (auto *b = dyn_cast<BinaryOperator>(&I)) {
    unsigned n = nl(T);
    if (T->isFPOrFPVectorTy()) {
      for (unsigned i = 0; i < n; i++) emit(O_FOP, lv(T)[i].w, dst + i, opnd(b->getOperand(0), i), opnd(b->getOperand(1), i), 0, 0, I.getOpcode());
      return;
    }
    for (unsigned i = 0; i < n; i++) emit(binOp(b->getOpcode()), lv(T)[i].w, dst + i, opnd(b->getOperand(0), i), opnd(b->getOperand(1), i));
    return;
  }
  switch (I.getOpcode()) {
    case Instruction::FNeg: emit(O_FOP, lv(T)[0].w, dst, opnd(I.getOperand(0), 0), 0, 0, 0, 1000); return;
    case Instruction::ICmp: {
      unsigned n = nl(T);
      for (unsigned i = 0; i < n; i++)
        emit(O_ICMP, lv(I.getOperand(0)->getType())[i].w, dst + i, opnd(I.getOperand(0), i), opnd(I.getOperand(1), i), 0, 0, cast<ICmpInst>(I).getPredicate());
      return;
    }
    case Instruction::FCmp: emit(O_FOP, lv(I.getOperand(0)->getType())[0].w, dst, opnd(I.getOperand(0), 0), opnd(I.getOperand(1), 0), 0, 0, 2000 + cast<FCmpInst>(I).getPredicate()); return;
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      unsigned n = nl(T);
      for (unsigned i = 0; i < n; i++)
        emit(I.getOpcode() == Instruction::ZExt ? O_ZEXT : I.getOpcode() == Instruction::SExt ? O_SEXT : O_TRUNC, lv(T)[i].w, dst + i, opnd(I.getOperand(0), i), 0, 0, lv(I.getOperand(0)->getType())[i].w);
      return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      unsigned sw = lv(I.getOperand(0)->getType())[0].w, dw = lv(T)[0].w;
      emit(dw == sw ? O_MOV : dw < sw ? O_TRUNC : O_ZEXT, dw, dst, opnd(I.getOperand(0), 0), 0, 0, sw);
      return;
    }
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc:
      emit(O_FOP, lv(T)[0].w, dst, opnd(I.getOperand(0), 0), 0, 0, lv(I.getOperand(0)->getType())[0].w, 3000 + I.getOpcode());
      return;
    case Instruction::BitCast: {
      Type *S = I.getOperand(0)->getType();
      unsigned sn = nl(S), dn = nl(T);
      if (sn == dn) { for (unsigned i = 0; i < sn; i++) emit(O_MOV, 0, dst + i, opnd(I.getOperand(0), i)); return; }
      unsigned sw = lv(S)[0].w, dw = lv(T)[0].w;
      if (sn == 1) { emit(O_SPLIT, dw, dst, opnd(I.getOperand(0), 0), 0, 0, dn, sw); return; }
      // make lanes contiguous
      int32_t t = alloc(sn);
      for (unsigned i = 0; i < sn; i++) emit(O_MOV, 0, t + i, opnd(I.getOperand(0), i));
      if (dn == 1) { emit(O_JOIN, sw, dst, t, 0, 0, sn); return; }
      if (sw < dw) { unsigned r = dw / sw; for (unsigned i = 0; i < dn; i++) emit(O_JOIN, sw, dst + i, t + i * r, 0, 0, r); }
      else { unsigned r = sw / dw; for (unsigned i = 0; i < sn; i++) emit(O_SPLIT, dw, dst + i * r, t + i, 0, 0, r, sw); }
      return;
    }
    case Instruction::Freeze: for (unsigned i = 0; i < nl(T); i++) emit(O_MOV, 0, dst + i, opnd(I.getOperand(0), i)); return;
    case Instruction::Select: {
      bool vc = I.getOperand(0)->getType()->isVectorTy();
      for (unsigned i = 0; i < nl(T); i++) emit(O_SELECT, lv(T)[i].w, dst + i, opnd(I.getOperand(0), vc ? i : 0), opnd(I.getOperand(1), i), opnd(I.getOperand(2), i));
      return;
    }
    case Instruction::ExtractValue: {
      auto &ev = cast<ExtractValueInst>(I);
      Type *t = ev.getAggregateOperand()->getType(); unsigned base = 0;
      for (unsigned idx : ev.indices()) {
        if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < idx; k++) base += nl(st->getElementType(k)); t = st->getElementType(idx); }
        else { auto *a = cast<ArrayType>(t); base += idx * nl(a->getElementType()); t = a->getElementType(); }
      }
      for (unsigned i = 0; i < nl(T); i++) emit(O_MOV, 0, dst + i, opnd(ev.getAggregateOperand(), base + i));
      return;
    }
    case Instruction::InsertValue: {
      auto &iv = cast<InsertValueInst>(I);
      Type *t = T; unsigned base = 0;
      for (unsigned idx : iv.indices()) {
        if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < idx; k++) base += nl(st->getElementType(k)); t = st->getElementType(idx); }
        else { auto *a = cast<ArrayType>(t); base += idx * nl(a->getElementType()); t = a->getElementType(); }
      }
      unsigned n = nl(t);
      for (unsigned i = 0; i < nl(T); i++) {
        if (i >= base && i < base + n) emit(O_MOV, 0, dst + i, opnd(iv.getInsertedValueOperand(), i - base));
        else emit(O_MOV, 0, dst + i, opnd(iv.getAggregateOperand(), i));
      }
      return;
    }
    case Instruction::ExtractElement: {
      if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(1))) { emit(O_MOV, 0, dst, opnd(I.getOperand(0), ci->getZExtValue())); return; }
      unsigned n = nl(I.getOperand(0)->getType()); int32_t t = alloc(n);
      for (unsigned i = 0; i < n; i++) emit(O_MOV, 0, t + i, opnd(I.getOperand(0), i));
      emit(O_EXTRACTDYN, lv(T)[0].w, dst, t, opnd(I.getOperand(1), 0), 0, n);
      return;
    }
    case Instruction::InsertElement: {
      unsigned n = nl(T);
      auto *ci = dyn_cast<ConstantInt>(I.getOperand(2));
      for (unsigned i = 0; i < n; i++) emit(O_MOV, 0, dst + i, ci && ci->getZExtValue() == i ? opnd(I.getOperand(1), 0) : opnd(I.getOperand(0), i));
      if (!ci) emit(O_INSERTDYN, lv(T)[0].w, dst, opnd(I.getOperand(1), 0), opnd(I.getOperand(2), 0), 0, n);
      return;
    }
    case Instruction::ShuffleVector: {
      auto &sv = cast<ShuffleVectorInst>(I);
      unsigned n0 = nl(sv.getOperand(0)->getType()); auto mask = sv.getShuffleMask();
      for (unsigned i = 0; i < mask.size(); i++) {
        int m = mask[i];
        if (m < 0) emit(O_MOV, 0, dst + i, constOp(0, lv(T)[i].w));
        else if ((unsigned)m < n0) emit(O_MOV, 0, dst + i, opnd(sv.getOperand(0), m));
        else emit(O_MOV, 0, dst + i, opnd(sv.getOperand(1), m - n0));
      }
      return;
    }
    case Instruction::Alloca: {
      auto &A = cast<AllocaInst>(I);
      uint64_t es = DL->getTypeAllocSize(A.getAllocatedType());
      if (auto *ci = dyn_cast<ConstantInt>(A.getArraySize())) emit(O_ALLOCA, 64, dst, 0, 0, 0, 0, es * ci->getZExtValue());
      else emit(O_ALLOCAN, 64, dst, opnd(A.getArraySize(), 0), 0, 0, 0, es);
      return;
    }
    case Instruction::Load: {
      auto &ls = lv(T);
      int32_t p = opnd(I.getOperand(0), 0);
      bool at = cast<LoadInst>(I).isAtomic();
      for (unsigned i = 0; i < ls.size(); i++) emit(O_LOAD, ls[i].w, dst + i, p, 0, 0, at, ls[i].off);
      return;
    }
    case Instruction::Store: {
      auto &ls = lv(I.getOperand(0)->getType());
      int32_t p = opnd(I.getOperand(1), 0);
      bool at = cast<StoreInst>(I).isAtomic();
      for (unsigned i = 0; i < ls.size(); i++) emit(O_STORE, ls[i].w, -1, p, opnd(I.getOperand(0), i), 0, at, ls[i].off);
      return;
    }
    case Instruction::GetElementPtr: {
      if (T->isVectorTy()) { unsup(I); return; }
      gep(cast<GEPOperator>(I), dst); return;
    }
    case Instruction::Br: {
      auto &B = cast<BranchInst>(I);
      if (B.isUnconditional()) emit(O_BR, 0, -1, 0, 0, 0, 0, edge(I.getParent(), B.getSuccessor(0)));
      else { uint32_t e1 = edge(I.getParent(), B.getSuccessor(0)), e2 = edge(I.getParent(), B.getSuccessor(1)); emit(O_CONDBR, 0, -1, opnd(B.getCondition(), 0), 0, 0, e2, e1); }
      return;
    }
    case Instruction::Switch: {
      auto &S = cast<SwitchInst>(I);
      SwitchTab t; t.defEdge = edge(I.getParent(), S.getDefaultDest());
      for (auto &c : S.cases()) t.cases.push_back({ap(c.getCaseValue()->getValue()), edge(I.getParent(), c.getCaseSuccessor())});
      f.switches.push_back(t);
      emit(O_SWITCH, lv(S.getCondition()->getType())[0].w, -1, opnd(S.getCondition(), 0), 0, 0, f.switches.size() - 1);
      return;
    }
    case Instruction::Ret: {
      auto &R = cast<ReturnInst>(I);
      if (!R.getReturnValue()) { emit(O_RET, 0, -1, 0, 0, 0, 0); return; }
      unsigned n = nl(R.getReturnValue()->getType());
      int32_t t;
      if (n == 1) t = opnd(R.getReturnValue(), 0);
      else { t = alloc(n); for (unsigned i = 0; i < n; i++) emit(O_MOV, 0, t + i, opnd(R.getReturnValue(), i)); }
      emit(O_RET, 0, -1, t, 0, 0, n);
      return;
    }
    case Instruction::Unreachable: emit(O_UNREACHABLE); return;
    case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: {
      auto &R = cast<AtomicRMWInst>(I);
      emit(O_RMW, lv(T)[0].w, dst, opnd(R.getPointerOperand(), 0), opnd(R.getValOperand(), 0), 0, 0, R.getOperation());
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto &X = cast<AtomicCmpXchgInst>(I);
      emit(O_CMPXCHG, lv(X.getCompareOperand()->getType())[0].w, dst, opnd(X.getPointerOperand(), 0), opnd(X.getCompareOperand(), 0), opnd(X.getNewValOperand(), 0));
      return;
    }
    case Instruction::LandingPad: emit(O_LANDINGPAD, 0, dst, 0, 0, 0, cast<LandingPadInst>(I).getNumClauses(), cast<LandingPadInst>(I).isCleanup()); return;
    case Instruction::Resume: emit(O_RESUME, 0, -1, opnd(I.getOperand(0), 0)); return;
    case Instruction::PHI: return;
    default: unsup(I);
  }
}

void FnTx::run() {
  for (auto &A : F.args()) slot[&A] = alloc(nl(A.getType()));
  f.nparams = f.nslots;
  for (auto &BB : F) for (auto &I : BB) {
    if (I.getType()->isVoidTy() || I.getType()->isTokenTy()) continue;
    slot[&I] = alloc(nl(I.getType()));
  }
  for (auto &BB : F) {
    bbpc[&BB] = f.code.size();
    for (auto &I : BB) { curLine = lineOf(I); inst(I); }
  }
  for (auto &et : edgeTargets) f.edges[et.first].pc = bbpc[et.second];
  f.covered.assign(f.code.size(), 0);
}

static std::unordered_map<const Function *, Fn *> fnMap;
std::vector<Fn *> g_fns;
std::unordered_map<uint64_t, Fn *> g_fnByAddr;
Fn *engineFn(const void *p) {
  auto *F = (const Function *)p;
  auto it = fnMap.find(F);
  return it == fnMap.end() ? nullptr : it->second;
}
// functions are translated lazily, on first call
void translateFn(Fn *f) {
  if (!f->code.empty() || !f->hasBody) return;
  FnTx tx(*f, *(const Function *)f->llvm);
  tx.run();
}

static std::string stripHash(const std::string &n) {
  size_t p = n.rfind("17h");
  if (n.compare(0, 3, "_ZN") == 0 && p != std::string::npos && p + 20 == n.size() && n.back() == 'E') return n.substr(0, p) + "E";
  return n;
}

// Puts a call of sx_yield before every atomic operation the code under test performs: those are the
// points, besides file operations, at which another thread may be scheduled. Reference counting is left out.
int instrument(const char *in, const char *out, const char *root) {
  SMDiagnostic err;
  auto m = parseIRFile(in, err, ctx);
  if (!m) { err.print("symx", errs()); return 3; }
  auto y = m->getOrInsertFunction("sx_yield", FunctionType::get(Type::getVoidTy(ctx), false));
  std::string src = std::string(root) + "/src/";
  int n = 0;
  for (auto &F : *m) {
    std::vector<Instruction *> at;
    for (auto &B : F) for (auto &I : B) {
      bool atomic = isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I);
      if (auto *l = dyn_cast<LoadInst>(&I)) atomic = l->isAtomic();
      if (auto *l = dyn_cast<StoreInst>(&I)) atomic = l->isAtomic();
      if (!atomic) continue;
      // operations inlined from the code under test, but not those of reference counts, poisoning, thread
      // creation and output, nor the release of a mutex (a switch there is one at the next operation)
      bool own = false, out = false; std::string f;
      for (const DILocation *p = I.getDebugLoc().get(); p; p = p->getInlinedAt()) {
        f = fullPath(p->getScope());
        own |= f.compare(0, src.size(), src) == 0 || f.find("stubs/epoch/") != std::string::npos;
        for (const char *n : {"alloc/src/sync.rs", "std/src/sync/poison.rs", "std/src/panicking.rs", "std/src/thread/", "std/src/io/"}) out |= f.find(n) != std::string::npos;
        out |= isa<AtomicRMWInst>(I) && f.find("futex_mutex.rs") != std::string::npos;
      }
      own |= f.find("std/src/sync/mutex.rs") != std::string::npos;
      if (own && !out) at.push_back(&I);
    }
    for (auto *I : at) { CallInst::Create(y, "", I)->setDebugLoc(I->getDebugLoc()); n++; if (getenv("SYMX_TRACE")) errs() << F.getName() << *I << "\n"; }
  }
  std::error_code ec;
  raw_fd_ostream o(out, ec);
  if (ec) return 3;
  WriteBitcodeToFile(*m, o);
  printf("%d scheduling points\n", n);
  return 0;
}

void loadProgram(const char *path) {
  SMDiagnostic err;
  M = parseIRFile(path, err, ctx);
  if (!M) { err.print("symx", errs()); exit(3); }
  DL = &M->getDataLayout();
  for (auto &F : *M) {
    Fn *f = new Fn;
    f->name = F.getName().str();
    f->llvm = &F;
    f->hasBody = !F.isDeclaration();
    f->builtin = F.isIntrinsic() ? -1 : findBuiltin(stripHash(f->name));
    f->addr = newGlobalObject(16, true, "fn:" + f->name);
    gaddr[&F] = F.hasExternalWeakLinkage() ? 0 : f->addr; // weak symbols are absent
    fnMap[&F] = f;
    g_fns.push_back(f);
    g_fnByAddr[f->addr] = f;
  }
  for (auto &G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0;
    if (G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
    gaddr[&G] = newGlobalObject(sz, G.isConstant(), G.getName().str(), G.isThreadLocal());
  }
  for (auto &G : M->globals())
    if (G.hasInitializer()) {
      uint64_t sz = DL->getTypeAllocSize(G.getValueType());
      std::vector<uint8_t> d(sz + 1);
      initBytes(G.getInitializer(), d.data(), sz);
      initGlobalObject(gaddr[&G], d.data(), sz);
    } else externGlobal(G.getName().str(), gaddr[&G]);
}
Fn *findFn(const std::string &name) {
  for (auto *f : g_fns) if (f->name == name) return f;
  return nullptr;
}
std::vector<Fn *> &allFns() { return g_fns; }
