// Reads the LLVM bitcode rustc produced for the real code and lowers it to the executor's compact form.
#include "prog.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <set>
using namespace llvm;

Program P;
static LLVMContext *C;
static Module *M;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<const Function *, int> fidx;
static std::map<std::pair<std::string, unsigned>, uint32_t> locidx;
static std::unordered_map<const Constant *, int> constidx;
static std::unordered_map<Type *, int> layoutidx;
static const uint64_t FN_BASE = 0x1000;

static int slots(Type *T) {
  if (T->isVoidTy()) return 0;
  if (auto *S = dyn_cast<StructType>(T)) { int n = 0; for (auto *E : S->elements()) n += slots(E); return n; }
  if (auto *A = dyn_cast<ArrayType>(T)) return (int)A->getNumElements() * slots(A->getElementType());
  if (auto *Ve = dyn_cast<FixedVectorType>(T)) return (int)Ve->getNumElements();
  return 1;
}
static unsigned bitsOf(Type *T) {
  if (T->isPointerTy()) return 64;
  if (auto *Ve = dyn_cast<FixedVectorType>(T)) return bitsOf(Ve->getElementType());
  return (unsigned)T->getPrimitiveSizeInBits().getFixedValue();
}
static void leaves(Type *T, uint64_t off, std::vector<Leaf> &out) {
  if (auto *S = dyn_cast<StructType>(T)) {
    auto *SL = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) leaves(S->getElementType(i), off + SL->getElementOffset(i), out);
  } else if (auto *A = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(A->getElementType());
    for (uint64_t i = 0; i < A->getNumElements(); i++) leaves(A->getElementType(), off + i * es, out);
  } else if (auto *Ve = dyn_cast<FixedVectorType>(T)) {
    unsigned b = bitsOf(Ve);
    for (unsigned i = 0; i < Ve->getNumElements(); i++) out.push_back({(uint32_t)(off + i * ((b + 7) / 8)), (uint16_t)b});
  } else out.push_back({(uint32_t)off, (uint16_t)bitsOf(T)});
}
static int layoutOf(Type *T) {
  auto it = layoutidx.find(T);
  if (it != layoutidx.end()) return it->second;
  Layout L; leaves(T, 0, L.leaves); L.size = DL->getTypeStoreSize(T); L.align = DL->getABITypeAlign(T).value();
  P.layouts.push_back(L);
  return layoutidx[T] = (int)P.layouts.size() - 1;
}

static bool evalInt(const Constant *K, u128 &out) {
  if (auto *CI = dyn_cast<ConstantInt>(K)) {
    const APInt &A = CI->getValue(); u128 v = 0;
    for (unsigned i = 0; i < A.getNumWords() && i < 2; i++) v |= (u128)A.getRawData()[i] << (64 * i);
    out = v; return true;
  }
  if (auto *CF = dyn_cast<ConstantFP>(K)) { APInt A = CF->getValueAPF().bitcastToAPInt(); out = A.getZExtValue(); return true; }
  if (isa<ConstantPointerNull>(K) || isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) { out = 0; return true; }
  if (auto *GA = dyn_cast<GlobalAlias>(K)) return evalInt(GA->getAliasee(), out);
  if (auto *G = dyn_cast<GlobalValue>(K)) { auto it = gaddr.find(G); if (it == gaddr.end()) return false; out = it->second; return true; }
  if (auto *CE = dyn_cast<ConstantExpr>(K)) {
    unsigned op = CE->getOpcode();
    if (op == Instruction::GetElementPtr) {
      APInt off(64, 0); auto *GO = cast<GEPOperator>(CE);
      if (!GO->accumulateConstantOffset(*DL, off)) return false;
      u128 b; if (!evalInt(cast<Constant>(GO->getPointerOperand()), b)) return false;
      out = (uint64_t)((uint64_t)b + off.getZExtValue()); return true;
    }
    u128 a, b = 0; if (!evalInt(CE->getOperand(0), a)) return false;
    unsigned w = bitsOf(CE->getType());
    u128 mask = w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
    if (CE->getNumOperands() > 1 && !evalInt(CE->getOperand(1), b)) return false;
    switch (op) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: out = a & mask; return true;
      case Instruction::Add: out = (a + b) & mask; return true;
      case Instruction::Sub: out = (a - b) & mask; return true;
      case Instruction::And: out = a & b; return true;
      case Instruction::Or: out = a | b; return true;
      case Instruction::Xor: out = a ^ b; return true;
      case Instruction::Mul: out = (a * b) & mask; return true;
      case Instruction::ICmp: {
        auto pr = (CmpInst::Predicate)CE->getPredicate();
        if (pr == CmpInst::ICMP_EQ) { out = a == b; return true; }
        if (pr == CmpInst::ICMP_NE) { out = a != b; return true; }
        if (pr == CmpInst::ICMP_ULT) { out = a < b; return true; }
        if (pr == CmpInst::ICMP_UGT) { out = a > b; return true; }
        return false;
      }
      default: return false;
    }
  }
  return false;
}
static bool flattenConst(const Constant *K, std::vector<V> &out) {
  Type *T = K->getType();
  if (T->isAggregateType() || T->isVectorTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? (unsigned)T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Constant *E = K->getAggregateElement(i);
      if (!E || !flattenConst(E, out)) return false;
    }
    return true;
  }
  u128 v; if (!evalInt(K, v)) return false;
  unsigned w = bitsOf(T);
  if (w <= 64) out.push_back({(uint64_t)v, nullptr}); else out.push_back({0, mk_const_wide(v, w)});
  return true;
}
/// the thread-local global a constant is an address in
static const GlobalVariable *tlsOf(const Constant *K) {
  if (auto *G = dyn_cast<GlobalVariable>(K)) return G->isThreadLocal() ? G : nullptr;
  if (isa<GlobalValue>(K)) return nullptr;
  for (auto &U : K->operands()) if (auto *C = dyn_cast<Constant>(U.get())) if (auto *G = tlsOf(C)) return G;
  return nullptr;
}
static void initMem(const Constant *K, uint64_t addr) {
  if (isa<ConstantAggregateZero>(K) || isa<UndefValue>(K) || isa<ConstantPointerNull>(K)) return;
  Type *T = K->getType();
  if (auto *CDS = dyn_cast<ConstantDataSequential>(K)) {
    StringRef raw = CDS->getRawDataValues(); mem_init_write(addr, raw.data(), raw.size()); return;
  }
  if (auto *S = dyn_cast<StructType>(T)) {
    auto *SL = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) initMem(K->getAggregateElement(i), addr + SL->getElementOffset(i));
    return;
  }
  if (T->isArrayTy() || T->isVectorTy()) {
    Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
    uint64_t es = DL->getTypeAllocSize(E), n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (uint64_t i = 0; i < n; i++) initMem(K->getAggregateElement(i), addr + i * es);
    return;
  }
  u128 v;
  if (!evalInt(K, v)) { fprintf(stderr, "loader: cannot evaluate initializer\n"); return; }
  mem_init_write(addr, &v, DL->getTypeStoreSize(T));
}

static uint32_t locOf(const Instruction &I) {
  const DebugLoc &D = I.getDebugLoc();
  if (!D) return 0;
  auto *S = cast<DIScope>(D.getScope());
  std::pair<std::string, unsigned> k(S->getFilename().str(), D.getLine());
  auto it = locidx.find(k);
  if (it != locidx.end()) return it->second;
  P.locs.push_back(k);
  return locidx[k] = (uint32_t)P.locs.size() - 1;
}

namespace {
struct Tr {
  Func &F; Function *LF;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<const BasicBlock *, int> bbpc;
  std::vector<std::pair<int, const BasicBlock *>> edgefix;
  std::string bad;
  Tr(Func &f) : F(f), LF((Function *)f.llvm) {}
  int op(const Value *Vv) {
    auto it = slot.find(Vv);
    if (it != slot.end()) return it->second;
    if (auto *K = dyn_cast<Constant>(Vv)) {
      auto ci = constidx.find(K);
      if (ci != constidx.end()) return -ci->second - 1;
      std::vector<V> vs;
      if (!flattenConst(K, vs)) { bad = "constant"; return -1; }
      int base = (int)P.consts.size();
      if (vs.empty()) vs.push_back({0, nullptr});
      P.consts.insert(P.consts.end(), vs.begin(), vs.end());
      constidx[K] = base;
      if (auto *G = tlsOf(K)) for (size_t g = 0; g < P.tls.size(); g++) if (P.tls[g].first == gaddr[G]) { if (vs.size() != 1) { bad = "thread-local constant"; return -1; } int64_t off = (int64_t)(vs[0].c - gaddr[G]); P.tls_consts.push_back({base, (int)g, off}); P.consts[base].c = tls_addr((int)g) + off; break; }
      return -base - 1;
    }
    if (isa<MetadataAsValue>(Vv) || isa<InlineAsm>(Vv)) return -1;
    bad = "operand"; return -1;
  }
  static int sub(int o, int k) { return o >= 0 ? o + k : o - k; }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    Edge E; E.pc = -1;
    for (const PHINode &Ph : to->phis()) {
      int n = slots(Ph.getType()); int s = op(Ph.getIncomingValueForBlock(from)); int d = slot[&Ph];
      for (int i = 0; i < n; i++) { int so = sub(s, i); if (so != d + i) E.copies.push_back({d + i, so}); }
    }
    P.edges.push_back(E);
    edgefix.push_back({(int)P.edges.size() - 1, to});
    return (int)P.edges.size() - 1;
  }
  void run() {
    int ns = 0;
    for (auto &A : LF->args()) { slot[&A] = ns; ns += slots(A.getType()); }
    F.nparams = ns;
    for (auto &BB : *LF) for (auto &I : BB) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += slots(I.getType()); }
    F.nslots = ns;
    for (auto &BB : *LF) {
      bbpc[&BB] = (int)F.code.size();
      for (auto &I : BB) { if (isa<PHINode>(I)) continue; one(I, BB); }
    }
    for (auto &p : edgefix) P.edges[p.first].pc = bbpc[p.second];
  }
  void unsupported(const Instruction &I, const std::string &why) {
    Inst in{}; in.op = O_UNSUPPORTED; std::string s; raw_string_ostream os(s); os << why << ": "; I.print(os);
    P.strs.push_back(os.str()); in.x = (int)P.strs.size() - 1; in.line = locOf(I); F.code.push_back(in);
  }
  void one(const Instruction &I, const BasicBlock &BB) {
    Inst in{}; in.line = locOf(I); in.n = 1; bad.clear();
    if (!I.getType()->isVoidTy()) in.dst = slot[&I];
    bool ok = lower(I, BB, in);
    if (!ok || !bad.empty()) { unsupported(I, bad.empty() ? "instr" : bad); return; }
    if (in.op != O_NOP) F.code.push_back(in);
  }
  bool lower(const Instruction &I, const BasicBlock &BB, Inst &in) {
    Type *T = I.getType();
    if (auto *B = dyn_cast<BinaryOperator>(&I)) {
      in.a = op(B->getOperand(0)); in.b = op(B->getOperand(1)); in.w = bitsOf(T); in.n = slots(T);
      static const std::map<unsigned, int> m = {{Instruction::Add, B_ADD}, {Instruction::Sub, B_SUB}, {Instruction::Mul, B_MUL}, {Instruction::UDiv, B_UDIV}, {Instruction::SDiv, B_SDIV}, {Instruction::URem, B_UREM}, {Instruction::SRem, B_SREM}, {Instruction::And, B_AND}, {Instruction::Or, B_OR}, {Instruction::Xor, B_XOR}, {Instruction::Shl, B_SHL}, {Instruction::LShr, B_LSHR}, {Instruction::AShr, B_ASHR}};
      auto it = m.find(B->getOpcode());
      if (it != m.end()) { in.op = O_BIN; in.sub = it->second; return true; }
      in.op = O_FBIN; in.sub = B->getOpcode() == Instruction::FAdd ? 0 : B->getOpcode() == Instruction::FSub ? 1 : B->getOpcode() == Instruction::FMul ? 2 : B->getOpcode() == Instruction::FDiv ? 3 : 4; return true;
    }
    switch (I.getOpcode()) {
      case Instruction::FNeg: in.op = O_FNEG; in.a = op(I.getOperand(0)); in.w = bitsOf(T); return true;
      case Instruction::ICmp: {
        auto &Cc = cast<ICmpInst>(I); in.op = O_ICMP; in.a = op(Cc.getOperand(0)); in.b = op(Cc.getOperand(1)); in.w = bitsOf(Cc.getOperand(0)->getType()); in.n = slots(T);
        switch (Cc.getPredicate()) {
          case CmpInst::ICMP_EQ: in.sub = C_EQ; break; case CmpInst::ICMP_NE: in.sub = C_NE; break;
          case CmpInst::ICMP_UGT: in.sub = C_UGT; break; case CmpInst::ICMP_UGE: in.sub = C_UGE; break;
          case CmpInst::ICMP_ULT: in.sub = C_ULT; break; case CmpInst::ICMP_ULE: in.sub = C_ULE; break;
          case CmpInst::ICMP_SGT: in.sub = C_SGT; break; case CmpInst::ICMP_SGE: in.sub = C_SGE; break;
          case CmpInst::ICMP_SLT: in.sub = C_SLT; break; default: in.sub = C_SLE; break;
        }
        return true;
      }
      case Instruction::FCmp: { auto &Cc = cast<FCmpInst>(I); in.op = O_FCMP; in.sub = Cc.getPredicate(); in.a = op(Cc.getOperand(0)); in.b = op(Cc.getOperand(1)); in.w = bitsOf(Cc.getOperand(0)->getType()); return slots(T) == 1; }
      case Instruction::Select: {
        in.op = I.getOperand(0)->getType()->isVectorTy() ? O_VSELECT : O_SELECT; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.c = op(I.getOperand(2)); in.n = slots(T); in.w = 0;
        in.x = layoutOf(T); return true;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        unsigned ws = bitsOf(I.getOperand(0)->getType()), wd = bitsOf(T);
        in.a = op(I.getOperand(0)); in.w = ws; in.w2 = wd; in.n = slots(T);
        if (I.getOpcode() == Instruction::SExt) in.op = O_SEXT; else in.op = ws == wd ? O_MOV : ws < wd ? O_ZEXT : O_TRUNCI;
        return true;
      }
      case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
        in.op = O_FCAST; in.sub = I.getOpcode() - Instruction::FPToUI; 
        in.sub = I.getOpcode() == Instruction::FPToUI ? 0 : I.getOpcode() == Instruction::FPToSI ? 1 : I.getOpcode() == Instruction::UIToFP ? 2 : I.getOpcode() == Instruction::SIToFP ? 3 : 4;
        in.a = op(I.getOperand(0)); in.w = bitsOf(I.getOperand(0)->getType()); in.w2 = bitsOf(T); return slots(T) == 1;
      case Instruction::BitCast: {
        in.a = op(I.getOperand(0)); int n1 = slots(I.getOperand(0)->getType()), n2 = slots(T);
        in.w = bitsOf(I.getOperand(0)->getType()); in.w2 = bitsOf(T); in.n = n2;
        if (n1 == n2 && in.w == in.w2) in.op = O_MOV; else { in.op = O_BITCAST; in.b = n1; }
        return true;
      }
      case Instruction::AddrSpaceCast: case Instruction::Freeze: in.op = O_MOV; in.a = op(I.getOperand(0)); in.n = slots(T); return true;
      case Instruction::Load: in.op = O_LOAD; in.a = op(I.getOperand(0)); in.x = layoutOf(T); in.n = slots(T); in.sub = cast<LoadInst>(I).isAtomic(); return true;
      case Instruction::Store: in.op = O_STORE; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.x = layoutOf(I.getOperand(0)->getType()); in.sub = cast<StoreInst>(I).isAtomic(); return true;
      case Instruction::Fence: in.op = O_NOP; return true;
      case Instruction::GetElementPtr: {
        auto &Gi = cast<GetElementPtrInst>(I); if (T->isVectorTy()) return false;
        Gep g; g.base = 0; in.op = O_GEP; in.a = op(Gi.getPointerOperand());
        for (auto it = gep_type_begin(Gi), e = gep_type_end(Gi); it != e; ++it) {
          Value *ix = it.getOperand();
          if (StructType *S = it.getStructTypeOrNull()) g.base += (int64_t)DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            int64_t sc = (int64_t)DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
            if (auto *CI = dyn_cast<ConstantInt>(ix)) g.base += CI->getSExtValue() * sc;
            else if (sc) g.terms.push_back({op(ix), (uint16_t)bitsOf(ix->getType()), sc});
          }
        }
        P.geps.push_back(g); in.x = (int)P.geps.size() - 1; return true;
      }
      case Instruction::Alloca: {
        auto &A = cast<AllocaInst>(I); in.op = O_ALLOCA; in.x = (int)DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue(); in.c = (int)A.getAlign().value();
        in.a = op(A.getArraySize()); in.w = bitsOf(A.getArraySize()->getType()); return true;
      }
      case Instruction::ExtractValue: case Instruction::InsertValue: {
        bool ins = I.getOpcode() == Instruction::InsertValue;
        Type *Ag = I.getOperand(0)->getType(); int off = 0;
        ArrayRef<unsigned> idx = ins ? cast<InsertValueInst>(I).getIndices() : cast<ExtractValueInst>(I).getIndices();
        Type *Cu = Ag;
        for (unsigned k : idx) {
          if (auto *S = dyn_cast<StructType>(Cu)) { for (unsigned q = 0; q < k; q++) off += slots(S->getElementType(q)); Cu = S->getElementType(k); }
          else { Cu = Cu->getArrayElementType(); off += k * slots(Cu); }
        }
        if (!ins) { in.op = O_MOV; in.a = sub(op(I.getOperand(0)), off); in.n = slots(T); if (in.n == 0) in.op = O_NOP; return true; }
        in.op = O_INSERTVAL; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.c = off; in.n = slots(T); in.x = slots(Cu); return true;
      }
      case Instruction::ExtractElement: in.op = O_EXTRACTELT; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.n = slots(I.getOperand(0)->getType()); return true;
      case Instruction::InsertElement: in.op = O_INSERTELT; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.c = op(I.getOperand(2)); in.n = slots(T); return true;
      case Instruction::ShuffleVector: {
        auto &S = cast<ShuffleVectorInst>(I); std::vector<int> m; for (int x : S.getShuffleMask()) m.push_back(x);
        P.shuffles.push_back(m); in.op = O_SHUFFLE; in.a = op(S.getOperand(0)); in.b = op(S.getOperand(1)); in.c = slots(S.getOperand(0)->getType()); in.x = (int)P.shuffles.size() - 1; return true;
      }
      case Instruction::Ret: in.op = O_RET; if (I.getNumOperands()) { in.a = op(I.getOperand(0)); in.n = slots(I.getOperand(0)->getType()); } else in.n = 0; return true;
      case Instruction::Br: {
        auto &B = cast<BranchInst>(I);
        if (B.isUnconditional()) { in.op = O_BR; in.b = edge(&BB, B.getSuccessor(0)); }
        else { in.op = O_CONDBR; in.a = op(B.getCondition()); in.b = edge(&BB, B.getSuccessor(0)); in.c = edge(&BB, B.getSuccessor(1)); }
        return true;
      }
      case Instruction::Switch: {
        auto &S = cast<SwitchInst>(I); SwitchI sw; in.op = O_SWITCH; in.a = op(S.getCondition()); in.w = bitsOf(S.getCondition()->getType());
        if (in.w > 64) return false;
        sw.def = edge(&BB, S.getDefaultDest());
        for (auto &cs : S.cases()) sw.cases.push_back({cs.getCaseValue()->getZExtValue(), edge(&BB, cs.getCaseSuccessor())});
        P.switches.push_back(sw); in.x = (int)P.switches.size() - 1; return true;
      }
      case Instruction::Unreachable: in.op = O_UNREACHABLE; return true;
      case Instruction::LandingPad: in.op = O_LANDINGPAD; in.n = slots(T); return true;
      case Instruction::Resume: in.op = O_RESUME; in.a = op(I.getOperand(0)); return true;
      case Instruction::AtomicRMW: {
        auto &A = cast<AtomicRMWInst>(I); in.op = O_ATOMICRMW; in.a = op(A.getPointerOperand()); in.b = op(A.getValOperand()); in.w = bitsOf(T); in.x = layoutOf(T);
        switch (A.getOperation()) {
          case AtomicRMWInst::Xchg: in.sub = R_XCHG; break; case AtomicRMWInst::Add: in.sub = R_ADD; break; case AtomicRMWInst::Sub: in.sub = R_SUB; break;
          case AtomicRMWInst::And: in.sub = R_AND; break; case AtomicRMWInst::Nand: in.sub = R_NAND; break; case AtomicRMWInst::Or: in.sub = R_OR; break; case AtomicRMWInst::Xor: in.sub = R_XOR; break;
          case AtomicRMWInst::Max: in.sub = R_MAX; break; case AtomicRMWInst::Min: in.sub = R_MIN; break; case AtomicRMWInst::UMax: in.sub = R_UMAX; break; case AtomicRMWInst::UMin: in.sub = R_UMIN; break;
          default: return false;
        }
        return true;
      }
      case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); in.op = O_CMPXCHG; in.a = op(A.getPointerOperand()); in.b = op(A.getCompareOperand()); in.c = op(A.getNewValOperand()); in.w = bitsOf(A.getCompareOperand()->getType()); in.x = layoutOf(A.getCompareOperand()->getType()); return true; }
      case Instruction::Call: case Instruction::Invoke: return call(cast<CallBase>(I), BB, in);
      default: return false;
    }
  }
  bool intrin(const CallBase &Cb, const Function *Fn, Inst &in, bool &handled) {
    StringRef N = Fn->getName(); handled = true;
    auto starts = [&](const char *p) { return N.starts_with(p); };
    auto A = [&](unsigned k) { return op(Cb.getArgOperand(k)); };
    Type *T = Cb.getType();
    static const char *nops[] = {"llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.donothing", "llvm.experimental.noalias", "llvm.sideeffect", "llvm.invariant", "llvm.prefetch", "llvm.x86.sse2.pause", "llvm.stackrestore", "llvm.var.annotation", "llvm.pseudoprobe"};
    for (auto p : nops) if (starts(p)) { in.op = O_NOP; if (!T->isVoidTy()) { in.op = O_MOV; in.a = op(Constant::getNullValue(T)); in.n = slots(T); } return true; }
    if (starts("llvm.expect") || starts("llvm.threadlocal.address") || starts("llvm.launder") || starts("llvm.strip.") || starts("llvm.ssa.copy")) { in.op = O_MOV; in.a = A(0); in.n = slots(T); return true; }
    if (starts("llvm.is.constant") || starts("llvm.frameaddress") || starts("llvm.returnaddress") || starts("llvm.stacksave")) { in.op = O_MOV; in.a = op(Constant::getNullValue(T)); in.n = 1; return true; }
    if (starts("llvm.objectsize")) { in.op = O_MOV; in.a = op(Constant::getAllOnesValue(T)); in.n = 1; return true; }
    if (starts("llvm.eh.typeid.for")) { in.op = O_MOV; in.a = op(ConstantInt::get(T, 1)); in.n = 1; return true; }
    in.op = O_INTRIN;
    if (!T->isVoidTy()) { in.n = slots(T); in.w = T->isStructTy() ? bitsOf(T->getStructElementType(0)) : bitsOf(T); if (T->isStructTy()) in.n = slots(T->getStructElementType(0)); }
    unsigned na = Cb.arg_size();
    if (na > 0) in.a = A(0); if (na > 1) in.b = A(1); if (na > 2) in.c = A(2);
    if (starts("llvm.memcpy") || starts("llvm.memmove")) { in.sub = I_MEMCPY; in.w = bitsOf(Cb.getArgOperand(2)->getType()); return true; }
    if (starts("llvm.memset")) { in.sub = I_MEMSET; in.w = bitsOf(Cb.getArgOperand(2)->getType()); return true; }
    static const std::vector<std::pair<const char *, int>> m = {
      {"llvm.uadd.with", I_UADDO}, {"llvm.sadd.with", I_SADDO}, {"llvm.usub.with", I_USUBO}, {"llvm.ssub.with", I_SSUBO}, {"llvm.umul.with", I_UMULO}, {"llvm.smul.with", I_SMULO},
      {"llvm.uadd.sat", I_UADDS}, {"llvm.usub.sat", I_USUBS}, {"llvm.sadd.sat", I_SADDS}, {"llvm.ssub.sat", I_SSUBS}, {"llvm.ctpop", I_CTPOP}, {"llvm.ctlz", I_CTLZ}, {"llvm.cttz", I_CTTZ},
      {"llvm.bswap", I_BSWAP}, {"llvm.fshl", I_FSHL}, {"llvm.fshr", I_FSHR}, {"llvm.umin", I_UMIN}, {"llvm.umax", I_UMAX}, {"llvm.smin", I_SMIN}, {"llvm.smax", I_SMAX}, {"llvm.abs", I_ABS},
      {"llvm.trap", I_TRAP}, {"llvm.debugtrap", I_TRAP}, {"llvm.bitreverse", I_BITREV}};
    for (auto &p : m) if (starts(p.first)) { in.sub = p.second; return true; }
    if (N == "llvm.x86.sse2.pmovmskb.128") { in.sub = I_PMOVMSKB; in.c = 16; return true; }
    if (starts("llvm.x86.sse2.psrli.") || starts("llvm.x86.sse2.pslli.")) { in.sub = I_PSHI; in.c = starts("llvm.x86.sse2.pslli."); return true; }
    if (starts("llvm.vector.reduce.or")) { in.sub = I_REDUCE_OR; in.c = slots(Cb.getArgOperand(0)->getType()); return true; }
    if (starts("llvm.vector.reduce.and")) { in.sub = I_REDUCE_AND; in.c = slots(Cb.getArgOperand(0)->getType()); return true; }
    if (starts("llvm.vector.reduce.add")) { in.sub = I_REDUCE_ADD; in.c = slots(Cb.getArgOperand(0)->getType()); return true; }
    static const char *fu[] = {"llvm.fabs", "llvm.floor", "llvm.ceil", "llvm.trunc", "llvm.sqrt", "llvm.round", "llvm.exp", "llvm.log", "llvm.pow", "llvm.exp2", "llvm.log2"};
    for (unsigned i = 0; i < sizeof(fu) / sizeof(*fu); i++) if (starts((std::string(fu[i]) + ".f").c_str())) { in.sub = I_FUNARY; in.x = i; return true; }
    handled = false; return true;
  }
  bool call(const CallBase &Cb, const BasicBlock &BB, Inst &in) {
    const Value *cv = Cb.getCalledOperand()->stripPointerCasts();
    const Function *Fn = dyn_cast<Function>(cv);
    if (!Fn) if (auto *GA = dyn_cast<GlobalAlias>(cv)) Fn = dyn_cast<Function>(GA->getAliaseeObject());
    if (Fn && Fn->isIntrinsic()) {
      bool h; if (!intrin(Cb, Fn, in, h)) return false;
      if (h) {
        if (auto *Iv = dyn_cast<InvokeInst>(&Cb)) { if (in.op != O_NOP) F.code.push_back(in); in = Inst{}; in.line = locOf(Cb); in.op = O_BR; in.b = edge(&BB, Iv->getNormalDest()); }
        return true;
      }
      bad = "intrinsic"; return false;
    }
    CallI ci; ci.fn = -1; ci.callee = -1; ci.normal = ci.unwind = -1; ci.is_asm = false;
    if (auto *IA = dyn_cast<InlineAsm>(cv)) { ci.is_asm = true; ci.asms = std::string(IA->getAsmString()) + "|" + std::string(IA->getConstraintString()); }
    else if (Fn) ci.fn = fidx[Fn];
    else ci.callee = op(Cb.getCalledOperand());
    for (unsigned i = 0; i < Cb.arg_size(); i++) {
      const Value *a = Cb.getArgOperand(i); Arg ar; ar.op = op(a); ar.n = slots(a->getType()); ar.byval = 0;
      if (Cb.isByValArgument(i)) ar.byval = (uint32_t)DL->getTypeAllocSize(Cb.getParamByValType(i)).getFixedValue();
      ci.args.push_back(ar);
    }
    ci.retn = slots(Cb.getType());
    if (auto *Iv = dyn_cast<InvokeInst>(&Cb)) { ci.normal = edge(&BB, Iv->getNormalDest()); ci.unwind = edge(&BB, Iv->getUnwindDest()); }
    P.calls.push_back(ci); in.op = O_CALL; in.x = (int)P.calls.size() - 1; in.n = ci.retn; in.w = ci.retn == 1 ? bitsOf(Cb.getType()) : 0;
    return true;
  }
};
}

void translate(int fi) {
  Func &F = P.funcs[fi];
  if (F.translated || !F.defined) return;
  F.translated = true;
  Tr t(F); t.run();
}

bool load_program(const char *path, const std::string &passes, const std::vector<std::string> &keep, const std::vector<std::string> &noinl, std::string &err) {
  C = new LLVMContext(); SMDiagnostic D;
  std::unique_ptr<Module> m = parseIRFile(path, D, *C);
  if (!m) { err = "cannot parse " + std::string(path) + ": " + D.getMessage().str(); return false; }
  M = m.release();
  std::set<std::string> ks(keep.begin(), keep.end());
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    for (auto &p : noinl) if (F.getName().contains(p)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    if (!F.isDeclaration()) { if (!ks.count(F.getName().str())) F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setDLLStorageClass(GlobalValue::DefaultStorageClass); F.setVisibility(GlobalValue::DefaultVisibility); }
  }
  for (auto &G : M->globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) { G.setVisibility(GlobalValue::DefaultVisibility); G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr); }
  if (!passes.empty()) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, passes)) { err = "bad pass pipeline: " + toString(std::move(e)); return false; }
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  P.locs.push_back({"?", 0});
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    Func f; f.name = F.getName().str(); f.dem = demangle(f.name); f.defined = !F.isDeclaration(); f.llvm = &F; f.weak = F.hasExternalWeakLinkage();
    f.handler = builtin_handler(f.name); f.retn = slots(F.getReturnType());
    if (auto *S = F.getSubprogram()) f.srcfile = (S->getDirectory().empty() || S->getFilename().starts_with("/") ? "" : S->getDirectory().str() + "/") + S->getFilename().str();
    int i = (int)P.funcs.size(); f.addr = FN_BASE + 16 * (uint64_t)i;
    fidx[&F] = i; P.fn_by_name[f.name] = i; P.fn_by_addr[f.addr] = i;
    gaddr[&F] = (f.weak && !f.defined && f.handler < 0) ? 0 : f.addr;
    P.funcs.push_back(f);
  }
  for (auto &G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    uint64_t sz = G.isDeclaration() ? 64 : DL->getTypeAllocSize(G.getValueType()).getFixedValue();
    if (G.isDeclaration() && G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
    gaddr[&G] = mem_alloc(sz ? sz : 1, std::max<uint64_t>(16, G.getAlign().valueOrOne().value()), 2, true);
    if (G.isThreadLocal()) P.tls.push_back({gaddr[&G], sz});
  }
  for (auto &G : M->globals()) if (G.hasInitializer() && gaddr.count(&G)) initMem(G.getInitializer(), gaddr[&G]);
  return true;
}
