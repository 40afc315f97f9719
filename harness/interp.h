// Explicit-state execution of small LLVM modules: every nondeterministic choice of a program is explored, and the observer sees every instruction executed with the
// values of all registers and of the memory.  The reference for the static analyses.
#pragma once
#include "ir.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include <deque>
#include <functional>
#include <map>
#include <vector>

namespace interp {
using namespace llvm;

struct Val {
  enum Kind : uint8_t { Undef, Int, Ptr, Opaque } K = Undef; // Opaque: an unknown integer
  int64_t I = 0;  // Int: value (sign extended); Ptr: offset
  int Obj = -1;   // Ptr: object, -1: null
  uint32_t T = 0; // taint labels
  static Val mkInt(int64_t I, uint32_t T = 0) { return {Int, I, -1, T}; }
  static Val ptr(int Obj, int64_t Off = 0, uint32_t T = 0) { return {Ptr, Off, Obj, T}; }
  bool operator==(const Val &O) const { return K == O.K && I == O.I && Obj == O.Obj; }
};

struct Object {
  const Value *Site = nullptr; // alloca, global, function or allocating call
  int64_t Size = 0;
  bool Freed = false, Const = false;
  std::map<int64_t, std::pair<Val, int64_t>> Cells; // offset -> value, size
};

struct Frame {
  const Function *F;
  const Instruction *Cur;
  const BasicBlock *Prev = nullptr;
  const CallBase *Call = nullptr; // in the caller
  unsigned Serial = 0;
  std::map<const Value *, Val> Regs;
  std::vector<Val> VarArgs;
};

enum class Stop { Finished, Bound, Trap, Unwound };

class Exec;
struct Observer {
  virtual ~Observer() = default;
  virtual void before(Exec &, const Instruction *) {} // about to be executed
  virtual void after(Exec &, const Instruction *) {}  // just executed (for a call: returned)
  virtual void call(Exec &, const CallBase *, const Function *) {}
  /// A function without body; returns false for the default treatment.
  virtual bool external(Exec &, const CallBase *, const Function *, std::vector<Val> &, Val &) { return false; }
};

/// A choice sequence explored depth first.
struct Chooser {
  std::vector<unsigned> V, N;
  size_t Pos = 0;
  unsigned choose(unsigned K) {
    if (Pos == V.size()) {
      V.push_back(0);
      N.push_back(K);
    }
    return V[Pos++];
  }
  bool next() {
    V.resize(Pos);
    N.resize(Pos);
    Pos = 0;
    while (!V.empty() && V.back() + 1 == N.back()) {
      V.pop_back();
      N.pop_back();
    }
    if (V.empty())
      return false;
    ++V.back();
    return true;
  }
};

class Exec {
public:
  const Module &M;
  const DataLayout &DL;
  Chooser &Ch;
  Observer &Ob;
  std::deque<Object> Mem;
  std::map<const Value *, int> GlobalObj;
  std::vector<Frame> Stack;
  unsigned Steps = 0, MaxSteps = 400, MaxDepth = 12, Serial = 0;
  std::string TrapWhy;
  bool AllPaths = false; // every branch goes both ways

  Exec(const Module &M, Chooser &Ch, Observer &Ob) : M(M), DL(M.getDataLayout()), Ch(Ch), Ob(Ob) {
    for (auto &G : M.globals())
      GlobalObj[&G] = alloc(&G, DL.getTypeAllocSize(G.getValueType()), G.isConstant());
    for (auto &F : M)
      GlobalObj[&F] = alloc(&F, 1, true);
    for (auto &A : M.aliases())
      if (auto *O = A.getAliaseeObject())
        GlobalObj[&A] = GlobalObj[O];
    for (auto &G : M.globals())
      if (G.hasInitializer())
        init(GlobalObj[&G], 0, G.getInitializer());
  }
  int alloc(const Value *Site, int64_t Size, bool Const = false) {
    Mem.emplace_back();
    Mem.back().Site = Site;
    Mem.back().Size = Size;
    Mem.back().Const = Const;
    return int(Mem.size()) - 1;
  }
  const Function *function(const Val &V) const {
    return V.K == Val::Ptr && V.Obj >= 0 && V.I == 0 ? dyn_cast_or_null<Function>(Mem[V.Obj].Site) : nullptr;
  }
  Frame &top() { return Stack.back(); }

  //------------------------------------------------ memory
  void writeMem(const Val &P, const Val &V, int64_t Size) {
    auto &C = Mem[P.Obj].Cells;
    for (auto It = C.begin(); It != C.end();)
      It = It->first < P.I + Size && P.I < It->first + It->second.second ? C.erase(It) : std::next(It);
    C[P.I] = {V, Size};
  }
  Val readMem(const Val &P, int64_t Size) const {
    auto &C = Mem[P.Obj].Cells;
    auto It = C.find(P.I);
    if (It != C.end() && It->second.second == Size)
      return It->second.first;
    Val R;
    for (auto &[O, X] : C) // a partial read: defined if anything is there
      if (O < P.I + Size && P.I < O + X.second) {
        R.T |= X.first.T;
        if (X.first.K != Val::Undef)
          R.K = Val::Opaque;
      }
    return R;
  }
  void init(int Obj, int64_t Off, const Constant *C) {
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
      auto *L = DL.getStructLayout(S->getType());
      for (unsigned I = 0; I < S->getNumOperands(); ++I)
        init(Obj, Off + int64_t(L->getElementOffset(I)), S->getOperand(I));
    } else if (auto *A = dyn_cast<ConstantArray>(C)) {
      auto Sz = int64_t(DL.getTypeAllocSize(A->getType()->getElementType()));
      for (unsigned I = 0; I < A->getNumOperands(); ++I)
        init(Obj, Off + Sz * I, A->getOperand(I));
    } else if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
      auto Sz = int64_t(DL.getTypeAllocSize(D->getElementType()));
      for (unsigned I = 0; I < D->getNumElements(); ++I)
        init(Obj, Off + Sz * I, D->getElementAsConstant(I));
    } else if (isa<ConstantAggregateZero>(C)) {
      zero(Obj, Off, C->getType());
    } else if (!isa<UndefValue>(C)) {
      writeMem(Val::ptr(Obj, Off), eval(C), int64_t(DL.getTypeStoreSize(C->getType())));
    }
  }
  void zero(int Obj, int64_t Off, Type *T) {
    if (auto *S = dyn_cast<StructType>(T)) {
      auto *L = DL.getStructLayout(S);
      for (unsigned I = 0; I < S->getNumElements(); ++I)
        zero(Obj, Off + int64_t(L->getElementOffset(I)), S->getElementType(I));
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      for (uint64_t I = 0; I < A->getNumElements(); ++I)
        zero(Obj, Off + int64_t(DL.getTypeAllocSize(A->getElementType()) * I), A->getElementType());
    } else {
      writeMem(Val::ptr(Obj, Off), T->isPointerTy() ? Val::ptr(-1) : Val::mkInt(0), int64_t(DL.getTypeStoreSize(T)));
    }
  }

  //------------------------------------------------ values
  int64_t gepOffset(const GEPOperator *G, bool &Ok) {
    int64_t Off = 0;
    for (auto It = gep_type_begin(G), E = gep_type_end(G); It != E; ++It) {
      Val I = eval(It.getOperand());
      if (I.K != Val::Int) {
        Ok = false;
        return 0;
      }
      if (auto *S = It.getStructTypeOrNull())
        Off += int64_t(DL.getStructLayout(S)->getElementOffset(unsigned(I.I)));
      else
        Off += I.I * int64_t(DL.getTypeAllocSize(It.getIndexedType()));
    }
    return Off;
  }
  Val eval(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V); C && C->getValue().getMinSignedBits() > 64)
      return {Val::Opaque, 0, -1, 0};
    if (auto *C = dyn_cast<ConstantInt>(V))
      return Val::mkInt(C->getBitWidth() == 1 ? int64_t(C->getZExtValue()) : C->getSExtValue());
    if (isa<ConstantPointerNull>(V))
      return Val::ptr(-1);
    if (isa<GlobalValue>(V))
      return Val::ptr(GlobalObj.at(V));
    if (isa<UndefValue>(V))
      return {};
    if (isa<ConstantFP>(V))
      return {Val::Opaque, 0, -1, 0};
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (CE->isCast())
        return eval(CE->getOperand(0));
      if (auto *G = dyn_cast<GEPOperator>(CE)) {
        bool Ok = true;
        auto P = eval(G->getPointerOperand());
        P.I += gepOffset(G, Ok);
        return Ok ? P : Val{};
      }
      return {Val::Opaque, 0, -1, 0};
    }
    if (isa<ConstantAggregateZero>(V))
      return {Val::Opaque, 0, -1, 0};
    auto &R = Stack.back().Regs;
    auto It = R.find(V);
    return It == R.end() ? Val{} : It->second;
  }
  static int64_t norm(int64_t V, unsigned W) {
    if (W >= 64)
      return V;
    if (W == 1)
      return V & 1;
    uint64_t M = (uint64_t(1) << W) - 1, U = uint64_t(V) & M;
    return U >> (W - 1) ? int64_t(U | ~M) : int64_t(U);
  }
  Val binop(const BinaryOperator *B) {
    auto L = eval(B->getOperand(0)), R = eval(B->getOperand(1));
    Val O;
    O.T = L.T | R.T;
    if (L.K == Val::Undef || R.K == Val::Undef)
      return O;
    O.K = Val::Opaque;
    if (L.K != Val::Int || R.K != Val::Int || !B->getType()->isIntegerTy())
      return O;
    unsigned W = B->getType()->getIntegerBitWidth();
    APInt X(W, uint64_t(L.I), true), Y(W, uint64_t(R.I), true), Z(W, 0);
    switch (B->getOpcode()) {
    case Instruction::Add: Z = X + Y; break;
    case Instruction::Sub: Z = X - Y; break;
    case Instruction::Mul: Z = X * Y; break;
    case Instruction::And: Z = X & Y; break;
    case Instruction::Or: Z = X | Y; break;
    case Instruction::Xor: Z = X ^ Y; break;
    case Instruction::SDiv:
    case Instruction::SRem:
      if (Y == 0 || (X.isMinSignedValue() && Y.isAllOnes())) {
        trap("division");
        return O;
      }
      Z = B->getOpcode() == Instruction::SDiv ? X.sdiv(Y) : X.srem(Y);
      break;
    case Instruction::UDiv:
    case Instruction::URem:
      if (Y == 0) {
        trap("division");
        return O;
      }
      Z = B->getOpcode() == Instruction::UDiv ? X.udiv(Y) : X.urem(Y);
      break;
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
      if (Y.uge(W)) {
        O.K = Val::Undef;
        return O;
      }
      Z = B->getOpcode() == Instruction::Shl ? X.shl(Y) : B->getOpcode() == Instruction::LShr ? X.lshr(Y) : X.ashr(Y);
      break;
    default: return O;
    }
    return Val::mkInt(W == 1 ? int64_t(Z.getZExtValue()) : Z.getSExtValue(), O.T);
  }
  Val withOverflow(const WithOverflowInst *B, bool Flag) {
    auto L = eval(B->getLHS()), R = eval(B->getRHS());
    Val O;
    O.T = L.T | R.T;
    if (L.K == Val::Undef || R.K == Val::Undef)
      return O;
    O.K = Val::Opaque;
    if (L.K != Val::Int || R.K != Val::Int)
      return O;
    unsigned W = B->getLHS()->getType()->getIntegerBitWidth();
    APInt X(W, uint64_t(L.I), true), Y(W, uint64_t(R.I), true), Z;
    bool Ov = false;
    switch (B->getIntrinsicID()) {
    case Intrinsic::sadd_with_overflow: Z = X.sadd_ov(Y, Ov); break;
    case Intrinsic::uadd_with_overflow: Z = X.uadd_ov(Y, Ov); break;
    case Intrinsic::ssub_with_overflow: Z = X.ssub_ov(Y, Ov); break;
    case Intrinsic::usub_with_overflow: Z = X.usub_ov(Y, Ov); break;
    case Intrinsic::smul_with_overflow: Z = X.smul_ov(Y, Ov); break;
    default: Z = X.umul_ov(Y, Ov); break;
    }
    return Val::mkInt(Flag ? Ov : Z.getSExtValue(), O.T);
  }
  Val icmp(const ICmpInst *C) {
    auto L = eval(C->getOperand(0)), R = eval(C->getOperand(1));
    Val O;
    O.T = L.T | R.T;
    if (L.K == Val::Undef || R.K == Val::Undef)
      return O;
    O.K = Val::Opaque;
    if (L.K == Val::Ptr && R.K == Val::Ptr && C->isEquality()) {
      bool Eq = L.Obj == R.Obj && L.I == R.I;
      return Val::mkInt(C->getPredicate() == ICmpInst::ICMP_EQ ? Eq : !Eq, O.T);
    }
    if (L.K != Val::Int || R.K != Val::Int)
      return O;
    unsigned W = C->getOperand(0)->getType()->getIntegerBitWidth();
    APInt X(W, uint64_t(L.I), true), Y(W, uint64_t(R.I), true);
    return Val::mkInt(ICmpInst::compare(X, Y, C->getPredicate()), O.T);
  }
  void trap(const std::string &Why) {
    Trapped = true;
    TrapWhy = Why;
  }
  bool valid(const Val &P, int64_t Size, bool Write) {
    if (P.K != Val::Ptr || P.Obj < 0 || Mem[P.Obj].Freed || P.I < 0 || P.I + Size > Mem[P.Obj].Size || (Write && Mem[P.Obj].Const) || isa_and_nonnull<Function>(Mem[P.Obj].Site)) {
      trap("bad access");
      return false;
    }
    return true;
  }

  //------------------------------------------------ execution
  void push(const Function *F, const CallBase *Call, std::vector<Val> Args) {
    Frame Fr;
    Fr.F = F;
    Fr.Cur = &F->getEntryBlock().front();
    Fr.Call = Call;
    Fr.Serial = ++Serial;
    for (unsigned I = 0; I < F->arg_size(); ++I)
      Fr.Regs[F->getArg(I)] = I < Args.size() ? Args[I] : Val{};
    for (size_t I = F->arg_size(); I < Args.size(); ++I)
      Fr.VarArgs.push_back(Args[I]);
    Stack.push_back(std::move(Fr));
  }
  void jump(const BasicBlock *To) {
    auto &F = top();
    auto *From = F.Cur->getParent();
    // all phis at once
    std::vector<std::pair<const PHINode *, Val>> P;
    for (auto &Phi : To->phis())
      P.emplace_back(&Phi, eval(Phi.getIncomingValueForBlock(From)));
    F.Prev = From;
    if (P.empty()) {
      F.Cur = &To->front();
      return;
    }
    for (size_t K = 0; K < P.size(); ++K) {
      F.Cur = P[K].first;
      if (K == 0)
        for (auto &X : P)
          Ob.before(*this, X.first);
      F.Regs[P[K].first] = P[K].second;
    }
    for (auto &X : P)
      Ob.after(*this, X.first);
    F.Cur = To->getFirstNonPHI();
  }
  void setAndStep(const Instruction *I, const Val &V) {
    top().Regs[I] = V;
    done(I);
  }
  void done(const Instruction *I) {
    Ob.after(*this, I);
    if (auto *Inv = dyn_cast<InvokeInst>(I))
      jump(Inv->getNormalDest());
    else
      top().Cur = I->getNextNode();
  }
  Stop run(const Function *Main, std::vector<Val> Args = {}) {
    push(Main, nullptr, std::move(Args));
    while (!Stack.empty()) {
      if (++Steps > MaxSteps)
        return Stop::Bound;
      if (!step())
        return Trapped ? Stop::Trap : Stop::Bound;
      if (Trapped)
        return Stop::Trap;
    }
    return Stop::Finished;
  }
  bool step() {
    auto *I = top().Cur;
    Ob.before(*this, I);
    switch (I->getOpcode()) {
    case Instruction::Ret: {
      Val R;
      auto *RI = cast<ReturnInst>(I);
      if (RI->getReturnValue())
        R = eval(RI->getReturnValue());
      for (auto &O : Mem) // the locals of this activation die
        if (auto *A = dyn_cast_or_null<AllocaInst>(O.Site); A && A->getFunction() == top().F && Owner(O) == top().Serial)
          O.Freed = true;
      auto *Call = top().Call;
      Stack.pop_back();
      if (Stack.empty())
        return true;
      if (!Call->getType()->isVoidTy())
        top().Regs[Call] = R;
      done(Call);
      return true;
    }
    case Instruction::Br: {
      auto *B = cast<BranchInst>(I);
      if (B->isUnconditional()) {
        jump(B->getSuccessor(0));
        return true;
      }
      auto C = eval(B->getCondition());
      bool T = C.K == Val::Int && !AllPaths ? C.I != 0 : Ch.choose(2) == 0;
      jump(B->getSuccessor(T ? 0 : 1));
      return true;
    }
    case Instruction::Switch: {
      auto *S = cast<SwitchInst>(I);
      auto C = eval(S->getCondition());
      if (C.K != Val::Int || AllPaths) {
        jump(S->getSuccessor(Ch.choose(S->getNumSuccessors())));
        return true;
      }
      for (auto &Case : S->cases())
        if (Case.getCaseValue()->getSExtValue() == C.I) {
          jump(Case.getCaseSuccessor());
          return true;
        }
      jump(S->getDefaultDest());
      return true;
    }
    case Instruction::Unreachable: trap("unreachable"); return false;
    case Instruction::Alloca: {
      auto *A = cast<AllocaInst>(I);
      auto N = eval(A->getArraySize());
      int O = alloc(A, int64_t(DL.getTypeAllocSize(A->getAllocatedType())) * (N.K == Val::Int ? N.I : 1));
      Owners[O] = top().Serial;
      setAndStep(I, Val::ptr(O));
      return true;
    }
    case Instruction::Load: {
      auto *L = cast<LoadInst>(I);
      auto P = eval(L->getPointerOperand());
      auto Sz = int64_t(DL.getTypeStoreSize(L->getType()));
      if (!valid(P, Sz, false))
        return false;
      setAndStep(I, readMem(P, Sz));
      return true;
    }
    case Instruction::Store: {
      auto *S = cast<StoreInst>(I);
      auto P = eval(S->getPointerOperand());
      auto Sz = int64_t(DL.getTypeStoreSize(S->getValueOperand()->getType()));
      if (!valid(P, Sz, true))
        return false;
      writeMem(P, eval(S->getValueOperand()), Sz);
      done(I);
      return true;
    }
    case Instruction::GetElementPtr: {
      bool Ok = true;
      auto P = eval(cast<GEPOperator>(I)->getPointerOperand());
      if (P.K == Val::Ptr) {
        P.I += gepOffset(cast<GEPOperator>(I), Ok);
        if (!Ok)
          P = Val{Val::Opaque, 0, -1, P.T};
      }
      setAndStep(I, P);
      return true;
    }
    case Instruction::Select: {
      auto *S = cast<SelectInst>(I);
      auto C = eval(S->getCondition());
      bool T = C.K == Val::Int ? C.I != 0 : Ch.choose(2) == 0;
      setAndStep(I, eval(T ? S->getTrueValue() : S->getFalseValue()));
      return true;
    }
    case Instruction::ICmp: setAndStep(I, icmp(cast<ICmpInst>(I))); return true;
    case Instruction::Call:
    case Instruction::Invoke: return doCall(cast<CallBase>(I));
    default:
      if (auto *B = dyn_cast<BinaryOperator>(I)) {
        auto V = binop(B);
        if (Trapped)
          return false;
        setAndStep(I, V);
        return true;
      }
      if (auto *C = dyn_cast<CastInst>(I)) {
        auto V = eval(C->getOperand(0));
        if (V.K == Val::Int && C->getType()->isIntegerTy()) {
          if (C->getOpcode() == Instruction::ZExt) {
            unsigned W = C->getSrcTy()->getIntegerBitWidth();
            if (W < 64)
              V.I = int64_t(uint64_t(V.I) & ((uint64_t(1) << W) - 1));
          } else if (C->getOpcode() == Instruction::SExt && C->getSrcTy()->isIntegerTy(1)) {
            V.I = V.I ? -1 : 0;
          }
          V.I = norm(V.I, C->getType()->getIntegerBitWidth());
        }
        setAndStep(I, V);
        return true;
      }
      if (auto *X = dyn_cast<ExtractValueInst>(I))
        if (auto *W = dyn_cast<WithOverflowInst>(X->getAggregateOperand())) {
          setAndStep(I, withOverflow(W, X->getIndices()[0] == 1));
          return true;
        }
      if (isa<ExtractValueInst>(I) || isa<InsertValueInst>(I)) { // only the labels of the whole
        Val V{Val::Opaque, 0, -1, 0};
        for (auto &O : I->operands())
          V.T |= eval(O).T;
        setAndStep(I, V);
        return true;
      }
      if (I->getOpcode() == Instruction::Freeze) {
        setAndStep(I, eval(I->getOperand(0)));
        return true;
      }
      setAndStep(I, Val{Val::Opaque, 0, -1, 0});
      return true;
    }
  }
  bool doCall(const CallBase *CB) {
    auto *F = function(eval(CB->getCalledOperand()));
    if (!F) {
      trap("bad call");
      return false;
    }
    std::vector<Val> Args;
    for (auto &A : CB->args())
      Args.push_back(isa<MetadataAsValue>(A) ? Val{} : eval(A));
    Ob.call(*this, CB, F);
    if (!F->isDeclaration()) {
      if (Stack.size() >= MaxDepth)
        return false;
      for (unsigned I = 0; I < Args.size() && I < F->arg_size(); ++I)
        if (CB->isByValArgument(I)) { // a copy
          auto Sz = int64_t(DL.getTypeAllocSize(CB->getParamByValType(I)));
          int O = alloc(F->getArg(I), Sz);
          for (auto &[Off, C] : Mem[Args[I].Obj].Cells)
            if (Off >= Args[I].I && Off < Args[I].I + Sz)
              Mem[O].Cells[Off - Args[I].I] = C;
          Args[I] = Val::ptr(O);
        }
      push(F, CB, std::move(Args));
      return true;
    }
    Val R{Val::Opaque, 0, -1, 0};
    if (!Ob.external(*this, CB, F, Args, R)) {
      auto N = F->getName();
      if (N == "malloc" || N == "_Znwm" || N == "_Znam" || N == "calloc") {
        R = Val::ptr(alloc(CB, Args[0].K == Val::Int ? Args[0].I * (N == "calloc" ? Args[1].I : 1) : 64));
      } else if (N == "free" || N == "_ZdlPv") {
        if (Args[0].K == Val::Ptr && Args[0].Obj >= 0)
          Mem[Args[0].Obj].Freed = true;
      } else if (N.startswith("llvm.memcpy") || N.startswith("llvm.memmove")) {
        auto Sz = Args[2].I;
        if (!valid(Args[0], Sz, true) || !valid(Args[1], Sz, false))
          return false;
        std::vector<std::pair<int64_t, std::pair<Val, int64_t>>> Cp;
        for (auto &[Off, C] : Mem[Args[1].Obj].Cells)
          if (Off >= Args[1].I && Off + C.second <= Args[1].I + Sz)
            Cp.emplace_back(Off - Args[1].I, C);
        auto &D = Mem[Args[0].Obj].Cells;
        for (auto It = D.begin(); It != D.end();)
          It = It->first >= Args[0].I && It->first < Args[0].I + Sz ? D.erase(It) : std::next(It);
        for (auto &[O, C] : Cp)
          D[Args[0].I + O] = C;
      } else if (N.startswith("llvm.memset")) {
        if (!valid(Args[0], Args[2].I, true))
          return false;
        for (int64_t K = 0; K < Args[2].I; ++K)
          writeMem(Val::ptr(Args[0].Obj, Args[0].I + K), Args[1], 1);
      } else if (N == "exit" || N == "abort") {
        trap("exit");
        return false;
      }
    }
    if (Trapped)
      return false;
    if (!CB->getType()->isVoidTy())
      top().Regs[CB] = R;
    done(CB);
    return true;
  }
  unsigned Owner(const Object &O) const {
    for (size_t K = 0; K < Mem.size(); ++K)
      if (&Mem[K] == &O) {
        auto It = Owners.find(int(K));
        return It == Owners.end() ? 0 : It->second;
      }
    return 0;
  }
  std::map<int, unsigned> Owners; // object -> serial of its activation
  bool Trapped = false;
};

/// Runs every execution; F(Exec&, Stop) is called at the end of each.
template <typename MkObserver, typename Fn> uint64_t explore(const Module &M, const Function *Main, MkObserver Mk, Fn End, unsigned MaxSteps = 400, uint64_t MaxRuns = 4096, const std::function<std::vector<Val>(Exec &)> &Args = {}) {
  Chooser Ch;
  uint64_t N = 0;
  do {
    auto Ob = Mk();
    Exec E(M, Ch, *Ob);
    E.MaxSteps = MaxSteps;
    auto S = E.run(Main, Args ? Args(E) : std::vector<Val>{});
    End(E, *Ob, S);
    ++N;
  } while (Ch.next() && N < MaxRuns);
  return N;
}
} // namespace interp
