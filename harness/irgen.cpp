#include "irgen.hpp"

#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Local.h>

namespace gen
{

using namespace llvm;
using pbt::Ctx;

std::string
print(const Module & m)
{
  std::string s;
  raw_string_ostream os(s);
  m.print(os, nullptr);
  return os.str();
}

void
runPasses(Module & m, const std::string & pipeline)
{
  if (pipeline.empty())
    return;
  LoopAnalysisManager lam;
  FunctionAnalysisManager fam;
  CGSCCAnalysisManager cam;
  ModuleAnalysisManager mam;
  PassBuilder pb;
  pb.registerModuleAnalyses(mam);
  pb.registerCGSCCAnalyses(cam);
  pb.registerFunctionAnalyses(fam);
  pb.registerLoopAnalyses(lam);
  pb.crossRegisterProxies(lam, fam, cam, mam);
  ModulePassManager mpm;
  if (auto e = pb.parsePassPipeline(mpm, pipeline))
  {
    consumeError(std::move(e));
    pbt::discard("prelude pipeline");
  }
  mpm.run(m, mam);
}

enum PK
{
  P16,
  P4,
  PS,
  PP,
  FN,
  NPK
};

class Gen
{
public:
  Gen(Ctx & c, LLVMContext & x, const Opts & o)
      : c(c),
        C(x),
        O(o),
        B(x)
  {}

  Program
  run();

private:
  Ctx & c;
  LLVMContext & C;
  const Opts & O;
  IRBuilder<> B;
  Module * M = nullptr;
  StructType * S = nullptr;

  struct Var
  {
    Value * slot;
    Type * type;
    int pk = -1; // pointer kind
    bool ro = false;
  };
  struct Fn
  {
    Function * f;
    std::vector<int> pk; // kind per parameter: -1 scalar, else PK; param 0 is the depth
    int retPk = -1;
  };
  std::vector<Fn> fns;
  std::vector<Function *> fnPtrTargets; // i64(i64)
  std::vector<std::pair<GlobalVariable *, int>> globs;
  GlobalVariable * fnTable = nullptr;
  std::map<std::string, Function *> exts;

  // per function
  Fn * cur = nullptr;
  std::vector<Var> vars;
  std::vector<Value *> temps;
  std::vector<std::pair<Value *, int>> ptrTemps;
  Value * depthSlot = nullptr;
  BasicBlock * breakTo = nullptr;
  BasicBlock * contTo = nullptr;
  int budget = 0;
  unsigned loopDepth = 0;
  BasicBlock * retBlock = nullptr;
  Value * retSlot = nullptr;
  bool simpleOnly = false;
  std::vector<std::function<void()>> epilogue;

  IntegerType *
  iN(unsigned n)
  {
    return IntegerType::get(C, n);
  }
  Type *
  ptr()
  {
    return PointerType::get(C, 0);
  }
  ConstantInt *
  k(unsigned bits, uint64_t v)
  {
    return ConstantInt::get(C, APInt(bits, v));
  }

  Type *
  scalarType()
  {
    switch (c.weighted({ 10, 8, 4, 3, 3, O.oddInts ? 1u : 0u, O.fp ? 3u : 0u, O.fp ? 1u : 0u }))
    {
    case 0:
      return iN(32);
    case 1:
      return iN(64);
    case 2:
      return iN(8);
    case 3:
      return iN(16);
    case 4:
      return iN(1);
    case 5:
      return iN(c.pick(std::vector<unsigned>{ 7, 33, 3, 63, 24 }));
    case 6:
      return Type::getDoubleTy(C);
    default:
      return Type::getFloatTy(C);
    }
  }

  Constant *
  constantOf(Type * t)
  {
    if (t->isIntegerTy())
    {
      unsigned b = t->getIntegerBitWidth();
      uint64_t v;
      switch (c.draw(4))
      {
      case 0:
        v = c.draw(10);
        break;
      case 1:
        v = ~c.draw(4);
        break;
      case 2:
        v = c.bits64();
        break;
      default:
        v = uint64_t(1) << c.draw(b < 64 ? b : 64);
      }
      return k(b, v);
    }
    if (t->isFloatingPointTy())
    {
      static const double vals[] = { 0, 1, -1, 0.5, 3.25, -7.75, 1e10, 1e-10, 100, -0.0 };
      return ConstantFP::get(t, vals[c.draw(10)]);
    }
    if (t->isPointerTy())
      return ConstantPointerNull::get(llvm::cast<PointerType>(t));
    if (auto s = dyn_cast<StructType>(t))
    {
      std::vector<Constant *> e;
      for (auto x : s->elements())
        e.push_back(constantOf(x));
      return ConstantStruct::get(s, e);
    }
    if (auto a = dyn_cast<ArrayType>(t))
    {
      std::vector<Constant *> e;
      for (unsigned i = 0; i < a->getNumElements(); i++)
        e.push_back(constantOf(a->getElementType()));
      return ConstantArray::get(a, e);
    }
    auto v = llvm::cast<FixedVectorType>(t);
    std::vector<Constant *> e;
    for (unsigned i = 0; i < v->getNumElements(); i++)
      e.push_back(constantOf(v->getElementType()));
    return ConstantVector::get(e);
  }

  Value *
  temp(Type * t)
  {
    std::vector<Value *> v;
    for (auto x : temps)
      if (x->getType() == t)
        v.push_back(x);
    if (v.empty())
      return nullptr;
    return v[v.size() - 1 - c.draw(v.size())];
  }

  Var *
  var(Type * t, bool writable)
  {
    std::vector<Var *> v;
    for (auto & x : vars)
      if (x.type == t && x.pk < 0 && (!writable || !x.ro))
        v.push_back(&x);
    if (v.empty())
      return nullptr;
    return v[c.draw(v.size())];
  }

  Value *
  leaf(Type * t)
  {
    switch (c.weighted({ 3, 4, 4 }))
    {
    case 1:
      if (auto v = var(t, false))
        return B.CreateLoad(t, v->slot);
      break;
    case 2:
      if (auto v = temp(t))
        return v;
      break;
    }
    if (O.undefs && c.chance(1, 300))
      return c.draw(2) ? (Value *)UndefValue::get(t) : (Value *)PoisonValue::get(t);
    return constantOf(t);
  }

  Value *
  intArg(unsigned bits)
  {
    return expr(iN(bits), 1);
  }

  Value *
  cond(int depth)
  {
    return expr(iN(1), depth);
  }

  Value *
  resize(Value * v, unsigned bits)
  {
    unsigned b = v->getType()->getIntegerBitWidth();
    if (b == bits)
      return v;
    if (b > bits)
      return B.CreateTrunc(v, iN(bits));
    return c.draw(2) ? B.CreateSExt(v, iN(bits)) : B.CreateZExt(v, iN(bits));
  }

  Value *
  safeShift(Value * s)
  {
    unsigned b = s->getType()->getIntegerBitWidth();
    unsigned m = 1;
    while (m * 2 <= b)
      m *= 2;
    return B.CreateAnd(s, k(b, m - 1));
  }

  Value *
  intrinsicExpr(Type * t, int depth)
  {
    if (t->isIntegerTy())
    {
      unsigned b = t->getIntegerBitWidth();
      switch (c.draw(11))
      {
      case 0:
        return B.CreateBinaryIntrinsic(Intrinsic::umin, expr(t, depth - 1), expr(t, depth - 1));
      case 1:
        return B.CreateBinaryIntrinsic(Intrinsic::umax, expr(t, depth - 1), expr(t, depth - 1));
      case 2:
        return B.CreateBinaryIntrinsic(Intrinsic::smin, expr(t, depth - 1), expr(t, depth - 1));
      case 3:
        return B.CreateBinaryIntrinsic(Intrinsic::smax, expr(t, depth - 1), expr(t, depth - 1));
      case 4:
        return B.CreateIntrinsic(Intrinsic::abs, { t }, { expr(t, depth - 1), k(1, 0) });
      case 5:
        if (b % 16 == 0)
          return B.CreateUnaryIntrinsic(Intrinsic::bswap, expr(t, depth - 1));
        return B.CreateUnaryIntrinsic(Intrinsic::ctpop, expr(t, depth - 1));
      case 6:
        return B.CreateUnaryIntrinsic(Intrinsic::ctpop, expr(t, depth - 1));
      case 7:
        return B.CreateIntrinsic(
            c.draw(2) ? Intrinsic::ctlz : Intrinsic::cttz,
            { t },
            { expr(t, depth - 1), k(1, 0) });
      case 8:
        return B.CreateIntrinsic(
            Intrinsic::fshl,
            { t },
            { expr(t, depth - 1), expr(t, depth - 1), expr(t, depth - 1) });
      case 9:
        return B.CreateIntrinsic(Intrinsic::expect, { t }, { expr(t, depth - 1), constantOf(t) });
      default:
      {
        static const Intrinsic::ID ids[] = { Intrinsic::sadd_with_overflow, Intrinsic::uadd_with_overflow,
                                             Intrinsic::ssub_with_overflow, Intrinsic::smul_with_overflow,
                                             Intrinsic::umul_with_overflow, Intrinsic::usub_with_overflow,
                                             Intrinsic::uadd_sat,           Intrinsic::ssub_sat };
        auto id = ids[c.draw(8)];
        auto r = B.CreateBinaryIntrinsic(id, expr(t, depth - 1), expr(t, depth - 1));
        if (r->getType() == t)
          return r;
        auto ov = B.CreateExtractValue(r, { 1 });
        auto val = B.CreateExtractValue(r, { 0 });
        temps.push_back(ov);
        return val;
      }
      }
    }
    switch (c.draw(8))
    {
    case 0:
      return B.CreateUnaryIntrinsic(Intrinsic::fabs, expr(t, depth - 1));
    case 1:
      return B.CreateUnaryIntrinsic(Intrinsic::floor, expr(t, depth - 1));
    case 2:
      return B.CreateUnaryIntrinsic(Intrinsic::ceil, expr(t, depth - 1));
    case 3:
      return B.CreateUnaryIntrinsic(Intrinsic::trunc, expr(t, depth - 1));
    case 4:
      return B.CreateUnaryIntrinsic(Intrinsic::round, expr(t, depth - 1));
    case 5:
      return B.CreateUnaryIntrinsic(Intrinsic::rint, expr(t, depth - 1));
    case 6:
      return B.CreateBinaryIntrinsic(Intrinsic::copysign, expr(t, depth - 1), expr(t, depth - 1));
    default:
      return B.CreateIntrinsic(
          Intrinsic::fmuladd,
          { t },
          { expr(t, depth - 1), expr(t, depth - 1), expr(t, depth - 1) });
    }
  }

  Value *
  vectorExpr(Type * t, int depth)
  {
    // builds a vector, combines it, extracts one lane
    unsigned n = 2 << c.draw(2);
    auto vt = FixedVectorType::get(t, n);
    Value * a = constantOf(vt);
    unsigned ins = 1 + c.draw(n);
    for (unsigned i = 0; i < ins; i++)
      a = B.CreateInsertElement(a, expr(t, depth - 1), k(32, c.draw(n)));
    Value * b = c.draw(2) ? (Value *)constantOf(vt) : a;
    Value * r = a;
    bool fp = t->isFloatingPointTy();
    switch (c.draw(5))
    {
    case 0:
      r = fp ? B.CreateFAdd(a, b) : B.CreateAdd(a, b);
      break;
    case 1:
      r = fp ? B.CreateFMul(a, b) : B.CreateXor(a, b);
      break;
    case 2:
    {
      std::vector<int> mask;
      for (unsigned i = 0; i < n; i++)
        mask.push_back(c.draw(2 * n));
      r = B.CreateShuffleVector(a, b, mask);
      break;
    }
    case 3:
    {
      auto cm = fp ? B.CreateFCmpOLT(a, b) : B.CreateICmpULT(a, b);
      if (c.draw(2))
        r = B.CreateSelect(cm, a, b);
      else
        r = B.CreateSelect(cond(1), a, b);
      break;
    }
    default:
      if (!fp && t->getIntegerBitWidth() < 64)
      {
        auto w = FixedVectorType::get(iN(64), n);
        r = B.CreateTrunc(B.CreateMul(B.CreateSExt(a, w), B.CreateZExt(b, w)), vt);
      }
      else if (fp)
        r = B.CreateFNeg(a);
    }
    return B.CreateExtractElement(r, k(32, c.draw(n)));
  }

  Value *
  expr(Type * t, int depth)
  {
    if (depth <= 0)
      return leaf(t);
    bool fp = t->isFloatingPointTy();
    if (t->isIntegerTy(1) && c.draw(4) != 0)
    {
      switch (c.weighted({ 8, O.fp ? 2u : 0u, O.memory && O.ptrSelect ? 1u : 0u }))
      {
      case 0:
      {
        Type * ot = iN(c.pick(std::vector<unsigned>{ 32, 64, 8, 16 }));
        static const CmpInst::Predicate ps[] = { CmpInst::ICMP_SLT, CmpInst::ICMP_EQ,  CmpInst::ICMP_NE,
                                                 CmpInst::ICMP_ULT, CmpInst::ICMP_SGT, CmpInst::ICMP_UGT,
                                                 CmpInst::ICMP_SLE, CmpInst::ICMP_ULE, CmpInst::ICMP_SGE,
                                                 CmpInst::ICMP_UGE };
        auto p = ps[c.draw(10)];
        return B.CreateICmp(p, expr(ot, depth - 1), expr(ot, depth - 1));
      }
      case 1:
      {
        Type * ot = c.draw(3) ? Type::getDoubleTy(C) : Type::getFloatTy(C);
        auto p = (CmpInst::Predicate)(CmpInst::FCMP_OEQ + c.draw(14));
        return B.CreateFCmp(p, expr(ot, depth - 1), expr(ot, depth - 1));
      }
      default:
      {
        auto p = ptrExpr(P16, 1);
        auto q = c.draw(2) ? (Value *)ConstantPointerNull::get(llvm::cast<PointerType>(ptr())) : ptrExpr(P16, 1);
        return B.CreateICmp(c.draw(2) ? CmpInst::ICMP_EQ : CmpInst::ICMP_NE, p, q);
      }
      }
    }
    switch (c.weighted({ 4,
                         12,
                         3,
                         3,
                         O.memory ? O.memWeight : 0u,
                         O.intrinsics ? 2u : 0u,
                         O.vec && (fp || t->getIntegerBitWidth() % 8 == 0) ? 1u : 0u,
                         O.undefs ? 1u : 0u,
                         O.agg ? 1u : 0u }))
    {
    case 0:
      return leaf(t);
    case 1:
    {
      Value * a = expr(t, depth - 1);
      Value * b = expr(t, depth - 1);
      if (fp)
      {
        switch (c.draw(6))
        {
        case 0:
          return B.CreateFAdd(a, b);
        case 1:
          return B.CreateFSub(a, b);
        case 2:
          return B.CreateFMul(a, b);
        case 3:
          return B.CreateFDiv(a, b);
        case 4:
          return B.CreateFNeg(a);
        default:
          return c.draw(4) == 0 ? B.CreateFRem(a, b) : B.CreateFAdd(a, b);
        }
      }
      unsigned bits = t->getIntegerBitWidth();
      bool flag = O.undefs && c.chance(1, 24);
      switch (c.draw(13))
      {
      case 0:
        return B.CreateAdd(a, b, "", false, flag);
      case 1:
        return B.CreateSub(a, b, "", false, flag);
      case 2:
        return B.CreateMul(a, b, "", false, flag);
      case 3:
        return B.CreateAnd(a, b);
      case 4:
        return B.CreateOr(a, b);
      case 5:
        return B.CreateXor(a, b);
      case 6:
        return B.CreateShl(a, bits == 1 ? k(1, 0) : safeShift(b));
      case 7:
        return B.CreateLShr(a, bits == 1 ? k(1, 0) : safeShift(b));
      case 8:
        return B.CreateAShr(a, bits == 1 ? k(1, 0) : safeShift(b));
      case 9:
        return B.CreateUDiv(a, B.CreateOr(b, k(bits, 1)));
      case 10:
        return B.CreateURem(a, B.CreateOr(b, k(bits, 1)));
      default:
      {
        if (bits < 4)
          return B.CreateXor(a, b);
        auto d = B.CreateOr(B.CreateAnd(b, k(bits, (uint64_t(1) << (bits - 2)) - 1)), k(bits, 1));
        return c.draw(2) ? B.CreateSDiv(a, d) : B.CreateSRem(a, d);
      }
      }
    }
    case 2:
    {
      auto cc = cond(depth - 1);
      auto a = expr(t, depth - 1);
      auto b = expr(t, depth - 1);
      return B.CreateSelect(cc, a, b);
    }
    case 3: // conversions
    {
      if (fp)
      {
        switch (c.draw(4))
        {
        case 0:
          return B.CreateSIToFP(expr(iN(32), depth - 1), t);
        case 1:
          return B.CreateUIToFP(expr(iN(16), depth - 1), t);
        case 2:
          if (t->isDoubleTy())
            return B.CreateFPExt(expr(Type::getFloatTy(C), depth - 1), t);
          return B.CreateFPTrunc(expr(Type::getDoubleTy(C), depth - 1), t);
        default:
          return B.CreateBitCast(expr(iN(t->getPrimitiveSizeInBits()), depth - 1), t);
        }
      }
      unsigned bits = t->getIntegerBitWidth();
      switch (c.draw(O.fp ? 5 : 3))
      {
      case 0:
      case 1:
      case 2:
      {
        unsigned ob = c.pick(std::vector<unsigned>{ 8, 16, 32, 64, 1 });
        if (ob == bits)
          return leaf(t);
        return resize(expr(iN(ob), depth - 1), bits);
      }
      case 3:
        if (bits == 64)
        {
          // NaN payloads are not deterministic: bound the value first
          auto f = B.CreateUIToFP(expr(iN(32), depth - 1), Type::getDoubleTy(C));
          return B.CreateBitCast(f, t);
        }
        [[fallthrough]];
      default:
      {
        if (bits < 32)
          return leaf(t);
        auto f = B.CreateSIToFP(expr(iN(16), depth - 1), Type::getDoubleTy(C));
        return B.CreateFPToSI(f, t);
      }
      }
    }
    case 4:
      return loadExpr(t);
    case 5:
      return intrinsicExpr(t, depth);
    case 6:
      return vectorExpr(t, depth);
    case 7:
      return B.CreateFreeze(expr(t, depth - 1));
    default:
    {
      auto st = StructType::get(C, { iN(32), t, ArrayType::get(iN(16), 2) });
      Value * a = c.draw(2) ? (Value *)constantOf(st) : (Value *)UndefValue::get(st);
      a = B.CreateInsertValue(a, expr(t, depth - 1), { 1 });
      if (c.draw(2))
        a = B.CreateInsertValue(a, expr(iN(16), depth - 1), { 2, (unsigned)c.draw(2) });
      if (c.draw(3) == 0)
      {
        Value * b = B.CreateInsertValue(constantOf(st), expr(t, depth - 1), { 1 });
        a = B.CreateSelect(cond(1), a, b);
      }
      return B.CreateExtractValue(a, { 1 });
    }
    }
  }

  // index in [0, n), n a power of two or three
  Value *
  index(unsigned n)
  {
    if (c.draw(2) == 0)
      return k(c.draw(2) ? 64 : 32, c.draw(n));
    auto v = expr(iN(64), 1);
    if ((n & (n - 1)) == 0)
      return B.CreateAnd(v, k(64, n - 1));
    return B.CreateURem(v, k(64, n));
  }

  Value *
  ptrLeaf(int pk)
  {
    std::vector<std::function<Value *()>> opts;
    for (auto & v : vars)
      if (v.pk == pk)
        opts.push_back(
            [this, s = v.slot]()
            {
              return (Value *)B.CreateLoad(ptr(), s);
            });
    for (auto & [p, kk] : ptrTemps)
      if (kk == pk)
        opts.push_back(
            [p = p]()
            {
              return p;
            });
    for (auto & [g, kk] : globs)
      if (kk == pk)
        opts.push_back(
            [g = g]()
            {
              return (Value *)g;
            });
    if (opts.empty())
      return nullptr;
    return opts[opts.size() - 1 - c.draw(opts.size())]();
  }

  Value *
  ptrExpr(int pk, int depth)
  {
    if (depth > 0)
    {
      switch (c.weighted({ 6,
                           2,
                           O.ptrSelect ? 2u : 0u,
                           O.heap ? 1u : 0u,
                           O.external ? 1u : 0u,
                           O.external && O.ptrSelect ? 1u : 0u }))
      {
      case 1: // derived
        if (pk == P16)
        {
          switch (c.draw(2))
          {
          case 0: // load from a pointer slot
            if (auto pp = ptrLeaf(PP))
            {
              auto a = B.CreateGEP(ptr(), pp, { index(2) });
              return B.CreateLoad(ptr(), a);
            }
            break;
          default: // field 3 of a struct
            if (auto ps = ptrLeaf(PS))
              return B.CreateLoad(ptr(), B.CreateStructGEP(S, ps, 3));
          }
        }
        else if (pk == P4)
        {
          switch (c.draw(3))
          {
          case 0:
            return B.CreateGEP(iN(32), ptrExpr(P16, depth - 1), { index(4) });
          case 1:
            if (auto ps = ptrLeaf(PS))
              return B.CreateGEP(S, ps, { k(32, 0), k(32, 2), index(3) });
            break;
          default:
            if (auto ps = ptrLeaf(PS))
              return B.CreateStructGEP(S, ps, c.draw(2));
          }
        }
        break;
      case 2:
      {
        auto a = ptrExpr(pk, depth - 1);
        auto b = ptrExpr(pk, depth - 1);
        return B.CreateSelect(cond(1), a, b);
      }
      case 3:
        if (pk == P16)
        {
          auto p = B.CreateCall(ext("malloc", ptr(), { iN(64) }), { k(64, 16 + 16 * c.draw(2)) });
          B.CreateMemSet(p, k(8, c.draw(3)), 16, MaybeAlign(1));
          ptrTemps.push_back({ p, P16 });
          return p;
        }
        break;
      case 4:
        if (pk == P16)
        {
          auto p = B.CreateCall(ext(c.draw(2) ? "ext_p_src" : "ext_q_src", ptr(), {}), {});
          ptrTemps.push_back({ p, P16 });
          return p;
        }
        break;
      case 5: // through an integer
      {
        auto p = ptrLeaf(pk);
        if (!p)
          break;
        auto i = B.CreatePtrToInt(p, iN(64));
        return B.CreateIntToPtr(i, ptr());
      }
      }
    }
    if (auto p = ptrLeaf(pk))
      return p;
    // fall back to a fresh local
    return local(pk);
  }

  const DataLayout &
  DL()
  {
    return M->getDataLayout();
  }

  Value *
  allocaAt(Type * t, const Twine & n = "")
  {
    IRBuilder<> E(&cur->f->getEntryBlock(), cur->f->getEntryBlock().begin());
    auto a = E.CreateAlloca(t, nullptr, n);
    if (DL().getTypeAllocSize(t) == 16)
      a->setAlignment(Align(16));
    return a;
  }

  Type *
  pkType(int pk)
  {
    switch (pk)
    {
    case P16:
      switch (c.draw(4))
      {
      case 0:
        return ArrayType::get(iN(32), 4);
      case 1:
        return ArrayType::get(iN(64), 2);
      case 2:
        return ArrayType::get(iN(8), 16);
      default:
        return StructType::get(C, { iN(32), iN(32), iN(64) });
      }
    case P4:
      return iN(32);
    case PS:
      return S;
    case PP:
      return ArrayType::get(ptr(), 2);
    }
    return ptr();
  }

  // a new initialised local object of this kind
  Value *
  local(int pk)
  {
    if (pk == FN)
      return fnPtrTargets.empty() ? nullptr : (Value *)fnPtrTargets[c.draw(fnPtrTargets.size())];
    Type * t = pkType(pk);
    Value * a;
    if (pk == P16 && O.allocaCount && depthSlot && c.chance(1, 10))
    {
      // a number of elements, known or not, where control happens to be
      Value * n = k(32, 4);
      if (c.draw(3))
        n = B.CreateAdd(B.CreateAnd(B.CreateLoad(iN(32), depthSlot), k(32, 3)), n);
      t = ArrayType::get(iN(32), 4);
      auto x = B.CreateAlloca(iN(32), c.draw(2) ? n : B.CreateZExt(n, iN(64)));
      x->setAlignment(Align(16));
      a = x;
    }
    else
      a = allocaAt(t);
    initObj(a, pk, t);
    ptrTemps.push_back({ a, pk });
    return a;
  }

  void
  initObj(Value * a, int pk, Type * t)
  {
    switch (pk)
    {
    case P16:
    {
      if (c.draw(3) == 0)
      {
        B.CreateMemSet(a, k(8, c.draw(4)), 16, MaybeAlign(4));
        return;
      }
      if (auto at = dyn_cast<ArrayType>(t))
      {
        if (at->getNumElements() <= 4)
        {
          for (unsigned i = 0; i < at->getNumElements(); i++)
            B.CreateStore(constantOf(at->getElementType()), B.CreateConstInBoundsGEP2_64(t, a, 0, i));
          return;
        }
        B.CreateMemSet(a, k(8, 1), 16, MaybeAlign(1));
        return;
      }
      for (unsigned i = 0; i < 3; i++)
        B.CreateStore(constantOf(t->getStructElementType(i)), B.CreateStructGEP(t, a, i));
      return;
    }
    case P4:
      B.CreateStore(constantOf(iN(32)), a);
      return;
    case PS:
      B.CreateStore(constantOf(iN(32)), B.CreateStructGEP(S, a, 0));
      B.CreateStore(constantOf(iN(64)), B.CreateStructGEP(S, a, 1));
      for (unsigned i = 0; i < 3; i++)
        B.CreateStore(constantOf(iN(32)), B.CreateGEP(S, a, { k(32, 0), k(32, 2), k(32, i) }));
      B.CreateStore(ptrExpr(P16, 0), B.CreateStructGEP(S, a, 3));
      return;
    case PP:
      B.CreateStore(ptrExpr(P16, 0), a);
      B.CreateStore(ptrExpr(P16, 0), B.CreateGEP(ptr(), a, { k(64, 1) }));
      return;
    }
  }

  // address of a scalar slot together with its type: an access of t within some plain object
  Value *
  slotFor(Type * t)
  {
    if (t->isIntegerTy(32) && c.draw(3) == 0)
      return ptrExpr(P4, 2);
    if (t->isIntegerTy(64) && c.draw(4) == 0)
      if (auto ps = ptrLeaf(PS))
        return B.CreateStructGEP(S, ps, 1);
    unsigned sz = t->getPrimitiveSizeInBits() / 8;
    auto p = ptrExpr(P16, 2);
    if (c.draw(5) == 0) // byte offset
      return B.CreateGEP(iN(8), p, { B.CreateMul(index(16 / sz), k(64, sz)) });
    return B.CreateGEP(t, p, { sz == 16 ? (Value *)k(64, 0) : index(16 / sz) });
  }

  // index() may yield an i32 constant; byte offsets need i64
  Value *
  loadExpr(Type * t)
  {
    if (t->isIntegerTy() && (t->getIntegerBitWidth() % 8 || t->getIntegerBitWidth() == 24))
      return leaf(t);
    if (t->isFloatingPointTy())
    {
      // integers reinterpreted as floats would observe NaN payloads
      auto i = B.CreateLoad(iN(32), slotFor(iN(32)));
      return B.CreateSIToFP(i, t);
    }
    auto l = B.CreateLoad(t, slotFor(t));
    if (O.vol && c.chance(1, 16))
      l->setVolatile(true);
    temps.push_back(l);
    return l;
  }

  Function *
  ext(const std::string & n, Type * rt, std::vector<Type *> ps, bool va = false)
  {
    auto it = exts.find(n);
    if (it != exts.end())
      return it->second;
    auto f = Function::Create(FunctionType::get(rt, ps, va), Function::ExternalLinkage, n, *M);
    exts[n] = f;
    return f;
  }

  struct Scope
  {
    Gen & g;
    size_t t, p, v;
    explicit Scope(Gen & g)
        : g(g),
          t(g.temps.size()),
          p(g.ptrTemps.size()),
          v(g.vars.size())
    {}
    ~Scope()
    {
      g.temps.resize(std::min(t, g.temps.size()));
      g.ptrTemps.resize(std::min(p, g.ptrTemps.size()));
      g.vars.resize(v);
    }
  };

  BasicBlock *
  block(const Twine & n = "")
  {
    return BasicBlock::Create(C, n, cur->f);
  }

  void
  externalStmt()
  {
    switch (c.weighted({ 4, 3, 2, 2, O.fnptr ? 2u : 0u, O.calls ? 2u : 0u, O.exits ? 1u : 0u, 1, 1 }))
    {
    case 0:
    {
      auto f = ext("ext_o_i64", iN(64), { iN(64), iN(32) });
      temps.push_back(B.CreateCall(f, { expr(iN(64), 2), expr(iN(32), 1) }));
      break;
    }
    case 1:
      if (O.memory)
      {
        auto f = ext("ext_wg_ptr", iN(32), { ptr() });
        temps.push_back(B.CreateCall(f, { ptrExpr(c.draw(2) ? P4 : P16, 2) }));
      }
      break;
    case 2:
      if (O.memory)
      {
        auto f = ext("ext_s_ptr", Type::getVoidTy(C), { ptr() });
        B.CreateCall(f, { ptrExpr(c.pick(std::vector<int>{ P16, P16, P4, PS, PP }), 1) });
      }
      break;
    case 3:
    {
      auto f = ext("ext_ug_any", iN(32), { iN(32) });
      temps.push_back(B.CreateCall(f, { expr(iN(32), 1) }));
      break;
    }
    case 4:
      if (!fnPtrTargets.empty())
      {
        auto f = ext("ext_c_fn", iN(64), { ptr(), iN(32) });
        temps.push_back(B.CreateCall(f, { fnPtrTargets[c.draw(fnPtrTargets.size())], expr(iN(32), 1) }));
      }
      break;
    case 5:
    {
      auto f = ext("ext_eg_any", iN(32), {});
      temps.push_back(B.CreateCall(f, {}));
      break;
    }
    case 6:
    {
      auto f = ext("ext_x_exit", Type::getVoidTy(C), { iN(32) });
      B.CreateCall(f, { expr(iN(32), 1) });
      break;
    }
    case 7:
    {
      auto f = ext("ext_o_va", iN(32), { iN(32) }, true);
      std::vector<Value *> as{ expr(iN(32), 1) };
      unsigned n = c.draw(4);
      for (unsigned i = 0; i < n; i++)
        as.push_back(
            c.draw(3) ? expr(c.draw(2) ? iN(32) : iN(64), 1)
            : O.fp    ? B.CreateSIToFP(expr(iN(16), 1), Type::getDoubleTy(C))
                      : expr(iN(64), 1));
      temps.push_back(B.CreateCall(f, as));
      break;
    }
    default:
      if (O.memory)
      {
        auto f = ext("ext_w_two", iN(32), { ptr(), ptr() });
        temps.push_back(B.CreateCall(f, { ptrExpr(P16, 2), ptrExpr(c.draw(2) ? PS : P16, 1) }));
      }
    }
  }

  // ---- functions with variadic arguments

  struct Variadic
  {
    Function * f;
    bool pointers; // takes pointers and returns one of them
  };
  std::vector<Variadic> variadics;

  // f(n, ...), returning something that depends on its variadic arguments
  void
  makeVariadics()
  {
    unsigned n = 1 + c.draw(3);
    auto voidTy = Type::getVoidTy(C);
    auto start = Function::Create(FunctionType::get(voidTy, { ptr() }, false), Function::ExternalLinkage, "llvm.va_start", *M);
    auto end = Function::Create(FunctionType::get(voidTy, { ptr() }, false), Function::ExternalLinkage, "llvm.va_end", *M);
    for (unsigned i = 0; i < n; i++)
    {
      bool pointers = c.draw(3) == 0;
      auto f = Function::Create(
          FunctionType::get(pointers ? (Type *)ptr() : iN(64), { iN(32) }, true),
          c.draw(4) ? Function::InternalLinkage : Function::ExternalLinkage,
          (pointers ? "vptr" : "vint") + std::to_string(i),
          *M);
      auto bb = BasicBlock::Create(C, "entry", f);
      B.SetInsertPoint(bb);
      auto list = B.CreateAlloca(ArrayType::get(iN(8), 24));
      list->setAlignment(Align(16));
      unsigned shape = c.draw(3);
      BasicBlock *t = nullptr, *j = nullptr;
      if (shape == 1 && !pointers)
      {
        // only sometimes
        t = BasicBlock::Create(C, "t", f);
        j = BasicBlock::Create(C, "j", f);
        B.CreateCondBr(B.CreateICmpSGT(f->getArg(0), k(32, 1)), t, j);
        B.SetInsertPoint(t);
      }
      B.CreateCall(start->getFunctionType(), start, { list });
      Value * r;
      if (pointers)
        r = B.CreateLoad(ptr(), list);
      else
      {
        r = B.CreateLoad(iN(64), list);
        r = B.CreateAdd(B.CreateMul(r, k(64, 7)), B.CreateLoad(iN(64), B.CreateConstGEP1_64(iN(8), list, c.draw(2) ? 8 : 16)));
        if (shape == 2)
          r = B.CreateXor(r, B.CreateSExt(f->getArg(0), iN(64)));
        // a variadic function that calls another
        for (auto & v : variadics)
          if (!v.pointers && c.draw(2))
          {
            r = B.CreateAdd(r, B.CreateCall(v.f, { B.CreateAdd(f->getArg(0), k(32, 1)), r }));
            break;
          }
      }
      if (c.draw(2))
        B.CreateCall(end->getFunctionType(), end, { list });
      if (t)
      {
        B.CreateBr(j);
        auto tb = B.GetInsertBlock();
        B.SetInsertPoint(j);
        auto phi = B.CreatePHI(iN(64), 2);
        phi->addIncoming(r, tb);
        phi->addIncoming(k(64, 3), bb);
        r = phi;
      }
      B.CreateRet(r);
      variadics.push_back({ f, pointers });
    }
  }

  void
  variadicCall()
  {
    auto & v = variadics[c.draw(variadics.size())];
    std::vector<Value *> as{ c.draw(2) ? (Value *)k(32, c.draw(4)) : expr(iN(32), 1) };
    unsigned n = (v.pointers ? 1 : 0) + c.draw(4);
    for (unsigned i = 0; i < n; i++)
      as.push_back(
          v.pointers && i == 0 ? ptrExpr(P16, 1)
          : c.draw(4) == 0 && O.fp && i > 0 ? B.CreateSIToFP(expr(iN(16), 1), Type::getDoubleTy(C))
                                            : expr(c.draw(3) ? iN(64) : iN(32), 1));
    auto r = B.CreateCall(v.f, as);
    if (v.pointers)
      ptrTemps.push_back({ r, P16 });
    else
      temps.push_back(r);
  }

  void
  callStmt()
  {
    if (!variadics.empty() && c.draw(6) == 0)
      return variadicCall();
    if (fns.empty())
      return;
    auto & t = fns[c.draw(fns.size())];
    auto d = B.CreateLoad(iN(32), depthSlot);
    auto go = block("call"), join = block("join");
    B.CreateCondBr(B.CreateICmpSGT(d, k(32, 0)), go, join);
    B.SetInsertPoint(go);
    Value * r;
    {
      Scope s(*this);
      std::vector<Value *> as{ B.CreateSub(d, k(32, 1)) };
      for (size_t i = 1; i < t.pk.size(); i++)
      {
        auto ty = t.f->getFunctionType()->getParamType(i);
        as.push_back(t.pk[i] >= 0 ? ptrExpr(t.pk[i], 2) : expr(ty, 2));
      }
      r = B.CreateCall(t.f, as);
      if (!r->getType()->isVoidTy() && t.retPk < 0)
        if (auto v = var(r->getType(), true))
          B.CreateStore(r, v->slot);
      if (t.retPk >= 0)
        for (auto & v : vars)
          if (v.pk == t.retPk)
          {
            B.CreateStore(r, v.slot);
            break;
          }
    }
    B.CreateBr(join);
    B.SetInsertPoint(join);
  }

  // a byte address inside [p, p + 16) that leaves room for size bytes
  Value *
  byteAddr(Value * p, unsigned size)
  {
    if (c.draw(3) == 0)
      return p;
    if (c.draw(4) == 0) // variable index
    {
      unsigned step = size >= 16 ? 16 : size > 8 ? 1 : size == 3 ? 4 : size;
      return B.CreateGEP(iN(8), p, { B.CreateMul(index(size > 8 ? 1 : 16 / (step < 4 && size == 3 ? 4 : step)), k(64, step)) });
    }
    unsigned off = c.draw(17 - size);
    if (c.draw(3))
      off -= off % (size == 3 ? 4 : size);
    return B.CreateConstGEP1_64(iN(8), p, off);
  }

  // several overlapping accesses of different widths to one or two objects, possibly inside branches and loops
  void
  clusterOps(const std::vector<Value *> & ps, Value * acc, unsigned n, unsigned depth)
  {
    auto widths = std::vector<unsigned>{ 32, 64, 8, 16, 24, 40 };
    for (unsigned i = 0; i < n; i++)
    {
      Value * p = ps[c.draw(ps.size())];
      bool nest = depth > 0 && !simpleOnly;
      switch (c.weighted({ 6, 6, 2, 2, O.external ? 1u : 0u, nest ? 2u : 0u, nest && loopDepth < 2 ? 3u : 0u, O.calls && nest ? 1u : 0u }))
      {
      case 0:
      {
        Type * t = iN(c.pick(widths));
        unsigned sz = (t->getIntegerBitWidth() + 7) / 8;
        auto s = B.CreateAlignedStore(c.draw(2) ? constantOf(t) : expr(t, 1), byteAddr(p, sz), Align(1));
        if (O.vol && c.chance(1, 24))
          s->setVolatile(true);
        break;
      }
      case 1:
      {
        Type * t = iN(c.pick(widths));
        unsigned sz = (t->getIntegerBitWidth() + 7) / 8;
        auto l = B.CreateAlignedLoad(t, byteAddr(p, sz), Align(1));
        if (O.vol && c.chance(1, 24))
          l->setVolatile(true);
        auto a = B.CreateMul(B.CreateLoad(iN(64), acc), k(64, 5));
        B.CreateStore(B.CreateAdd(a, B.CreateZExt(l, iN(64))), acc);
        break;
      }
      case 2:
      {
        unsigned len = 1 + c.draw(8);
        B.CreateMemSet(byteAddr(p, len), c.draw(2) ? (Value *)k(8, c.draw(256)) : expr(iN(8), 1), k(64, len), MaybeAlign(1));
        break;
      }
      case 3:
      {
        unsigned len = 1 + c.draw(8);
        Value * q = ps[c.draw(ps.size())];
        auto a = byteAddr(p, len);
        auto b = byteAddr(q, len);
        B.CreateMemMove(a, MaybeAlign(1), b, MaybeAlign(1), k(64, len));
        break;
      }
      case 4:
        B.CreateCall(ext("ext_wg_ptr", iN(32), { ptr() }), { p });
        break;
      case 5:
      {
        auto cc = cond(1);
        auto t = block("cthen"), e = block("celse"), j = block("cfi");
        B.CreateCondBr(cc, t, e);
        for (auto b : { t, e })
        {
          B.SetInsertPoint(b);
          Scope s(*this);
          clusterOps(ps, acc, c.draw(3), depth - 1);
          B.CreateBr(j);
        }
        B.SetInsertPoint(j);
        break;
      }
      case 6:
      {
        loopDepth++;
        Value * iv = allocaAt(iN(64), "ci");
        B.CreateStore(k(64, 0), iv);
        auto b = block("cloop"), x = block("cdone");
        B.CreateBr(b);
        B.SetInsertPoint(b);
        {
          Scope s(*this);
          vars.push_back({ iv, iN(64), -1, true });
          clusterOps(ps, acc, 1 + c.draw(4), depth - 1);
        }
        auto nv = B.CreateAdd(B.CreateLoad(iN(64), iv), k(64, 1));
        B.CreateStore(nv, iv);
        B.CreateCondBr(B.CreateICmpULT(nv, k(64, 1 + c.draw(4))), b, x);
        B.SetInsertPoint(x);
        loopDepth--;
        break;
      }
      default:
        callStmt();
      }
    }
  }

  void
  clusterStmt()
  {
    std::vector<Value *> ps{ ptrExpr(P16, 1) };
    if (c.draw(2))
      ps.push_back(ptrExpr(P16, 1));
    Value * acc = allocaAt(iN(64), "acc");
    B.CreateStore(k(64, 0), acc);
    {
      Scope s(*this);
      clusterOps(ps, acc, 2 + c.draw(4), 2);
    }
    auto v = var(iN(64), true);
    if (v && c.draw(2))
      B.CreateStore(B.CreateLoad(iN(64), acc), v->slot);
    else
      B.CreateCall(ext("ext_o_i64", iN(64), { iN(64), iN(32) }), { B.CreateLoad(iN(64), acc), k(32, 7) });
  }

  // ---- local structs of two words without padding, seen through more than one struct type
  struct Field
  {
    Type * type;
    std::vector<Value *> path; // starts with the leading zero
  };

  StructType *
  plainStruct(std::vector<Field> & fields)
  {
    std::vector<Type *> es;
    auto add = [&](Type * t, std::vector<unsigned> path)
    {
      Field f{ t, { k(c.draw(2) ? 32 : 64, 0) } };
      for (auto i : path)
        f.path.push_back(k(32, i));
      fields.push_back(f);
    };
    for (unsigned w = 0; w < 2; w++)
      switch (unsigned n = es.size(); c.draw(5))
      {
      case 0:
        es.push_back(iN(64));
        add(iN(64), { n });
        break;
      case 1:
        for (unsigned i = 0; i < 2; i++)
          es.push_back(iN(32)), add(iN(32), { n + i });
        break;
      case 2:
        es.push_back(iN(32)), es.push_back(iN(16)), es.push_back(iN(16));
        add(iN(32), { n }), add(iN(16), { n + 1 }), add(iN(16), { n + 2 });
        break;
      case 3:
        es.push_back(StructType::get(C, { iN(32), iN(32) }));
        add(iN(32), { n, 0 }), add(iN(32), { n, 1 });
        break;
      default:
        es.push_back(StructType::get(C, { StructType::get(C, { iN(16), iN(16) }), iN(32) }));
        add(iN(16), { n, 0, 0 }), add(iN(16), { n, 0, 1 }), add(iN(32), { n, 1 });
      }
    return StructType::get(C, es);
  }

  void
  structStmt()
  {
    std::vector<Field> fa, fb;
    auto ta = plainStruct(fa);
    auto tb = ta;
    if (c.draw(3) == 0)
      tb = plainStruct(fb);
    else
      fb = fa;
    auto make = [&]() -> Value *
    {
      Value * n = nullptr;
      if (O.allocaCount && c.draw(6) == 0)
      {
        n = k(32, 1 + c.draw(3));
        if (depthSlot && c.draw(2))
          n = B.CreateAdd(B.CreateAnd(B.CreateLoad(iN(32), depthSlot), k(32, 1)), n);
      }
      if (!n && c.draw(2))
        return allocaAt(ta);
      auto a = B.CreateAlloca(ta, n);
      a->setAlignment(Align(16));
      return a;
    };
    std::vector<Value *> as{ make() };
    if (c.draw(2))
      as.push_back(make());
    for (auto a : as)
    {
      if (c.draw(5) == 0)
        B.CreateMemSet(a, k(8, c.draw(4)), 16, MaybeAlign(8));
      else
        for (auto & f : fa)
          B.CreateStore(c.draw(2) ? (Value *)constantOf(f.type) : expr(f.type, 1), B.CreateGEP(ta, a, f.path));
    }
    auto address = [&](Type *& t) -> Value *
    {
      bool other = tb != ta && c.draw(3) == 0;
      auto & f = c.pick(other ? fb : fa);
      t = f.type;
      auto a = as[c.draw(as.size())];
      if (as.size() > 1 && c.draw(5) == 0)
        a = B.CreateSelect(cond(1), as[0], as[1]);
      if (c.draw(12) == 0)
        return B.CreateGEP(iN(8), a, { k(64, (16 / (t->getIntegerBitWidth() / 8) - 1) * (t->getIntegerBitWidth() / 8)) });
      return B.CreateGEP(other ? tb : ta, a, f.path);
    };
    auto ops = [&](unsigned n)
    {
      for (unsigned i = 0; i < n; i++)
      {
        Type * t = nullptr;
        auto p = address(t);
        switch (c.draw(6))
        {
        case 0:
        case 1:
          B.CreateStore(expr(t, 1), p);
          break;
        case 2:
          if (c.draw(3) == 0)
          {
            B.CreateMemCpy(as[0], MaybeAlign(8), as.back(), MaybeAlign(8), as.size() > 1 ? 16 : 0);
            break;
          }
          [[fallthrough]];
        default:
        {
          auto l = B.CreateLoad(t, p);
          if (O.vol && c.chance(1, 16))
            l->setVolatile(true);
          temps.push_back(l);
          if (auto v = var(t, true); v && c.draw(2))
            B.CreateStore(l, v->slot);
        }
        }
      }
    };
    ops(1 + c.draw(4));
    switch (c.draw(3))
    {
    case 0: // in a branch
    {
      auto t = block("sthen"), j = block("sfi");
      B.CreateCondBr(cond(1), t, j);
      B.SetInsertPoint(t);
      {
        Scope s(*this);
        ops(1 + c.draw(3));
      }
      B.CreateBr(j);
      B.SetInsertPoint(j);
      break;
    }
    case 1: // in a loop
    {
      auto i = allocaAt(iN(32));
      B.CreateStore(k(32, 0), i);
      auto l = block("sloop"), e = block("sexit");
      B.CreateBr(l);
      B.SetInsertPoint(l);
      {
        Scope s(*this);
        ops(1 + c.draw(3));
      }
      auto n = B.CreateAdd(B.CreateLoad(iN(32), i), k(32, 1));
      B.CreateStore(n, i);
      B.CreateCondBr(B.CreateICmpULT(n, k(32, 1 + c.draw(3))), l, e);
      B.SetInsertPoint(e);
      break;
    }
    default:
      break;
    }
    // everything is observed in the end
    Value * acc = k(64, 0);
    for (auto & f : fa)
      acc = B.CreateAdd(B.CreateMul(acc, k(64, 31)), B.CreateZExt(B.CreateLoad(f.type, B.CreateGEP(ta, as[c.draw(as.size())], f.path)), iN(64)));
    temps.push_back(acc);
    if (auto v = var(iN(64), true))
      B.CreateStore(acc, v->slot);
  }

  void
  simpleStmt()
  {
    switch (c.weighted({ 6,
                         O.memory ? O.memWeight : 0u,
                         O.memory ? 2u : 0u,
                         O.external ? O.callWeight : 0u,
                         O.calls && !simpleOnly ? O.callWeight : 0u,
                         O.memory ? 1u : 0u,
                         O.fnptr && !simpleOnly ? 1u : 0u,
                         O.memory ? 1u : 0u,
                         O.memory && O.external ? O.memWeight / 3 : 0u,
                         O.memory && O.ptrSelect ? O.ptrPlay : 0u,
                         O.memory ? O.structPlay : 0u }))
    {
    case 10:
      structStmt();
      return;
    case 0:
    {
      Type * t = scalarType();
      auto v = var(t, true);
      if (!v)
      {
        temps.push_back(expr(t, 2));
        return;
      }
      auto e = expr(t, 3);
      B.CreateStore(e, v->slot);
      return;
    }
    case 1:
    {
      Type * t = iN(c.pick(std::vector<unsigned>{ 32, 64, 8, 16 }));
      auto e = expr(t, 2);
      auto s = B.CreateStore(e, slotFor(t));
      if (O.vol && c.chance(1, 16))
        s->setVolatile(true);
      return;
    }
    case 2: // pointers
    {
      switch (c.draw(4))
      {
      case 0:
      case 1:
      {
        std::vector<Var *> pv;
        for (auto & v : vars)
          if (v.pk >= 0 && !v.ro)
            pv.push_back(&v);
        if (pv.empty())
          return;
        auto v = *pv[c.draw(pv.size())];
        auto p = ptrExpr(v.pk, 2);
        if (p)
          B.CreateStore(p, v.slot);
        return;
      }
      case 2:
        storePtr();
        return;
      default:
        local(c.draw(4));
        return;
      }
    }
    case 3:
      externalStmt();
      return;
    case 4:
      callStmt();
      return;
    case 5:
    {
      auto a = ptrExpr(P16, 1), b = ptrExpr(P16, 1);
      switch (c.draw(3))
      {
      case 0:
        B.CreateMemMove(a, MaybeAlign(1), b, MaybeAlign(1), k(64, 4 * (1 + c.draw(4))));
        return;
      case 1:
        B.CreateMemSet(
            a,
            c.draw(2) ? (Value *)k(8, c.draw(256)) : expr(iN(8), 1),
            k(64, 4 * (1 + c.draw(4))),
            MaybeAlign(1));
        return;
      default:
      {
        auto l = local(P16);
        B.CreateMemCpy(l, MaybeAlign(1), a == l ? b : a, MaybeAlign(1), k(64, 4 * (1 + c.draw(4))), c.chance(1, 12) && O.vol);
        return;
      }
      }
    }
    case 6: // indirect call
    {
      if (fnPtrTargets.empty())
        return;
      Value * f = nullptr;
      if (fnTable && c.draw(2))
        f = B.CreateLoad(ptr(), B.CreateGEP(ptr(), fnTable, { index(2) }));
      else
        f = ptrLeaf(FN);
      if (!f)
        f = fnPtrTargets[c.draw(fnPtrTargets.size())];
      auto d = B.CreateLoad(iN(32), depthSlot);
      auto go = block("icall"), join = block("join");
      B.CreateCondBr(B.CreateICmpSGT(d, k(32, 1)), go, join);
      B.SetInsertPoint(go);
      {
        Scope s(*this);
        auto r = B.CreateCall(FunctionType::get(iN(64), { iN(64) }, false), f, { expr(iN(64), 1) });
        if (auto v = var(iN(64), true))
          B.CreateStore(r, v->slot);
      }
      B.CreateBr(join);
      B.SetInsertPoint(join);
      return;
    }
    case 8:
      clusterStmt();
      return;
    case 9:
      playStmt();
      return;
    default: // malloc/use/free
      if (O.heap)
      {
        auto p = B.CreateCall(ext("malloc", ptr(), { iN(64) }), { k(64, 16) });
        B.CreateStore(expr(iN(64), 1), p);
        B.CreateStore(expr(iN(64), 1), B.CreateGEP(iN(64), p, { k(64, 1) }));
        if (c.draw(2))
        {
          auto l = B.CreateLoad(iN(32), B.CreateGEP(iN(32), p, { index(4) }));
          temps.push_back(l);
          B.CreateCall(ext("free", Type::getVoidTy(C), { ptr() }), { p });
        }
        else
          ptrTemps.push_back({ p, P16 });
      }
    }
  }

  void
  storePtr()
  {
    // a pointer into memory. Locals must not outlive their frame through globals, so slots reachable from
    // elsewhere only receive globals or heap objects; local slots receive anything.
    std::vector<Value *> localSlots;
    auto snapshot = ptrTemps;
    for (auto & [p, kk] : snapshot)
      if (isa<AllocaInst>(p))
      {
        if (kk == PP)
          localSlots.push_back(B.CreateGEP(ptr(), p, { index(2) }));
        else if (kk == PS)
          localSlots.push_back(B.CreateStructGEP(S, p, 3));
      }
    if (!localSlots.empty() && c.draw(3))
    {
      B.CreateStore(ptrExpr(P16, 2), localSlots[c.draw(localSlots.size())]);
      return;
    }
    Value * dst = nullptr;
    if (auto pp = ptrLeaf(PP))
      dst = B.CreateGEP(ptr(), pp, { index(2) });
    else if (auto ps = ptrLeaf(PS))
      dst = B.CreateStructGEP(S, ps, 3);
    if (!dst)
      return;
    std::vector<Value *> safe;
    for (auto & [g, kk] : globs)
      if (kk == P16 && !g->isConstant())
        safe.push_back(g);
    if (safe.empty())
      return;
    B.CreateStore(safe[c.draw(safe.size())], dst);
  }

  // ---- pointers that travel: through memory, aggregates, vectors, integers, helper functions and loops

  struct Helpers
  {
    Function *mk = nullptr, *sel = nullptr, *put = nullptr, *get = nullptr, *swap = nullptr, *pass = nullptr,
             *pass2 = nullptr, *walk = nullptr, *first = nullptr;
  } H;
  StructType * PI = nullptr; // { ptr, i64 }

  Function *
  helper(const char * n, Type * rt, std::vector<Type *> ps)
  {
    auto f = Function::Create(
        FunctionType::get(rt, ps, false),
        c.draw(3) ? Function::InternalLinkage : Function::ExternalLinkage,
        n,
        *M);
    B.SetInsertPoint(BasicBlock::Create(C, "entry", f));
    return f;
  }

  void
  makeHelpers()
  {
    auto i64 = iN(64);
    PI = StructType::get(C, { ptr(), i64 });
    H.mk = helper("hmk", PI, { ptr(), i64 });
    {
      Value * a = B.CreateInsertValue(PoisonValue::get(PI), H.mk->getArg(0), { 0 });
      B.CreateRet(B.CreateInsertValue(a, H.mk->getArg(1), { 1 }));
    }
    H.first = helper("hfirst", ptr(), { PI });
    B.CreateRet(B.CreateExtractValue(H.first->getArg(0), { 0 }));
    H.sel = helper("hsel", ptr(), { ptr(), ptr(), i64 });
    {
      auto f = H.sel;
      auto t = BasicBlock::Create(C, "t", f), e = BasicBlock::Create(C, "e", f);
      B.CreateCondBr(B.CreateTrunc(f->getArg(2), iN(1)), t, e);
      B.SetInsertPoint(t);
      B.CreateRet(f->getArg(0));
      B.SetInsertPoint(e);
      B.CreateRet(f->getArg(1));
    }
    H.put = helper("hput", Type::getVoidTy(C), { ptr(), ptr() });
    B.CreateStore(H.put->getArg(1), H.put->getArg(0));
    B.CreateRetVoid();
    H.get = helper("hget", ptr(), { ptr() });
    B.CreateRet(B.CreateLoad(ptr(), H.get->getArg(0)));
    H.swap = helper("hswap", Type::getVoidTy(C), { ptr(), ptr() });
    {
      auto a = B.CreateLoad(ptr(), H.swap->getArg(0));
      auto b = B.CreateLoad(ptr(), H.swap->getArg(1));
      B.CreateStore(a, H.swap->getArg(1));
      B.CreateStore(b, H.swap->getArg(0));
      B.CreateRetVoid();
    }
    H.pass = helper("hpass", ptr(), { ptr() });
    B.CreateRet(H.pass->getArg(0));
    H.pass2 = helper("hpass2", ptr(), { ptr() });
    {
      // through a slot of its own
      auto a = B.CreateAlloca(ptr());
      B.CreateStore(H.pass2->getArg(0), a);
      B.CreateRet(B.CreateLoad(ptr(), a));
    }
    H.walk = helper("hwalk", ptr(), { ptr(), i64 });
    {
      // recursion over a circular list
      auto f = H.walk;
      auto t = BasicBlock::Create(C, "t", f), e = BasicBlock::Create(C, "e", f);
      B.CreateCondBr(B.CreateICmpEQ(f->getArg(1), k(64, 0)), t, e);
      B.SetInsertPoint(t);
      B.CreateRet(f->getArg(0));
      B.SetInsertPoint(e);
      auto n = B.CreateLoad(ptr(), f->getArg(0));
      B.CreateRet(B.CreateCall(f, { n, B.CreateSub(f->getArg(1), k(64, 1)) }));
    }
  }

  struct Play
  {
    std::vector<Value *> vals;   // pointers to at least 16 bytes of plain data
    std::vector<Value *> tables; // four pointer slots each, local
    std::vector<Value *> aggs;   // { ptr, i64 }
    std::vector<Value *> vecs;   // <2 x ptr>
    std::vector<Value *> nodes;  // circular list nodes { ptr, i64 }
  };

  void
  playOps(Play & P, unsigned n, unsigned depth)
  {
    auto val = [&]()
    {
      return P.vals[P.vals.size() - 1 - c.draw(P.vals.size())];
    };
    auto slot = [&]()
    {
      auto t = P.tables[c.draw(P.tables.size())];
      return B.CreateGEP(ptr(), t, { index(4) });
    };
    auto vecTy = FixedVectorType::get(ptr(), 2);
    auto agg = [&]() -> Value *
    {
      if (P.aggs.empty())
        P.aggs.push_back(B.CreateInsertValue(ConstantAggregateZero::get(PI), val(), { 0 }));
      return P.aggs[c.draw(P.aggs.size())];
    };
    auto vec = [&]() -> Value *
    {
      if (P.vecs.empty())
      {
        auto a = B.CreateInsertElement(PoisonValue::get(vecTy), val(), k(32, 0));
        P.vecs.push_back(B.CreateInsertElement(a, val(), k(32, 1)));
      }
      return P.vecs[c.draw(P.vecs.size())];
    };
    for (unsigned i = 0; i < n; i++)
    {
      bool nest = depth > 0 && !simpleOnly;
      switch (c.weighted({ 5,
                           4,
                           3,
                           3,
                           2,
                           2,
                           O.agg ? 4u : 0u,
                           O.vec ? 3u : 0u,
                           2,
                           H.mk ? 5u : 0u,
                           O.external ? 2u : 0u,
                           nest ? 2u : 0u,
                           nest && loopDepth < 2 ? 2u : 0u,
                           O.heap ? 1u : 0u,
                           2 }))
      {
      case 0: // load a pointer
        P.vals.push_back(B.CreateLoad(ptr(), slot()));
        break;
      case 1: // store a pointer
      {
        auto v = val();
        B.CreateStore(v, slot());
        break;
      }
      case 2: // use it
      {
        auto v = val();
        if (c.draw(2))
          B.CreateStore(expr(iN(32), 1), B.CreateGEP(iN(32), v, { index(4) }));
        else
          temps.push_back(B.CreateLoad(iN(32), B.CreateGEP(iN(32), v, { index(4) })));
        break;
      }
      case 3: // copy part of a table
      {
        auto a = P.tables[c.draw(P.tables.size())], b = P.tables[c.draw(P.tables.size())];
        unsigned len = 1 + c.draw(4);
        auto pa = B.CreateConstGEP1_64(ptr(), a, c.draw(5 - len));
        auto pb = B.CreateConstGEP1_64(ptr(), b, c.draw(5 - len));
        if (a != b && c.draw(2))
          B.CreateMemCpy(pa, MaybeAlign(8), pb, MaybeAlign(8), k(64, 8 * len));
        else
          B.CreateMemMove(pa, MaybeAlign(8), pb, MaybeAlign(8), k(64, 8 * len));
        break;
      }
      case 4: // a pointer written as an integer
      {
        auto v = B.CreatePtrToInt(val(), iN(64));
        if (c.draw(3))
          B.CreateStore(v, slot());
        else
        {
          auto q = slot();
          B.CreateStore(B.CreateTrunc(v, iN(32)), q);
          B.CreateStore(B.CreateTrunc(B.CreateLShr(v, k(64, 32)), iN(32)), B.CreateConstGEP1_64(iN(32), q, 1));
        }
        break;
      }
      case 5: // a pointer read as an integer
      {
        auto q = slot();
        auto v = B.CreateLoad(iN(64), q);
        if (c.draw(2))
          P.vals.push_back(B.CreateIntToPtr(v, ptr()));
        else
          B.CreateStore(v, slot());
        break;
      }
      case 6: // aggregates
        switch (c.draw(7))
        {
        case 0:
        {
          auto v = val();
          P.aggs.push_back(B.CreateInsertValue(agg(), v, { 0 }));
          break;
        }
        case 1:
          P.aggs.push_back(B.CreateInsertValue(agg(), expr(iN(64), 1), { 1 }));
          break;
        case 2:
        {
          auto a = agg(), b = agg();
          P.aggs.push_back(B.CreateSelect(cond(1), a, b));
          break;
        }
        case 3: // in memory: a table holds two
        {
          auto t = P.tables[c.draw(P.tables.size())];
          auto a = agg();
          auto q = B.CreateConstGEP1_64(PI, t, c.draw(2));
          // the integer half must not turn a slot into a bad pointer
          auto b = B.CreateInsertValue(a, B.CreatePtrToInt(val(), iN(64)), { 1 });
          B.CreateStore(b, q);
          break;
        }
        case 4:
        {
          auto t = P.tables[c.draw(P.tables.size())];
          P.aggs.push_back(B.CreateLoad(PI, B.CreateConstGEP1_64(PI, t, c.draw(2))));
          break;
        }
        default:
          P.vals.push_back(B.CreateExtractValue(agg(), { 0 }));
        }
        break;
      case 7: // vectors
        switch (c.draw(7))
        {
        case 0:
        {
          auto v = val();
          P.vecs.push_back(B.CreateInsertElement(vec(), v, k(32, c.draw(2))));
          break;
        }
        case 1:
        {
          auto a = vec(), b = vec();
          P.vecs.push_back(B.CreateShuffleVector(a, b, std::vector<int>{ (int)c.draw(4), (int)c.draw(4) }));
          break;
        }
        case 2:
        {
          auto a = vec(), b = vec();
          Value * cc = c.draw(2) ? cond(1)
                                 : B.CreateInsertElement(
                                     B.CreateInsertElement(PoisonValue::get(FixedVectorType::get(iN(1), 2)), cond(1), k(32, 0)),
                                     cond(1),
                                     k(32, 1));
          P.vecs.push_back(B.CreateSelect(cc, a, b));
          break;
        }
        case 3:
        {
          auto t = P.tables[c.draw(P.tables.size())];
          auto v = vec();
          B.CreateAlignedStore(v, B.CreateConstGEP1_64(ptr(), t, c.draw(3)), Align(8));
          break;
        }
        case 4:
        {
          auto t = P.tables[c.draw(P.tables.size())];
          P.vecs.push_back(B.CreateAlignedLoad(vecTy, B.CreateConstGEP1_64(ptr(), t, c.draw(3)), Align(8)));
          break;
        }
        case 5:
          if (O.ptrSelect)
          {
            auto iv = B.CreatePtrToInt(vec(), FixedVectorType::get(iN(64), 2));
            P.vecs.push_back(B.CreateIntToPtr(iv, vecTy));
            break;
          }
          [[fallthrough]];
        default:
          P.vals.push_back(B.CreateExtractElement(vec(), index(2)));
        }
        break;
      case 8: // list nodes
        if (P.nodes.empty())
        {
          unsigned nn = 1 + c.draw(3);
          auto nt = StructType::get(C, { ptr(), ptr() });
          for (unsigned j = 0; j < nn; j++)
          {
            Value * a = O.heap && c.draw(3) == 0
                          ? (Value *)B.CreateCall(ext("malloc", ptr(), { iN(64) }), { k(64, 16) })
                          : allocaAt(nt);
            P.nodes.push_back(a);
          }
          for (unsigned j = 0; j < nn; j++)
          {
            B.CreateStore(P.nodes[(j + 1) % nn], P.nodes[j]);
            auto v = val();
            B.CreateStore(v, B.CreateConstGEP1_64(ptr(), P.nodes[j], 1));
          }
        }
        else
        {
          Value * p = P.nodes[c.draw(P.nodes.size())];
          switch (c.draw(H.walk ? 4 : 3))
          {
          case 0:
            p = B.CreateLoad(ptr(), p);
            break;
          case 1: // a loop
            if (nest)
            {
              auto h = B.GetInsertBlock();
              auto b = block("walk"), x = block("walked");
              auto cnt = B.CreateAnd(expr(iN(64), 1), k(64, 3));
              h = B.GetInsertBlock();
              B.CreateBr(b);
              B.SetInsertPoint(b);
              auto i = B.CreatePHI(iN(64), 2);
              auto q = B.CreatePHI(ptr(), 2);
              i->addIncoming(k(64, 0), h);
              q->addIncoming(p, h);
              auto q2 = B.CreateLoad(ptr(), q);
              auto i2 = B.CreateAdd(i, k(64, 1));
              i->addIncoming(i2, b);
              q->addIncoming(q2, b);
              B.CreateCondBr(B.CreateICmpULT(i2, cnt), b, x);
              B.SetInsertPoint(x);
              p = c.draw(2) ? q2 : (Value *)q;
            }
            break;
          case 2:
          {
            auto v = val();
            B.CreateStore(v, B.CreateConstGEP1_64(ptr(), p, 1));
            break;
          }
          default:
            p = B.CreateCall(H.walk, { p, B.CreateAnd(expr(iN(64), 1), k(64, 3)) });
          }
          P.vals.push_back(B.CreateLoad(ptr(), B.CreateConstGEP1_64(ptr(), p, 1)));
        }
        break;
      case 9: // helpers
        switch (c.draw(8))
        {
        case 0:
        {
          auto v = val();
          P.aggs.push_back(B.CreateCall(H.mk, { v, expr(iN(64), 1) }));
          break;
        }
        case 1:
        {
          auto v = val(), w = val();
          P.vals.push_back(B.CreateCall(H.sel, { v, w, expr(iN(64), 1) }));
          break;
        }
        case 2:
        {
          auto v = val();
          B.CreateCall(H.put, { slot(), v });
          break;
        }
        case 3:
          P.vals.push_back(B.CreateCall(H.get, { slot() }));
          break;
        case 4:
        {
          auto a = slot();
          B.CreateCall(H.swap, { a, slot() });
          break;
        }
        case 5:
          P.vals.push_back(B.CreateCall(c.draw(2) ? H.pass : H.pass2, { val() }));
          break;
        case 6: // through a table of functions
        {
          auto ft = allocaAt(ArrayType::get(ptr(), 2));
          B.CreateStore(H.pass, ft);
          B.CreateStore(c.draw(2) ? H.pass2 : H.get, B.CreateConstGEP1_64(ptr(), ft, 1));
          auto f = B.CreateLoad(ptr(), B.CreateConstGEP1_64(ptr(), ft, 0));
          P.vals.push_back(B.CreateCall(H.pass->getFunctionType(), f, { val() }));
          break;
        }
        default:
          P.vals.push_back(B.CreateCall(H.first, { agg() }));
        }
        break;
      case 10: // external code
        switch (c.draw(3))
        {
        case 0:
          P.vals.push_back(B.CreateCall(ext("ext_i_ptr", ptr(), { ptr() }), { val() }));
          break;
        case 1:
          B.CreateCall(ext("ext_z_slot", Type::getVoidTy(C), { ptr() }), { slot() });
          break;
        default:
          B.CreateCall(ext("ext_s_ptr", Type::getVoidTy(C), { ptr() }), { val() });
        }
        break;
      case 11:
      {
        auto cc = cond(1);
        auto t = block("pthen"), e = block("pelse"), j = block("pfi");
        auto v = val(), w = val();
        B.CreateCondBr(cc, t, e);
        std::vector<std::pair<Value *, BasicBlock *>> in;
        for (auto b : { t, e })
        {
          B.SetInsertPoint(b);
          Scope s(*this);
          Play Q = P;
          Q.vals.push_back(b == t ? v : w);
          playOps(Q, c.draw(3), depth - 1);
          in.push_back({ Q.vals.back(), B.GetInsertBlock() });
          B.CreateBr(j);
        }
        B.SetInsertPoint(j);
        auto ph = B.CreatePHI(ptr(), 2);
        for (auto & [x, b] : in)
          ph->addIncoming(x, b);
        P.vals.push_back(ph);
        break;
      }
      case 12: // pointers rotate through a loop
      {
        loopDepth++;
        auto iv = B.CreateAnd(expr(iN(64), 1), k(64, 3));
        auto a = val(), b = val(), d = val();
        auto h = B.GetInsertBlock();
        auto l = block("ploop"), x = block("pdone");
        B.CreateBr(l);
        B.SetInsertPoint(l);
        auto i = B.CreatePHI(iN(64), 2);
        auto pa = B.CreatePHI(ptr(), 2), pb = B.CreatePHI(ptr(), 2), pd = B.CreatePHI(ptr(), 2);
        i->addIncoming(k(64, 0), h);
        pa->addIncoming(a, h);
        pb->addIncoming(b, h);
        pd->addIncoming(d, h);
        Value * nw;
        {
          Scope s(*this);
          Play Q = P;
          Q.vals.push_back(pa);
          Q.vals.push_back(pb);
          Q.vals.push_back(pd);
          playOps(Q, 1 + c.draw(3), depth - 1);
          nw = Q.vals[Q.vals.size() - 1 - c.draw(std::min<size_t>(Q.vals.size(), 4))];
        }
        auto e = B.GetInsertBlock();
        auto i2 = B.CreateAdd(i, k(64, 1));
        i->addIncoming(i2, e);
        pa->addIncoming(pb, e);
        pb->addIncoming(c.draw(2) ? (Value *)pd : (Value *)pa, e);
        pd->addIncoming(nw, e);
        B.CreateCondBr(B.CreateICmpULT(i2, iv), l, x);
        B.SetInsertPoint(x);
        P.vals.push_back(c.draw(2) ? pa : pd);
        loopDepth--;
        break;
      }
      case 13: // a pointer cell on the heap
      {
        auto m = B.CreateCall(ext("malloc", ptr(), { iN(64) }), { k(64, 32) });
        for (unsigned j = 0; j < 4; j++)
          B.CreateStore(val(), B.CreateConstGEP1_64(ptr(), m, j));
        P.tables.push_back(m);
        break;
      }
      default: // offsets
      {
        auto v = val();
        auto g = B.CreateGEP(iN(32), v, { index(4) });
        B.CreateStore(expr(iN(32), 1), g);
        ptrTemps.push_back({ g, P4 });
      }
      }
    }
  }

  void
  playStmt()
  {
    Play P;
    unsigned nv = 2 + c.draw(3);
    for (unsigned i = 0; i < nv; i++)
      P.vals.push_back(c.draw(2) ? ptrExpr(P16, 1) : local(P16));
    unsigned nt = 1 + c.draw(2);
    for (unsigned i = 0; i < nt; i++)
    {
      Value * t = allocaAt(
          c.draw(2) ? (Type *)ArrayType::get(ptr(), 4)
                    : (Type *)StructType::get(C, { ptr(), ptr(), ArrayType::get(ptr(), 2) }));
      for (unsigned j = 0; j < 4; j++)
        B.CreateStore(P.vals[c.draw(P.vals.size())], B.CreateConstGEP1_64(ptr(), t, j));
      P.tables.push_back(t);
    }
    for (auto & [g, kk] : globs)
      if (kk == PP && c.draw(3) == 0)
      {
        B.CreateMemCpy(P.tables[0], MaybeAlign(8), g, MaybeAlign(8), k(64, 16));
        break;
      }
    playOps(P, 3 + c.draw(6), 2);
    for (auto & v : P.vals)
      if (c.draw(2))
        ptrTemps.push_back({ v, P16 });
  }

  void
  ifStmt()
  {
    auto cc = cond(2);
    bool hasElse = c.draw(2);
    auto t = block("then"), e = hasElse ? block("else") : nullptr, j = block("fi");
    B.CreateCondBr(cc, t, hasElse ? e : j);
    B.SetInsertPoint(t);
    {
      Scope s(*this);
      body(1 + c.draw(3));
    }
    B.CreateBr(j);
    if (hasElse)
    {
      B.SetInsertPoint(e);
      {
        Scope s(*this);
        body(1 + c.draw(3));
      }
      B.CreateBr(j);
    }
    B.SetInsertPoint(j);
  }

  // values chosen by a branch or a switch, with nothing in the arms
  void
  chooseStmt()
  {
    unsigned shape = c.draw(4), cases = shape == 3 ? 2 + c.draw(3) : 1;
    unsigned bits = c.pick(std::vector<unsigned>{ 32, 64, 8, 1 });
    uint64_t mask = bits == 1 ? 1 : 7;
    cases = std::min<unsigned>(cases, mask + 1);
    std::vector<std::vector<Value *>> pool;
    for (unsigned i = 1 + c.draw(3); i; i--)
    {
      Type * t = pool.empty() || c.draw(2) ? scalarType() : pool.back()[0]->getType();
      pool.emplace_back();
      for (unsigned j = 2 + c.draw(2); j; j--)
        pool.back().push_back(expr(t, c.draw(3)));
    }
    auto j = block("chosen");
    std::vector<BasicBlock *> arms;
    for (unsigned i = 0; i <= cases; i++)
      arms.push_back(block("arm"));
    unsigned direct = c.draw(4) == 0 ? c.draw(arms.size()) : arms.size();
    if (direct < arms.size())
    {
      arms[direct]->eraseFromParent();
      arms[direct] = j;
    }
    auto from = B.GetInsertBlock();
    if (shape == 0)
    {
      auto x = cond(2);
      from = B.GetInsertBlock();
      B.CreateCondBr(x, arms[1], arms[0]);
    }
    else
    {
      auto v = expr(iN(bits), 2);
      if (bits > 1)
        v = B.CreateAnd(v, k(bits, c.pick(std::vector<unsigned>{ 1, 3, 7 })));
      from = B.GetInsertBlock();
      auto sw = B.CreateSwitch(v, arms[0], cases);
      uint64_t first = c.draw(4);
      for (unsigned i = 1; i <= cases; i++)
        sw->addCase(k(bits, (first + i - 1) & mask), arms[i]);
    }
    for (auto a : arms)
      if (a != j)
        BranchInst::Create(j, a);
    B.SetInsertPoint(j);
    std::vector<Value *> phis;
    for (auto & values : pool)
    {
      auto p = B.CreatePHI(values[0]->getType(), arms.size());
      for (auto a : arms)
        p->addIncoming(values[c.draw(values.size())], a == j ? from : a);
      phis.push_back(p);
    }
    for (auto p : phis)
      temps.push_back(p);
    for (auto p : phis)
      if (c.draw(2))
        if (auto v = var(p->getType(), true))
          B.CreateStore(p, v->slot);
  }

  void
  switchStmt()
  {
    unsigned n = 1 + c.draw(4);
    unsigned bits = c.pick(std::vector<unsigned>{ 32, 64, 8 });
    auto v = B.CreateAnd(expr(iN(bits), 2), k(bits, 7));
    auto j = block("esac");
    auto d = block("default");
    auto sw = B.CreateSwitch(v, d, n);
    std::vector<BasicBlock *> bbs;
    std::vector<uint64_t> used;
    for (unsigned i = 0; i < n; i++)
    {
      uint64_t val = (c.draw(8) + i) & 7;
      bool dup = false;
      for (auto u : used)
        dup = dup || u == val;
      if (dup)
        continue;
      used.push_back(val);
      auto b = (!bbs.empty() && c.draw(4) == 0) ? bbs.back() : block("case");
      sw->addCase(k(bits, val), b);
      if (bbs.empty() || bbs.back() != b)
        bbs.push_back(b);
    }
    for (size_t i = 0; i < bbs.size(); i++)
    {
      B.SetInsertPoint(bbs[i]);
      {
        Scope s(*this);
        body(1 + c.draw(2));
      }
      if (c.draw(4) == 0 && i + 1 < bbs.size())
        B.CreateBr(bbs[i + 1]); // fall through
      else
        B.CreateBr(j);
    }
    B.SetInsertPoint(d);
    bool all = used.size() == 8;
    if (all && c.draw(2))
      B.CreateUnreachable();
    else
    {
      {
        Scope s(*this);
        body(c.draw(2));
      }
      B.CreateBr(j);
    }
    B.SetInsertPoint(j);
  }

  void
  loopStmt()
  {
    if (loopDepth >= 2)
      return simpleStmt();
    loopDepth++;
    auto sb = breakTo, sc = contTo;
    switch (c.weighted({ O.constLoops ? 8u : 3u, 2, 2, 1 }))
    {
    case 0: // counted, constant bounds
    {
      unsigned bits = c.pick(std::vector<unsigned>{ 32, 64, 8, 16 });
      Type * t = iN(bits);
      Value * iv = allocaAt(t, "iv");
      int64_t step = c.draw(3) ? 1 : c.pick(std::vector<int64_t>{ 2, 3, -1, -2, 4 });
      int64_t start = c.pick(std::vector<int64_t>{ 0, 0, 1, 3, 10, -4 });
      int64_t trips = c.draw(9);
      CmpInst::Predicate p;
      int64_t end = start + trips * step;
      switch (c.draw(5))
      {
      case 0:
        p = step > 0 ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        end += step > 0 ? -(int64_t)c.draw(step) : (int64_t)c.draw(-step);
        break;
      case 1:
        p = CmpInst::ICMP_NE;
        break;
      case 2:
        p = step > 0 ? CmpInst::ICMP_SLE : CmpInst::ICMP_SGE;
        break;
      case 3:
        p = (step > 0) ? CmpInst::ICMP_ULT : CmpInst::ICMP_UGT;
        if (start < 0 || end < 0)
          p = CmpInst::ICMP_NE;
        break;
      default:
        p = (step > 0) ? CmpInst::ICMP_ULE : CmpInst::ICMP_UGE;
        if (start < 0 || end < 0 || start + (trips + 1) * step < 0)
          p = CmpInst::ICMP_NE;
      }
      B.CreateStore(k(bits, start), iv);
      bool top = c.draw(2) == 0;
      auto h = block("head"), b = block("body"), l = block("latch"), x = block("done");
      bool swapOps = c.draw(4) == 0;
      auto cmp = [&](Value * v)
      {
        if (swapOps)
          return B.CreateICmp(CmpInst::getSwappedPredicate(p), k(bits, end), v);
        return B.CreateICmp(p, v, k(bits, end));
      };
      if (top)
      {
        B.CreateBr(h);
        B.SetInsertPoint(h);
        B.CreateCondBr(cmp(B.CreateLoad(t, iv)), b, x);
      }
      else
        B.CreateBr(b);
      B.SetInsertPoint(b);
      breakTo = x;
      contTo = l;
      {
        Scope s(*this);
        vars.push_back({ iv, t, -1, true });
        body(1 + c.draw(4));
      }
      B.CreateBr(l);
      B.SetInsertPoint(l);
      auto nv = B.CreateAdd(B.CreateLoad(t, iv), k(bits, step));
      B.CreateStore(nv, iv);
      if (top)
        B.CreateBr(h);
      else
      {
        h->eraseFromParent();
        // bottom tested: value before or after the increment
        B.CreateCondBr(cmp(c.draw(3) ? nv : (Value *)B.CreateSub(nv, k(bits, step))), b, x);
      }
      B.SetInsertPoint(x);
      break;
    }
    case 1: // while with fuel
    case 2: // do while with fuel
    {
      bool top = c.draw(2) == 0;
      Value * fuel = allocaAt(iN(32), "fuel");
      B.CreateStore(k(32, 1 + c.draw(6)), fuel);
      auto h = block("while"), b = block("wbody"), x = block("wdone");
      if (top)
      {
        B.CreateBr(h);
        B.SetInsertPoint(h);
        Value * f = B.CreateSub(B.CreateLoad(iN(32), fuel), k(32, 1));
        B.CreateStore(f, fuel);
        Value * cc;
        {
          Scope s(*this);
          cc = B.CreateAnd(cond(2), B.CreateICmpSGT(f, k(32, 0)));
        }
        B.CreateCondBr(cc, b, x);
        B.SetInsertPoint(b);
        breakTo = x;
        contTo = h;
        {
          Scope s(*this);
          body(1 + c.draw(4));
        }
        B.CreateBr(h);
      }
      else
      {
        B.CreateBr(b);
        B.SetInsertPoint(b);
        breakTo = x;
        contTo = h;
        {
          Scope s(*this);
          body(1 + c.draw(4));
        }
        B.CreateBr(h);
        B.SetInsertPoint(h);
        Value * f = B.CreateSub(B.CreateLoad(iN(32), fuel), k(32, 1));
        B.CreateStore(f, fuel);
        Value * cc;
        {
          Scope s(*this);
          cc = B.CreateAnd(cond(2), B.CreateICmpSGT(f, k(32, 0)));
        }
        B.CreateCondBr(cc, b, x);
      }
      B.SetInsertPoint(x);
      break;
    }
    default: // variable trip count
    {
      Type * t = iN(32);
      Value * iv = allocaAt(t, "iv");
      auto n = B.CreateAnd(expr(t, 2), k(32, 7));
      B.CreateStore(k(32, 0), iv);
      auto h = block("vhead"), b = block("vbody"), l = block("vlatch"), x = block("vdone");
      B.CreateBr(h);
      B.SetInsertPoint(h);
      B.CreateCondBr(B.CreateICmpSLT(B.CreateLoad(t, iv), n), b, x);
      B.SetInsertPoint(b);
      breakTo = x;
      contTo = l;
      {
        Scope s(*this);
        vars.push_back({ iv, t, -1, true });
        body(1 + c.draw(4));
      }
      B.CreateBr(l);
      B.SetInsertPoint(l);
      B.CreateStore(B.CreateAdd(B.CreateLoad(t, iv), k(32, 1)), iv);
      B.CreateBr(h);
      B.SetInsertPoint(x);
    }
    }
    breakTo = sb;
    contTo = sc;
    loopDepth--;
  }

  void
  jumpStmt()
  {
    // conditional break / continue / return
    auto cc = cond(1);
    auto j = block("jump"), n = block("next");
    B.CreateCondBr(cc, j, n);
    B.SetInsertPoint(j);
    unsigned w = c.draw(breakTo ? 3 : 1);
    if (breakTo && w == 0)
      B.CreateBr(breakTo);
    else if (breakTo && w == 1)
      B.CreateBr(contTo);
    else
    {
      Scope s(*this);
      setReturn();
      B.CreateBr(retBlock);
    }
    B.SetInsertPoint(n);
  }

  void
  stmt()
  {
    if (budget-- <= 0)
      return;
    switch (c.weighted({ 12, 4, O.loopWeight, 1, 1, O.endless ? 1u : 0u, 2 }))
    {
    case 6:
      chooseStmt();
      break;
    case 0:
      simpleStmt();
      break;
    case 1:
      ifStmt();
      break;
    case 2:
      loopStmt();
      break;
    case 3:
      switchStmt();
      break;
    case 4:
      jumpStmt();
      break;
    default:
    {
      // an endless loop that is never entered
      auto e = block("endless"), n = block("next");
      auto x = B.CreateLoad(iN(32), depthSlot);
      B.CreateCondBr(B.CreateICmpSGT(x, k(32, 1000)), e, n);
      B.SetInsertPoint(e);
      B.CreateCall(ext("ext_o_spin", Type::getVoidTy(C), {}), {});
      B.CreateBr(e);
      B.SetInsertPoint(n);
    }
    }
  }

  void
  body(unsigned n)
  {
    for (unsigned i = 0; i < n; i++)
      stmt();
  }

  void
  setReturn()
  {
    auto rt = cur->f->getReturnType();
    if (rt->isVoidTy())
      return;
    if (cur->retPk >= 0)
    {
      // never a local
      std::vector<Value *> o;
      for (auto & [g, kk] : globs)
        if (kk == cur->retPk && !g->isConstant())
          o.push_back(g);
      for (size_t i = 1; i < cur->pk.size(); i++)
        if (cur->pk[i] == cur->retPk)
          o.push_back(cur->f->getArg(i));
      B.CreateStore(o[c.draw(o.size())], retSlot);
      return;
    }
    B.CreateStore(expr(rt, 2), retSlot);
  }

  void
  beginFunction(Fn & fn)
  {
    cur = &fn;
    vars.clear();
    temps.clear();
    ptrTemps.clear();
    epilogue.clear();
    loopDepth = 0;
    breakTo = contTo = nullptr;
    auto entry = block("entry");
    B.SetInsertPoint(entry);
    retBlock = BasicBlock::Create(C, "ret");
    auto rt = fn.f->getReturnType();
    retSlot = nullptr;
    if (!rt->isVoidTy())
      retSlot = B.CreateAlloca(rt, nullptr, "retval");
    depthSlot = B.CreateAlloca(iN(32), nullptr, "depth");
    B.CreateStore(fn.f->getArg(0), depthSlot);
    for (size_t i = 1; i < fn.pk.size(); i++)
    {
      auto a = fn.f->getArg(i);
      if (fn.pk[i] >= 0)
      {
        ptrTemps.push_back({ a, fn.pk[i] });
        if (c.draw(2))
        {
          auto s = B.CreateAlloca(ptr());
          B.CreateStore(a, s);
          vars.push_back({ s, ptr(), fn.pk[i], false });
        }
      }
      else
      {
        auto s = B.CreateAlloca(a->getType());
        B.CreateStore(a, s);
        vars.push_back({ s, a->getType(), -1, false });
        temps.push_back(a);
      }
    }
    unsigned nv = 1 + c.draw(4);
    for (unsigned i = 0; i < nv; i++)
    {
      Type * t = scalarType();
      auto s = B.CreateAlloca(t);
      B.CreateStore(constantOf(t), s);
      vars.push_back({ s, t, -1, false });
    }
    if (O.memory)
    {
      unsigned np = c.draw(4);
      for (unsigned i = 0; i < np; i++)
        local(c.draw(4));
      unsigned npv = c.draw(3);
      for (unsigned i = 0; i < npv; i++)
      {
        int pk = c.pick(std::vector<int>{ P16, P4, PS, PP });
        auto p = ptrExpr(pk, 1);
        auto s = allocaAt(ptr());
        B.CreateStore(p, s);
        vars.push_back({ s, ptr(), pk, false });
      }
    }
  }

  void
  endFunction()
  {
    retBlock->insertInto(cur->f);
    B.SetInsertPoint(retBlock);
    auto rt = cur->f->getReturnType();
    if (rt->isVoidTy())
      B.CreateRetVoid();
    else
      B.CreateRet(B.CreateLoad(rt, retSlot));
  }

  void
  structuredBody(Fn & fn)
  {
    beginFunction(fn);
    budget = 2 + c.draw(O.stmts);
    if (!variadics.empty() && c.draw(2))
      variadicCall();
    while (budget > 0)
      stmt();
    setReturn();
    B.CreateBr(retBlock);
    endFunction();
  }

  void
  cfgBody(Fn & fn)
  {
    beginFunction(fn);
    unsigned n = 2 + c.draw(9);
    Value * fuel = allocaAt(iN(32), "fuel");
    B.CreateStore(k(32, 3 + c.draw(12)), fuel);
    if (retSlot)
    {
      Scope s(*this);
      setReturn();
    }
    std::vector<BasicBlock *> bbs;
    for (unsigned i = 0; i < n; i++)
      bbs.push_back(block("b"));
    B.CreateBr(bbs[0]);
    // pointers made in earlier blocks do not dominate later ones, but those of the entry block do
    for (unsigned i = 0; i < n; i++)
    {
      Scope s(*this);
      B.SetInsertPoint(bbs[i]);
      auto f = B.CreateSub(B.CreateLoad(iN(32), fuel), k(32, 1));
      B.CreateStore(f, fuel);
      auto more = B.CreateICmpSGT(f, k(32, 0));
      unsigned ns = c.draw(3);
      simpleOnly = true;
      for (unsigned j = 0; j < ns; j++)
        simpleStmt();
      simpleOnly = false;
      auto fwd = [&]()
      {
        unsigned t = i + 1 + c.draw(std::min(n - i, 3u));
        return t >= n ? retBlock : bbs[t];
      };
      auto any = [&]()
      {
        unsigned t = c.draw(n + 1);
        return t == n ? retBlock : bbs[t];
      };
      switch (c.weighted({ 2, 5, 2, 1 }))
      {
      case 0:
        B.CreateBr(fwd());
        break;
      case 1:
      {
        auto a = any(), b = fwd();
        auto cc = c.draw(4) ? cond(2) : nullptr;
        B.CreateCondBr(cc ? B.CreateAnd(cc, more) : more, a, b);
        break;
      }
      case 2:
      {
        unsigned m = 2 + c.draw(3);
        auto v = B.CreateSelect(more, B.CreateAnd(expr(iN(32), 2), k(32, 7)), k(32, 99));
        auto sw = B.CreateSwitch(v, fwd(), m);
        for (unsigned q = 0; q < m; q++)
          sw->addCase(k(32, q), any());
        break;
      }
      default:
        if (retSlot)
          setReturn();
        B.CreateBr(retBlock);
      }
    }
    endFunction();
  }

  Function *
  entryFn(unsigned idx)
  {
    // i64 entry(i64 a, i64 b): calls generated functions, mixes results
    auto f = Function::Create(
        FunctionType::get(iN(64), { iN(64), iN(64) }, false),
        Function::ExternalLinkage,
        "entry" + std::to_string(idx),
        *M);
    auto bb = BasicBlock::Create(C, "entry", f);
    B.SetInsertPoint(bb);
    Value * acc = k(64, 0);
    Fn tmp{ f, {}, -1 };
    cur = &tmp;
    depthSlot = nullptr;
    vars.clear();
    temps.clear();
    ptrTemps.clear();
    temps.push_back(f->getArg(0));
    temps.push_back(f->getArg(1));
    unsigned n = 1 + c.draw(fns.size() > 1 ? 2 : 1);
    for (unsigned q = 0; q < n; q++)
    {
      auto & t = fns[q == 0 ? fns.size() - 1 : c.draw(fns.size())];
      std::vector<Value *> as{ k(32, c.draw(4)) };
      for (size_t i = 1; i < t.pk.size(); i++)
      {
        auto ty = t.f->getFunctionType()->getParamType(i);
        if (t.pk[i] >= 0)
          as.push_back(ptrExpr(t.pk[i], 1));
        else if (ty->isIntegerTy())
          as.push_back(resize(c.draw(4) ? f->getArg((i + q) % 2) : (Value *)constantOf(iN(64)), ty->getIntegerBitWidth()));
        else
          as.push_back(B.CreateSIToFP(B.CreateTrunc(f->getArg(i % 2), iN(8)), ty));
      }
      Value * r = B.CreateCall(t.f, as);
      if (r->getType()->isIntegerTy())
        acc = B.CreateXor(B.CreateMul(acc, k(64, 31)), resize(r, 64));
      else if (r->getType()->isPointerTy())
        acc = B.CreateAdd(acc, B.CreateZExt(B.CreateLoad(iN(32), r), iN(64)));
      else if (r->getType()->isFloatingPointTy())
      {
        auto o = ext(r->getType()->isDoubleTy() ? "ext_o_f64" : "ext_o_f32", Type::getVoidTy(C), { r->getType() });
        B.CreateCall(o, { r });
      }
    }
    B.CreateRet(acc);
    return f;
  }
};

Program
Gen::run()
{
  auto mod = std::make_unique<Module>("pbt", C);
  M = mod.get();
  M->setDataLayout("e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128");
  M->setTargetTriple("x86_64-pc-linux-gnu");
  S = StructType::create(C, { iN(32), iN(64), ArrayType::get(iN(32), 3), ptr() }, "struct.S");

  Program P;
  // globals
  if (O.memory)
  {
    unsigned ng = 1 + c.draw(5);
    std::vector<GlobalVariable *> plain;
    for (unsigned i = 0; i < ng; i++)
    {
      int pk = i == 0 ? P16 : c.weighted({ 4, 2, 2, 2 });
      bool exported = c.draw(2);
      bool isConst = i != 0 && c.chance(1, 8) && pk == P4;
      Type * t = pkType(pk);
      Constant * init = nullptr;
      if (pk == P16)
        init = c.draw(2) ? constantOf(t) : Constant::getNullValue(t);
      else if (pk == P4)
        init = constantOf(t);
      else if (pk == PS)
        init = ConstantStruct::get(
            S,
            { constantOf(iN(32)), constantOf(iN(64)), constantOf(S->getElementType(2)),
              plain[c.draw(plain.size())] });
      else
        init = ConstantArray::get(
            llvm::cast<ArrayType>(t),
            { plain[c.draw(plain.size())], plain[c.draw(plain.size())] });
      auto g = new GlobalVariable(
          *M,
          t,
          isConst,
          exported ? GlobalValue::ExternalLinkage : GlobalValue::InternalLinkage,
          init,
          (pk == P16 ? (exported ? "xg" : "ig") : (exported ? "yg" : "jg")) + std::to_string(i));
      if (pk == P16)
        g->setAlignment(Align(16));
      if (pk == P16 && !isConst)
        plain.push_back(g);
      if (!isConst)
        globs.push_back({ g, pk });
    }
  }
  // function headers
  unsigned nf = 1 + c.draw(O.maxFuncs);
  if (!O.calls)
    nf = 1;
  if (O.fnptr)
  {
    unsigned nt = c.draw(3);
    for (unsigned i = 0; i < nt; i++)
    {
      bool exported = c.draw(2);
      auto f = Function::Create(
          FunctionType::get(iN(64), { iN(64) }, false),
          exported ? Function::ExternalLinkage : Function::InternalLinkage,
          (exported ? "cbk" : "tgt") + std::to_string(i),
          *M);
      fnPtrTargets.push_back(f);
    }
    if (!fnPtrTargets.empty() && c.draw(2))
    {
      auto at = ArrayType::get(ptr(), 2);
      bool k2 = c.draw(2);
      fnTable = new GlobalVariable(
          *M,
          at,
          k2,
          c.draw(2) ? GlobalValue::ExternalLinkage : GlobalValue::InternalLinkage,
          ConstantArray::get(at, { fnPtrTargets[0], fnPtrTargets.back() }),
          "ftab");
    }
  }
  PI = StructType::get(C, { ptr(), iN(64) });
  if (O.memory && O.ptrPlay && O.calls && c.draw(2))
    makeHelpers();
  if (O.memory && O.calls && O.variadic && c.draw(O.variadic) == 0)
    makeVariadics();
  fns.reserve(16);
  for (unsigned i = 0; i < nf; i++)
  {
    Fn fn;
    std::vector<Type *> ps{ iN(32) };
    fn.pk.push_back(-1);
    unsigned np = c.draw(4);
    for (unsigned j = 0; j < np; j++)
    {
      if (O.memory && c.draw(3) == 0)
      {
        fn.pk.push_back(c.draw(4));
        ps.push_back(ptr());
      }
      else
      {
        fn.pk.push_back(-1);
        ps.push_back(scalarType());
      }
    }
    Type * rt;
    if (O.memory && c.chance(1, 8))
    {
      fn.retPk = P16;
      rt = ptr();
    }
    else
      rt = c.draw(6) == 5 ? Type::getVoidTy(C) : scalarType();
    fn.f = Function::Create(
        FunctionType::get(rt, ps, false),
        c.draw(3) ? Function::InternalLinkage : Function::ExternalLinkage,
        "f" + std::to_string(i),
        *M);
    fns.push_back(fn);
  }
  auto all = fns;
  for (unsigned i = 0; i < nf; i++)
  {
    // calls go to lower or equal functions, sometimes anywhere (mutual recursion)
    if (c.draw(3))
      fns.assign(all.begin(), all.begin() + i + (c.draw(4) == 0));
    else
      fns = all;
    Fn me = all[i];
    if (c.draw(100) >= 100 - O.cfgPercent)
      cfgBody(me);
    else
      structuredBody(me);
  }
  fns = all;
  for (auto f : fnPtrTargets)
  {
    auto bb = BasicBlock::Create(C, "entry", f);
    B.SetInsertPoint(bb);
    Fn tmp{ f, {}, -1 };
    cur = &tmp;
    depthSlot = nullptr;
    vars.clear();
    temps.clear();
    ptrTemps.clear();
    temps.push_back(f->getArg(0));
    if (O.memory && c.draw(2))
      B.CreateStore(expr(iN(32), 1), globs[c.draw(globs.size())].second <= P4 ? (Value *)globs[0].first : (Value *)globs[0].first);
    B.CreateRet(expr(iN(64), 2));
  }
  P.entries.push_back(entryFn(0)->getName().str());
  if (c.draw(3) == 0)
    P.entries.push_back(entryFn(1)->getName().str());

  std::string err;
  raw_string_ostream es(err);
  if (verifyModule(*M, &es))
    pbt::fail("harness: generator produced invalid IR", es.str() + print(*M));

  // dead blocks confuse nothing but the reader
  if (O.prelude)
  {
    static const char * pipes[] = { "function(mem2reg)",
                                    "",
                                    "function(mem2reg,simplifycfg)",
                                    "function(sroa,instcombine<no-verify-fixpoint>,simplifycfg)",
                                    "function(mem2reg,loop-simplify,loop(loop-rotate))",
                                    "function(sroa,early-cse,gvn)",
                                    "function(mem2reg,instsimplify,simplifycfg,loop-simplify,loop(loop-rotate),instcombine<no-verify-fixpoint>)",
                                    "function(sroa,instcombine<no-verify-fixpoint>,loop-simplify,loop(loop-rotate),loop-mssa(licm),simplifycfg)",
                                    "function(mem2reg,jump-threading,tailcallelim)" };
    runPasses(*M, pipes[c.draw(9)]);
  }
  else if (O.promote)
  {
    static const char * pipes[] = { "function(mem2reg)", "function(mem2reg,simplifycfg)",
                                    "function(mem2reg,loop-simplify,loop(loop-rotate))" };
    runPasses(*M, pipes[c.draw(3)]);
  }
  // drop poison-generating call-site / parameter attributes the prelude may have inferred: none of the passes
  // above infers any, so nothing to do
  P.module = std::move(mod);
  return P;
}

Program
generate(Ctx & c, LLVMContext & ctx, const Opts & o)
{
  Gen g(c, ctx, o);
  return g.run();
}

}
