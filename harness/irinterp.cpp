#include "irinterp.hpp"

#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>

namespace sem
{

using namespace llvm;

IrMachine::IrMachine(llvm::Module & m)
    : Machine(m.getDataLayout(), m.getContext()),
      M(m)
{}

static bool
visible(const GlobalValue & g)
{
  return !g.hasLocalLinkage();
}

void
IrMachine::init()
{
  for (auto & f : M)
  {
    auto o = allocate(16, 16, Obj::Function, f.getName().str(), &f);
    o->exported = visible(f);
    globals[o->name] = o;
    funcs_[o] = &f;
  }
  for (auto & g : M.globals())
  {
    uint64_t align = g.getPointerAlignment(DL).value();
    auto o = allocate(DL.getTypeAllocSize(g.getValueType()), align, Obj::Global, g.getName().str(), &g);
    o->exported = visible(g);
    globals[o->name] = o;
  }
  for (auto & g : M.globals())
  {
    auto o = globals[g.getName().str()];
    // padding and external definitions read as zero
    std::fill(o->und.begin(), o->und.end(), 0);
    std::fill(o->bytes.begin(), o->bytes.end(), 0);
    if (g.hasInitializer() && !isa<UndefValue>(g.getInitializer()))
      store(g.getValueType(), constant(g.getInitializer()), o->base, 1, nullptr, true);
    else if (g.isDeclaration())
      for (uint64_t k = 0; k < o->size; k++)
        o->bytes[k] = k % 4 == 0 ? (pbt::fnv(o->name) + k) % 11 : 0;
  }
  for (auto & g : M.globals())
    if (g.isConstant())
      globals[g.getName().str()]->constant = true;
}

Val
IrMachine::constant(const Constant * c)
{
  auto it = consts_.find(c);
  if (it != consts_.end())
    return it->second;
  Val r;
  if (auto ci = dyn_cast<ConstantInt>(c))
    r = Val::mkInt(ci->getValue());
  else if (auto cf = dyn_cast<ConstantFP>(c))
    r = Val::mkFp(cf->getValueAPF().bitcastToAPInt());
  else if (isa<ConstantPointerNull>(c))
    r = Val::mkPtr(0);
  else if (isa<UndefValue>(c))
    return undef(c->getType());
  else if (isa<ConstantAggregateZero>(c))
    r = zero(c->getType());
  else if (auto cd = dyn_cast<ConstantDataSequential>(c))
  {
    std::vector<Val> e;
    for (unsigned i = 0; i < cd->getNumElements(); i++)
      e.push_back(constant(cd->getElementAsConstant(i)));
    r = Val::mkAgg(std::move(e));
  }
  else if (auto ca = dyn_cast<ConstantAggregate>(c))
  {
    std::vector<Val> e;
    for (unsigned i = 0; i < ca->getNumOperands(); i++)
      e.push_back(constant(ca->getOperand(i)));
    return Val::mkAgg(std::move(e));
  }
  else if (auto gv = dyn_cast<GlobalValue>(c))
  {
    auto f = globals.find(gv->getName().str());
    if (f == globals.end())
      throw Unsupported{ "global alias" };
    r = Val::mkPtr(f->second->base);
  }
  else if (auto ce = dyn_cast<ConstantExpr>(c))
  {
    if (auto g = dyn_cast<GEPOperator>(ce))
    {
      std::vector<Val> idx;
      for (auto i = g->idx_begin(); i != g->idx_end(); ++i)
        idx.push_back(constant(llvm::cast<Constant>(*i)));
      r = gep(g->getSourceElementType(), constant(llvm::cast<Constant>(g->getPointerOperand())), idx, g->getType());
    }
    else if (Instruction::isCast(ce->getOpcode()))
      r = this->cast(
          ce->getOpcode(),
          constant(ce->getOperand(0)),
          ce->getOperand(0)->getType(),
          ce->getType());
    else if (Instruction::isBinaryOp(ce->getOpcode()))
      r = binop(ce->getOpcode(), constant(ce->getOperand(0)), constant(ce->getOperand(1)));
    else if (ce->getOpcode() == Instruction::ICmp)
      r = icmp((CmpInst::Predicate)ce->getPredicate(), constant(ce->getOperand(0)), constant(ce->getOperand(1)));
    else
      throw Unsupported{ "constant expression" };
  }
  else
    throw Unsupported{ "constant" };
  consts_[c] = r;
  return r;
}

Val
IrMachine::eval(Frame & fr, const Value * v)
{
  if (auto c = dyn_cast<Constant>(v))
    return constant(c);
  auto it = fr.find(v);
  if (it == fr.end())
    throw Unsupported{ "value without definition" };
  return it->second;
}

Val
IrMachine::gep(llvm::Type * srcTy, const Val & base, const std::vector<Val> & idx, llvm::Type * resTy)
{
  if (resTy->isVectorTy() || base.k == Val::Agg)
    throw Unsupported{ "vector gep" };
  for (auto & i : idx)
    if (i.k == Val::Agg)
      throw Unsupported{ "vector gep" };
  if (base.und)
    return base;
  uint64_t a = base.u();
  Type * t = srcTy;
  for (size_t k = 0; k < idx.size(); k++)
  {
    if (idx[k].und)
      return poison(base);
    int64_t n = idx[k].i.sextOrTrunc(64).getSExtValue();
    if (k == 0)
    {
      a += (uint64_t)n * DL.getTypeAllocSize(t).getFixedValue();
      continue;
    }
    if (auto s = dyn_cast<StructType>(t))
    {
      a += DL.getStructLayout(s)->getElementOffset(n);
      t = s->getElementType(n);
    }
    else
    {
      t = elemType(t, 0);
      a += (uint64_t)n * DL.getTypeAllocSize(t).getFixedValue();
    }
  }
  return Val::mkPtr(a);
}

Callee
IrMachine::calleeInfo(Obj * o)
{
  auto f = funcs_.at(o);
  Callee c;
  c.name = f->getName().str();
  c.type = f->getFunctionType();
  c.defined = !f->isDeclaration();
  return c;
}

Val
IrMachine::callFunction(Obj * o, const std::vector<Val> & args)
{
  return exec(*funcs_.at(o), args);
}

Val
IrMachine::run(Function & f, const std::vector<Val> & args)
{
  return exec(f, args);
}

Val
IrMachine::call(const CallBase & cb, Frame & fr)
{
  std::vector<Val> args;
  for (auto & a : cb.args())
  {
    if (a->getType()->isMetadataTy())
      args.push_back(Val());
    else
      args.push_back(eval(fr, a));
  }
  auto callee = cb.getCalledOperand();
  Val fp = eval(fr, callee);
  if (fp.und)
    throw UB{ "call of undefined pointer" };
  auto o = lookup(fp.u());
  if (!o || o->kind != Obj::Function || o->base != fp.u())
    throw UB{ "call of a non-function" };
  auto f = funcs_.at(o);
  if (f->getFunctionType() != cb.getFunctionType())
    throw UB{ "call with the wrong signature" };
  Val r;
  onCall(cb, true);
  std::string n = f->getName().str();
  if (f->isDeclaration() && n.rfind("llvm.va_", 0) == 0)
    vaList(n, args, cb);
  else if (f->isDeclaration())
  {
    r = externalCall(n, f->getFunctionType(), args, &cb);
  }
  else
    r = exec(*f, args);
  onCall(cb, false);
  if (cb.doesNotReturn())
    throw UB{ "noreturn call returned" };
  return r;
}

// The contents of a va_list are up to the target. Here, it holds the first two variadic arguments of the function
// that called va_start, and their number.
void
IrMachine::vaList(const std::string & name, const std::vector<Val> & args, const CallBase & cb)
{
  if (name.rfind("llvm.va_start", 0) != 0)
    return;
  auto & [variadic, list] = variadic_.back();
  if (!variadic)
    throw UB{ "va_start in a function without variadic arguments" };
  if (args.at(0).und)
    throw UB{ "va_start of an undefined pointer" };
  auto i64 = llvm::Type::getInt64Ty(Context);
  for (unsigned i = 0; i < 3; i++)
  {
    uint64_t at = args[0].u() + 8 * i;
    if (i == 2 || i >= list.size())
    {
      store(i64, Val::mkInt(APInt(64, i == 2 ? list.size() : 0)), at, 8, &cb);
      continue;
    }
    auto & v = list[i];
    if (v.k == Val::Agg)
      throw Unsupported{ "variadic aggregate" };
    if (v.k == Val::Ptr)
      store(llvm::PointerType::get(Context, 0), v, at, 8, &cb);
    else
    {
      Val x = Val::mkInt(v.i.zextOrTrunc(64));
      store(i64, v.und ? poison(x) : x, at, 8, &cb);
    }
  }
}

Val
IrMachine::exec(Function & f, const std::vector<Val> & args)
{
  if (depth >= maxDepth)
    throw OutOfFuel{ "depth" };
  depth++;
  variadic_.push_back({ f.isVarArg(), {} });
  for (size_t i = f.arg_size(); i < args.size(); i++)
    variadic_.back().second.push_back(args[i]);
  Frame fr;
  std::vector<Obj *> allocas;
  for (unsigned i = 0; i < f.arg_size(); i++)
    fr[f.getArg(i)] = args.at(i);
  onEnter(f, fr);
  BasicBlock * bb = &f.getEntryBlock();
  BasicBlock * prev = nullptr;
  Val ret;
  for (;;)
  {
    auto it = bb->begin();
    onBlock(fr, bb, prev);
    // phis in parallel
    std::vector<std::pair<const PHINode *, Val>> phis;
    for (; isa<PHINode>(&*it); ++it)
    {
      auto p = llvm::cast<PHINode>(&*it);
      phis.push_back({ p, eval(fr, p->getIncomingValueForBlock(prev)) });
    }
    for (auto & [p, v] : phis)
      fr[p] = v;
    for (auto & [p, v] : phis)
      onValue(fr, p, v);
    tick(phis.size());
    BasicBlock * next = nullptr;
    bool returned = false;
    for (; it != bb->end(); ++it)
    {
      Instruction & I = *it;
      tick();
      Val r;
      if (auto bo = dyn_cast<BinaryOperator>(&I))
      {
        bool nsw = false, nuw = false, exact = false;
        if (auto x = dyn_cast<OverflowingBinaryOperator>(bo))
        {
          nsw = x->hasNoSignedWrap();
          nuw = x->hasNoUnsignedWrap();
        }
        if (auto x = dyn_cast<PossiblyExactOperator>(bo))
          exact = x->isExact();
        Val a = eval(fr, bo->getOperand(0)), b = eval(fr, bo->getOperand(1));
        if (auto x = dyn_cast<PossiblyDisjointInst>(bo))
        {
          if (x->isDisjoint() && a.k == Val::Int && !a.und && !b.und && a.i.intersects(b.i))
            r = poison(a);
        }
        if (r.k == Val::None)
          r = binop(bo->getOpcode(), a, b, nsw, nuw, exact);
      }
      else
        switch (I.getOpcode())
        {
        case Instruction::FNeg:
          r = fneg(eval(fr, I.getOperand(0)));
          break;
        case Instruction::ICmp:
          r = icmp(llvm::cast<CmpInst>(I).getPredicate(), eval(fr, I.getOperand(0)), eval(fr, I.getOperand(1)));
          break;
        case Instruction::FCmp:
          r = fcmp(llvm::cast<CmpInst>(I).getPredicate(), eval(fr, I.getOperand(0)), eval(fr, I.getOperand(1)));
          break;
        case Instruction::Select:
        {
          Val c = eval(fr, I.getOperand(0));
          Val a = eval(fr, I.getOperand(1)), b = eval(fr, I.getOperand(2));
          if (c.k == Val::Agg)
          {
            std::vector<Val> e;
            for (size_t k = 0; k < c.e->size(); k++)
            {
              auto & ck = (*c.e)[k];
              e.push_back(ck.und ? poison((*a.e)[k]) : ck.i.isZero() ? (*b.e)[k] : (*a.e)[k]);
            }
            r = Val::mkAgg(std::move(e));
          }
          else
            r = c.und ? poison(a) : c.i.isZero() ? b : a;
          break;
        }
        case Instruction::Freeze:
          r = eval(fr, I.getOperand(0));
          if (r.anyUnd())
            throw Unsupported{ "freeze of undefined value" };
          break;
        case Instruction::Alloca:
        {
          auto & a = llvm::cast<AllocaInst>(I);
          Val n = eval(fr, a.getArraySize());
          if (n.und)
            throw UB{ "alloca of undefined size" };
          auto o = allocate(
              n.u() * DL.getTypeAllocSize(a.getAllocatedType()).getFixedValue(),
              a.getAlign().value(),
              Obj::Alloca,
              "",
              &I);
          allocas.push_back(o);
          r = Val::mkPtr(o->base);
          break;
        }
        case Instruction::Load:
        {
          auto & l = llvm::cast<LoadInst>(I);
          if (l.isAtomic())
            throw Unsupported{ "atomic" };
          Val p = eval(fr, l.getPointerOperand());
          if (p.und)
            throw UB{ "load from undefined address" };
          r = this->load(l.getType(), p.u(), l.getAlign().value(), &I);
          if (l.isVolatile())
            volatileEvent(false, p.u(), 0, r);
          break;
        }
        case Instruction::Store:
        {
          auto & s = llvm::cast<StoreInst>(I);
          if (s.isAtomic())
            throw Unsupported{ "atomic" };
          Val p = eval(fr, s.getPointerOperand());
          if (p.und)
            throw UB{ "store to undefined address" };
          Val v = eval(fr, s.getValueOperand());
          this->store(s.getValueOperand()->getType(), v, p.u(), s.getAlign().value(), &I);
          if (s.isVolatile())
            volatileEvent(true, p.u(), 0, v);
          break;
        }
        case Instruction::GetElementPtr:
        {
          auto & g = llvm::cast<GetElementPtrInst>(I);
          std::vector<Val> idx;
          for (auto i = g.idx_begin(); i != g.idx_end(); ++i)
            idx.push_back(eval(fr, *i));
          r = gep(g.getSourceElementType(), eval(fr, g.getPointerOperand()), idx, g.getType());
          break;
        }
        case Instruction::ExtractValue:
        {
          auto & x = llvm::cast<ExtractValueInst>(I);
          r = extractValue(eval(fr, I.getOperand(0)), std::vector<unsigned>(x.idx_begin(), x.idx_end()));
          break;
        }
        case Instruction::InsertValue:
        {
          auto & x = llvm::cast<InsertValueInst>(I);
          r = insertValue(
              eval(fr, I.getOperand(0)),
              eval(fr, I.getOperand(1)),
              std::vector<unsigned>(x.idx_begin(), x.idx_end()));
          break;
        }
        case Instruction::ExtractElement:
          r = extractElement(eval(fr, I.getOperand(0)), eval(fr, I.getOperand(1)));
          break;
        case Instruction::InsertElement:
          r = insertElement(eval(fr, I.getOperand(0)), eval(fr, I.getOperand(1)), eval(fr, I.getOperand(2)));
          break;
        case Instruction::ShuffleVector:
        {
          auto & s = llvm::cast<ShuffleVectorInst>(I);
          Val a = eval(fr, I.getOperand(0)), b = eval(fr, I.getOperand(1));
          std::vector<Val> e;
          for (int m : s.getShuffleMask())
          {
            if (m < 0)
              e.push_back(poison((*a.e)[0]));
            else if ((size_t)m < a.e->size())
              e.push_back((*a.e)[m]);
            else
              e.push_back((*b.e)[m - a.e->size()]);
          }
          r = Val::mkAgg(std::move(e));
          break;
        }
        case Instruction::Call:
          r = call(llvm::cast<CallBase>(I), fr);
          break;
        case Instruction::Br:
        {
          auto & b = llvm::cast<BranchInst>(I);
          if (b.isUnconditional())
            next = b.getSuccessor(0);
          else
            next = truth(eval(fr, b.getCondition()), "br") ? b.getSuccessor(0) : b.getSuccessor(1);
          break;
        }
        case Instruction::Switch:
        {
          auto & s = llvm::cast<SwitchInst>(I);
          Val c = eval(fr, s.getCondition());
          if (c.und)
            throw UB{ "switch on undefined value" };
          next = s.getDefaultDest();
          for (auto & k : s.cases())
            if (k.getCaseValue()->getValue() == c.i)
              next = const_cast<BasicBlock *>(k.getCaseSuccessor());
          break;
        }
        case Instruction::Ret:
          if (I.getNumOperands())
            ret = eval(fr, I.getOperand(0));
          returned = true;
          break;
        case Instruction::Unreachable:
          throw UB{ "unreachable" };
        default:
          if (auto c = dyn_cast<CastInst>(&I))
          {
            bool nneg = isa<PossiblyNonNegInst>(&I) && I.hasNonNeg();
            r = this->cast(c->getOpcode(), eval(fr, c->getOperand(0)), c->getSrcTy(), c->getDestTy(), nneg);
          }
          else
            throw Unsupported{ std::string("instruction ") + I.getOpcodeName() };
        }
      if (!I.getType()->isVoidTy())
      {
        fr[&I] = r;
        onValue(fr, &I, r);
      }
    }
    if (returned)
      break;
    prev = bb;
    bb = next;
  }
  for (auto o : allocas)
  {
    o->live = false;
    deaths[o->id] = eventCount;
  }
  onLeave(f);
  depth--;
  variadic_.pop_back();
  return ret;
}

}
