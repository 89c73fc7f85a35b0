#include "sem.hpp"

#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Instruction.h>
#include <llvm/IR/Instructions.h>

#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>

#include <sstream>

namespace sem
{

using llvm::APFloat;
using llvm::APInt;

const llvm::fltSemantics &
semantics(unsigned bits)
{
  switch (bits)
  {
  case 16:
    return APFloat::IEEEhalf();
  case 32:
    return APFloat::IEEEsingle();
  case 64:
    return APFloat::IEEEdouble();
  case 80:
    return APFloat::x87DoubleExtended();
  case 128:
    return APFloat::IEEEquad();
  }
  throw Unsupported{ "fp width" };
}

std::string
show(const Val & v)
{
  switch (v.k)
  {
  case Val::None:
    return "none";
  case Val::Agg:
  {
    std::string s = "{";
    for (auto & x : *v.e)
      s += show(x) + ",";
    return s + "}";
  }
  default:
  {
    llvm::SmallString<40> s;
    v.i.toString(s, 16, false);
    std::string r = v.k == Val::Ptr ? "p" : v.k == Val::Fp ? "f" : "i";
    r += std::to_string(v.i.getBitWidth()) + ":" + std::string(s.str());
    if (v.und)
      r += "?";
    return r;
  }
  }
}

llvm::Type *
elemType(llvm::Type * t, unsigned i)
{
  if (auto s = llvm::dyn_cast<llvm::StructType>(t))
    return s->getElementType(i);
  if (auto a = llvm::dyn_cast<llvm::ArrayType>(t))
    return a->getElementType();
  if (auto v = llvm::dyn_cast<llvm::VectorType>(t))
    return v->getElementType();
  throw Unsupported{ "aggregate type" };
}

static uint64_t
mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t
Machine::rnd(uint64_t salt) const
{
  return mix(mix(worldSeed * 1000003 + eventCount) + salt * 7919);
}

uint64_t
Machine::junk()
{
  return mix(junkSeed * 31337 + ++junkState_);
}

Obj *
Machine::allocate(uint64_t size, uint64_t align, Obj::Kind kind, const std::string & name, const void * site)
{
  if (size > (1u << 20))
    throw Unsupported{ "huge object" };
  if (align == 0)
    align = 1;
  if (nextAddr_ == 0)
    nextAddr_ = 0x5ad3c7e00000ull + (mix(layoutSeed) % 64) * 4096;
  uint64_t gap = 32 + 16 * (mix(layoutSeed + 17 * (nextId_ + 1)) % 8);
  uint64_t base = nextAddr_ + gap;
  base = (base + align - 1) / align * align;
  if ((base / align) % 2 == 0) // exactly the requested alignment, not more
    base += align;
  auto o = std::make_unique<Obj>();
  o->id = nextId_++;
  o->kind = kind;
  o->base = base;
  o->size = size;
  o->name = name;
  o->site = site;
  o->bytes.resize(size);
  o->und.resize(size, strict ? 1 : 0);
  if (!strict)
    for (auto & b : o->bytes)
      b = junkSeed == 0 ? 0 : (uint8_t)junk();
  nextAddr_ = base + size;
  auto p = o.get();
  objs[base] = std::move(o);
  return p;
}

Obj *
Machine::lookup(uint64_t addr) const
{
  auto it = objs.upper_bound(addr);
  if (it == objs.begin())
    return nullptr;
  --it;
  auto o = it->second.get();
  if (addr > o->base + o->size)
    return nullptr;
  return o;
}

Obj *
Machine::access(uint64_t addr, uint64_t size, uint64_t align, bool write, const char * what)
{
  auto o = lookup(addr);
  if (!o || addr + size > o->base + o->size || o->kind == Obj::Function)
    throw UB{ std::string("out of bounds ") + what };
  if (!o->live)
    throw UB{ std::string("dead object ") + what };
  if (align > 1 && addr % align)
    throw UB{ std::string("misaligned ") + what };
  if (write && o->constant)
    throw UB{ std::string("write to constant ") + what };
  return o;
}

Val
Machine::undef(llvm::Type * t)
{
  Val v;
  if (t->isIntegerTy())
    v = Val::mkInt(t->getIntegerBitWidth(), 0);
  else if (t->isPointerTy())
    v = Val::mkPtr(0);
  else if (t->isFloatingPointTy())
    v = Val::mkFp(APInt(t->getPrimitiveSizeInBits(), 0));
  else if (auto s = llvm::dyn_cast<llvm::StructType>(t))
  {
    std::vector<Val> e;
    for (auto x : s->elements())
      e.push_back(undef(x));
    return Val::mkAgg(std::move(e));
  }
  else if (auto a = llvm::dyn_cast<llvm::ArrayType>(t))
  {
    if (a->getNumElements() > 4096)
      throw Unsupported{ "huge array value" };
    return Val::mkAgg(std::vector<Val>(a->getNumElements(), undef(a->getElementType())));
  }
  else if (auto w = llvm::dyn_cast<llvm::FixedVectorType>(t))
    return Val::mkAgg(std::vector<Val>(w->getNumElements(), undef(w->getElementType())));
  else
    throw Unsupported{ "undef type" };
  if (strict)
    v.und = true;
  else if (junkSeed != 0)
    v.i = APInt(v.i.getBitWidth(), junk());
  return v;
}

Val
Machine::poison(const Val & like)
{
  if (like.k == Val::Agg)
  {
    std::vector<Val> e;
    for (auto & x : *like.e)
      e.push_back(poison(x));
    return Val::mkAgg(std::move(e));
  }
  Val v = like;
  if (strict)
  {
    v.und = true;
    v.i = APInt(v.i.getBitWidth(), 0);
  }
  else
    v.i = APInt(v.i.getBitWidth(), junkSeed == 0 ? 0 : junk());
  return v;
}

Val
Machine::zero(llvm::Type * t)
{
  if (t->isIntegerTy())
    return Val::mkInt(t->getIntegerBitWidth(), 0);
  if (t->isPointerTy())
    return Val::mkPtr(0);
  if (t->isFloatingPointTy())
    return Val::mkFp(APInt(t->getPrimitiveSizeInBits(), 0));
  if (auto s = llvm::dyn_cast<llvm::StructType>(t))
  {
    std::vector<Val> e;
    for (auto x : s->elements())
      e.push_back(zero(x));
    return Val::mkAgg(std::move(e));
  }
  if (auto a = llvm::dyn_cast<llvm::ArrayType>(t))
  {
    if (a->getNumElements() > 65536)
      throw Unsupported{ "huge array value" };
    return Val::mkAgg(std::vector<Val>(a->getNumElements(), zero(a->getElementType())));
  }
  if (auto w = llvm::dyn_cast<llvm::FixedVectorType>(t))
    return Val::mkAgg(std::vector<Val>(w->getNumElements(), zero(w->getElementType())));
  throw Unsupported{ "zero type" };
}

Val
Machine::load(llvm::Type * t, uint64_t addr, uint64_t align, const void * site)
{
  if (auto s = llvm::dyn_cast<llvm::StructType>(t))
  {
    auto sl = DL.getStructLayout(s);
    access(addr, DL.getTypeStoreSize(t), align, false, "load");
    std::vector<Val> e;
    for (unsigned i = 0; i < s->getNumElements(); i++)
      e.push_back(load(s->getElementType(i), addr + sl->getElementOffset(i), 1, site));
    return Val::mkAgg(std::move(e));
  }
  if (llvm::isa<llvm::ArrayType>(t) || llvm::isa<llvm::FixedVectorType>(t))
  {
    auto et = elemType(t, 0);
    bool vec = t->isVectorTy();
    uint64_t n = vec ? llvm::cast<llvm::FixedVectorType>(t)->getNumElements() : t->getArrayNumElements();
    uint64_t es = vec ? DL.getTypeSizeInBits(et).getFixedValue() / 8 : DL.getTypeAllocSize(et).getFixedValue();
    if (vec && DL.getTypeSizeInBits(et).getFixedValue() % 8)
      throw Unsupported{ "bit vector in memory" };
    access(addr, DL.getTypeStoreSize(t), align, false, "load");
    std::vector<Val> e;
    for (uint64_t i = 0; i < n; i++)
      e.push_back(load(et, addr + i * es, 1, site));
    return Val::mkAgg(std::move(e));
  }
  uint64_t sz = DL.getTypeStoreSize(t);
  auto o = access(addr, sz, align, false, "load");
  uint64_t off = addr - o->base;
  onAccess(site, o, off, sz, false);
  unsigned bits = t->isPointerTy() ? 64 : (unsigned)DL.getTypeSizeInBits(t).getFixedValue();
  APInt v(std::max<unsigned>(bits, sz * 8), 0);
  bool und = false;
  for (uint64_t i = 0; i < sz; i++)
  {
    und = und || o->und[off + i];
    v.insertBits(APInt(8, o->bytes[off + i]), i * 8);
  }
  v = v.trunc(bits);
  Val r;
  r.k = t->isPointerTy() ? Val::Ptr : t->isFloatingPointTy() ? Val::Fp : Val::Int;
  r.i = v;
  r.und = und;
  return r;
}

void
Machine::store(llvm::Type * t, const Val & v, uint64_t addr, uint64_t align, const void * site, bool init)
{
  if (v.k == Val::None)
    throw Unsupported{ "store of non-value" };
  if (auto s = llvm::dyn_cast<llvm::StructType>(t))
  {
    auto sl = DL.getStructLayout(s);
    if (!init)
      access(addr, DL.getTypeStoreSize(t), align, true, "store");
    for (unsigned i = 0; i < s->getNumElements(); i++)
      store(s->getElementType(i), (*v.e)[i], addr + sl->getElementOffset(i), 1, site, init);
    return;
  }
  if (llvm::isa<llvm::ArrayType>(t) || llvm::isa<llvm::FixedVectorType>(t))
  {
    auto et = elemType(t, 0);
    bool vec = t->isVectorTy();
    uint64_t es = vec ? DL.getTypeSizeInBits(et).getFixedValue() / 8 : DL.getTypeAllocSize(et).getFixedValue();
    if (vec && DL.getTypeSizeInBits(et).getFixedValue() % 8)
      throw Unsupported{ "bit vector in memory" };
    if (!init)
      access(addr, DL.getTypeStoreSize(t), align, true, "store");
    for (uint64_t i = 0; i < v.e->size(); i++)
      store(et, (*v.e)[i], addr + i * es, 1, site, init);
    return;
  }
  uint64_t sz = DL.getTypeStoreSize(t);
  Obj * o;
  if (init)
  {
    o = lookup(addr);
    if (!o || addr + sz > o->base + o->size)
      throw UB{ "initializer out of bounds" };
  }
  else
    o = access(addr, sz, align, true, "store");
  uint64_t off = addr - o->base;
  if (!init)
    onAccess(site, o, off, sz, true);
  APInt x = v.i.zext(std::max<unsigned>(v.i.getBitWidth(), sz * 8));
  for (uint64_t i = 0; i < sz; i++)
  {
    o->bytes[off + i] = x.extractBitsAsZExtValue(8, i * 8);
    o->und[off + i] = v.und;
  }
}

void
Machine::memcopy(uint64_t dst, uint64_t src, uint64_t n, bool move, const void * site)
{
  if (n == 0)
    return;
  tick(n / 8);
  auto so = access(src, n, 1, false, "memcpy source");
  auto d = access(dst, n, 1, true, "memcpy destination");
  if (!move && so == d && src != dst && (src < dst ? src + n > dst : dst + n > src))
    throw UB{ "overlapping memcpy" };
  onAccess(site, so, src - so->base, n, false);
  onAccess(site, d, dst - d->base, n, true);
  std::vector<uint8_t> b(so->bytes.begin() + (src - so->base), so->bytes.begin() + (src - so->base) + n);
  std::vector<uint8_t> u(so->und.begin() + (src - so->base), so->und.begin() + (src - so->base) + n);
  std::copy(b.begin(), b.end(), d->bytes.begin() + (dst - d->base));
  std::copy(u.begin(), u.end(), d->und.begin() + (dst - d->base));
}

void
Machine::memset(uint64_t dst, const Val & byte, uint64_t n, const void * site)
{
  if (n == 0)
    return;
  tick(n / 8);
  auto d = access(dst, n, 1, true, "memset");
  onAccess(site, d, dst - d->base, n, true);
  for (uint64_t i = 0; i < n; i++)
  {
    d->bytes[dst - d->base + i] = byte.i.extractBitsAsZExtValue(8, 0);
    d->und[dst - d->base + i] = byte.und;
  }
}

void
Machine::freeObj(uint64_t addr, const void * site)
{
  if (addr == 0)
    return;
  auto it = objs.find(addr);
  if (it == objs.end() || it->second->kind != Obj::Heap || !it->second->live)
    throw UB{ "bad free" };
  onAccess(site, it->second.get(), 0, it->second->size, true);
  it->second->live = false;
}

bool
Machine::truth(const Val & v, const char * where)
{
  if (v.k != Val::Int)
    throw Unsupported{ "condition kind" };
  if (v.und)
    throw UB{ std::string("branch on undefined value in ") + where };
  return !v.i.isZero();
}

static Val
canonFp(const APFloat & f)
{
  if (f.isNaN())
    return Val::mkFp(APFloat::getQNaN(f.getSemantics()).bitcastToAPInt());
  return Val::mkFp(f.bitcastToAPInt());
}

Val
Machine::binop(unsigned opcode, const Val & a, const Val & b, bool nsw, bool nuw, bool exact)
{
  using I = llvm::Instruction;
  if (a.k == Val::Agg)
  {
    std::vector<Val> r;
    for (size_t k = 0; k < a.e->size(); k++)
      r.push_back(binop(opcode, (*a.e)[k], (*b.e)[k], nsw, nuw, exact));
    return Val::mkAgg(std::move(r));
  }
  bool div = opcode == I::UDiv || opcode == I::SDiv || opcode == I::URem || opcode == I::SRem;
  if (div)
  {
    if (b.und)
      throw UB{ "division by undefined" };
    if (b.i.isZero())
      throw UB{ "division by zero" };
    if ((opcode == I::SDiv || opcode == I::SRem) && b.i.isAllOnes() && (a.und || a.i.isMinSignedValue()))
      throw UB{ "signed division overflow" };
  }
  if (a.und || b.und)
    return poison(a);
  if (opcode == I::FAdd || opcode == I::FSub || opcode == I::FMul || opcode == I::FDiv || opcode == I::FRem)
  {
    auto & S = semantics(a.i.getBitWidth());
    APFloat x(S, a.i), y(S, b.i);
    switch (opcode)
    {
    case I::FAdd:
      x.add(y, APFloat::rmNearestTiesToEven);
      break;
    case I::FSub:
      x.subtract(y, APFloat::rmNearestTiesToEven);
      break;
    case I::FMul:
      x.multiply(y, APFloat::rmNearestTiesToEven);
      break;
    case I::FDiv:
      x.divide(y, APFloat::rmNearestTiesToEven);
      break;
    default:
      x.mod(y);
      break;
    }
    return canonFp(x);
  }
  const APInt &x = a.i, &y = b.i;
  bool so = false, uo = false;
  switch (opcode)
  {
  case I::Add:
  {
    APInt r = x.sadd_ov(y, so);
    (void)x.uadd_ov(y, uo);
    if ((nsw && so) || (nuw && uo))
      return poison(a);
    return Val::mkInt(r);
  }
  case I::Sub:
  {
    APInt r = x.ssub_ov(y, so);
    (void)x.usub_ov(y, uo);
    if ((nsw && so) || (nuw && uo))
      return poison(a);
    return Val::mkInt(r);
  }
  case I::Mul:
  {
    APInt r = x * y;
    (void)x.smul_ov(y, so);
    (void)x.umul_ov(y, uo);
    if ((nsw && so) || (nuw && uo))
      return poison(a);
    return Val::mkInt(r);
  }
  case I::UDiv:
    if (exact && x.urem(y) != 0)
      return poison(a);
    return Val::mkInt(x.udiv(y));
  case I::SDiv:
    if (exact && x.srem(y) != 0)
      return poison(a);
    return Val::mkInt(x.sdiv(y));
  case I::URem:
    return Val::mkInt(x.urem(y));
  case I::SRem:
    return Val::mkInt(x.srem(y));
  case I::Shl:
  {
    if (y.uge(x.getBitWidth()))
      return poison(a);
    APInt r = x.shl(y);
    if ((nsw && r.ashr(y) != x) || (nuw && r.lshr(y) != x))
      return poison(a);
    return Val::mkInt(r);
  }
  case I::LShr:
    if (y.uge(x.getBitWidth()) || (exact && x.lshr(y).shl(y) != x))
      return poison(a);
    return Val::mkInt(x.lshr(y));
  case I::AShr:
    if (y.uge(x.getBitWidth()) || (exact && x.ashr(y).shl(y) != x))
      return poison(a);
    return Val::mkInt(x.ashr(y));
  case I::And:
    return Val::mkInt(x & y);
  case I::Or:
    return Val::mkInt(x | y);
  case I::Xor:
    return Val::mkInt(x ^ y);
  }
  throw Unsupported{ "binary opcode" };
}

Val
Machine::icmp(llvm::CmpInst::Predicate p, const Val & a, const Val & b)
{
  if (a.k == Val::Agg)
  {
    std::vector<Val> r;
    for (size_t k = 0; k < a.e->size(); k++)
      r.push_back(icmp(p, (*a.e)[k], (*b.e)[k]));
    return Val::mkAgg(std::move(r));
  }
  if (a.und || b.und)
    return poison(Val::mkInt(1, 0));
  return Val::mkInt(1, llvm::ICmpInst::compare(a.i, b.i, p));
}

Val
Machine::fcmp(llvm::CmpInst::Predicate p, const Val & a, const Val & b)
{
  if (a.k == Val::Agg)
  {
    std::vector<Val> r;
    for (size_t k = 0; k < a.e->size(); k++)
      r.push_back(fcmp(p, (*a.e)[k], (*b.e)[k]));
    return Val::mkAgg(std::move(r));
  }
  if (a.und || b.und)
    return poison(Val::mkInt(1, 0));
  auto & S = semantics(a.i.getBitWidth());
  return Val::mkInt(1, llvm::FCmpInst::compare(APFloat(S, a.i), APFloat(S, b.i), p));
}

Val
Machine::fneg(const Val & a)
{
  if (a.k == Val::Agg)
  {
    std::vector<Val> r;
    for (auto & x : *a.e)
      r.push_back(fneg(x));
    return Val::mkAgg(std::move(r));
  }
  if (a.und)
    return a;
  APFloat x(semantics(a.i.getBitWidth()), a.i);
  x.changeSign();
  return Val::mkFp(x.bitcastToAPInt());
}

static APInt
flatten(const Val & v, bool & und)
{
  if (v.k != Val::Agg)
  {
    und = und || v.und;
    return v.i;
  }
  APInt r(1, 0);
  unsigned total = 0;
  std::vector<APInt> parts;
  for (auto & x : *v.e)
  {
    parts.push_back(flatten(x, und));
    total += parts.back().getBitWidth();
  }
  r = APInt(total, 0);
  unsigned o = 0;
  for (auto & p : parts)
  {
    r.insertBits(p, o);
    o += p.getBitWidth();
  }
  return r;
}

Val
Machine::cast(unsigned opcode, const Val & a, llvm::Type * src, llvm::Type * dst, bool nneg)
{
  using I = llvm::Instruction;
  if (opcode == I::BitCast)
  {
    if (a.k == Val::Ptr)
      return a;
    bool und = false;
    APInt bits = flatten(a, und);
    auto one = [&](const APInt & b, llvm::Type * t)
    {
      Val v = t->isFloatingPointTy() ? Val::mkFp(b) : Val::mkInt(b);
      if (t->isPointerTy())
        throw Unsupported{ "bitcast to pointer" };
      if (und)
        v = poison(v);
      return v;
    };
    if (auto w = llvm::dyn_cast<llvm::FixedVectorType>(dst))
    {
      std::vector<Val> r;
      unsigned eb = w->getElementType()->getPrimitiveSizeInBits();
      if (eb == 0)
        throw Unsupported{ "bitcast vector" };
      for (unsigned k = 0; k < w->getNumElements(); k++)
        r.push_back(one(bits.extractBits(eb, k * eb), w->getElementType()));
      return Val::mkAgg(std::move(r));
    }
    return one(bits, dst);
  }
  if (a.k == Val::Agg)
  {
    std::vector<Val> r;
    for (auto & x : *a.e)
      r.push_back(cast(opcode, x, elemType(src, 0), elemType(dst, 0), nneg));
    return Val::mkAgg(std::move(r));
  }
  unsigned db = dst->isPointerTy() ? 64 : dst->getPrimitiveSizeInBits().getFixedValue();
  Val shape = dst->isPointerTy() ? Val::mkPtr(0) : dst->isFloatingPointTy() ? Val::mkFp(APInt(db, 0)) : Val::mkInt(APInt(db, 0));
  if (a.und)
    return poison(shape);
  switch (opcode)
  {
  case I::Trunc:
    return Val::mkInt(a.i.trunc(db));
  case I::ZExt:
    if (nneg && a.i.isNegative())
      return poison(shape);
    return Val::mkInt(a.i.zext(db));
  case I::SExt:
    return Val::mkInt(a.i.sext(db));
  case I::PtrToInt:
    return Val::mkInt(a.i.zextOrTrunc(db));
  case I::IntToPtr:
    return Val::mkPtr(a.i.zextOrTrunc(64).getZExtValue());
  case I::FPTrunc:
  case I::FPExt:
  {
    APFloat f(semantics(a.i.getBitWidth()), a.i);
    bool loses;
    f.convert(semantics(db), APFloat::rmNearestTiesToEven, &loses);
    return canonFp(f);
  }
  case I::UIToFP:
  case I::SIToFP:
  {
    if (nneg && a.i.isNegative())
      return poison(shape);
    APFloat f(semantics(db));
    f.convertFromAPInt(a.i, opcode == I::SIToFP, APFloat::rmNearestTiesToEven);
    return Val::mkFp(f.bitcastToAPInt());
  }
  case I::FPToUI:
  case I::FPToSI:
  {
    APFloat f(semantics(a.i.getBitWidth()), a.i);
    llvm::APSInt r(db, opcode == I::FPToUI);
    bool exact;
    if (f.convertToInteger(r, APFloat::rmTowardZero, &exact) == APFloat::opInvalidOp)
      return poison(shape);
    return Val::mkInt(r);
  }
  }
  throw Unsupported{ "cast opcode" };
}

Val
Machine::extractValue(const Val & a, const std::vector<unsigned> & idx)
{
  const Val * p = &a;
  for (auto i : idx)
    p = &p->e->at(i);
  return *p;
}

Val
Machine::insertValue(const Val & a, const Val & x, const std::vector<unsigned> & idx, size_t at)
{
  if (at == idx.size())
    return x;
  auto v = *a.e;
  v.at(idx[at]) = insertValue(v.at(idx[at]), x, idx, at + 1);
  return Val::mkAgg(std::move(v));
}

Val
Machine::extractElement(const Val & v, const Val & idx)
{
  if (idx.und || idx.i.uge(v.e->size()))
    return poison(v.e->at(0));
  return v.e->at(idx.u());
}

Val
Machine::insertElement(const Val & v, const Val & x, const Val & idx)
{
  if (idx.und || idx.i.uge(v.e->size()))
    return poison(v);
  auto e = *v.e;
  e[idx.u()] = x;
  return Val::mkAgg(std::move(e));
}

Val
Machine::intrinsic(const std::string & name, const std::vector<Val> & A, llvm::Type * ret, const void * site)
{
  auto is = [&](const char * p)
  {
    std::string s = std::string("llvm.") + p;
    return name.compare(0, s.size(), s) == 0 && (name.size() == s.size() || name[s.size()] == '.');
  };
  // elementwise on vectors
  if (ret && ret->isVectorTy() && !A.empty() && A[0].k == Val::Agg)
  {
    std::vector<Val> r;
    for (size_t k = 0; k < A[0].e->size(); k++)
    {
      std::vector<Val> B;
      for (auto & a : A)
        B.push_back(a.k == Val::Agg ? (*a.e)[k] : a);
      r.push_back(intrinsic(name, B, elemType(ret, 0), site));
    }
    return Val::mkAgg(std::move(r));
  }
  if (is("lifetime.start") || is("lifetime.end") || is("assume") || is("experimental.noalias.scope.decl")
      || is("prefetch") || is("donothing"))
  {
    if (is("lifetime.start") || is("lifetime.end"))
      throw Unsupported{ "lifetime" };
    return Val();
  }
  if (is("memcpy") || is("memmove"))
  {
    if (A[0].und || A[1].und || A[2].und)
      throw UB{ "memcpy of undefined" };
    if (!A[3].i.isZero())
    {
      volatileEvent(true, A[0].u(), A[2].u(), A[2]);
    }
    memcopy(A[0].u(), A[1].u(), A[2].u(), is("memmove"), site);
    return Val();
  }
  if (is("memset"))
  {
    if (A[0].und || A[2].und)
      throw UB{ "memset of undefined" };
    memset(A[0].u(), A[1], A[2].u(), site);
    return Val();
  }
  if (is("expect"))
    return A[0];
  if (is("is.constant"))
    throw Unsupported{ "is.constant" };
  if (is("ptrmask"))
  {
    if (A[0].und || A[1].und)
      return poison(A[0]);
    return Val::mkPtr(A[0].u() & A[1].u());
  }
  bool und = false;
  for (auto & a : A)
    und = und || a.anyUnd();
  auto res = [&](Val v)
  {
    return und ? poison(v) : v;
  };
  if (is("umax"))
    return res(Val::mkInt(llvm::APIntOps::umax(A[0].i, A[1].i)));
  if (is("umin"))
    return res(Val::mkInt(llvm::APIntOps::umin(A[0].i, A[1].i)));
  if (is("smax"))
    return res(Val::mkInt(llvm::APIntOps::smax(A[0].i, A[1].i)));
  if (is("smin"))
    return res(Val::mkInt(llvm::APIntOps::smin(A[0].i, A[1].i)));
  if (is("abs"))
  {
    if (!und && A[0].i.isMinSignedValue() && !A[1].i.isZero())
      return poison(A[0]);
    return res(Val::mkInt(A[0].i.abs()));
  }
  if (is("bswap"))
    return res(Val::mkInt(A[0].i.byteSwap()));
  if (is("bitreverse"))
    return res(Val::mkInt(A[0].i.reverseBits()));
  if (is("ctpop"))
    return res(Val::mkInt(A[0].i.getBitWidth(), A[0].i.popcount()));
  if (is("ctlz") || is("cttz"))
  {
    if (!und && A[0].i.isZero() && !A[1].i.isZero())
      return poison(A[0]);
    return res(Val::mkInt(A[0].i.getBitWidth(), is("ctlz") ? A[0].i.countl_zero() : A[0].i.countr_zero()));
  }
  if (is("fshl") || is("fshr"))
  {
    unsigned w = A[0].i.getBitWidth();
    unsigned s = A[2].i.urem(w);
    if (is("fshl"))
      return res(Val::mkInt(s == 0 ? A[0].i : (A[0].i.shl(s) | A[1].i.lshr(w - s))));
    return res(Val::mkInt(s == 0 ? A[1].i : (A[0].i.shl(w - s) | A[1].i.lshr(s))));
  }
  if (is("sadd.sat"))
    return res(Val::mkInt(A[0].i.sadd_sat(A[1].i)));
  if (is("uadd.sat"))
    return res(Val::mkInt(A[0].i.uadd_sat(A[1].i)));
  if (is("ssub.sat"))
    return res(Val::mkInt(A[0].i.ssub_sat(A[1].i)));
  if (is("usub.sat"))
    return res(Val::mkInt(A[0].i.usub_sat(A[1].i)));
  {
    bool ov = false;
    APInt r;
    bool hit = true;
    if (is("sadd.with.overflow"))
      r = A[0].i.sadd_ov(A[1].i, ov);
    else if (is("uadd.with.overflow"))
      r = A[0].i.uadd_ov(A[1].i, ov);
    else if (is("ssub.with.overflow"))
      r = A[0].i.ssub_ov(A[1].i, ov);
    else if (is("usub.with.overflow"))
      r = A[0].i.usub_ov(A[1].i, ov);
    else if (is("smul.with.overflow"))
      r = A[0].i.smul_ov(A[1].i, ov);
    else if (is("umul.with.overflow"))
      r = A[0].i.umul_ov(A[1].i, ov);
    else
      hit = false;
    if (hit)
    {
      auto v = Val::mkAgg({ Val::mkInt(r), Val::mkInt(1, ov) });
      return und ? poison(v) : v;
    }
  }
  if (A.size() && A[0].k == Val::Fp)
  {
    auto & S = semantics(A[0].i.getBitWidth());
    APFloat x(S, A[0].i);
    if (is("fabs"))
    {
      x.clearSign();
      return res(Val::mkFp(x.bitcastToAPInt()));
    }
    if (is("copysign"))
    {
      x.copySign(APFloat(S, A[1].i));
      return res(Val::mkFp(x.bitcastToAPInt()));
    }
    auto round = [&](llvm::RoundingMode m)
    {
      x.roundToIntegral(m);
      return res(canonFp(x));
    };
    if (is("floor"))
      return round(llvm::RoundingMode::TowardNegative);
    if (is("ceil"))
      return round(llvm::RoundingMode::TowardPositive);
    if (is("trunc"))
      return round(llvm::RoundingMode::TowardZero);
    if (is("round"))
      return round(llvm::RoundingMode::NearestTiesToAway);
    if (is("rint"))
      return round(llvm::RoundingMode::NearestTiesToEven);
    if (is("fmuladd"))
    {
      // either fused or not is permitted; both sides use the unfused form
      APFloat y(S, A[1].i), z(S, A[2].i);
      x.multiply(y, APFloat::rmNearestTiesToEven);
      x.add(z, APFloat::rmNearestTiesToEven);
      return res(canonFp(x));
    }
    if (is("fma"))
    {
      APFloat y(S, A[1].i), z(S, A[2].i);
      x.fusedMultiplyAdd(y, z, APFloat::rmNearestTiesToEven);
      return res(canonFp(x));
    }
    if (is("maxnum") || is("minnum"))
    {
      APFloat y(S, A[1].i);
      return res(canonFp(is("maxnum") ? llvm::maxnum(x, y) : llvm::minnum(x, y)));
    }
    if (is("maximum") || is("minimum"))
    {
      APFloat y(S, A[1].i);
      return res(canonFp(is("maximum") ? llvm::maximum(x, y) : llvm::minimum(x, y)));
    }
    if (is("is.fpclass"))
    {
      unsigned m = A[1].u();
      unsigned c = 0;
      bool neg = x.isNegative();
      if (x.isNaN())
        c = x.isSignaling() ? 1 : 2;
      else if (x.isInfinity())
        c = neg ? 4 : 512;
      else if (x.isZero())
        c = neg ? 32 : 64;
      else if (x.isDenormal())
        c = neg ? 16 : 128;
      else
        c = neg ? 8 : 256;
      return res(Val::mkInt(1, (m & c) != 0));
    }
  }
  throw Unsupported{ "intrinsic " + name };
}

// ------------------------------------------------------------------------------------- external world

int
Machine::snapObj(Event & e, std::map<Obj *, int> & idx, Obj * o)
{
  auto it = idx.find(o);
  if (it != idx.end())
    return it->second;
  int n = e.objs.size();
  idx[o] = n;
  SnapObj s;
  s.kind = o->kind;
  s.name = o->name;
  s.size = o->size;
  s.id = o->id;
  if (o->live && o->kind != Obj::Function)
  {
    s.bytes = o->bytes;
    s.und = o->und;
  }
  e.objs.push_back(std::move(s));
  if (o->live && o->kind != Obj::Function)
  {
    for (uint64_t k = 0; k + 8 <= o->size; k += 8)
    {
      uint64_t a = 0;
      bool u = false;
      for (int j = 7; j >= 0; j--)
      {
        a = a << 8 | o->bytes[k + j];
        u = u || o->und[k + j];
      }
      if (u || a < 0x5ad3c7e00000ull)
        continue;
      if (auto t = lookup(a))
      {
        int ti = t->live ? snapObj(e, idx, t) : -1;
        e.objs[n].ptrs.push_back({ k, ti, a - t->base });
      }
    }
  }
  return n;
}

SnapVal
Machine::snapVal(Event & e, std::map<Obj *, int> & idx, const Val & v)
{
  SnapVal s;
  s.k = v.k;
  if (v.k == Val::Agg)
  {
    for (auto & x : *v.e)
      s.e.push_back(snapVal(e, idx, x));
    return s;
  }
  s.und = v.und;
  s.i = v.i;
  if (!v.und && (v.k == Val::Ptr || (v.k == Val::Int && v.i.getBitWidth() == 64)))
  {
    uint64_t a = v.u();
    if (a >= 0x5ad3c7e00000ull)
      if (auto o = lookup(a))
      {
        s.ptr = true;
        s.off = a - o->base;
        s.obj = o->live ? snapObj(e, idx, o) : -1;
      }
  }
  return s;
}

static bool
exportedData(const Obj & o)
{
  return o.kind == Obj::Global && o.exported && !o.constant;
}

void
Machine::event(Event e, const std::vector<Val> & vals, bool closure)
{
  if (!strict && expected)
  {
    if (eventCount >= expected->size())
      throw Mismatch{ "extra observable event", "unexpected event '" + e.what + "' after "
                                                    + std::to_string(expected->size()) + " events" };
    compare((*expected)[eventCount], e.what, vals, closure);
  }
  std::map<Obj *, int> idx;
  std::string what = e.what;
  for (auto & v : vals)
    e.vals.push_back(snapVal(e, idx, v));
  if (closure)
  {
    for (auto & [n, o] : globals)
      if (exportedData(*o))
        snapObj(e, idx, o);
    for (auto & [o, off] : stash)
      e.roots.push_back(o->live ? snapObj(e, idx, o) : -1);
  }
  trace.push_back(std::move(e));
  eventCount++;
}

void
Machine::relate(const Event & want, int obj, Obj * o, const std::string & where)
{
  const SnapObj & w = want.objs[obj];
  auto it = srcToTgt.find(w.id);
  if (it != srcToTgt.end())
  {
    if (it->second != o->id)
      throw Mismatch{ "observed pointer differs", where + ": points to a different object than before" };
  }
  else
  {
    if (w.kind == Obj::Global || w.kind == Obj::Function)
    {
      // named, visible objects must be the same ones; private ones may be renamed
      if (o->kind != w.kind)
        throw Mismatch{ "observed pointer differs", where + ": expected " + w.name + ", got " + o->name };
      if ((w.name != o->name) && (globals.count(w.name) && globals.at(w.name)->exported))
        throw Mismatch{ "observed pointer differs", where + ": expected " + w.name + ", got " + o->name };
    }
    // objects whose lifetimes do not overlap may share their memory
    if (auto prev = tgtToSrc.find(o->id); prev != tgtToSrc.end() && expectedDeaths)
      if (auto d = expectedDeaths->find(prev->second); d != expectedDeaths->end() && d->second <= eventCount)
      {
        srcToTgt.erase(prev->second);
        tgtToSrc.erase(prev);
      }
    if (tgtToSrc.count(o->id) && o->size != 0 && w.size != 0)
      throw Mismatch{ "observed pointer differs", where + ": distinct objects have become one" };
    srcToTgt[w.id] = o->id;
    tgtToSrc[o->id] = w.id;
  }
  pending_.push_back({ obj, o });
}

void
Machine::compareVal(const Event & want, const SnapVal & w, const Val & v, const std::string & where)
{
  if (w.k == Val::Agg)
  {
    if (v.k != Val::Agg || v.e->size() != w.e.size())
      throw Mismatch{ "observed value differs", where + ": shape" };
    for (size_t i = 0; i < w.e.size(); i++)
      compareVal(want, w.e[i], (*v.e)[i], where + "." + std::to_string(i));
    return;
  }
  if (w.und)
    return;
  if (w.k != v.k)
    throw Mismatch{ "observed value differs", where + ": kind" };
  if (w.k == Val::None)
    return;
  if (w.i.getBitWidth() != v.i.getBitWidth())
    throw Mismatch{ "observed value differs", where + ": width" };
  if (w.ptr)
  {
    if (w.obj < 0)
      return;
    auto o = lookup(v.u());
    if (!o)
      throw Mismatch{ "observed pointer differs", where + ": not a valid pointer" };
    if (v.u() - o->base != w.off)
      throw Mismatch{ "observed pointer differs",
                      where + ": offset " + std::to_string(v.u() - o->base) + " instead of " + std::to_string(w.off) };
    relate(want, w.obj, o, where);
    return;
  }
  if (w.k == Val::Fp)
  {
    APFloat a(semantics(w.i.getBitWidth()), w.i), b(semantics(w.i.getBitWidth()), v.i);
    if (a.isNaN() && b.isNaN())
      return;
  }
  if (w.i != v.i)
  {
    Val x;
    x.k = w.k;
    x.i = w.i;
    throw Mismatch{ "observed value differs", where + ": " + show(v) + " instead of " + show(x) };
  }
}

void
Machine::compareObjs(const Event & want)
{
  std::map<int, bool> done;
  while (!pending_.empty())
  {
    auto [wi, o] = pending_.back();
    pending_.pop_back();
    if (done[wi])
      continue;
    done[wi] = true;
    const SnapObj & w = want.objs[wi];
    if (w.kind == Obj::Function)
      continue;
    std::string nm = w.name.empty() ? "object#" + std::to_string(w.id) : w.name;
    if (w.bytes.empty())
      continue;
    if (!o->live)
      throw Mismatch{ "observed memory differs", nm + " is no longer alive" };
    if (o->size < w.size)
      throw Mismatch{ "observed memory differs", nm + " became smaller" };
    std::vector<bool> skip(w.size, false);
    for (auto & p : w.ptrs)
    {
      uint64_t a = 0;
      for (int j = 7; j >= 0; j--)
        a = a << 8 | o->bytes[p.slot + j];
      for (int j = 0; j < 8; j++)
        skip[p.slot + j] = true;
      if (p.obj < 0)
        continue;
      std::string where = nm + "+" + std::to_string(p.slot) + " in " + want.what;
      auto t = lookup(a);
      if (!t)
        throw Mismatch{ "observed memory differs", where + ": not a valid pointer" };
      if (a - t->base != p.off)
        throw Mismatch{ "observed memory differs", where + ": pointer offset" };
      relate(want, p.obj, t, where);
    }
    for (uint64_t k = 0; k < w.size; k++)
    {
      if (skip[k] || w.und[k])
        continue;
      if (w.bytes[k] != o->bytes[k])
        throw Mismatch{ "observed memory differs", "byte " + std::to_string(k) + " of " + nm + " at event " + want.what
                                                       + ": " + std::to_string(o->bytes[k]) + " instead of "
                                                       + std::to_string(w.bytes[k]) };
    }
  }
}

void
Machine::compare(const Event & want, const std::string & what, const std::vector<Val> & vals, bool closure)
{
  pending_.clear();
  std::string at = "event " + std::to_string(eventCount) + " (" + want.what + ")";
  if (want.what != what)
    throw Mismatch{ "different observable event", at + ": got '" + what + "'" };
  if (want.vals.size() != vals.size())
    throw Mismatch{ "different observable event", at + ": number of values" };
  for (size_t i = 0; i < vals.size(); i++)
    compareVal(want, want.vals[i], vals[i], at + " value " + std::to_string(i));
  if (closure)
  {
    for (size_t i = 0; i < want.objs.size(); i++)
    {
      auto & w = want.objs[i];
      if (w.kind == Obj::Global && !srcToTgt.count(w.id))
      {
        auto it = globals.find(w.name);
        if (it != globals.end() && it->second->exported && exportedData(*it->second))
          relate(want, i, it->second, at + " global " + w.name);
      }
      else if (w.kind == Obj::Global)
      {
        auto it = globals.find(w.name);
        if (it != globals.end() && exportedData(*it->second))
          pending_.push_back({ (int)i, it->second });
      }
    }
    for (size_t i = 0; i < want.roots.size() && i < stash.size(); i++)
      if (want.roots[i] >= 0)
        relate(want, want.roots[i], stash[i].first, at + " stashed pointer");
  }
  compareObjs(want);
}

void
Machine::volatileEvent(bool isStore, uint64_t addr, uint64_t, const Val & v)
{
  std::vector<Val> vals{ Val::mkPtr(addr), v };
  // the pointee is identified but its memory is not observed
  auto o = lookup(addr);
  if (!o)
    throw UB{ "volatile access out of bounds" };
  Event e;
  e.what = isStore ? "volatile store" : "volatile load";
  e.what += " " + ((o->kind == Obj::Global && o->exported) ? o->name : std::string("private"));
  if (o->kind != Obj::Alloca) // the layout of stack memory is up to the implementation
    e.what += "+" + std::to_string(addr - o->base);
  event(std::move(e), { v }, false);
}

void
Machine::finishEvent(const std::string & what, const std::vector<Val> & vals)
{
  Event e;
  e.what = what;
  event(std::move(e), vals, true);
}

Val
Machine::externalCall(
    const std::string & name,
    llvm::FunctionType * ft,
    const std::vector<Val> & args,
    const void * site)
{
  tick(5);
  if (name == "malloc")
  {
    if (args[0].und)
      throw UB{ "malloc of undefined size" };
    return Val::mkPtr(allocate(args[0].u(), 16, Obj::Heap, "", site)->base);
  }
  if (name == "free")
  {
    if (args[0].und)
      throw UB{ "free of undefined" };
    freeObj(args[0].u(), site);
    return Val();
  }
  if (name.rfind("llvm.", 0) == 0)
    return intrinsic(name, args, ft->getReturnType(), site);
  if (name.rfind("ext", 0) != 0)
    throw Unsupported{ "external function " + name };

  for (auto & a : args)
    if (a.k == Val::Ptr && a.und)
      throw UB{ "undefined pointer passed to external code" };
  finishEvent("call " + name, args);
  auto has = [&](char c)
  {
    // ext_<flags>_... : flags is the part between the first and second underscore
    auto b = name.find('_');
    if (b == std::string::npos)
      return false;
    auto e = name.find('_', b + 1);
    std::string f = name.substr(b + 1, e == std::string::npos ? e : e - b - 1);
    return f.find(c) != std::string::npos;
  };
  // Effects are decided on the source run and replayed on the target run by object correspondence, so that both
  // sides see exactly the same external behaviour.
  struct Eff
  {
    Obj * o;
    uint64_t off;
  };
  std::vector<Eff> writes;
  uint64_t ev = eventCount - 1;
  const Event * src = (!strict && expected && ev < expected->size()) ? &(*expected)[ev] : nullptr;
  auto canWrite = [&](Obj * o, uint64_t off) -> bool
  {
    if (!o || !o->live || o->constant || o->kind == Obj::Function || off + 4 > o->size)
      return false;
    if (src)
    {
      // decide by what the source object looked like
      auto it = tgtToSrc.find(o->id);
      if (it == tgtToSrc.end())
        return false;
      for (auto & w : src->objs)
        if (w.id == it->second)
        {
          if (off + 4 > w.size || w.bytes.empty())
            return false;
          for (auto & p : w.ptrs)
            if (p.slot < off + 4 && off < p.slot + 8)
              return false;
          return true;
        }
      return false;
    }
    const Event & me = trace[ev];
    for (auto & w : me.objs)
      if (w.id == o->id)
      {
        for (auto & p : w.ptrs)
          if (p.slot < off + 4 && off < p.slot + 8)
            return false;
        return !w.bytes.empty();
      }
    return false;
  };
  auto doWrite = [&](Obj * o, uint64_t off, uint64_t salt)
  {
    if (!canWrite(o, off))
      return;
    uint64_t r = rnd(salt);
    onAccess(site, o, off, 4, true);
    for (int j = 0; j < 4; j++)
    {
      o->bytes[off + j] = r >> (8 * j);
      o->und[off + j] = 0;
    }
  };
  if (has('w'))
    for (size_t i = 0; i < args.size(); i++)
      if (args[i].k == Val::Ptr && !args[i].und && args[i].u())
      {
        auto o = lookup(args[i].u());
        if (o)
        {
          doWrite(o, args[i].u() - o->base, 100 + i);
          // occasionally somewhere else in the same object
          if (o->size >= 8 && o->kind != Obj::Function)
          {
            uint64_t sz = o->size;
            if (src)
            {
              auto it = tgtToSrc.find(o->id);
              if (it != tgtToSrc.end())
                for (auto & w : src->objs)
                  if (w.id == it->second)
                    sz = w.size;
            }
            doWrite(o, rnd(150 + i) % (sz / 4) * 4, 160 + i);
          }
        }
      }
  if (has('u'))
    for (size_t i = 0; i < stash.size(); i++)
    {
      bool live = stash[i].first->live;
      if (src && i < src->roots.size())
        live = src->roots[i] >= 0;
      if (live)
        doWrite(stash[i].first, stash[i].second, 200 + i);
    }
  if (has('g'))
  {
    uint64_t k = 0;
    for (auto & [n, o] : globals)
      if (exportedData(*o))
      {
        k++;
        if (rnd(300 + pbt::fnv(n)) % 2 && o->size >= 4)
          doWrite(o, rnd(301 + pbt::fnv(n)) % (o->size / 4) * 4, 302 + pbt::fnv(n));
      }
  }
  if (has('s'))
    for (auto & a : args)
      if (a.k == Val::Ptr && !a.und && a.u() && stash.size() < 8)
        if (auto o = lookup(a.u()))
          if (o->live && o->kind != Obj::Function)
            stash.push_back({ o, a.u() - o->base });
  if (has('z') && !args.empty() && args[0].k == Val::Ptr)
  {
    // puts a pointer to an exported global into the slot it is given
    auto o = lookup(args[0].u());
    std::vector<Obj *> cand;
    for (auto & [n, g] : globals)
      if (exportedData(*g) && n.rfind("xg", 0) == 0 && g->size >= 16)
        cand.push_back(g);
    if (o && o->live && !o->constant && o->kind != Obj::Function && !cand.empty() && args[0].u() - o->base + 8 <= o->size)
    {
      uint64_t off = args[0].u() - o->base, v = cand[rnd(8) % cand.size()]->base;
      onAccess(site, o, off, 8, true);
      for (int j = 0; j < 8; j++)
      {
        o->bytes[off + j] = v >> (8 * j);
        o->und[off + j] = 0;
      }
    }
  }
  if (has('x') && rnd(7) % 4 == 0)
    throw ProgramExit{};
  if (has('c') && callbackDepth < 3)
  {
    callbackDepth++;
    for (auto & a : args)
      if (a.k == Val::Ptr && !a.und && a.u())
      {
        auto o = lookup(a.u());
        if (!o || o->kind != Obj::Function || a.u() != o->base)
          continue;
        auto info = calleeInfo(o);
        if (!info.type || !info.defined)
          continue;
        bool ok = true;
        std::vector<Val> as;
        for (auto t : info.type->params())
        {
          if (t->isIntegerTy())
            as.push_back(Val::mkInt(APInt(t->getIntegerBitWidth(), rnd(400 + as.size()) % 7)));
          else
            ok = false;
        }
        if (!ok || info.type->isVarArg())
          continue;
        auto r = callFunction(o, as);
        finishEvent("callback return", r.k == Val::None ? std::vector<Val>{} : std::vector<Val>{ r });
      }
    callbackDepth--;
  }
  if (has('e') && callbackDepth < 3)
  {
    // external code may call any exported function
    callbackDepth++;
    std::vector<Obj *> cand;
    for (auto & [n, o] : globals)
      if (o->kind == Obj::Function && o->exported && n.rfind("cbk", 0) == 0)
        cand.push_back(o);
    if (!cand.empty())
    {
      auto o = cand[rnd(500) % cand.size()];
      auto info = calleeInfo(o);
      bool ok = info.type && info.defined && !info.type->isVarArg();
      std::vector<Val> as;
      if (ok)
        for (auto t : info.type->params())
        {
          if (t->isIntegerTy())
            as.push_back(Val::mkInt(APInt(t->getIntegerBitWidth(), rnd(510 + as.size()) % 7)));
          else
            ok = false;
        }
      if (ok)
      {
        auto r = callFunction(o, as);
        finishEvent("callback return", r.k == Val::None ? std::vector<Val>{} : std::vector<Val>{ r });
      }
    }
    callbackDepth--;
  }
  auto rt = ft->getReturnType();
  if (rt->isVoidTy())
    return Val();
  if (rt->isIntegerTy())
  {
    uint64_t r = rnd(1);
    if (r % 3 == 0)
      r = r / 3 % 8;
    return Val::mkInt(APInt(rt->getIntegerBitWidth(), r));
  }
  if (rt->isFloatTy() || rt->isDoubleTy())
  {
    APFloat f(semantics(rt->getPrimitiveSizeInBits()));
    f.convertFromAPInt(APInt(32, rnd(2) % 64), false, APFloat::rmNearestTiesToEven);
    return Val::mkFp(f.bitcastToAPInt());
  }
  if (rt->isPointerTy() && has('i') && !args.empty() && args[0].k == Val::Ptr)
    return args[0];
  if (rt->isPointerTy())
  {
    // a pointer to at least 16 bytes of integer data: a stashed object, an exported global, or fresh memory
    std::vector<std::pair<Obj *, uint64_t>> cand;
    if (has('q'))
    {
      for (size_t i = 0; i < stash.size(); i++)
      {
        bool live = stash[i].first->live;
        if (src && i < src->roots.size())
          live = src->roots[i] >= 0;
        uint64_t sz = stash[i].first->size;
        bool plain = true;
        const Event & me = src ? *src : trace[ev];
        unsigned id = src ? (tgtToSrc.count(stash[i].first->id) ? tgtToSrc[stash[i].first->id] : ~0u) : stash[i].first->id;
        bool found = false;
        for (auto & w : me.objs)
          if (w.id == id)
          {
            found = true;
            sz = w.size;
            plain = w.ptrs.empty() && w.bytes.size() == w.size;
            for (auto x : w.und)
              plain = plain && !x;
          }
        if (live && found && plain && sz >= stash[i].second + 16 && !stash[i].first->constant)
          cand.push_back(stash[i]);
      }
    }
    if (has('p') || has('q'))
      for (auto & [n, o] : globals)
        if (exportedData(*o) && n.rfind("xg", 0) == 0 && o->size >= 16)
          cand.push_back({ o, 0 });
    if (!cand.empty() && rnd(3) % 4 != 0)
    {
      auto & c = cand[rnd(4) % cand.size()];
      return Val::mkPtr(c.first->base + c.second);
    }
    auto o = allocate(64, 16, Obj::ExtMem, "", nullptr);
    for (size_t k = 0; k < o->size; k++)
    {
      o->bytes[k] = k % 4 < 1 ? rnd(600 + k) : 0;
      o->und[k] = 0;
    }
    return Val::mkPtr(o->base);
  }
  throw Unsupported{ "external return type" };
}

}
