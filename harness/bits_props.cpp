// U04: bit strings (BitValueRepresentation and the operations on BitType values) against integers of arbitrary size.
#include "pbt.hpp"

#include <jlm/rvsdg/bitstring.hpp>
#include <jlm/rvsdg/binary.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/graph.hpp>
#include <jlm/rvsdg/NodeNormalization.hpp>
#include <jlm/rvsdg/view.hpp>

#include <boost/multiprecision/cpp_int.hpp>

#include <sstream>

namespace
{
using pbt::Ctx;
using namespace jlm::rvsdg;
using Int = boost::multiprecision::cpp_int;
using Rep = BitValueRepresentation;

Int
pow2(size_t w)
{
  return Int(1) << w;
}

Int
wrap(Int v, size_t w)
{
  Int m = pow2(w);
  v %= m;
  if (v < 0)
    v += m;
  return v;
}

Int
sgn(const Int & v, size_t w)
{
  return bit_test(v, w - 1) ? v - pow2(w) : v;
}

Int
floorShift(const Int & v, size_t s)
{
  Int p = pow2(s);
  Int q = v / p;
  if (v < 0 && q * p != v)
    q -= 1;
  return q;
}

std::string
bitsOf(const Int & v, size_t w)
{
  std::string s;
  for (size_t i = 0; i < w; i++)
    s += bit_test(v, i) ? '1' : '0';
  return s;
}

Int
intOf(const std::string & s)
{
  Int v = 0;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '1')
      bit_set(v, i);
  return v;
}

enum Bin
{
  Add,
  Sub,
  Mul,
  And,
  Or,
  Xor,
  Shl,
  Shr,
  Ashr,
  UMulH,
  SMulH,
  UDiv,
  UMod,
  SDiv,
  SMod,
  NBin
};
const char * const binName[] = { "add",  "sub",   "mul",   "and",  "or",   "xor",  "shl", "shr",
                                 "ashr", "umulh", "smulh", "udiv", "umod", "sdiv", "smod" };
enum Cmp
{
  Eq,
  Ne,
  Ult,
  Ule,
  Ugt,
  Uge,
  Slt,
  Sle,
  Sgt,
  Sge,
  NCmp
};
const char * const cmpName[] = { "eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge" };

// nothing if the operation is not defined for these operands
std::optional<Int>
refBin(Bin o, const Int & a, const Int & b, size_t w)
{
  Int sa = sgn(a, w), sb = sgn(b, w);
  switch (o)
  {
  case Add: return wrap(a + b, w);
  case Sub: return wrap(a - b, w);
  case Mul: return wrap(a * b, w);
  case And: return a & b;
  case Or: return a | b;
  case Xor: return a ^ b;
  case Shl: return b >= w ? Int(0) : wrap(a << (size_t)b, w);
  case Shr: return b >= w ? Int(0) : Int(a >> (size_t)b);
  case Ashr: return wrap(b >= w ? Int(sa < 0 ? -1 : 0) : floorShift(sa, (size_t)b), w);
  case UMulH: return Int(a * b) >> w;
  case SMulH: return wrap(floorShift(sa * sb, w), w);
  default: break;
  }
  if (b == 0)
    return {};
  if ((o == SDiv || o == SMod) && sb == -1 && a == pow2(w - 1))
    return {};
  switch (o)
  {
  case UDiv: return a / b;
  case UMod: return a % b;
  case SDiv: return wrap(sa / sb, w); // cpp_int truncates
  case SMod: return wrap(sa % sb, w);
  default: return {};
  }
}

bool
refCmp(Cmp o, const Int & a, const Int & b, size_t w)
{
  Int sa = sgn(a, w), sb = sgn(b, w);
  switch (o)
  {
  case Eq: return a == b;
  case Ne: return a != b;
  case Ult: return a < b;
  case Ule: return a <= b;
  case Ugt: return a > b;
  case Uge: return a >= b;
  case Slt: return sa < sb;
  case Sle: return sa <= sb;
  case Sgt: return sa > sb;
  case Sge: return sa >= sb;
  default: return false;
  }
}

Rep
repBin(Bin o, const Rep & a, const Rep & b, size_t shift)
{
  switch (o)
  {
  case Add: return a.add(b);
  case Sub: return a.sub(b);
  case Mul: return a.mul(b);
  case And: return a.land(b);
  case Or: return a.lor(b);
  case Xor: return a.lxor(b);
  case Shl: return a.shl(shift);
  case Shr: return a.shr(shift);
  case Ashr: return a.ashr(shift);
  case UMulH: return a.umulh(b);
  case SMulH: return a.smulh(b);
  case UDiv: return a.udiv(b);
  case UMod: return a.umod(b);
  case SDiv: return a.sdiv(b);
  default: return a.smod(b);
  }
}

char
repCmp(Cmp o, const Rep & a, const Rep & b)
{
  switch (o)
  {
  case Eq: return a.eq(b);
  case Ne: return a.ne(b);
  case Ult: return a.ult(b);
  case Ule: return a.ule(b);
  case Ugt: return a.ugt(b);
  case Uge: return a.uge(b);
  case Slt: return a.slt(b);
  case Sle: return a.sle(b);
  case Sgt: return a.sgt(b);
  default: return a.sge(b);
  }
}

const std::vector<size_t> widths{ 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100 };

Int
someInt(Ctx & c, size_t w)
{
  switch (c.draw(5))
  {
  case 0: return wrap(Int(c.draw(4)), w);
  case 1: return wrap(-Int(1 + c.draw(3)), w);
  case 2: return wrap(pow2(w - 1) + (int)c.draw(3) - 1, w);
  case 3: return wrap(pow2(c.draw(w)) - (int)c.draw(2), w);
  default: return wrap((Int(c.bits64()) << 50) ^ Int(c.bits64()), w);
  }
}

std::string
someBits(Ctx & c, size_t w, const std::string & extra)
{
  std::string s = bitsOf(someInt(c, w), w);
  size_t n = c.draw(std::min<size_t>(w, 6) + 1);
  for (size_t i = 0; i < n; i++)
    s[c.draw(w)] = extra[c.draw(extra.size())];
  return s;
}

std::string
concretise(Ctx & c, std::string s)
{
  for (auto & b : s)
    if (b != '0' && b != '1')
      b = '0' + c.draw(2);
  return s;
}

void
expect(Ctx & c, bool ok, const std::string & what, const std::string & detail)
{
  c.evals++;
  if (!ok)
    pbt::fail("bit strings: " + what, detail);
}

template<class F>
bool
throws(F f)
{
  try
  {
    f();
  }
  catch (const std::exception &)
  {
    return true;
  }
  catch (const jlm::util::Error &)
  {
    return true;
  }
  return false;
}

void
known(Ctx & c)
{
  size_t w = c.pick(widths);
  c.label("width " + std::to_string(w));
  Int a = someInt(c, w), b = c.chance(1, 6) ? a : someInt(c, w);
  std::string sa = bitsOf(a, w), sb = bitsOf(b, w);
  Rep ra(sa.c_str()), rb(sb.c_str());
  std::string ops = sa + " and " + sb + " (least significant bit first)";
  c.artifacts["case.txt"] = ops + "\n";
  c.sample = "width " + std::to_string(w);
  for (int o = 0; o < NBin; o++)
  {
    size_t shift = c.draw(w + 3);
    bool isShift = o == Shl || o == Shr || o == Ashr;
    auto r = refBin((Bin)o, a, isShift ? Int(shift) : b, w);
    if (!r)
      continue;
    auto got = repBin((Bin)o, ra, rb, shift).str();
    expect(c, got == bitsOf(*r, w), binName[o],
           ops + (isShift ? " by " + std::to_string(shift) : "") + ": " + got + " instead of " + bitsOf(*r, w));
  }
  for (int o = 0; o < NCmp; o++)
    expect(c, repCmp((Cmp)o, ra, rb) == (refCmp((Cmp)o, a, b, w) ? '1' : '0'), cmpName[o], ops);
  expect(c, ra.neg().str() == bitsOf(wrap(-a, w), w), "neg", ops);
  expect(c, ra.lnot().str() == bitsOf(wrap(-a - 1, w), w), "not", ops);
  size_t lo = c.draw(w), hi = lo + 1 + c.draw(w - lo), ext = c.draw(70);
  expect(c, ra.slice(lo, hi).str() == sa.substr(lo, hi - lo), "slice", ops);
  expect(c, throws([&] { ra.slice(lo, w + 1); }) && throws([&] { ra.slice(lo, lo); }), "slice out of bounds", ops);
  expect(c, ra.trunc(hi).str() == bitsOf(wrap(a, hi), hi), "trunc", ops);
  expect(c, ra.zext(ext).str() == bitsOf(a, w + ext), "zext", ops);
  expect(c, ra.sext(ext).str() == bitsOf(wrap(sgn(a, w), w + ext), w + ext), "sext", ops);
  expect(c, ra.concat(rb).str() == sa + sb, "concat", ops);
  Rep ap(ra);
  ap.Append(rb);
  expect(c, ap == ra.concat(rb) && Rep::create({ ra, rb, ra }).str() == sa + sb + sa && Rep::create({ rb }) == rb, "create, append", ops);
  expect(c, ra.nbits() == w && ra.is_known() && ra.is_defined(), "known", ops);
  expect(c, ra.is_negative() == (sgn(a, w) < 0) && ra.sign() == sa.back(), "sign", ops);
  expect(c, (ra == rb) == (a == b) && (ra != rb) == (a != b) && ra == sa && (ra == sb) == (a == b) && (ra != sb) == (a != b), "equality", ops);
  // conversion to machine integers
  uint64_t u = 0;
  bool fits = a < pow2(64);
  bool ok = true;
  try
  {
    u = ra.to_uint();
    ok = fits && Int(u) == a;
  }
  catch (const std::range_error &)
  {
    ok = !fits;
  }
  expect(c, ok, "to_uint", ops);
  Int s = sgn(a, w);
  fits = s >= -pow2(63) && s < pow2(63);
  try
  {
    ok = Int(ra.to_int()) == s && fits;
  }
  catch (const std::range_error &)
  {
    ok = !fits;
  }
  expect(c, ok, "to_int", ops);
  // creation from machine integers
  int64_t v = (int64_t)c.bits64();
  Int vi = v;
  bool must = w >= 64 || (vi >= -pow2(w - 1) && vi < pow2(w));
  bool mustNot = w < 64 && (vi < -pow2(w) || vi >= pow2(w));
  std::string vs = std::to_string(v) + " in " + std::to_string(w) + " bits";
  if (must)
    expect(c, Rep(w, v).str() == bitsOf(wrap(vi, w), w) && Rep(w, v) == v, "creation", vs);
  if (mustNot)
    expect(c, throws([&] { Rep(w, v); }), "creation of what does not fit", vs);
  expect(c, throws([&] { Rep(0, 0); }) && throws([&] { Rep(""); }), "no bits", "");
  if (w > 1)
  {
    Rep n(sb.substr(1).c_str());
    expect(c, throws([&] { ra.add(n); }) && throws([&] { ra.ult(n); }) && throws([&] { ra.land(n); }) && throws([&] { ra.mul(n); })
               && throws([&] { ra.ne(n); }) && throws([&] { ra.ule(n); }) && throws([&] { ra.lor(n); }) && throws([&] { ra.lxor(n); }),
           "different widths", ops);
  }
  c.nontrivial = w > 1;
  c.setHash(pbt::fnv(sa + sb));
}

// A known bit of the result must be that of every choice of the unknown bits.
void
symbolic(Ctx & c)
{
  size_t w = c.pick(std::vector<size_t>{ 1, 2, 3, 4, 5, 8, 16, 32, 65 });
  std::string extra = c.pick(std::vector<std::string>{ "D", "X", "DX" });
  std::string sa = someBits(c, w, extra), sb = c.chance(1, 3) ? bitsOf(someInt(c, w), w) : someBits(c, w, extra);
  Rep ra(sa.c_str()), rb(sb.c_str());
  std::string ops = sa + " and " + sb + " (least significant bit first)";
  c.artifacts["case.txt"] = ops + "\n";
  c.sample = "symbolic, width " + std::to_string(w);
  size_t shift = c.draw(w + 2), ext = c.draw(9);
  std::vector<std::string> res;
  for (int o = 0; o < UDiv; o++)
    res.push_back(repBin((Bin)o, ra, rb, shift).str());
  std::string cres;
  for (int o = 0; o < NCmp; o++)
    cres += repCmp((Cmp)o, ra, rb);
  auto neg = ra.neg().str(), inv = ra.lnot().str(), sx = ra.sext(ext).str();
  bool isKnown = sa.find_first_of("DX") == sa.npos;
  expect(c, ra.is_known() == isKnown && ra.is_defined() == (sa.find('X') == sa.npos), "known", ops);
  expect(c, ra.str() == sa && ra.sign() == sa.back() && ra.is_negative() == (sa.back() == '1'), "sign", ops);
  expect(c, isKnown || throws([&] { ra.to_uint(); }), "to_uint of unknown bits", ops);
  expect(c, isKnown || throws([&] { ra.to_int(); }), "to_int of unknown bits", ops);
  // no undefined bit comes out of defined operands
  if (sa.find('X') == sa.npos && sb.find('X') == sb.npos)
  {
    for (int o = 0; o < UDiv; o++)
      expect(c, res[o].find('X') == res[o].npos, std::string(binName[o]) + " of defined bits", ops + ": " + res[o]);
    expect(c, cres.find('X') == cres.npos, "comparison of defined bits", ops + ": " + cres);
  }
  auto compat = [](const std::string & symbolic, const std::string & bits)
  {
    if (symbolic.size() != bits.size())
      return false;
    for (size_t i = 0; i < bits.size(); i++)
      if ((symbolic[i] == '0' || symbolic[i] == '1') && symbolic[i] != bits[i])
        return false;
    return true;
  };
  for (int k = 0; k < 6; k++)
  {
    std::string ca = concretise(c, sa), cb = concretise(c, sb);
    Int a = intOf(ca), b = intOf(cb);
    std::string d = ops + " for " + ca + " and " + cb;
    for (int o = 0; o < UDiv; o++)
    {
      bool isShift = o == Shl || o == Shr || o == Ashr;
      auto r = bitsOf(*refBin((Bin)o, a, isShift ? Int(shift) : b, w), w);
      expect(c, compat(res[o], r), std::string(binName[o]) + " of unknown bits", d + ": " + res[o] + " but " + r);
    }
    for (int o = 0; o < NCmp; o++)
      expect(c, compat(std::string(1, cres[o]), refCmp((Cmp)o, a, b, w) ? "1" : "0"), std::string(cmpName[o]) + " of unknown bits", d + ": " + cres[o]);
    expect(c, compat(neg, bitsOf(wrap(-a, w), w)), "neg of unknown bits", d);
    expect(c, compat(inv, bitsOf(wrap(-a - 1, w), w)), "not of unknown bits", d);
    expect(c, compat(sx, bitsOf(wrap(sgn(a, w), w + ext), w + ext)), "sext of unknown bits", d);
  }
  c.nontrivial = true;
  c.setHash(pbt::fnv(sa + " " + sb));
}

// ---------------------------------------------------------------- expressions in a graph

template<class Op>
const Op *
opOf(const SimpleNode & n)
{
  return dynamic_cast<const Op *>(&n.GetOperation());
}

Output *
makeBin(Bin o, size_t w, Output * a, Output * b)
{
  switch (o)
  {
  case Add: return bitadd_op::create(w, a, b);
  case Sub: return bitsub_op::create(w, a, b);
  case Mul: return bitmul_op::create(w, a, b);
  case And: return bitand_op::create(w, a, b);
  case Or: return bitor_op::create(w, a, b);
  case Xor: return bitxor_op::create(w, a, b);
  case Shl: return bitshl_op::create(w, a, b);
  case Shr: return bitshr_op::create(w, a, b);
  case Ashr: return bitashr_op::create(w, a, b);
  case UMulH: return bitumulh_op::create(w, a, b);
  case SMulH: return bitsmulh_op::create(w, a, b);
  case UDiv: return bitudiv_op::create(w, a, b);
  case UMod: return bitumod_op::create(w, a, b);
  case SDiv: return bitsdiv_op::create(w, a, b);
  default: return bitsmod_op::create(w, a, b);
  }
}

int
binOf(const Operation & o)
{
#define C(T, V) \
  if (dynamic_cast<const T *>(&o)) \
    return V;
  C(bitadd_op, Add) C(bitsub_op, Sub) C(bitmul_op, Mul) C(bitand_op, And) C(bitor_op, Or) C(bitxor_op, Xor) C(bitshl_op, Shl)
  C(bitshr_op, Shr) C(bitashr_op, Ashr) C(bitumulh_op, UMulH) C(bitsmulh_op, SMulH) C(bitudiv_op, UDiv) C(bitumod_op, UMod)
  C(bitsdiv_op, SDiv) C(bitsmod_op, SMod) return -1;
}

Output *
makeCmp(Cmp o, size_t w, Output * a, Output * b)
{
  switch (o)
  {
  case Eq: return biteq_op::create(w, a, b);
  case Ne: return bitne_op::create(w, a, b);
  case Ult: return bitult_op::create(w, a, b);
  case Ule: return bitule_op::create(w, a, b);
  case Ugt: return bitugt_op::create(w, a, b);
  case Uge: return bituge_op::create(w, a, b);
  case Slt: return bitslt_op::create(w, a, b);
  case Sle: return bitsle_op::create(w, a, b);
  case Sgt: return bitsgt_op::create(w, a, b);
  default: return bitsge_op::create(w, a, b);
  }
}

int
cmpOf(const Operation & o)
{
  C(biteq_op, Eq) C(bitne_op, Ne) C(bitult_op, Ult) C(bitule_op, Ule) C(bitugt_op, Ugt) C(bituge_op, Uge) C(bitslt_op, Slt)
  C(bitsle_op, Sle) C(bitsgt_op, Sgt) C(bitsge_op, Sge) return -1;
#undef C
}

size_t
widthOf(const Output & o)
{
  return std::dynamic_pointer_cast<const BitType>(o.Type())->nbits();
}

using Val = std::optional<Int>; // nothing: not defined

struct Eval
{
  std::map<const Output *, Val> memo;

  Val
  operator()(const Output & o)
  {
    auto it = memo.find(&o);
    if (it != memo.end())
      return it->second;
    Val v = compute(o);
    memo[&o] = v;
    return v;
  }

  Val
  compute(const Output & o)
  {
    auto region = TryGetOwnerRegion(o);
    if (region)
    {
      auto gamma = dynamic_cast<const GammaNode *>(region->node());
      if (!gamma)
        pbt::fail("bit strings: harness", "unknown argument");
      auto role = gamma->MapBranchArgument(o);
      if (auto ev = std::get_if<GammaNode::EntryVar>(&role))
        return (*this)(*ev->input->origin());
      pbt::fail("bit strings: harness", "unknown gamma argument");
    }
    auto node = TryGetOwnerNode<Node>(o);
    if (auto gamma = dynamic_cast<const GammaNode *>(node))
    {
      auto p = (*this)(*gamma->predicate()->origin());
      auto xv = gamma->MapOutputExitVar(o);
      return p ? (*this)(*xv.branchResult[(size_t)*p]->origin()) : Val();
    }
    auto sn = dynamic_cast<const SimpleNode *>(node);
    if (!sn)
      pbt::fail("bit strings: harness", "unknown node");
    std::vector<Val> in;
    std::vector<size_t> w;
    for (size_t i = 0; i < sn->ninputs(); i++)
    {
      auto & origin = *sn->input(i)->origin();
      if (origin.region() != sn->region())
        pbt::fail("bit strings: value of another region used", sn->DebugString());
      in.push_back((*this)(origin));
      w.push_back(widthOf(origin));
      if (!in.back())
        return {};
    }
    auto & op = sn->GetOperation();
    if (auto k = dynamic_cast<const BitConstantOperation *>(&op))
      return intOf(k->value().str());
    if (dynamic_cast<const bitneg_op *>(&op))
      return wrap(-*in[0], w[0]);
    if (dynamic_cast<const bitnot_op *>(&op))
      return wrap(-*in[0] - 1, w[0]);
    if (auto s = dynamic_cast<const BitSliceOperation *>(&op))
      return wrap(*in[0] >> s->low(), s->high() - s->low());
    if (dynamic_cast<const BitConcatOperation *>(&op))
    {
      Int v = 0;
      size_t pos = 0;
      for (size_t i = 0; i < in.size(); i++)
      {
        v |= *in[i] << pos;
        pos += w[i];
      }
      return v;
    }
    if (auto f = dynamic_cast<const FlattenedBinaryOperation *>(&op))
    {
      Val v = in[0];
      for (size_t i = 1; i < in.size() && v; i++)
        v = refBin((Bin)binOf(f->bin_operation()), *v, *in[i], w[0]);
      return v;
    }
    if (int b = binOf(op); b >= 0)
      return refBin((Bin)b, *in[0], *in[1], w[0]);
    if (int b = cmpOf(op); b >= 0)
      return refCmp((Cmp)b, *in[0], *in[1], w[0]) ? Int(1) : Int(0);
    pbt::fail("bit strings: harness", "unknown operation " + op.debug_string());
  }
};

struct Builder
{
  Ctx & c;
  std::map<size_t, std::vector<Output *>> pool; // by width

  Output *
  any(Region & r, size_t w)
  {
    auto & p = pool[w];
    if (p.empty() || c.chance(1, 4))
    {
      auto k = &BitConstantOperation::create(r, Rep(bitsOf(someInt(c, w), w).c_str()));
      p.push_back(k);
      return k;
    }
    // recent values more often
    return p[p.size() - 1 - std::min<size_t>(c.draw(p.size()), c.draw(p.size()))];
  }

  std::pair<size_t, std::vector<Output *>>
  anyWidth(Region & r)
  {
    std::vector<size_t> ws;
    for (auto & [w, p] : pool)
      if (!p.empty())
        ws.push_back(w);
    size_t w = c.pick(ws);
    return { w, { any(r, w), any(r, w) } };
  }

  void
  add(Output * o)
  {
    pool[widthOf(*o)].push_back(o);
  }

  void
  fill(Region & r, size_t n)
  {
    for (size_t i = 0; i < n; i++)
    {
      auto [w, x] = anyWidth(r);
      switch (c.weighted({ 6, 2, 3, 3, 3 }))
      {
      case 0:
      {
        Bin o = c.chance(1, 2) ? c.pick(std::vector<Bin>{ Add, Mul, And, Or, Xor }) : (Bin)c.draw(NBin);
        add(makeBin(o, w, x[0], x[1]));
        break;
      }
      case 1:
        add(c.chance(1, 2) ? bitneg_op::create(w, x[0]) : bitnot_op::create(w, x[0]));
        break;
      case 2:
        add(makeCmp((Cmp)c.draw(NCmp), w, x[0], x[1]));
        break;
      case 3:
      {
        size_t lo = c.draw(w), hi = c.chance(1, 4) ? w : lo + 1 + c.draw(w - lo);
        add(bitslice(x[0], lo, hi));
        break;
      }
      default:
      {
        if (w > 24)
          break;
        if (w > 1 && c.chance(1, 3))
        {
          // neighbouring slices
          size_t lo = c.draw(w - 1), mid = lo + 1 + c.draw(w - lo - 1), hi = mid + 1 + c.draw(w - mid);
          add(bitconcat({ bitslice(x[0], lo, mid), bitslice(x[0], mid, hi) }));
          break;
        }
        auto y = any(r, anyWidth(r).first);
        if (widthOf(*y) > 24)
          break;
        if (c.chance(1, 4))
          add(bitconcat({ x[0], y, x[1] }));
        else
          add(bitconcat({ x[0], y }));
        break;
      }
      }
    }
  }
};

void
collect(Region & r, std::vector<SimpleNode *> & out)
{
  for (auto & n : r.Nodes())
  {
    if (auto s = dynamic_cast<SimpleNode *>(&n))
      out.push_back(s);
    else if (auto st = dynamic_cast<StructuralNode *>(&n))
      for (auto & sub : st->Subregions())
        collect(sub, out);
  }
}

template<class T>
bool
tryBin(SimpleNode & n, bool fold, bool & matched)
{
  if (!opOf<T>(n))
    return false;
  matched = true;
  return fold ? ReduceNode<T>(BitBinaryOperation::foldConstants, n) : ReduceNode<T>(NormalizeBinaryOperation, n);
}

std::string
rewrite(Ctx & c, SimpleNode & n)
{
  auto name = n.DebugString();
  auto res = [&](const char * how, bool did) { return did ? std::string(how) + " of " + name : std::string(); };
  if (opOf<BitSliceOperation>(n))
    switch (c.draw(4))
    {
    case 0: return res("normalizeIdempotent", ReduceNode<BitSliceOperation>(BitSliceOperation::normalizeIdempotent, n));
    case 1: return res("foldConstant", ReduceNode<BitSliceOperation>(BitSliceOperation::foldConstant, n));
    case 2: return res("narrowSlice", ReduceNode<BitSliceOperation>(BitSliceOperation::narrowSlice, n));
    default: return res("distributeSlice", ReduceNode<BitSliceOperation>(BitSliceOperation::distributeSlice, n));
    }
  if (opOf<BitConcatOperation>(n))
  {
    if (c.chance(1, 2) || n.ninputs() > 2) // normalisation of binary operations expects at most two operands
    {
      // flattening expects two operands and, if there is something to flatten, more than two afterwards
      if (n.ninputs() != 2)
        return "";
      size_t total = 0;
      std::vector<const Output *> todo{ n.input(0)->origin(), n.input(1)->origin() };
      while (!todo.empty())
      {
        auto sn = TryGetOwnerNode<SimpleNode>(*todo.back());
        todo.pop_back();
        if (sn && opOf<BitConcatOperation>(*sn))
        {
          if (sn->ninputs() < 2)
            return "";
          for (size_t i = 0; i < sn->ninputs(); i++)
            todo.push_back(sn->input(i)->origin());
        }
        else
          total++;
        if (total + todo.size() > 40)
          return "";
      }
      return res("FlattenBitConcatOperation", ReduceNode<BitConcatOperation>(FlattenBitConcatOperation, n));
    }
    return res("NormalizeBinaryOperation", ReduceNode<BitConcatOperation>(NormalizeBinaryOperation, n));
  }
  if (opOf<BitUnaryOperation>(n))
    return res("foldConstant", ReduceNode<BitUnaryOperation>(BitUnaryOperation::foldConstant, n));
  if (opOf<BitCompareOperation>(n))
    return res("foldConstants", ReduceNode<BitCompareOperation>(BitCompareOperation::foldConstants, n));
  if (opOf<BitBinaryOperation>(n))
    switch (c.draw(3))
    {
    case 0: return res("foldConstants", ReduceNode<BitBinaryOperation>(BitBinaryOperation::foldConstants, n));
    case 1: return res("NormalizeBinaryOperation", ReduceNode<BitBinaryOperation>(NormalizeBinaryOperation, n));
    default:
    {
      // do not let repeated operands make the flattened operation too big
      size_t total = 0;
      std::vector<const Output *> todo{ n.output(0) };
      while (!todo.empty() && total < 60)
      {
        auto sn = TryGetOwnerNode<SimpleNode>(*todo.back());
        todo.pop_back();
        total++;
        if (sn && (opOf<BitBinaryOperation>(*sn) || opOf<FlattenedBinaryOperation>(*sn)))
          for (size_t i = 0; i < sn->ninputs(); i++)
            todo.push_back(sn->input(i)->origin());
      }
      if (total >= 60)
        return "";
      return res("FlattenAssociativeBinaryOperation", ReduceNode<BitBinaryOperation>(FlattenAssociativeBinaryOperation, n));
    }
    }
  if (opOf<FlattenedBinaryOperation>(n))
    return res("NormalizeFlattenedBinaryOperation", ReduceNode<FlattenedBinaryOperation>(NormalizeFlattenedBinaryOperation, n));
  return "";
}

void
expressions(Ctx & c)
{
  Graph g;
  auto & root = g.GetRootRegion();
  Builder b{ c, {} };
  size_t ni = 1 + c.draw(3);
  std::vector<const Output *> inputs;
  for (size_t i = 0; i < ni; i++)
  {
    size_t w = c.pick(std::vector<size_t>{ 8, 1, 4, 33 });
    auto & in = GraphImport::Create(g, BitType::Create(w), "in" + std::to_string(i));
    inputs.push_back(&in);
    b.add(&in);
  }
  b.fill(root, 2 + c.draw(8));
  GammaNode * gamma = nullptr;
  const Output * pred = nullptr;
  if (c.chance(1, 2))
  {
    auto & p = GraphImport::Create(g, ControlType::Create(2), "p");
    pred = &p;
    gamma = GammaNode::create(&p, 2);
    std::vector<GammaNode::EntryVar> evs;
    for (auto & [w, pool] : b.pool)
      for (int k = 0; k < 2 && !pool.empty(); k++)
        evs.push_back(gamma->AddEntryVar(b.any(root, w)));
    std::map<size_t, std::vector<Output *>> outs[2];
    for (size_t a = 0; a < 2; a++)
    {
      Builder in{ c, {} };
      for (auto & ev : evs)
        in.add(ev.branchArgument[a]);
      in.fill(*gamma->subregion(a), 1 + c.draw(6));
      outs[a] = in.pool;
    }
    for (auto & [w, p0] : outs[0])
      if (outs[1].count(w) && !p0.empty() && !outs[1][w].empty())
        b.add(gamma->AddExitVar({ p0.back(), outs[1][w].back() }).output);
    b.fill(root, c.draw(4));
  }
  std::vector<GraphExport *> exports;
  for (auto & [w, pool] : b.pool)
    for (size_t k = 0; k < pool.size() && k < 3; k++)
      exports.push_back(&GraphExport::Create(*pool[pool.size() - 1 - k], "out" + std::to_string(exports.size())));

  std::vector<std::map<const Output *, Val>> env(5);
  for (auto & e : env)
  {
    for (auto in : inputs)
      e[in] = someInt(c, widthOf(*in));
    if (pred)
      e[pred] = Int(c.draw(2));
  }
  auto run = [&]
  {
    std::vector<std::vector<Val>> r;
    for (auto & e : env)
    {
      Eval ev{ e };
      r.emplace_back();
      for (auto x : exports)
        r.back().push_back(ev(*x->origin()));
    }
    return r;
  };
  std::string log = view(&root);
  auto before = run();
  size_t did = 0;
  size_t steps = 4 + c.draw(20);
  for (size_t s = 0; s < steps; s++)
  {
    std::vector<SimpleNode *> nodes;
    collect(root, nodes);
    if (nodes.empty() || nodes.size() > 200)
      break;
    std::string what;
    if (c.chance(1, 20))
    {
      bool parallel = c.chance(1, 2);
      FlattenedBinaryOperation::reduce(
          &root,
          parallel ? FlattenedBinaryOperation::reduction::parallel : FlattenedBinaryOperation::reduction::linear);
      what = "reduction of flattened operations";
    }
    else
    {
      auto & n = *nodes[c.draw(nodes.size())];
      auto name = n.DebugString();
      c.artifacts["case.txt"] = log + "\n--- rewriting " + name + "\n";
      try
      {
        what = rewrite(c, n);
      }
      catch (const jlm::util::Error & e)
      {
        pbt::fail("bit strings: rewriting fails", name + ": " + e.what() + "\n" + log);
      }
    }
    if (what.empty())
      continue;
    did++;
    c.label(what.substr(0, what.find(" of ")));
    log += "\n--- " + what + "\n" + view(&root);
    c.artifacts["case.txt"] = log;
    auto after = run();
    for (size_t e = 0; e < env.size(); e++)
      for (size_t x = 0; x < exports.size(); x++)
      {
        c.evals++;
        if (!before[e][x])
          continue;
        if (!after[e][x] || *after[e][x] != *before[e][x])
          pbt::fail("bit strings: value changed by " + what.substr(0, what.find(" of ")),
                    what + ": " + (after[e][x] ? after[e][x]->str() : "undefined") + " instead of " + before[e][x]->str() + "\n" + log);
      }
    before = after;
  }
  c.nontrivial = did > 0;
  c.sample = "expression graph, " + std::to_string(did) + " rewrites";
  c.setHash(pbt::fnv(log));
}

struct Reg
{
  Reg()
  {
    pbt::Property p;
    p.id = "U04";
    p.rule = "A case is a pair of bit strings of one width (all bits known, or some unknown or undefined) on which every operation "
             "is evaluated, or a graph of bit string operations with up to 24 rewrites. Non-trivial if the width exceeds one bit, "
             "bits are unknown, or at least one rewrite applied.";
    p.quickCases = 120000;
    p.thoroughCases = 3000000;
    p.batch = 256;
    p.run = [](Ctx & c)
    {
      switch (c.draw(3))
      {
      case 0: c.label("known bits"); known(c); break;
      case 1: c.label("unknown bits"); symbolic(c); break;
      default: c.label("expressions"); expressions(c); break;
      }
    };
    pbt::registerProperty(std::move(p));
  }
} reg;
}
