#include "structgen.hpp"

#include <jlm/rvsdg/bitstring.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/delta.hpp>
#include <jlm/rvsdg/FunctionType.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/TestType.hpp>
#include <jlm/rvsdg/traverser.hpp>
#include <jlm/rvsdg/UnitType.hpp>
#include <jlm/rvsdg/view.hpp>

#include <algorithm>
#include <random>
#include <sstream>

namespace sg
{
using pbt::Ctx;

TagOperation::~TagOperation() noexcept = default;

bool
TagOperation::operator==(const Operation & other) const noexcept
{
  auto o = dynamic_cast<const TagOperation *>(&other);
  if (!o || o->tag != tag || o->narguments() != narguments() || o->nresults() != nresults())
    return false;
  for (size_t n = 0; n < narguments(); n++)
    if (*o->argument(n) != *argument(n))
      return false;
  for (size_t n = 0; n < nresults(); n++)
    if (*o->result(n) != *result(n))
      return false;
  return true;
}

std::string
TagOperation::debug_string() const
{
  return "T" + std::to_string(tag);
}

std::unique_ptr<Operation>
TagOperation::copy() const
{
  return std::make_unique<TagOperation>(*this);
}

std::shared_ptr<const Type>
type(int t)
{
  switch (t)
  {
  case S:
    return TestType::createStateType();
  case B:
    return BitType::Create(4);
  case B1:
    return BitType::Create(1);
  case C2:
    return ControlType::Create(2);
  case C3:
    return ControlType::Create(3);
  default:
    return TestType::createValueType();
  }
}

int
kindOf(const Type & t)
{
  if (auto c = dynamic_cast<const ControlType *>(&t))
    return c->nalternatives() == 2 ? C2 : C3;
  if (auto b = dynamic_cast<const BitType *>(&t))
    return b->nbits() == 1 ? B1 : B;
  if (dynamic_cast<const FunctionType *>(&t))
    return F;
  return t == *TestType::createStateType() ? S : V;
}

static std::vector<std::shared_ptr<const Type>>
typesOf(const std::vector<Output *> & v)
{
  std::vector<std::shared_ptr<const Type>> r;
  for (auto o : v)
    r.push_back(o->Type());
  return r;
}

Output *
Gen::any(Region & r, Pool & pool)
{
  if (pool.empty())
    return make(r, pool, type(V));
  // recent values are more interesting
  return pool[pool.size() - 1 - (c.chance(1, 2) ? c.draw(pool.size()) : c.draw(std::min<size_t>(pool.size(), 4)))];
}

Output *
Gen::make(Region & r, Pool & pool, const std::shared_ptr<const Type> & t)
{
  Output * o = nullptr;
  auto ctl = std::dynamic_pointer_cast<const ControlType>(t);
  auto bit = std::dynamic_pointer_cast<const BitType>(t);
  if (ctl && c.chance(1, 2))
  {
    // a match on some value
    auto b = some(r, pool, type(c.chance(1, 4) ? B1 : B));
    auto w = std::dynamic_pointer_cast<const BitType>(b->Type())->nbits();
    std::unordered_map<uint64_t, uint64_t> m;
    size_t k = c.draw(4);
    for (size_t n = 0; n < k; n++)
      m[c.draw(w == 1 ? 2 : 4)] = c.draw(ctl->nalternatives());
    if (c.chance(1, 2))
    {
      m.clear();
      for (size_t n = 0; n + 1 < ctl->nalternatives(); n++)
        m[w == 1 ? n % 2 : n] = n + (c.chance(1, 4) ? 1 : 0);
    }
    o = MatchOperation::Create(*b, m, c.chance(2, 3) ? ctl->nalternatives() - 1 : c.draw(ctl->nalternatives()), ctl->nalternatives());
  }
  else if (ctl)
    o = &ControlConstantOperation::create(r, ctl->nalternatives(), c.draw(ctl->nalternatives()));
  else if (bit && c.chance(1, 2))
    o = &BitConstantOperation::create(r, { bit->nbits(), (int64_t)c.draw(bit->nbits() == 1 ? 2 : 4) });
  else
  {
    std::vector<Output *> ops;
    size_t k = c.draw(3);
    for (size_t n = 0; n < k && !pool.empty(); n++)
      ops.push_back(c.pick(pool));
    auto op = std::make_unique<TagOperation>(
        c.draw(4),
        typesOf(ops),
        std::vector<std::shared_ptr<const Type>>{ t });
    o = SimpleNode::Create(r, std::move(op), ops).output(0);
  }
  if (budget)
    budget--;
  pool.push_back(o);
  return o;
}

Output *
Gen::some(Region & r, Pool & pool, const std::shared_ptr<const Type> & t, bool fresh)
{
  Pool fit;
  for (auto o : pool)
    if (*o->Type() == *t)
      fit.push_back(o);
  if (fit.empty() || (fresh && c.chance(1, 2)) || c.chance(1, 8))
    return make(r, pool, t);
  return fit[fit.size() - 1 - (c.chance(1, 2) ? c.draw(fit.size()) : c.draw(std::min<size_t>(fit.size(), 3)))];
}

void
Gen::tag(Region & r, Pool & pool)
{
  // sometimes the same as before
  std::vector<SimpleNode *> before;
  for (auto & n : r.Nodes())
    if (auto s = dynamic_cast<SimpleNode *>(&n))
      before.push_back(s);
  if (!before.empty() && c.chance(1, 5))
  {
    auto s = c.pick(before);
    std::vector<Output *> ops;
    for (auto & i : s->Inputs())
      ops.push_back(i.origin());
    if (!ops.empty() && c.chance(1, 3))
    {
      // almost the same: another operand of the same type
      size_t k = c.draw(ops.size());
      Pool fit;
      for (auto o : pool)
        if (*o->Type() == *ops[k]->Type())
          fit.push_back(o);
      if (!fit.empty())
        ops[k] = c.pick(fit);
    }
    auto op = std::unique_ptr<SimpleOperation>(static_cast<SimpleOperation *>(s->GetOperation().copy().release()));
    auto & n = SimpleNode::Create(r, std::move(op), ops);
    for (size_t k = 0; k < n.noutputs(); k++)
      pool.push_back(n.output(k));
    return;
  }
  if (c.chance(1, 4))
  {
    make(r, pool, type((int[]){ C2, C3, B, B1 }[c.draw(4)]));
    return;
  }
  std::vector<Output *> ops;
  size_t k = c.draw(4);
  for (size_t n = 0; n < k; n++)
    ops.push_back(any(r, pool));
  std::vector<std::shared_ptr<const Type>> res;
  k = ops.empty() ? 0 : c.weighted({ 8, 2, 1 }); // transformations rely on constants having one output
  for (size_t n = 0; n <= k; n++)
    res.push_back(type((int[]){ V, V, S, B, C2, C3 }[c.draw(6)]));
  auto & n = SimpleNode::Create(r, std::make_unique<TagOperation>(c.draw(4), typesOf(ops), res), ops);
  for (size_t k = 0; k < n.noutputs(); k++)
    pool.push_back(n.output(k));
}

GammaNode *
Gen::gamma(Region & r, Pool & pool, size_t depth)
{
  auto p = some(r, pool, type(o.maxAlternatives > 2 && c.chance(1, 3) ? C3 : C2), true);
  size_t alts = std::dynamic_pointer_cast<const ControlType>(p->Type())->nalternatives();
  GammaNode * g = nullptr;
  if (o.matchContent && c.chance(1, 2))
  {
    std::vector<std::shared_ptr<const Type>> mc;
    for (size_t n = 0; n < alts; n++)
      mc.push_back(c.chance(1, 3) ? std::static_pointer_cast<const Type>(UnitType::Create()) : type(c.draw(F)));
    g = &GammaNode::Create(*p, alts, mc);
  }
  else
    g = GammaNode::create(p, alts);
  std::vector<Pool> pools(alts);
  if (o.matchContent)
    for (size_t n = 0; n < alts; n++)
      if (*g->GetMatchVar().matchContent[n]->Type() != *UnitType::Create())
        pools[n].push_back(g->GetMatchVar().matchContent[n]);
  size_t k = c.draw(5);
  for (size_t n = 0; n < k && !pool.empty(); n++)
  {
    auto ev = g->AddEntryVar(any(r, pool));
    for (size_t a = 0; a < alts; a++)
      pools[a].push_back(ev.branchArgument[a]);
  }
  for (size_t a = 0; a < alts; a++)
    body(*g->subregion(a), pools[a], c.draw(5), depth + 1, false);
  k = c.draw(4);
  for (size_t n = 0; n < k; n++)
  {
    std::vector<Output *> vals{ c.chance(1, 4) ? some(*g->subregion(0), pools[0], type((int[]){ C2, C3, B }[c.draw(3)]))
                                               : any(*g->subregion(0), pools[0]) };
    auto t = vals[0]->Type();
    bool same = c.chance(1, 4);
    for (size_t a = 1; a < alts; a++)
    {
      auto arg = dynamic_cast<RegionArgument *>(vals[0]);
      if (same && arg && arg->input())
        vals.push_back(g->subregion(a)->argument(arg->index()));
      else
        vals.push_back(some(*g->subregion(a), pools[a], t, true));
    }
    pool.push_back(g->AddExitVar(vals).output);
  }
  if (o.focus == 2 && c.chance(1, 2))
  {
    // choose between constants
    int t = (int[]){ C2, C3, B }[c.weighted({ 5, 1, 1 })];
    std::vector<Output *> vals;
    for (size_t a = 0; a < alts; a++)
      vals.push_back(
          t == B ? &BitConstantOperation::create(*g->subregion(a), { 4, (int64_t)c.draw(4) })
                 : &ControlConstantOperation::create(*g->subregion(a), t == C2 ? 2 : 3, c.draw(t == C2 ? 2 : 3)));
    pool.push_back(g->AddExitVar(vals).output);
  }
  return g;
}

ThetaNode *
Gen::theta(Region & r, Pool & pool, size_t depth)
{
  auto t = ThetaNode::create(&r);
  auto & sub = *t->subregion();
  size_t k = 1 + c.draw(5);
  std::vector<ThetaNode::LoopVar> lvs;
  Pool inner;
  for (size_t n = 0; n < k; n++)
  {
    lvs.push_back(t->AddLoopVar(any(r, pool)));
    inner.push_back(lvs.back().pre);
  }
  size_t mode = o.focus == 1 ? c.weighted({ 1, 4, 4 }) : c.weighted({ 6, 2, 2 });
  if (mode && depth + 1 < o.maxDepth)
  {
    // the shape loops have after translation: one branch, whose predicate (or what it computes) decides on repetition
    auto b = some(sub, inner, type(B), true);
    bool flip = c.chance(1, 3);
    auto m = MatchOperation::Create(*b, { { c.draw(3), flip ? 0 : 1 } }, flip ? 1 : 0, 2);
    body(sub, inner, c.draw(4), depth + 1, false);
    auto g = GammaNode::create(c.chance(7, 8) ? m : some(sub, inner, type(C2)), 2);
    std::vector<Pool> pools(2);
    for (auto & lv : lvs)
    {
      auto ev = g->AddEntryVar(c.chance(1, 4) ? any(sub, inner) : lv.pre);
      for (size_t a = 0; a < 2; a++)
        pools[a].push_back(ev.branchArgument[a]);
    }
    if (c.chance(1, 8))
      for (auto ev : { g->AddEntryVar(m) })
        for (size_t a = 0; a < 2; a++)
          pools[a].push_back(ev.branchArgument[a]);
    for (size_t a = 0; a < 2; a++)
      body(*g->subregion(a), pools[a], c.draw(4), depth + 2, false);
    for (auto & lv : lvs)
    {
      if (c.chance(1, 4))
        continue;
      auto x = g->AddExitVar({ some(*g->subregion(0), pools[0], lv.pre->Type(), true),
                               some(*g->subregion(1), pools[1], lv.pre->Type(), true) });
      lv.post->divert_to(x.output);
    }
    Output * pred = m;
    if (mode == 2)
    {
      uint64_t v[2] = { c.draw(2), c.draw(2) };
      if (c.chance(2, 3))
        v[1] = 1 - v[0];
      if (c.chance(1, 2))
        pred = g->AddExitVar({ &ControlConstantOperation::create(*g->subregion(0), 2, v[0]),
                               &ControlConstantOperation::create(*g->subregion(1), 2, v[1]) })
                   .output;
      else
      {
        auto x = g->AddExitVar({ &BitConstantOperation::create(*g->subregion(0), { 4, (int64_t)v[0] }),
                                 &BitConstantOperation::create(*g->subregion(1), { 4, (int64_t)v[1] }) });
        bool f = c.chance(1, 4);
        pred = MatchOperation::Create(*x.output, { { 1, f ? 0 : 1 } }, f ? 1 : 0, 2);
      }
    }
    t->set_predicate(pred);
  }
  else
  {
    body(sub, inner, 1 + c.draw(5), depth + 1, false);
    for (auto & lv : lvs)
      if (!c.chance(1, 3))
        lv.post->divert_to(some(sub, inner, lv.pre->Type(), c.chance(1, 2)));
    t->set_predicate(some(sub, inner, type(C2), true));
  }
  for (auto & lv : lvs)
    pool.push_back(lv.output);
  return t;
}

Output *
Gen::lambda(Region & r, Pool & pool, size_t depth, std::shared_ptr<const Type> want)
{
  auto ft = std::dynamic_pointer_cast<const FunctionType>(want);
  std::vector<std::shared_ptr<const Type>> args;
  if (ft)
    args = ft->Arguments();
  else
    for (size_t n = c.draw(4); n; n--)
      args.push_back(type((int[]){ V, S, B, C2, C3 }[c.draw(5)]));
  LambdaBuilder lb(r, args);
  Pool inner = lb.Arguments();
  size_t k = c.draw(4);
  for (size_t n = 0; n < k && !pool.empty(); n++)
    inner.push_back(lb.AddContextVar(*any(r, pool)).inner);
  std::shuffle(inner.begin(), inner.end(), std::minstd_rand(1 + c.draw(8)));
  body(*lb.GetRegion(), inner, 2 + c.draw(8), depth + 1, false);
  std::vector<Output *> res;
  if (ft)
    for (auto & t : ft->Results())
      res.push_back(some(*lb.GetRegion(), inner, t));
  else
    for (size_t n = 1 + c.draw(3); n; n--)
      res.push_back(any(*lb.GetRegion(), inner));
  auto & out = lb.Finalize(res, std::make_unique<LambdaOperation>(FunctionType::Create(args, typesOf(res))));
  if (!ft)
    pool.push_back(&out);
  return &out;
}

Output *
Gen::delta(Region & r, Pool & pool, size_t depth)
{
  auto t = type((int[]){ V, B, S }[c.draw(3)]);
  auto d = DeltaNode::Create(&r, DeltaOperation::Create(t, c.chance(1, 2), type(V)));
  Pool inner;
  size_t k = c.draw(4);
  for (size_t n = 0; n < k && !pool.empty(); n++)
    inner.push_back(d->AddContextVar(*any(r, pool)).inner);
  size_t save = o.maxDepth;
  o.maxDepth = 0; // only simple nodes
  body(*d->subregion(), inner, 1 + c.draw(3), depth + 1, false);
  o.maxDepth = save;
  auto res = some(*d->subregion(), inner, t);
  auto & out = d->finalize(res);
  pool.push_back(&out);
  return &out;
}

void
Gen::phi(Region & r, Pool & pool, size_t depth)
{
  PhiBuilder pb;
  pb.begin(&r);
  Pool inner;
  size_t k = c.draw(3);
  for (size_t n = 0; n < k && !pool.empty(); n++)
    inner.push_back(pb.AddContextVar(*any(r, pool)).inner);
  k = 1 + c.draw(3);
  std::vector<PhiNode::FixVar> fvs;
  for (size_t n = 0; n < k; n++)
  {
    std::shared_ptr<const Type> t = type(V);
    if (!c.chance(1, 4))
    {
      std::vector<std::shared_ptr<const Type>> a, b;
      for (size_t m = c.draw(3); m; m--)
        a.push_back(type((int[]){ V, S, B, C2 }[c.draw(4)]));
      for (size_t m = 1 + c.draw(2); m; m--)
        b.push_back(type((int[]){ V, S, B }[c.draw(3)]));
      t = FunctionType::Create(a, b);
    }
    fvs.push_back(pb.AddFixVar(t));
    inner.push_back(fvs.back().recref);
    if (k < 3 && c.chance(1, 4) && !pool.empty())
      inner.push_back(pb.AddContextVar(*any(r, pool)).inner);
  }
  auto & sub = *pb.subregion();
  if (c.chance(1, 4))
    lambda(sub, inner, depth + 1, nullptr);
  std::vector<Output *> defs;
  for (auto & fv : fvs)
  {
    Output * d = nullptr;
    if (kindOf(*fv.recref->Type()) == F)
      d = lambda(sub, inner, depth + 1, fv.recref->Type());
    else
      d = delta(sub, inner, depth + 1);
    defs.push_back(d);
    fv.result->divert_to(d);
    if (c.chance(1, 2))
      inner.push_back(d);
  }
  pb.end();
  for (auto & fv : fvs)
    pool.push_back(fv.output);
}

void
Gen::step(Region & r, Pool & pool, size_t depth, bool functions)
{
  if (functions)
  {
    switch (c.weighted({ o.realistic ? 0u : 8u, o.realistic ? 0u : 3u, o.realistic ? 0u : 3u, 4, 1, 2 }))
    {
    case 1:
      if (depth < o.maxDepth)
        gamma(r, pool, depth);
      return;
    case 2:
      if (depth < o.maxDepth)
        theta(r, pool, depth);
      return;
    case 3:
      lambda(r, pool, depth, nullptr);
      return;
    case 4:
      delta(r, pool, depth);
      return;
    case 5:
      if (depth < o.maxDepth)
        phi(r, pool, depth);
      return;
    default:
      tag(r, pool);
      return;
    }
  }
  switch (depth >= o.maxDepth ? 0
          : o.focus == 1      ? c.weighted({ 4, 1, 4 })
          : o.focus == 2      ? c.weighted({ 4, 5, 1 })
                              : c.weighted({ 7, 3, 3 }))
  {
  case 1:
    gamma(r, pool, depth);
    return;
  case 2:
    theta(r, pool, depth);
    return;
  default:
    tag(r, pool);
  }
}

void
Gen::body(Region & r, Pool & pool, size_t n, size_t depth, bool functions)
{
  for (size_t k = 0; k < n && budget; k++)
  {
    budget--;
    step(r, pool, depth, functions);
  }
}

void
Gen::fill(Graph & g)
{
  graph = &g;
  auto & r = g.GetRootRegion();
  Pool pool;
  size_t k = 1 + c.draw(4);
  for (size_t n = 0; n < k; n++)
    pool.push_back(&GraphImport::Create(g, type(o.realistic ? V : (int[]){ V, S, B, C2, C3 }[c.draw(5)]), "i" + std::to_string(n)));
  while (budget > 3)
    body(r, pool, 1 + c.draw(6), 0, true);
  k = 1 + c.draw(5);
  for (size_t n = 0; n < k; n++)
    GraphExport::Create(*any(r, pool), "e" + std::to_string(n));
}

uint64_t
mix(uint64_t a, uint64_t b)
{
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 12) + (a >> 4);
  a *= 0xbf58476d1ce4e5b9ull;
  a ^= a >> 29;
  a *= 0x94d049bb133111ebull;
  return a ^ (a >> 32);
}

uint64_t
Meaning::typed(uint64_t h, const Type & t) const
{
  if (auto c = dynamic_cast<const ControlType *>(&t))
    return h % c->nalternatives();
  if (auto b = dynamic_cast<const BitType *>(&t))
    return b->nbits() == 1 ? h % 2 : h % 4 == 3 ? (h >> 8) & 15 : h % 4;
  if (dynamic_cast<const UnitType *>(&t))
    return 0;
  return h;
}

uint64_t
Meaning::simple(Frame & f, const SimpleNode & n, size_t index)
{
  auto & op = n.GetOperation();
  if (auto m = dynamic_cast<const MatchOperation *>(&op))
    return m->alternative(value(f, *n.input(0)->origin()));
  if (auto cc = dynamic_cast<const ControlConstantOperation *>(&op))
    return cc->value().alternative();
  if (auto b = dynamic_cast<const BitConstantOperation *>(&op))
    return b->value().to_uint();
  uint64_t h = mix(seed_, pbt::fnv(op.debug_string()));
  for (auto & i : n.Inputs())
    h = mix(mix(h, value(f, *i.origin())), kindOf(*i.Type()));
  for (auto & o : n.Outputs())
    h = mix(h, kindOf(*o.Type()));
  return typed(mix(h, index), *n.output(index)->Type());
}

Meaning::Frame &
Meaning::activate(Frame & f, const Node & n, size_t subregion, std::vector<uint64_t> args, bool keep)
{
  activations++;
  auto fr = std::make_unique<Frame>();
  fr->region = static_cast<const StructuralNode &>(n).subregion(subregion);
  fr->parent = &f;
  fr->args = std::move(args);
  fr->depth = f.depth;
  auto & ref = *fr;
  if (keep)
    f.sub[&n] = std::move(fr);
  else
    garbage_.push_back(std::move(fr));
  return ref;
}

void
Meaning::visitAll(Frame & f)
{
  if (!visit)
    return;
  for (auto & n : f.region->Nodes())
    for (auto & o : n.Outputs())
      value(f, o);
  visit(f);
}

std::vector<uint64_t> &
Meaning::loop(Frame & f, const ThetaNode & n)
{
  if (auto it = f.thetaOut.find(&n); it != f.thetaOut.end())
    return it->second;
  std::vector<uint64_t> cur;
  for (auto & lv : n.GetLoopVars())
    cur.push_back(value(f, *lv.input->origin()));
  for (unsigned k = 0;; k++)
  {
    if (k == maxIterations_)
    {
      if (!truncate_)
        throw TooLong();
      break;
    }
    auto & fr = activate(f, n, 0, cur, false);
    std::vector<uint64_t> next;
    for (auto & lv : n.GetLoopVars())
      next.push_back(value(fr, *lv.post->origin()));
    uint64_t p = value(fr, *n.predicate()->origin());
    visitAll(fr);
    cur = std::move(next);
    if (!visit)
      garbage_.pop_back();
    if (p == 0)
      break;
  }
  return f.thetaOut[&n] = std::move(cur);
}

std::vector<uint64_t>
Meaning::fixValues(Frame & f, const StructuralNode & sn, int depth, bool keep)
{
  auto & phi = static_cast<const PhiNode &>(sn);
  std::vector<uint64_t> rec;
  if (depth)
    rec = fixValues(f, sn, depth - 1, false);
  else
    for (auto & fv : phi.GetFixVars())
      rec.push_back(mix(mix(seed_, 0xf1), kindOf(*fv.recref->Type())));
  std::vector<uint64_t> args(phi.subregion()->narguments());
  for (auto & fv : phi.GetFixVars())
    args[fv.recref->index()] = rec[fv.output->index()];
  for (auto & cv : phi.GetContextVars())
    args[cv.inner->index()] = value(f, *cv.input->origin());
  auto & fr = activate(f, sn, 0, args, keep);
  fr.depth = 1;
  std::vector<uint64_t> out(phi.noutputs());
  for (auto & fv : phi.GetFixVars())
    out[fv.output->index()] = value(fr, *fv.result->origin());
  if (keep)
    visitAll(fr);
  return out;
}

uint64_t
Meaning::value(Frame & f, const Output & o)
{
  if (o.region() != f.region)
    pbt::fail("a value is used outside of its region", "");
  if (auto arg = dynamic_cast<const RegionArgument *>(&o))
  {
    // entry variables are evaluated when they are needed
    if (f.parent && arg->input() && dynamic_cast<const GammaNode *>(f.region->node()))
      return value(*f.parent, *arg->input()->origin());
    return f.args.at(arg->index());
  }
  if (auto it = f.vals.find(&o); it != f.vals.end())
    return it->second;
  if (++steps_ > 200000)
    throw TooLong();
  auto node = TryGetOwnerNode<Node>(o);
  uint64_t v = 0;
  if (auto s = dynamic_cast<const SimpleNode *>(node))
    v = simple(f, *s, o.index());
  else if (auto g = dynamic_cast<const GammaNode *>(node))
  {
    Frame * fr = nullptr;
    if (auto it = f.sub.find(g); it != f.sub.end())
      fr = it->second.get();
    bool first = !fr;
    if (!fr)
    {
      uint64_t p = value(f, *g->predicate()->origin());
      if (p >= g->nsubregions())
        pbt::fail("a branch is selected that does not exist", "");
      std::vector<uint64_t> args;
      auto mc = g->GetMatchVar().matchContent[p];
      args.push_back(typed(mix(mix(seed_, 0xc0), p), *mc->Type()));
      fr = &activate(f, *g, p, args);
    }
    v = value(*fr, *fr->region->result(o.index())->origin());
    if (first)
      visitAll(*fr);
  }
  else if (auto t = dynamic_cast<const ThetaNode *>(node))
    v = loop(f, *t).at(o.index());
  else if (auto l = dynamic_cast<const LambdaNode *>(node))
  {
    std::vector<uint64_t> args(l->subregion()->narguments());
    auto & ft = l->GetOperation().type();
    for (size_t n = 0; n < ft.NumArguments(); n++)
      args[n] = typed(mix(mix(seed_, 0xa0), n), ft.ArgumentType(n));
    for (auto & cv : l->GetContextVars())
      args[cv.inner->index()] = value(f, *cv.input->origin());
    auto & fr = activate(f, *l, 0, args);
    v = mix(seed_, 0x1a);
    for (auto r : l->GetFunctionResults())
      v = mix(v, value(fr, *r->origin()));
    v = mix(v, pbt::fnv(l->GetOperation().debug_string()));
    visitAll(fr);
  }
  else if (auto d = dynamic_cast<const DeltaNode *>(node))
  {
    std::vector<uint64_t> args(d->subregion()->narguments());
    for (auto & cv : d->GetContextVars())
      args[cv.inner->index()] = value(f, *cv.input->origin());
    auto & fr = activate(f, *d, 0, args);
    v = mix(mix(seed_, 0xde), value(fr, *d->result().origin()));
    v = mix(v, d->GetOperation().constant());
    visitAll(fr);
  }
  else if (auto p = dynamic_cast<const PhiNode *>(node))
  {
    auto vs = fixValues(f, *p, f.depth, true);
    for (size_t n = 0; n < vs.size(); n++)
      f.vals[p->output(n)] = vs[n];
    v = vs.at(o.index());
  }
  else
    pbt::fail("a value without owner", "");
  f.vals[&o] = v;
  return v;
}

std::unique_ptr<Meaning::Frame>
Meaning::root(const Graph & g)
{
  auto f = std::make_unique<Frame>();
  f->region = &g.GetRootRegion();
  for (auto a : f->region->Arguments())
  {
    auto im = dynamic_cast<const GraphImport *>(a);
    f->args.push_back(typed(mix(seed_, pbt::fnv(im ? im->Name() : "?")), *a->Type()));
  }
  return f;
}

std::map<std::string, uint64_t>
Meaning::exports(const Graph & g)
{
  auto f = root(g);
  std::map<std::string, uint64_t> m;
  for (auto r : g.GetRootRegion().Results())
  {
    auto ex = dynamic_cast<const GraphExport *>(r);
    m[ex ? ex->Name() : "?"] = value(*f, *r->origin());
  }
  visitAll(*f);
  garbage_.clear();
  return m;
}

namespace
{
struct Shape
{
  std::unordered_map<const Output *, uint64_t> h;

  uint64_t
  region(const Region & r)
  {
    std::vector<uint64_t> args;
    uint64_t x = mix(1, r.narguments());
    for (size_t n = 0; n < r.narguments(); n++)
    {
      auto a = r.argument(n);
      h[a] = mix(mix(mix(2, n), pbt::fnv(a->Type()->debug_string())), r.index());
      x = mix(x, a->Type()->ComputeHash());
      x = mix(x, a->input() ? a->input()->index() + 1 : 0);
      if (auto i = dynamic_cast<const GraphImport *>(a))
        x = mix(x, pbt::fnv(i->Name()));
    }
    std::vector<uint64_t> nodes;
    for (auto n : TopDownConstTraverser(&r))
      nodes.push_back(node(*n));
    std::sort(nodes.begin(), nodes.end());
    for (auto n : nodes)
      x = mix(x, n);
    x = mix(x, r.nresults());
    for (size_t n = 0; n < r.nresults(); n++)
    {
      auto res = r.result(n);
      auto it = h.find(res->origin());
      if (it == h.end())
        pbt::fail("a result has an origin outside of its region", "");
      x = mix(x, it->second);
      x = mix(x, pbt::fnv(res->Type()->debug_string()));
      x = mix(x, res->output() ? res->output()->index() + 1 : 0);
      if (auto e = dynamic_cast<const GraphExport *>(res))
        x = mix(x, pbt::fnv(e->Name()));
    }
    return x;
  }

  uint64_t
  node(const Node & n)
  {
    uint64_t x = mix(3, pbt::fnv(n.DebugString()));
    if (auto s = dynamic_cast<const SimpleNode *>(&n))
      x = mix(x, pbt::fnv(s->GetOperation().debug_string()));
    for (auto & i : n.Inputs())
    {
      auto it = h.find(i.origin());
      if (it == h.end())
        pbt::fail("an input has an origin outside of its region", n.DebugString());
      x = mix(mix(x, it->second), pbt::fnv(i.Type()->debug_string()));
    }
    if (auto s = dynamic_cast<const StructuralNode *>(&n))
      for (auto & r : s->Subregions())
        x = mix(x, region(r));
    if (auto d = dynamic_cast<const DeltaNode *>(&n))
      x = mix(mix(x, d->GetOperation().constant()), pbt::fnv(d->GetOperation().type().debug_string()));
    x = mix(x, n.noutputs());
    for (auto & o : n.Outputs())
      x = mix(x, pbt::fnv(o.Type()->debug_string()));
    for (auto & o : n.Outputs())
      h[&o] = mix(mix(x, 4), o.index());
    return x;
  }
};
}

uint64_t
shape(const Region & r)
{
  return Shape().region(r);
}

std::string
dump(const Graph & g)
{
  return view(&g.GetRootRegion());
}

void
compare(
    const std::map<std::string, uint64_t> & a,
    const std::map<std::string, uint64_t> & b,
    const std::string & kind,
    const std::string & msg)
{
  if (a == b)
    return;
  for (auto & [n, v] : a)
    if (!b.count(n))
      pbt::fail(kind, "export " + n + " is gone; " + msg);
    else if (b.at(n) != v)
      pbt::fail(kind, "export " + n + " has another value; " + msg);
  pbt::fail(kind, "exports were added; " + msg);
}

}
