// Properties of structural nodes (gamma, theta, lambda, phi, delta) on random graphs of uninterpreted operations.
#include "pipe.hpp"
#include "structgen.hpp"

#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/delta.hpp>
#include <jlm/rvsdg/FunctionType.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/RvsdgModule.hpp>
#include <jlm/rvsdg/substitution.hpp>
#include <jlm/rvsdg/theta.hpp>
#include <jlm/rvsdg/Trace.hpp>
#include <jlm/rvsdg/view.hpp>

#include <algorithm>
#include <set>

namespace
{
using pbt::Ctx;
using pbt::fail;
using namespace sg;

void
regionsOf(Region & r, std::vector<Region *> & out)
{
  out.push_back(&r);
  for (auto & n : r.Nodes())
    if (auto s = dynamic_cast<StructuralNode *>(&n))
      for (auto & sub : s->Subregions())
        regionsOf(sub, out);
}

std::vector<Region *>
regionsOf(Graph & g)
{
  std::vector<Region *> r;
  regionsOf(g.GetRootRegion(), r);
  return r;
}

std::vector<StructuralNode *>
structuralsOf(Graph & g)
{
  std::vector<StructuralNode *> v;
  for (auto r : regionsOf(g))
    for (auto & n : r->Nodes())
      if (auto s = dynamic_cast<StructuralNode *>(&n))
        v.push_back(s);
  return v;
}

void
outputsOf(Region & r, std::vector<Output *> & v)
{
  for (auto a : r.Arguments())
    v.push_back(a);
  for (auto & n : r.Nodes())
    for (auto & o : n.Outputs())
      v.push_back(&o);
}

bool
isAncestorOrSelf(const Region & a, const Region & r)
{
  for (auto p = &r; p; p = p->node() ? p->node()->region() : nullptr)
    if (p == &a)
      return true;
  return false;
}

using Exports = std::map<std::string, uint64_t>;

// The meanings under a few seeds; seeds that take too long are left out.
std::map<uint64_t, Exports>
meanings(const Graph & g, unsigned n, uint64_t base, bool truncate, unsigned iterations = 8, bool strict = false)
{
  std::map<uint64_t, Exports> m;
  for (unsigned k = 0; k < n; k++)
  {
    try
    {
      Meaning me(base + k, iterations, truncate);
      if (strict) // what is not needed might well be evaluated after a transformation
        me.visit = [](Meaning::Frame &)
        {
        };
      m[base + k] = me.exports(g);
    }
    catch (TooLong &)
    {}
  }
  return m;
}

std::string
describe(const Graph & before)
{
  auto s = dump(before);
  return s;
}

const char *
kindName(const StructuralNode & n)
{
  if (dynamic_cast<const GammaNode *>(&n))
    return "gamma";
  if (dynamic_cast<const ThetaNode *>(&n))
    return "theta";
  if (dynamic_cast<const LambdaNode *>(&n))
    return "lambda";
  if (dynamic_cast<const PhiNode *>(&n))
    return "phi";
  if (dynamic_cast<const DeltaNode *>(&n))
    return "delta";
  return "other";
}

// ------------------------------------------------------------------------------------------------ copying

struct Snapshot
{
  uint64_t shape;
  size_t nodes, inputs;

  explicit Snapshot(const Graph & g)
      : shape(sg::shape(g.GetRootRegion())),
        nodes(nnodes(&g.GetRootRegion())),
        inputs(ninputs(&g.GetRootRegion()))
  {}

  bool
  operator==(const Snapshot & o) const
  {
    return shape == o.shape && nodes == o.nodes && inputs == o.inputs;
  }
};

void
checkSame(const Snapshot & a, const Graph & g, const std::string & kind)
{
  pipeline::checkGraph(g, kind);
  if (!(Snapshot(g) == a))
    fail(kind, "");
}

void
copying(Ctx & c)
{
  GenOptions o;
  o.budget = 6 + c.draw(40);
  o.matchContent = true;
  Graph g;
  Gen gen(c, o);
  gen.fill(g);
  pipeline::checkGraph(g, "generated");
  c.artifacts["graph.txt"] = dump(g);
  auto structurals = structuralsOf(g);
  Snapshot s(g);
  c.nontrivial = !structurals.empty();
  c.setHash(s.shape);
  auto before = meanings(g, 2, 1, true);

  // operations
  for (auto r : regionsOf(g))
    for (auto & n : r->Nodes())
    {
      auto op = n.GetOperation().copy();
      if (!(*op == n.GetOperation()) || !(n.GetOperation() == *op) || op->debug_string() != n.GetOperation().debug_string())
        fail("copy of an operation differs", n.DebugString());
      c.evals++;
    }

  switch (c.draw(4))
  {
  case 0:
  {
    c.label("graph");
    auto copy = g.Copy();
    checkSame(s, g, "copying a graph changes the original");
    checkSame(s, *copy, "copy of a graph differs");
    for (auto & [seed, e] : before)
      compare(e, Meaning(seed, 8, true).exports(*copy), "copy of a graph has another meaning", "");
    auto copy2 = copy->Copy();
    checkSame(s, *copy2, "copy of a copy differs");
    // changes on one side do not show on the other
    size_t k = c.draw(3);
    if (k == 0)
    {
      copy.reset();
      checkSame(s, g, "destroying a copy changes the original");
    }
    else if (k == 1)
    {
      while (copy->GetRootRegion().nresults())
        copy->GetRootRegion().RemoveResults({ 0 });
      copy->PruneNodes();
      checkSame(s, g, "pruning a copy changes the original");
    }
    else
    {
      while (g.GetRootRegion().nresults())
        g.GetRootRegion().RemoveResults({ 0 });
      g.PruneNodes();
      checkSame(s, *copy, "pruning the original changes a copy");
    }
    checkSame(s, *copy2, "copies are not independent");
    break;
  }
  case 1:
  {
    // a copy of a node in the same place can stand in for it
    c.label("node in place");
    std::vector<Node *> nodes;
    for (auto r : regionsOf(g))
      for (auto & n : r->Nodes())
        if (n.noutputs())
          nodes.push_back(&n);
    if (!structurals.empty() && c.chance(3, 4))
      nodes.assign(structurals.begin(), structurals.end());
    if (nodes.empty())
      pbt::discard("no nodes");
    auto n = c.pick(nodes);
    if (!n->noutputs())
      pbt::discard("no outputs");
    Node * n2 = nullptr;
    SubstitutionMap smap;
    bool viaMap = c.chance(1, 2);
    if (viaMap)
    {
      for (auto & i : n->Inputs())
        smap.insert(i.origin(), i.origin());
      n2 = n->copy(n->region(), smap);
    }
    else
    {
      std::vector<Output *> ops;
      for (auto & i : n->Inputs())
        ops.push_back(i.origin());
      n2 = n->copy(n->region(), ops);
    }
    auto kind = [&]() -> std::string
    {
      if (auto sn = dynamic_cast<StructuralNode *>(n))
        return kindName(*sn);
      return "simple";
    }();
    c.label(kind);
    pipeline::checkGraph(g, "after copying a " + kind);
    if (n2->region() != n->region() || n2->noutputs() != n->noutputs() || n2->ninputs() != n->ninputs())
      fail("copy of a " + kind + " differs", "");
    if (viaMap)
      for (auto & out : n->Outputs())
        if (!smap.contains(out) || &smap.lookup(out) != n2->output(out.index()))
          fail("the outputs of a copied " + kind + " are not in the substitution map", "");
    for (size_t k = 0; k < n->noutputs(); k++)
      n->output(k)->divert_users(n2->output(k));
    remove(n);
    checkSame(s, g, "copy of a " + kind + " differs from it or changes it");
    for (auto & [seed, e] : before)
      compare(e, Meaning(seed, 8, true).exports(g), "copy of a " + kind + " has another meaning", "");
    break;
  }
  case 2:
  {
    // other operands
    c.label("other operands");
    if (structurals.empty())
      pbt::discard("no structural nodes");
    auto n = c.pick(structurals);
    std::string kind = kindName(*n);
    c.label(kind);
    std::vector<Output *> pool, ops;
    for (auto a : n->region()->Arguments())
      pool.push_back(a);
    for (auto & m : n->region()->Nodes())
    {
      if (&m == n)
        break;
      for (auto & out : m.Outputs())
        pool.push_back(&out);
    }
    for (auto & i : n->Inputs())
    {
      std::vector<Output *> fit;
      for (auto p : pool)
        if (*p->Type() == *i.Type())
          fit.push_back(p);
      ops.push_back(fit.empty() ? i.origin() : c.pick(fit));
    }
    std::vector<uint64_t> subs;
    for (auto & r : n->Subregions())
      subs.push_back(shape(r));
    auto n2 = dynamic_cast<StructuralNode *>(n->copy(n->region(), ops));
    pipeline::checkGraph(g, "after copying a " + kind);
    if (!n2 || n2->nsubregions() != n->nsubregions() || n2->ninputs() != n->ninputs() || n2->noutputs() != n->noutputs())
      fail("copy of a " + kind + " differs", "");
    for (size_t k = 0; k < ops.size(); k++)
      if (n2->input(k)->origin() != ops[k])
        fail("copy of a " + kind + " has the wrong operands", "");
    for (size_t k = 0; k < subs.size(); k++)
      if (shape(*n2->subregion(k)) != subs[k] || shape(*n->subregion(k)) != subs[k])
        fail("copy of a " + kind + " differs from it or changes it", "");
    remove(n2);
    checkSame(s, g, "copying a " + kind + " changes the original");
    break;
  }
  default:
  {
    // the body of one node is copied into another one
    c.label("region");
    std::vector<Region *> regions;
    for (auto r : regionsOf(g))
      if (r->node())
        regions.push_back(r);
    if (regions.empty())
      pbt::discard("no structural nodes");
    auto r = c.pick(regions);
    auto sh = shape(*r);
    auto & root = g.GetRootRegion();
    // the same values, as arguments of a function
    std::vector<std::shared_ptr<const Type>> types, res;
    for (auto a : r->Arguments())
      types.push_back(a->Type());
    auto target = std::make_unique<Graph>();
    SubstitutionMap smap;
    LambdaBuilder lb(target->GetRootRegion(), types);
    auto args = lb.Arguments();
    for (size_t k = 0; k < args.size(); k++)
      smap.insert(r->argument(k), args[k]);
    r->copy(lb.GetRegion(), smap);
    std::vector<Output *> results;
    for (auto x : r->Results())
    {
      if (!smap.contains(*x->origin()))
        fail("a copied region misses values", "");
      results.push_back(&smap.lookup(*x->origin()));
      res.push_back(x->Type());
    }
    auto & out = lb.Finalize(results, std::make_unique<LambdaOperation>(FunctionType::Create(types, res)));
    GraphExport::Create(out, "f");
    pipeline::checkGraph(*target, "after copying a region");
    auto & lambda = AssertGetOwnerNode<LambdaNode>(out);
    if (nnodes(lambda.subregion()) != nnodes(r) || ninputs(lambda.subregion()) != ninputs(r))
      fail("copy of a region has other nodes", "");
    // compare the nodes: both regions with their arguments named by index
    auto strip = [](Region & x)
    {
      Meaning me(5, 4, true);
      auto f = std::make_unique<Meaning::Frame>();
      f->region = &x;
      for (size_t k = 0; k < x.narguments(); k++)
      {
        auto h = mix(77, k);
        if (auto ct = dynamic_cast<const ControlType *>(x.argument(k)->Type().get()))
          h %= ct->nalternatives();
        else if (dynamic_cast<const BitType *>(x.argument(k)->Type().get()))
          h %= 2;
        f->args.push_back(h);
      }
      std::vector<uint64_t> v;
      for (auto y : x.Results())
        v.push_back(me.value(*f, *y->origin()));
      return v;
    };
    try
    {
      if (strip(*r) != strip(*lambda.subregion()))
        fail("copy of a region has another meaning", "");
    }
    catch (TooLong &)
    {}
    if (shape(*r) != sh)
      fail("copying a region changes the original", "");
    target.reset();
    checkSame(s, g, "copying a region changes the original");
    (void)root;
  }
  }
  c.sample = std::to_string(s.nodes) + " nodes";
}

// ------------------------------------------------------------------------------------------------ variables

// A variable of a structural node, as the pointers that belong together.
using Var = std::vector<const void *>;

std::vector<Var>
varsOf(StructuralNode & n)
{
  std::vector<Var> v;
  if (auto g = dynamic_cast<GammaNode *>(&n))
  {
    for (auto & e : g->GetEntryVars())
    {
      Var x{ e.input };
      for (auto a : e.branchArgument)
        x.push_back(a);
      v.push_back(x);
    }
    v.push_back({});
    for (auto & e : g->GetExitVars())
    {
      Var x{ e.output };
      for (auto a : e.branchResult)
        x.push_back(a);
      v.push_back(x);
    }
  }
  else if (auto t = dynamic_cast<ThetaNode *>(&n))
    for (auto & l : t->GetLoopVars())
      v.push_back({ l.input, l.pre, l.post, l.output });
  else if (auto l = dynamic_cast<LambdaNode *>(&n))
  {
    for (auto & x : l->GetContextVars())
      v.push_back({ x.input, x.inner });
    v.push_back({});
    for (auto a : l->GetFunctionArguments())
      v.push_back({ a });
    for (auto a : l->GetFunctionResults())
      v.push_back({ a });
  }
  else if (auto p = dynamic_cast<PhiNode *>(&n))
  {
    for (auto & x : p->GetContextVars())
      v.push_back({ x.input, x.inner });
    v.push_back({});
    for (auto & x : p->GetFixVars())
      v.push_back({ x.recref, x.result, x.output });
  }
  else if (auto d = dynamic_cast<DeltaNode *>(&n))
    for (auto & x : d->GetContextVars())
      v.push_back({ x.input, x.inner });
  return v;
}

// Every accessor agrees on which inputs, arguments, results and outputs belong together.
void
checkVars(StructuralNode & n)
{
  std::string kind = kindName(n);
  auto req = [&](bool ok, const char * what)
  {
    if (!ok)
      fail("variables of a " + kind + ": " + what, "");
  };
  if (auto g = dynamic_cast<GammaNode *>(&n))
  {
    auto mv = g->GetMatchVar();
    req(mv.input == g->predicate() && mv.input->index() == 0, "match input");
    req(mv.matchContent.size() == g->nsubregions(), "match content");
    for (size_t k = 0; k < g->nsubregions(); k++)
    {
      req(mv.matchContent[k] == g->subregion(k)->argument(0), "match content");
      req(*mv.matchContent[k]->Type() == *g->GetOperation().GetMatchContentType(k), "match content type");
      auto m = g->MapBranchArgument(*mv.matchContent[k]);
      req(std::holds_alternative<GammaNode::MatchVar>(m), "match content is not mapped to the match variable");
      req(std::get<GammaNode::MatchVar>(m).input == g->predicate(), "match input");
      req(std::get<GammaNode::MatchVar>(m).matchContent == mv.matchContent, "match content");
    }
    auto mi = g->MapInput(*g->predicate());
    req(std::holds_alternative<GammaNode::MatchVar>(mi), "predicate is not mapped to the match variable");
    auto evs = g->GetEntryVars();
    req(evs.size() + 1 == g->ninputs(), "number of entry variables");
    for (size_t k = 0; k < evs.size(); k++)
    {
      auto & e = evs[k];
      req(e.input == g->input(k + 1), "order of entry variables");
      req(e.branchArgument.size() == g->nsubregions(), "number of branch arguments");
      auto same = [&](const std::variant<GammaNode::MatchVar, GammaNode::EntryVar> & x)
      {
        auto y = std::get_if<GammaNode::EntryVar>(&x);
        req(y && y->input == e.input && y->branchArgument == e.branchArgument, "entry variable");
      };
      same(g->MapInput(*e.input));
      for (size_t a = 0; a < g->nsubregions(); a++)
      {
        auto arg = dynamic_cast<RegionArgument *>(e.branchArgument[a]);
        req(arg && arg->region() == g->subregion(a) && arg->input() == e.input, "branch argument");
        req(*arg->Type() == *e.input->Type(), "type of a branch argument");
        same(g->MapBranchArgument(*arg));
        req(&g->mapBranchArgumentToInput(*static_cast<Output *>(arg)) == e.input, "input of a branch argument");
        req(&g->mapBranchArgumentToInput(*static_cast<const Output *>(arg)) == e.input, "input of a branch argument");
      }
    }
    auto xvs = g->GetExitVars();
    req(xvs.size() == g->noutputs(), "number of exit variables");
    for (size_t k = 0; k < xvs.size(); k++)
    {
      auto & x = xvs[k];
      req(x.output == g->output(k), "order of exit variables");
      req(x.branchResult.size() == g->nsubregions(), "number of branch results");
      auto same = [&](const GammaNode::ExitVar & y)
      {
        req(y.output == x.output && y.branchResult == x.branchResult, "exit variable");
      };
      same(g->MapOutputExitVar(*x.output));
      bool inv = true;
      Output * common = nullptr;
      for (size_t a = 0; a < g->nsubregions(); a++)
      {
        auto res = dynamic_cast<RegionResult *>(x.branchResult[a]);
        req(res && res->region() == g->subregion(a) && res->output() == x.output, "branch result");
        req(*res->Type() == *x.output->Type(), "type of a branch result");
        same(g->MapBranchResultExitVar(*res));
        req(&g->mapBranchResultToOutput(*static_cast<Input *>(res)) == x.output, "output of a branch result");
        req(&g->mapBranchResultToOutput(*static_cast<const Input *>(res)) == x.output, "output of a branch result");
        auto arg = dynamic_cast<RegionArgument *>(res->origin());
        if (!arg || !arg->input() || (common && common != arg->input()->origin()))
          inv = false;
        else
          common = arg->input()->origin();
      }
      auto o = GetGammaInvariantOrigin(*g, x);
      req(o.has_value() == inv && (!inv || *o == common), "invariant origin");
    }
  }
  else if (auto t = dynamic_cast<ThetaNode *>(&n))
  {
    req(t->predicate() == t->subregion()->result(0), "predicate");
    auto lvs = t->GetLoopVars();
    req(lvs.size() == t->ninputs() && lvs.size() == t->noutputs(), "number of loop variables");
    req(t->subregion()->nresults() == lvs.size() + 1 && t->subregion()->narguments() == lvs.size(), "number of loop variables");
    for (size_t k = 0; k < lvs.size(); k++)
    {
      auto & l = lvs[k];
      req(l.input == t->input(k) && l.output == t->output(k), "order of loop variables");
      auto pre = dynamic_cast<RegionArgument *>(l.pre);
      auto post = dynamic_cast<RegionResult *>(l.post);
      req(pre && pre->input() == l.input && post && post->output() == l.output, "links");
      req(*pre->Type() == *l.input->Type() && *post->Type() == *l.input->Type() && *l.output->Type() == *l.input->Type(), "types");
      for (auto & m : { t->MapInputLoopVar(*l.input),
                        t->MapPreLoopVar(*l.pre),
                        t->MapPostLoopVar(*l.post),
                        t->MapOutputLoopVar(*l.output) })
        req(m.input == l.input && m.pre == l.pre && m.post == l.post && m.output == l.output, "loop variable");
      req(ThetaLoopVarIsInvariant(l) == (l.post->origin() == l.pre), "invariance");
    }
    bool threw = false;
    try
    {
      (void)t->MapPostLoopVar(*t->predicate());
    }
    catch (std::logic_error &)
    {
      threw = true;
    }
    req(threw, "predicate mapped to a loop variable");
  }
  else if (auto l = dynamic_cast<LambdaNode *>(&n))
  {
    auto & ft = l->GetOperation().type();
    auto args = l->GetFunctionArguments();
    auto res = l->GetFunctionResults();
    req(args.size() == ft.NumArguments() && res.size() == ft.NumResults(), "number of arguments or results");
    for (size_t k = 0; k < args.size(); k++)
    {
      req(args[k] == l->subregion()->argument(k) && *args[k]->Type() == ft.ArgumentType(k), "argument");
      auto m = l->MapArgument(*args[k]);
      auto a = std::get_if<LambdaNode::ArgumentVar>(&m);
      req(a && a->arg == args[k], "argument");
      req(!l->MapBinderContextVar(*args[k]), "argument mapped to a context variable");
    }
    for (size_t k = 0; k < res.size(); k++)
      req(res[k] == l->subregion()->result(k) && *res[k]->Type() == ft.ResultType(k), "result");
    auto cvs = l->GetContextVars();
    req(cvs.size() == l->ninputs() && args.size() + cvs.size() == l->subregion()->narguments(), "number of context variables");
    for (size_t k = 0; k < cvs.size(); k++)
    {
      auto & v = cvs[k];
      auto arg = dynamic_cast<RegionArgument *>(v.inner);
      req(v.input == l->input(k) && arg && arg->input() == v.input && *arg->Type() == *v.input->Type(), "context variable");
      auto a = l->MapInputContextVar(*v.input);
      auto b = l->MapBinderContextVar(*v.inner);
      auto m = l->MapArgument(*v.inner);
      auto d = std::get_if<LambdaNode::ContextVar>(&m);
      req(a.input == v.input && a.inner == v.inner && b && b->input == v.input && b->inner == v.inner && d
              && d->input == v.input && d->inner == v.inner,
          "context variable");
    }
    req(l->noutputs() == 1 && *l->output()->Type() == ft, "output");
  }
  else if (auto p = dynamic_cast<PhiNode *>(&n))
  {
    auto cvs = p->GetContextVars();
    auto fvs = p->GetFixVars();
    req(cvs.size() == p->ninputs() && fvs.size() == p->noutputs() && fvs.size() == p->subregion()->nresults()
            && cvs.size() + fvs.size() == p->subregion()->narguments(),
        "number of variables");
    for (auto & v : cvs)
    {
      auto arg = dynamic_cast<RegionArgument *>(v.inner);
      req(arg && arg->input() == v.input && *arg->Type() == *v.input->Type(), "context variable");
      auto a = p->MapInputContextVar(*v.input);
      auto b = p->MapArgumentContextVar(*v.inner);
      auto m = p->MapArgument(*v.inner);
      auto d = std::get_if<PhiNode::ContextVar>(&m);
      req(a.input == v.input && a.inner == v.inner && b && b->input == v.input && b->inner == v.inner && d
              && d->input == v.input && d->inner == v.inner,
          "context variable");
      req(!p->MapArgumentFixVar(*v.inner), "context variable mapped to a recursion variable");
    }
    for (auto & v : fvs)
    {
      auto arg = dynamic_cast<RegionArgument *>(v.recref);
      auto res = dynamic_cast<RegionResult *>(v.result);
      req(arg && !arg->input() && res && res->output() == v.output, "links");
      req(*arg->Type() == *v.output->Type() && *res->Type() == *v.output->Type(), "types");
      auto same = [&](const PhiNode::FixVar & x)
      {
        return x.recref == v.recref && x.result == v.result && x.output == v.output;
      };
      auto a = p->MapArgumentFixVar(*v.recref);
      auto m = p->MapArgument(*v.recref);
      auto d = std::get_if<PhiNode::FixVar>(&m);
      req(a && same(*a) && same(p->MapResultFixVar(*v.result)) && same(p->MapOutputFixVar(*v.output)) && d && same(*d),
          "recursion variable");
      req(!p->MapArgumentContextVar(*v.recref), "recursion variable mapped to a context variable");
    }
    std::vector<const LambdaNode *> want;
    std::function<void(Region &)> go = [&](Region & r)
    {
      for (auto & x : r.Nodes())
        if (auto y = dynamic_cast<LambdaNode *>(&x))
          want.push_back(y);
        else if (auto z = dynamic_cast<PhiNode *>(&x))
          go(*z->subregion());
    };
    go(*p->subregion());
    auto got = PhiNode::ExtractLambdaNodes(*p);
    req(std::multiset<const LambdaNode *>(got.begin(), got.end()) == std::multiset<const LambdaNode *>(want.begin(), want.end()),
        "extracted functions");
  }
  else if (auto d = dynamic_cast<DeltaNode *>(&n))
  {
    auto cvs = d->GetContextVars();
    req(cvs.size() == d->ninputs() && cvs.size() == d->subregion()->narguments(), "number of context variables");
    for (auto & v : cvs)
    {
      auto arg = dynamic_cast<RegionArgument *>(v.inner);
      req(arg && arg->input() == v.input && *arg->Type() == *v.input->Type(), "context variable");
      auto a = d->MapInputContextVar(*v.input);
      auto b = d->MapBinderContextVar(*v.inner);
      req(a.input == v.input && a.inner == v.inner && b.input == v.input && b.inner == v.inner, "context variable");
    }
    req(&d->output() == static_cast<Node *>(d)->output(0) && &d->result() == d->subregion()->result(0), "output");
  }
}

void
variables(Ctx & c)
{
  GenOptions o;
  o.budget = 5 + c.draw(25);
  o.matchContent = true;
  Graph g;
  Gen gen(c, o);
  gen.fill(g);
  pipeline::checkGraph(g, "generated");
  std::string text = dump(g), log;
  auto before = meanings(g, 2, 1, true, 4);
  unsigned effective = 0;
  auto publish = [&]
  {
    c.artifacts["graph.txt"] = text + "\nedits:" + log + "\nnow:\n" + dump(g);
  };
  publish();
  size_t edits = 1 + c.draw(12);
  for (size_t k = 0; k < edits; k++)
  {
    auto structurals = structuralsOf(g);
    if (structurals.empty())
      break;
    auto & n = *c.pick(structurals);
    std::string kind = kindName(n);
    auto old = varsOf(n);
    std::set<Var> oldSet(old.begin(), old.end());
    std::set<Var> gone; // expected
    size_t added = 0;
    std::string what;
    std::vector<Output *> pool;
    for (auto a : n.region()->Arguments())
      pool.push_back(a);
    for (auto & m : n.region()->Nodes())
    {
      if (&m == &n)
        break; // anything else might depend on it
      for (auto & out : m.Outputs())
        pool.push_back(&out);
    }
    bool route = c.chance(1, 6);
    if (route)
    {
      auto regions = regionsOf(g);
      auto r = c.pick(regions);
      auto from = c.pick(regions);
      if (c.chance(2, 3))
        for (from = r; from->node() && c.chance(3, 4);)
          from = from->node()->region();
      std::vector<Output *> outs;
      // only values computed before the region's owner
      const Node * stop = nullptr;
      for (auto p = r; p->node(); p = p->node()->region())
        if (p->node()->region() == from)
          stop = p->node();
      for (auto a : from->Arguments())
        outs.push_back(a);
      for (auto & m : from->Nodes())
      {
        if (&m == stop)
          break;
        for (auto & out : m.Outputs())
          outs.push_back(&out);
      }
      if (outs.empty())
        continue;
      auto out = c.pick(outs);
      bool ok = isAncestorOrSelf(*from, *r);
      auto sh = shape(g.GetRootRegion());
      log += " route";
      try
      {
        auto & got = RouteToRegion(*out, *r);
        if (!ok)
          fail("a value is routed into a region where it is not available", "");
        if (got.region() != r)
          fail("a value is routed into another region", "");
        // back up
        Output * x = &got;
        while (x->region() != from)
        {
          auto arg = dynamic_cast<RegionArgument *>(x);
          if (!arg || !arg->input())
            fail("a routed value does not come from its origin", "");
          if (auto t = dynamic_cast<ThetaNode *>(x->region()->node()))
            if (!ThetaLoopVarIsInvariant(t->MapPreLoopVar(*x)))
              fail("a routed value changes from iteration to iteration", "");
          x = arg->input()->origin();
        }
        if (x != out)
          fail("a routed value does not come from its origin", "");
        if (from == r && shape(g.GetRootRegion()) != sh)
          fail("routing a value to its own region changes the graph", "");
        effective++;
      }
      catch (std::logic_error &)
      {
        if (ok)
          fail("a value cannot be routed into a region where it is available", "");
        if (shape(g.GetRootRegion()) != sh)
          fail("a refused routing changes the graph", "");
      }
    }
    else if (auto gm = dynamic_cast<GammaNode *>(&n))
    {
      switch (c.draw(5))
      {
      case 0:
      {
        if (pool.empty())
          continue;
        what = "add entry variable";
        auto out = c.pick(pool);
        auto ev = gm->AddEntryVar(out);
        if (ev.input->origin() != out || ev.input->index() + 1 != gm->ninputs())
          fail("variables of a gamma: new entry variable", "");
        added = 1;
        break;
      }
      case 1:
      {
        what = "add exit variable";
        std::vector<Output *> vals;
        std::vector<Output *> first;
        outputsOf(*gm->subregion(0), first);
        if (first.empty())
          continue;
        vals.push_back(c.pick(first));
        for (size_t a = 1; a < gm->nsubregions(); a++)
        {
          std::vector<Output *> all, fit;
          outputsOf(*gm->subregion(a), all);
          for (auto x : all)
            if (*x->Type() == *vals[0]->Type())
              fit.push_back(x);
          if (fit.empty())
            break;
          vals.push_back(c.pick(fit));
        }
        if (vals.size() != gm->nsubregions())
          continue;
        auto xv = gm->AddExitVar(vals);
        for (size_t a = 0; a < vals.size(); a++)
          if (xv.branchResult[a]->origin() != vals[a])
            fail("variables of a gamma: new exit variable", "");
        if (xv.output->index() + 1 != gm->noutputs())
          fail("variables of a gamma: new exit variable", "");
        added = 1;
        break;
      }
      case 2:
      {
        what = "remove entry variables";
        std::vector<GammaNode::EntryVar> rm;
        for (auto & ev : gm->GetEntryVars())
        {
          bool dead = true;
          for (auto a : ev.branchArgument)
            dead &= a->IsDead();
          if (dead && c.chance(2, 3))
          {
            rm.push_back(ev);
            Var x{ ev.input };
            for (auto a : ev.branchArgument)
              x.push_back(a);
            gone.insert(x);
          }
        }
        if (c.chance(1, 2))
          std::reverse(rm.begin(), rm.end());
        gm->RemoveEntryVars(rm);
        break;
      }
      default:
      {
        what = "remove exit variables";
        std::vector<Output *> rm;
        bool all = c.chance(1, 2);
        for (auto & xv : gm->GetExitVars())
          if (xv.output->IsDead() && (all || c.chance(1, 2)))
          {
            rm.push_back(xv.output);
            Var x{ xv.output };
            for (auto a : xv.branchResult)
              x.push_back(a);
            gone.insert(x);
          }
        if (all)
          gm->PruneExitVars();
        else
        {
          if (c.chance(1, 2))
            std::reverse(rm.begin(), rm.end());
          gm->RemoveExitVars(rm);
        }
      }
      }
    }
    else if (auto t = dynamic_cast<ThetaNode *>(&n))
    {
      if (c.chance(1, 2))
      {
        if (pool.empty())
          continue;
        what = "add loop variable";
        auto out = c.pick(pool);
        auto lv = t->AddLoopVar(out);
        if (lv.input->origin() != out || lv.post->origin() != lv.pre || lv.output->index() + 1 != t->noutputs())
          fail("variables of a theta: new loop variable", "");
        if (c.chance(1, 2))
        {
          std::vector<Output *> all, fit;
          outputsOf(*t->subregion(), all);
          for (auto x : all)
            if (*x->Type() == *lv.pre->Type())
              fit.push_back(x);
          lv.post->divert_to(c.pick(fit));
        }
        added = 1;
      }
      else
      {
        what = "remove loop variables";
        std::vector<ThetaNode::LoopVar> rm;
        for (auto & lv : t->GetLoopVars())
          if (lv.output->IsDead()
              && (lv.pre->IsDead() || (lv.pre->nusers() == 1 && lv.post->origin() == lv.pre)) && c.chance(2, 3))
          {
            rm.push_back(lv);
            gone.insert(Var{ lv.input, lv.pre, lv.post, lv.output });
          }
        if (c.chance(1, 2))
          std::reverse(rm.begin(), rm.end());
        t->RemoveLoopVars(rm);
      }
    }
    else if (auto l = dynamic_cast<LambdaNode *>(&n))
    {
      if (c.chance(1, 2))
      {
        if (pool.empty())
          continue;
        what = "add context variable";
        auto out = c.pick(pool);
        auto cv = l->AddContextVar(*out);
        if (cv.input->origin() != out)
          fail("variables of a lambda: new context variable", "");
        added = 1;
      }
      else
      {
        what = "remove context variables";
        bool all = c.chance(1, 3);
        std::set<const Input *> want;
        for (auto & cv : l->GetContextVars())
          if (all || c.chance(2, 3))
          {
            want.insert(cv.input);
            if (cv.inner->IsDead())
              gone.insert(Var{ cv.input, cv.inner });
          }
        size_t got = all ? l->PruneLambdaInputs()
                         : l->RemoveLambdaInputsWhere(
                             [&](const Input & i)
                             {
                               return want.count(&i) != 0;
                             });
        if (got != gone.size())
          fail("variables of a lambda: number of removed inputs", "");
      }
    }
    else if (auto d = dynamic_cast<DeltaNode *>(&n))
    {
      if (c.chance(1, 2))
      {
        if (pool.empty())
          continue;
        what = "add context variable";
        auto out = c.pick(pool);
        auto cv = d->AddContextVar(*out);
        if (cv.input->origin() != out)
          fail("variables of a delta: new context variable", "");
        added = 1;
      }
      else
      {
        what = "remove context variables";
        bool all = c.chance(1, 3);
        std::set<const Input *> want;
        for (auto & cv : d->GetContextVars())
          if (all || c.chance(2, 3))
          {
            want.insert(cv.input);
            if (cv.inner->IsDead())
              gone.insert(Var{ cv.input, cv.inner });
          }
        size_t got = all ? d->PruneDeltaInputs()
                         : d->RemoveDeltaInputsWhere(
                             [&](const Input & i)
                             {
                               return want.count(&i) != 0;
                             });
        if (got != gone.size())
          fail("variables of a delta: number of removed inputs", "");
      }
    }
    else if (auto p = dynamic_cast<PhiNode *>(&n))
    {
      switch (c.draw(3))
      {
      case 0:
      {
        if (pool.empty())
          continue;
        what = "add context variable";
        auto out = c.pick(pool);
        auto cv = p->AddContextVar(*out);
        if (cv.input->origin() != out)
          fail("variables of a phi: new context variable", "");
        added = 1;
        break;
      }
      case 1:
      {
        what = "remove context variables";
        std::vector<PhiNode::ContextVar> rm;
        for (auto & cv : p->GetContextVars())
          if (cv.inner->IsDead() && c.chance(2, 3))
          {
            rm.push_back(cv);
            gone.insert(Var{ cv.input, cv.inner });
          }
        if (c.chance(1, 2))
          std::reverse(rm.begin(), rm.end());
        p->RemoveContextVars(rm);
        break;
      }
      default:
      {
        what = "remove recursion variables";
        std::vector<PhiNode::FixVar> rm;
        for (auto & fv : p->GetFixVars())
          if (fv.recref->IsDead() && fv.output->IsDead() && c.chance(2, 3))
          {
            rm.push_back(fv);
            gone.insert(Var{ fv.recref, fv.result, fv.output });
          }
        if (c.chance(1, 2))
          std::reverse(rm.begin(), rm.end());
        p->RemoveFixVars(rm);
      }
      }
    }
    if (!route)
    {
      log += " " + kind + "[" + what + (added ? "" : " " + std::to_string(gone.size())) + "]";
      effective += added || !gone.empty();
      c.label(kind + ": " + what);
      auto now = varsOf(n);
      std::vector<Var> kept;
      for (auto & v : old)
        if (!gone.count(v))
          kept.push_back(v);
      if (now.size() != kept.size() + added)
        fail("variables of a " + kind + ": " + what + " leaves the wrong number of variables", "");
      // the others remain, in their order
      size_t at = 0;
      for (auto & v : now)
        if (at < kept.size() && v == kept[at])
          at++;
      if (at != kept.size())
        fail("variables of a " + kind + ": " + what + " affects other variables", "");
    }
    publish();
    pipeline::checkGraph(g, kind + " " + what);
    for (auto s : structuralsOf(g))
      checkVars(*s);
    for (auto & [seed, e] : before)
      compare(e, Meaning(seed, 4, true).exports(g), "an edit of variables changes other values", kind + " " + what);
    c.evals += structurals.size();
    if (c.chance(1, 8))
    {
      log += " prune";
      g.PruneNodes();
      pipeline::checkGraph(g, "prune");
      for (auto & [seed, e] : before)
        compare(e, Meaning(seed, 4, true).exports(g), "pruning changes values", "");
    }
  }
  c.nontrivial = effective >= 2;
  c.sample = log;
}

// ------------------------------------------------------------------------------------------------ tracing

const StructuralNode *
functionOf(const Region & r)
{
  for (auto p = &r; p->node(); p = p->node()->region())
    if (dynamic_cast<const LambdaNode *>(p->node()) || dynamic_cast<const DeltaNode *>(p->node())
        || dynamic_cast<const PhiNode *>(p->node()))
      return p->node();
  return nullptr;
}

void
tracing(Ctx & c)
{
  GenOptions o;
  o.budget = 8 + c.draw(40);
  o.maxDepth = 4;
  Graph g;
  Gen gen(c, o);
  gen.fill(g);
  pipeline::checkGraph(g, "generated");
  c.artifacts["graph.txt"] = dump(g);
  auto regions = regionsOf(g);
  std::vector<Output *> outs;
  for (auto r : regions)
    outputsOf(*r, outs);
  bool caching = c.chance(1, 2);
  OutputTracer tracer(caching);
  tracer.setTraceThroughStructuralNodes(!c.chance(1, 3));
  tracer.setEnterPhiNodes(!c.chance(1, 3));
  tracer.setInterprocedural(!c.chance(1, 3));
  size_t mode = c.draw(4);
  c.label(mode == 1 ? "traceOutput" : mode == 2 ? "traceOutputIntraProcedurally" : caching ? "tracer with cache" : "tracer");
  std::vector<std::pair<Output *, Output *>> traced; // what was asked and answered
  unsigned moved = 0;
  size_t rounds = mode == 3 ? 2 : 1; // mode 3: only within regions, and in another order
  for (size_t k = 0; k < rounds; k++)
    for (size_t n = 0; n < outs.size(); n++)
    {
      auto out = outs[k || c.chance(1, 4) ? c.draw(outs.size()) : n];
      const Region * within = nullptr;
      if (mode == 3 || c.chance(1, 4))
      {
        within = out->region();
        while (within->node() && c.chance(1, 2))
          within = within->node()->region();
        if (c.chance(1, 8))
          within = c.pick(regions);
      }
      Output * t = nullptr;
      if (mode == 1)
        t = &traceOutput(*out, within);
      else if (mode == 2)
        t = &traceOutputIntraProcedurally(*out), within = nullptr;
      else
        t = &tracer.trace(*out, within);
      c.evals++;
      if (t != out)
      {
        moved++;
        traced.push_back({ out, t });
      }
      if (*t->Type() != *out->Type())
        fail("tracing changes the type", "");
      if (within && isAncestorOrSelf(*within, *out->region()) && !isAncestorOrSelf(*within, *t->region()))
        fail("tracing leaves the region it is confined to", "");
      bool inter = mode == 1 || (mode != 2 && tracer.isInterprocedural());
      bool phis = mode == 1 || (mode != 2 && tracer.isInterprocedural() && tracer.isEnteringPhiNodes());
      if (!inter && functionOf(*t->region()) != functionOf(*out->region()))
        fail("intra-procedural tracing leaves the function", "");
      if (!phis && !isAncestorOrSelf(*t->region(), *out->region()))
        fail("tracing enters a recursion environment", "");
      Output * again = mode == 1 ? &traceOutput(*t, within) : mode == 2 ? &traceOutputIntraProcedurally(*t) : &tracer.trace(*t, within);
      if (again != t)
        fail("a traced value can be traced further", "");
    }
  std::unordered_map<const Region *, std::vector<std::pair<Output *, Output *>>> byRegion;
  for (auto & p : traced)
    byRegion[p.first->region()].push_back(p);
  size_t compared = 0;
  for (uint64_t seed = 1; seed <= 2; seed++)
  {
    Meaning me(seed, 3, true);
    me.visit = [&](Meaning::Frame & f)
    {
      auto it = byRegion.find(f.region);
      if (it == byRegion.end())
        return;
      for (auto & [from, to] : it->second)
      {
        Meaning::Frame * a = nullptr;
        // the activation that holds the answer: an enclosing one, or that of a recursion environment reached from one
        std::vector<const Node *> path;
        for (const Region * r = to->region(); !a; r = r->node()->region())
        {
          for (auto p = &f; p; p = p->parent)
            if (p->region == r)
            {
              a = p;
              break;
            }
          if (a || !r->node())
            break;
          path.push_back(r->node());
        }
        for (size_t k = path.size(); a && k-- > 0;)
        {
          if (!dynamic_cast<const PhiNode *>(path[k]))
            fail("tracing enters a region other than a recursion environment", "");
          auto s = a->sub.find(path[k]);
          a = s == a->sub.end() ? nullptr : s->second.get();
          if (!a)
            return; // not evaluated
        }
        if (!a)
          fail("tracing arrives at a value that is not available", "");
        compared++;
        if (me.value(f, *from) != me.value(*a, *to))
        {
          std::unordered_map<const Output *, std::string> names;
          auto s = view(&g.GetRootRegion(), names);
          fail("a traced value differs from the original", names[from] + " -> " + names[to] + "\n" + s);
        }
      }
    };
    try
    {
      me.exports(g);
    }
    catch (TooLong &)
    {}
  }
  c.evals += compared;
  c.nontrivial = moved >= 3 && compared;
  c.sample = std::to_string(outs.size()) + " values, " + std::to_string(moved) + " traced, " + std::to_string(compared) + " compared";
}

// ------------------------------------------------------------------------------------------------ transformations

void
transforming(Ctx & c)
{
  GenOptions o;
  o.focus = (int)c.weighted({ 3, 2, 1 });
  o.budget = o.focus ? 8 + c.draw(25) : 8 + c.draw(45);
  o.maxDepth = o.focus ? 3 + c.draw(2) : 4;
  o.realistic = true;
  jlm::rvsdg::RvsdgModule m{ jlm::util::FilePath("case") };
  auto & g = m.Rvsdg();
  Gen gen(c, o);
  gen.fill(g);
  pipeline::checkGraph(g, "generated");
  auto text = dump(g);
  c.artifacts["graph.txt"] = text;
  auto before = meanings(g, 4, 1, false, 8, true);
  static const std::vector<std::string> passes = { "CommonNodeElimination", "DeadNodeElimination",  "InvariantValueRedirection",
                                                   "LoopUnswitching",       "PredicateCorrelation", "NodePullIn",
                                                   "NodePushOut",           "NodeReduction" };
  std::string what;
  Snapshot s(g);
  size_t k = 1 + c.draw(3);
  bool changed = false;
  jlm::util::StatisticsCollector sc;
  for (size_t n = 0; n < k; n++)
  {
    std::string p;
    if (c.chance(1, 4))
    {
      size_t r = c.draw(3);
      p = r == 0 ? "ReduceGammaWithStaticallyKnownPredicate" : r == 1 ? "ReduceGammaControlConstant" : "ReduceGammaInvariantVariables";
      what += " " + p;
      c.artifacts["graph.txt"] = text + "\npasses:" + what;
      // innermost first, so that the node list stays valid
      auto v = structuralsOf(g);
      std::reverse(v.begin(), v.end());
      std::vector<GammaNode *> gs;
      for (auto x : v)
        if (auto gm = dynamic_cast<GammaNode *>(x))
          gs.push_back(gm);
      if (gs.empty())
        continue;
      auto gm = c.pick(gs);
      auto sh = shape(g.GetRootRegion());
      bool did = r == 0 ? ReduceGammaWithStaticallyKnownPredicate(*gm)
          : r == 1      ? ReduceGammaControlConstant(*gm)
                        : ReduceGammaInvariantVariables(*gm);
      if (!did && shape(g.GetRootRegion()) != sh)
        fail(p + " reports no change but changes the graph", "");
    }
    else
    {
      p = c.pick(passes);
      what += " " + p;
      c.artifacts["graph.txt"] = text + "\npasses:" + what;
      pipeline::makePass(p)->Run(m, sc);
    }
    pipeline::checkGraph(g, p);
    c.artifacts["graph.txt"] = text + "\npasses:" + what + "\n" + dump(g);
    if (!(Snapshot(g) == s))
    {
      changed = true;
      c.label(p + " (changed)");
      s = Snapshot(g);
    }
    for (auto & [seed, e] : before)
    {
      Exports now;
      try
      {
        now = Meaning(seed, 12, false).exports(g);
      }
      catch (TooLong &)
      {
        fail(p + " makes a loop run longer", what);
      }
      compare(e, now, p + " changes the meaning of the graph", what);
      c.evals++;
    }
  }
  c.setHash(s.shape);
  c.nontrivial = changed && !before.empty();
  c.sample = what;
}

struct Reg
{
  Reg()
  {
    auto add = [](const char * id, const char * rule, uint64_t quick, std::function<void(Ctx &)> f)
    {
      pbt::Property p;
      p.id = id;
      p.rule = rule;
      p.quickCases = quick;
      p.thoroughCases = quick * 20;
      p.batch = 64;
      p.run = f;
      pbt::registerProperty(std::move(p));
    };
    add("G03",
        "A case is a random graph with nested structural nodes of which the whole, a region or a node is copied. "
        "Non-trivial if the graph contains structural nodes.",
        200000,
        copying);
    add("G04",
        "A case is a history of up to twelve edits of the variables of structural nodes. Non-trivial if at least two edits "
        "took effect.",
        150000,
        variables);
    add("G05",
        "A case is a random graph all of whose values are traced by a randomly configured tracer. Non-trivial if at least "
        "three values were traced and compared in an evaluation.",
        300000,
        tracing);
    add("G06",
        "A case is a random graph transformed by one to three transformations. Non-trivial if the graph changed.",
        200000,
        transforming);
  }
} reg;
}
