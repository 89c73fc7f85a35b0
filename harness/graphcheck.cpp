// Structural well-formedness of an RVSDG, checked through the public accessors only.
#include "pipe.hpp"

#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/delta.hpp>
#include <jlm/rvsdg/FunctionType.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/graph.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/simple-node.hpp>
#include <jlm/rvsdg/theta.hpp>

#include <set>
#include <unordered_map>
#include <unordered_set>

namespace pipeline
{

using namespace jlm::rvsdg;

namespace
{

struct Checker
{
  std::string where;
  std::set<uint64_t> regionIds;

  [[noreturn]] void
  bad(const std::string & kind, const std::string & msg)
  {
    pbt::fail("malformed graph: " + kind, msg + " (" + where + ")");
  }

  void
  req(bool ok, const char * kind, const std::string & msg = "")
  {
    if (!ok)
      bad(kind, msg);
  }

  void
  output(const Output & o, const Region & r)
  {
    req(o.region() == &r, "output in wrong region");
    size_t n = 0;
    std::unordered_set<const Input *> seen;
    for (auto & u : o.Users())
    {
      n++;
      req(seen.insert(&u).second, "user listed twice");
      req(u.origin() == &o, "user does not refer back to its origin");
      req(u.region() == &r, "user in another region than its origin");
      req(n <= o.nusers(), "user count");
    }
    req(n == o.nusers(), "user count");
    req(o.IsDead() == (n == 0), "output deadness");
  }

  void
  input(const Input & i, const Region & r)
  {
    req(i.region() == &r, "input in wrong region");
    req(i.origin() != nullptr, "input without origin");
    req(i.origin()->region() == &r, "origin in another region than its user");
    req(*i.Type() == *i.origin()->Type(),
        "edge connects different types",
        i.Type()->debug_string() + " vs " + i.origin()->Type()->debug_string());
    bool found = false;
    for (auto & u : i.origin()->Users())
      if (&u == &i)
        found = true;
    req(found, "input missing among the users of its origin");
  }

  void
  region(const Region & r, const StructuralNode * parent, size_t index, size_t depth)
  {
    req(r.node() == parent, "region parent");
    req(parent == nullptr || r.index() == index, "region index");
    req(r.getDepth() == depth, "region depth");
    req(regionIds.insert(r.getRegionId()).second, "duplicate region id");
    req(r.IsRootRegion() == (parent == nullptr), "root region predicate");

    size_t n = 0;
    for (auto a : r.Arguments())
    {
      req(a->index() == n && r.argument(n) == a, "argument index");
      req(std::holds_alternative<Region *>(a->GetOwner())
              && std::get<Region *>(a->GetOwner()) == &r,
          "argument owner");
      output(*a, r);
      if (auto in = a->input())
      {
        req(in->node() == parent, "argument maps to input of another node");
        bool found = false;
        for (auto & x : in->arguments)
          if (&x == a)
            found = true;
        req(found, "argument missing from list of its input");
      }
      n++;
    }
    req(n == r.narguments(), "argument count");
    n = 0;
    for (auto x : r.Results())
    {
      req(x->index() == n && r.result(n) == x, "result index");
      req(std::holds_alternative<Region *>(x->GetOwner())
              && std::get<Region *>(x->GetOwner()) == &r,
          "result owner");
      input(*x, r);
      if (auto out = x->output())
      {
        req(out->node() == parent, "result maps to output of another node");
        bool found = false;
        for (auto & y : out->results)
          if (&y == x)
            found = true;
        req(found, "result missing from list of its output");
      }
      n++;
    }
    req(n == r.nresults(), "result count");

    std::unordered_set<const Node *> nodes, tops, bottoms;
    std::set<uint64_t> ids;
    for (auto & node : r.Nodes())
    {
      req(nodes.insert(&node).second, "node listed twice");
      req(node.region() == &r, "node region");
      req(ids.insert(node.GetNodeId()).second, "duplicate node id");
      size_t k = 0, users = 0;
      for (auto & i : node.Inputs())
      {
        req(i.index() == k && node.input(k) == &i, "input index");
        req(std::holds_alternative<Node *>(i.GetOwner()) && std::get<Node *>(i.GetOwner()) == &node,
            "input owner");
        input(i, r);
        k++;
      }
      req(k == node.ninputs(), "input count");
      k = 0;
      for (auto & o : node.Outputs())
      {
        req(o.index() == k && node.output(k) == &o, "output index");
        req(std::holds_alternative<Node *>(o.GetOwner()) && std::get<Node *>(o.GetOwner()) == &node,
            "output owner");
        output(o, r);
        users += o.nusers();
        k++;
      }
      req(k == node.noutputs(), "output count");
      req(node.numSuccessors() == users, "successor count");
      req(node.IsDead() == (users == 0), "node deadness");
    }
    req(nodes.size() == r.numNodes(), "node count");
    for (auto & node : r.TopNodes())
      req(tops.insert(&node).second && nodes.count(&node), "top node list entry");
    for (auto & node : r.BottomNodes())
      req(bottoms.insert(&node).second && nodes.count(&node), "bottom node list entry");
    req(tops.size() == r.numTopNodes(), "top node count");
    req(bottoms.size() == r.numBottomNodes(), "bottom node count");
    for (auto & node : r.Nodes())
    {
      req((node.ninputs() == 0) == (tops.count(&node) == 1), "top node list", node.DebugString());
      req(node.IsDead() == (bottoms.count(&node) == 1), "bottom node list", node.DebugString());
    }

    // acyclic
    std::unordered_map<const Node *, size_t> indeg;
    std::vector<const Node *> work;
    for (auto & node : r.Nodes())
    {
      size_t d = 0;
      for (auto & i : node.Inputs())
        if (std::holds_alternative<Node *>(i.origin()->GetOwner()))
          d++;
      indeg[&node] = d;
      if (d == 0)
        work.push_back(&node);
    }
    size_t done = 0;
    while (!work.empty())
    {
      auto x = work.back();
      work.pop_back();
      done++;
      for (auto & o : x->Outputs())
        for (auto & u : o.Users())
        {
          auto owner = u.GetOwner();
          if (auto p = std::get_if<Node *>(&owner))
            if (--indeg[*p] == 0)
              work.push_back(*p);
        }
    }
    req(done == r.numNodes(), "cycle among nodes of a region");

    for (auto & node : r.Nodes())
      if (auto s = dynamic_cast<const StructuralNode *>(&node))
        structural(*s, depth);
      else
        simple(node);
  }

  void
  simple(const Node & node)
  {
    auto s = dynamic_cast<const SimpleNode *>(&node);
    req(s != nullptr, "node of unknown kind");
    auto & op = s->GetOperation();
    req(op.narguments() == node.ninputs(), "operand count differs from operation", op.debug_string());
    req(op.nresults() == node.noutputs(), "result count differs from operation", op.debug_string());
    for (size_t i = 0; i < node.ninputs(); i++)
      req(*op.argument(i) == *node.input(i)->Type(), "operand type differs from operation", op.debug_string());
    for (size_t i = 0; i < node.noutputs(); i++)
      req(*op.result(i) == *node.output(i)->Type(), "result type differs from operation", op.debug_string());
  }

  void
  eq(const Type & a, const Type & b, const char * kind)
  {
    if (a != b)
      bad(kind, a.debug_string() + " vs " + b.debug_string());
  }

  void
  structural(const StructuralNode & s, size_t depth)
  {
    req(s.nsubregions() >= 1, "structural node without subregion");
    for (size_t i = 0; i < s.nsubregions(); i++)
    {
      req(s.subregion(i)->graph() == s.region()->graph(), "subregion graph");
      region(*s.subregion(i), &s, i, depth + 1);
    }
    for (size_t i = 0; i < s.ninputs(); i++)
      for (auto & a : s.input(i)->arguments)
        req(a.input() == s.input(i), "argument list entry");
    for (size_t i = 0; i < s.noutputs(); i++)
      for (auto & a : s.output(i)->results)
        req(a.output() == s.output(i), "result list entry");

    if (auto g = dynamic_cast<const GammaNode *>(&s))
      gamma(*g);
    else if (auto t = dynamic_cast<const ThetaNode *>(&s))
      theta(*t);
    else if (auto l = dynamic_cast<const LambdaNode *>(&s))
      lambda(*l);
    else if (auto d = dynamic_cast<const DeltaNode *>(&s))
      delta(*d);
    else if (auto p = dynamic_cast<const PhiNode *>(&s))
      phi(*p);
  }

  void
  gamma(const GammaNode & g)
  {
    auto ct = std::dynamic_pointer_cast<const ControlType>(g.predicate()->Type());
    req(ct != nullptr, "gamma predicate type");
    req(ct->nalternatives() == g.nsubregions(), "gamma predicate alternatives");
    auto ev = g.GetEntryVars();
    req(ev.size() + 1 == g.ninputs(), "gamma entry variable count");
    for (auto & v : ev)
    {
      req(v.branchArgument.size() == g.nsubregions(), "gamma entry variable arity");
      for (size_t i = 0; i < v.branchArgument.size(); i++)
      {
        req(v.branchArgument[i]->region() == g.subregion(i), "gamma entry variable region");
        eq(*v.branchArgument[i]->Type(), *v.input->Type(), "gamma entry variable type");
      }
    }
    auto mv = g.GetMatchVar();
    req(mv.input == g.predicate(), "gamma match variable");
    for (size_t i = 0; i < g.nsubregions(); i++)
    {
      req(g.subregion(i)->narguments() == ev.size() + (mv.matchContent.empty() ? 0 : 1)
              || g.subregion(i)->narguments() == ev.size() + 1,
          "gamma subregion argument count");
      req(g.subregion(i)->nresults() == g.noutputs(), "gamma subregion result count");
    }
    auto xv = g.GetExitVars();
    req(xv.size() == g.noutputs(), "gamma exit variable count");
    for (auto & v : xv)
    {
      req(v.branchResult.size() == g.nsubregions(), "gamma exit variable arity");
      for (size_t i = 0; i < v.branchResult.size(); i++)
      {
        req(v.branchResult[i]->region() == g.subregion(i), "gamma exit variable region");
        eq(*v.branchResult[i]->Type(), *v.output->Type(), "gamma exit variable type");
      }
    }
  }

  void
  theta(const ThetaNode & t)
  {
    req(t.nsubregions() == 1, "theta subregion count");
    req(t.subregion()->nresults() == t.noutputs() + 1, "theta result count");
    req(t.subregion()->narguments() == t.ninputs(), "theta argument count");
    req(t.ninputs() == t.noutputs(), "theta input/output count");
    auto ct = std::dynamic_pointer_cast<const ControlType>(t.predicate()->Type());
    req(ct && ct->nalternatives() == 2, "theta predicate type");
    auto lv = t.GetLoopVars();
    req(lv.size() == t.noutputs(), "theta loop variable count");
    for (auto & v : lv)
    {
      req(v.pre->region() == t.subregion() && v.post->region() == t.subregion(), "theta loop variable region");
      eq(*v.input->Type(), *v.pre->Type(), "theta loop variable type");
      eq(*v.input->Type(), *v.post->Type(), "theta loop variable type");
      eq(*v.input->Type(), *v.output->Type(), "theta loop variable type");
    }
  }

  void
  lambda(const LambdaNode & l)
  {
    auto & ft = l.GetOperation().type();
    req(l.nsubregions() == 1 && l.noutputs() == 1, "lambda shape");
    auto args = l.GetFunctionArguments();
    auto res = l.GetFunctionResults();
    auto cv = l.GetContextVars();
    req(args.size() == ft.NumArguments(), "lambda argument count");
    req(res.size() == ft.NumResults(), "lambda result count");
    req(l.subregion()->nresults() == res.size(), "lambda region result count");
    req(cv.size() == l.ninputs(), "lambda context variable count");
    req(l.subregion()->narguments() == args.size() + cv.size(), "lambda region argument count");
    for (size_t i = 0; i < args.size(); i++)
      eq(*args[i]->Type(), ft.ArgumentType(i), "lambda argument type");
    for (size_t i = 0; i < res.size(); i++)
      eq(*res[i]->Type(), ft.ResultType(i), "lambda result type");
    for (auto & v : cv)
      eq(*v.input->Type(), *v.inner->Type(), "lambda context variable type");
  }

  void
  delta(const DeltaNode & d)
  {
    req(d.nsubregions() == 1 && d.noutputs() == 1, "delta shape");
    req(d.subregion()->nresults() == 1, "delta result count");
    auto cv = d.GetContextVars();
    req(cv.size() == d.ninputs() && cv.size() == d.subregion()->narguments(), "delta context variable count");
    for (auto & v : cv)
      eq(*v.input->Type(), *v.inner->Type(), "delta context variable type");
    eq(*d.result().Type(), *d.Type(), "delta result type");
  }

  void
  phi(const PhiNode & p)
  {
    req(p.nsubregions() == 1, "phi subregion count");
    auto cv = p.GetContextVars();
    auto fv = p.GetFixVars();
    req(cv.size() == p.ninputs(), "phi context variable count");
    req(fv.size() == p.noutputs(), "phi fix variable count");
    req(cv.size() + fv.size() == p.subregion()->narguments(), "phi argument count");
    req(fv.size() == p.subregion()->nresults(), "phi result count");
    std::set<const Output *> args;
    for (auto & v : cv)
    {
      eq(*v.input->Type(), *v.inner->Type(), "phi context variable type");
      req(args.insert(v.inner).second, "phi argument mapped twice");
    }
    for (auto & v : fv)
    {
      eq(*v.recref->Type(), *v.result->Type(), "phi fix variable type");
      eq(*v.recref->Type(), *v.output->Type(), "phi fix variable type");
      req(args.insert(v.recref).second, "phi argument mapped twice");
    }
  }
};

}

void
checkGraph(const Graph & g, const std::string & where)
{
  Checker c;
  c.where = where;
  c.region(g.GetRootRegion(), nullptr, 0, 0);
}

}
