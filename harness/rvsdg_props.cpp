// Properties of the graph itself (jlm/rvsdg): bookkeeping under edit histories, traversal while editing, copying.
// Every case is a sequence of edits executed on a real graph and on a plain reference model.
#include "pbt.hpp"

#include <jlm/rvsdg/graph.hpp>
#include <jlm/rvsdg/substitution.hpp>
#include <jlm/rvsdg/TestNodes.hpp>
#include <jlm/rvsdg/TestOperations.hpp>
#include <jlm/rvsdg/TestType.hpp>
#include <jlm/rvsdg/traverser.hpp>
#include <jlm/util/AnnotationMap.hpp>

#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include <sstream>

namespace
{
using pbt::Ctx;
using namespace jlm::rvsdg;
using jlm::util::HashSet;

struct MNode;
struct MRegion;
struct MIn;

struct MOut
{
  Output * real = nullptr;
  int type = 0;
  MNode * node = nullptr;
  MRegion * region = nullptr; // the region the value lives in
  std::set<MIn *> users;
  MIn * sinput = nullptr; // arguments
  std::string name;       // imports
};

struct MIn
{
  Input * real = nullptr;
  int type = 0;
  MOut * origin = nullptr;
  MNode * node = nullptr;
  MRegion * region = nullptr;
  MOut * soutput = nullptr; // results
  std::string name;         // exports
};

struct MRegion
{
  Region * real = nullptr;
  uint64_t id = 0;
  MNode * owner = nullptr;
  size_t index = 0, depth = 0;
  std::vector<MOut *> args;
  std::vector<MIn *> results;
  std::vector<MNode *> nodes; // in order of creation
  uint64_t nextNodeId = 0;
};

struct MNode
{
  Node * real = nullptr;
  uint64_t id = 0;
  int serial = 0; // for messages
  MRegion * parent = nullptr;
  bool structural = false;
  bool born = false;    // created while a traverser was active
  bool altered = false; // its inputs changed since
  std::vector<MIn *> ins;
  std::vector<MOut *> outs;
  std::vector<MRegion *> subs;
};

std::shared_ptr<const Type>
typeOf(int t)
{
  return t ? std::static_pointer_cast<const Type>(TestType::createStateType())
           : std::static_pointer_cast<const Type>(TestType::createValueType());
}

// Reconstructs the graph from notifications only.
struct Shadow final : RegionObserver
{
  std::set<Node *> nodes;
  std::map<Input *, Output *> inputs;
  std::string broken;
  const Region & region;

  explicit Shadow(const Region & r)
      : RegionObserver(r),
        region(r)
  {
    for (auto & n : r.Nodes())
    {
      nodes.insert(const_cast<Node *>(&n));
      for (auto & i : n.Inputs())
        inputs[const_cast<Input *>(&i)] = i.origin();
    }
    for (auto res : r.Results())
      inputs[res] = res->origin();
  }

  void
  onNodeCreate(Node * n) override
  {
    if (!nodes.insert(n).second)
      broken = "a node is created twice";
    for (auto & i : n->Inputs())
      if (!inputs.emplace(&i, i.origin()).second)
        broken = "an input of a created node was already reported";
  }

  void
  onNodeDestroy(Node * n) override
  {
    if (!nodes.erase(n))
      broken = "an unknown node is destroyed";
    for (auto & i : n->Inputs())
      if (!inputs.erase(&i))
        broken = "a destroyed node has an unknown input";
  }

  void
  onInputCreate(Input * i) override
  {
    if (!inputs.emplace(i, i->origin()).second)
      broken = "an input is created twice";
    check(i);
  }

  void
  onInputChange(Input * i, Output * o, Output * n) override
  {
    auto it = inputs.find(i);
    if (it == inputs.end())
      broken = "an unknown input is changed";
    else if (it->second != o)
      broken = "the old origin of a changed input is wrong";
    else if (i->origin() != n)
      broken = "the new origin of a changed input is wrong";
    else
      it->second = n;
    check(i);
  }

  void
  onInputDestroy(Input * i) override
  {
    auto it = inputs.find(i);
    if (it == inputs.end())
      broken = "an unknown input is destroyed";
    else
    {
      if (it->second != i->origin())
        broken = "a destroyed input has an unknown origin";
      inputs.erase(it);
    }
    check(i);
  }

  void
  check(Input * i)
  {
    if (i->region() != &region)
      broken = "an observer is told about another region";
  }
};

struct World
{
  Ctx & c;
  std::ostringstream os;
  std::string what;
  std::unique_ptr<Graph> graph = std::make_unique<Graph>();
  std::deque<std::unique_ptr<MOut>> outPool;
  std::deque<std::unique_ptr<MIn>> inPool;
  std::deque<std::unique_ptr<MRegion>> regionPool;
  std::deque<std::unique_ptr<MNode>> nodePool;
  MRegion * root;
  uint64_t nextRegionId = 0;
  int serial = 0;
  unsigned effective = 0;
  bool tracking = false; // mark created nodes
  std::map<MRegion *, std::unique_ptr<Shadow>> shadows;

  World(Ctx & c, std::string what)
      : c(c),
        what(std::move(what))
  {
    root = newRegion(&graph->GetRootRegion(), nullptr, 0, 0);
  }

  ~World()
  {
    shadows.clear();
  }

  template<class... A>
  void
  op(const A &... a)
  {
    (os << ... << a);
    os << "\n";
    c.artifacts["trace.txt"] = what + "\n" + os.str();
  }

  void
  check(bool ok, const char * kind, const std::string & msg = "")
  {
    c.evals++;
    if (!ok)
      pbt::fail(what + ": " + kind, msg + " after:\n" + os.str());
  }

  // ------------------------------------------------------------ model

  MRegion *
  newRegion(Region * r, MNode * owner, size_t index, size_t depth)
  {
    regionPool.push_back(std::make_unique<MRegion>());
    auto m = regionPool.back().get();
    m->real = r;
    m->owner = owner;
    m->index = index;
    m->depth = depth;
    m->id = nextRegionId++;
    return m;
  }

  MOut *
  newOut(Output * r, int type, MNode * n, MRegion * region)
  {
    outPool.push_back(std::make_unique<MOut>());
    auto m = outPool.back().get();
    m->real = r;
    m->type = type;
    m->node = n;
    m->region = region;
    return m;
  }

  MIn *
  newIn(Input * r, MOut * origin, MNode * n, MRegion * region)
  {
    inPool.push_back(std::make_unique<MIn>());
    auto m = inPool.back().get();
    m->real = r;
    m->type = origin->type;
    m->node = n;
    m->region = region;
    m->origin = origin;
    origin->users.insert(m);
    return m;
  }

  MNode *
  newNode(MRegion * p, bool structural)
  {
    nodePool.push_back(std::make_unique<MNode>());
    auto m = nodePool.back().get();
    m->parent = p;
    m->structural = structural;
    m->id = p->nextNodeId++;
    m->serial = serial++;
    m->born = tracking;
    p->nodes.push_back(m);
    return m;
  }

  void
  dropIn(MIn * i)
  {
    i->origin->users.erase(i);
    i->origin = nullptr;
  }

  void
  dropNode(MNode * n)
  {
    for (auto i : n->ins)
      dropIn(i);
    auto & v = n->parent->nodes;
    v.erase(std::find(v.begin(), v.end(), n));
    dropShadows(n);
    n->real = nullptr;
  }

  void
  dropShadows(MNode * n)
  {
    for (auto s : n->subs)
    {
      shadows.erase(s);
      for (auto m : s->nodes)
        dropShadows(m);
    }
  }

  size_t
  successors(MNode * n)
  {
    size_t s = 0;
    for (auto o : n->outs)
      s += o->users.size();
    return s;
  }

  std::vector<MRegion *>
  regions()
  {
    std::vector<MRegion *> rs;
    std::function<void(MRegion *)> walk = [&](MRegion * r)
    {
      rs.push_back(r);
      for (auto n : r->nodes)
        for (auto s : n->subs)
          walk(s);
    };
    walk(root);
    return rs;
  }

  std::vector<MOut *>
  values(MRegion * r)
  {
    std::vector<MOut *> v = r->args;
    for (auto n : r->nodes)
      v.insert(v.end(), n->outs.begin(), n->outs.end());
    return v;
  }

  std::vector<MIn *>
  uses(MRegion * r)
  {
    std::vector<MIn *> v;
    for (auto n : r->nodes)
      v.insert(v.end(), n->ins.begin(), n->ins.end());
    v.insert(v.end(), r->results.begin(), r->results.end());
    return v;
  }

  // whether a depends on b
  bool
  depends(MNode * a, MNode * b)
  {
    std::set<MNode *> seen;
    std::vector<MNode *> todo{ a };
    while (!todo.empty())
    {
      auto n = todo.back();
      todo.pop_back();
      if (n == b)
        return true;
      if (!seen.insert(n).second)
        continue;
      for (auto i : n->ins)
        if (i->origin->node)
          todo.push_back(i->origin->node);
    }
    return false;
  }

  std::string
  name(MOut * o)
  {
    std::ostringstream s;
    if (o->node)
      s << "n" << o->node->serial << ".o"
        << std::find(o->node->outs.begin(), o->node->outs.end(), o) - o->node->outs.begin();
    else
      s << "r" << o->region->id << ".a"
        << std::find(o->region->args.begin(), o->region->args.end(), o) - o->region->args.begin();
    return s.str();
  }

  std::string
  name(MIn * i)
  {
    std::ostringstream s;
    if (i->node)
      s << "n" << i->node->serial << ".i" << std::find(i->node->ins.begin(), i->node->ins.end(), i) - i->node->ins.begin();
    else
      s << "r" << i->region->id << ".r"
        << std::find(i->region->results.begin(), i->region->results.end(), i) - i->region->results.begin();
    return s.str();
  }

  std::string
  name(const std::vector<MOut *> & v)
  {
    std::string s;
    for (auto o : v)
      s += (s.empty() ? "" : ", ") + name(o);
    return s;
  }

  // ------------------------------------------------------------ edits

  MOut *
  addArgument(MRegion * r, int type, MIn * sinput, size_t at, bool insert)
  {
    auto si = sinput ? static_cast<StructuralInput *>(sinput->real) : nullptr;
    RegionArgument * a;
    if (r == root && !insert)
    {
      auto nm = "import" + std::to_string(serial++);
      op("import ", nm, " type ", type);
      a = &GraphImport::Create(*graph, typeOf(type), nm);
      auto m = newOut(a, type, nullptr, r);
      m->name = nm;
      r->args.push_back(m);
      return m;
    }
    op("argument of r", r->id, " at ", insert ? std::to_string(at) : "end", " type ", type,
       sinput ? " for " + name(sinput) : "");
    if (insert)
      a = &r->real->insertArgument(at, std::make_unique<RegionArgument>(r->real, si, typeOf(type)));
    else
      a = &RegionArgument::Create(*r->real, si, typeOf(type));
    auto m = newOut(a, type, nullptr, r);
    m->sinput = sinput;
    r->args.insert(r->args.begin() + (insert ? at : r->args.size()), m);
    return m;
  }

  MIn *
  addResult(MRegion * r, MOut * origin, MOut * soutput)
  {
    if (r == root)
    {
      auto nm = "export" + std::to_string(serial++);
      op("export ", name(origin));
      auto & e = GraphExport::Create(*origin->real, nm);
      auto m = newIn(&e, origin, nullptr, r);
      m->name = nm;
      r->results.push_back(m);
      return m;
    }
    op("result of r", r->id, " from ", name(origin), soutput ? " for " + name(soutput) : "");
    auto & e = RegionResult::Create(
        *r->real,
        *origin->real,
        soutput ? static_cast<StructuralOutput *>(soutput->real) : nullptr,
        typeOf(origin->type));
    auto m = newIn(&e, origin, nullptr, r);
    m->soutput = soutput;
    r->results.push_back(m);
    return m;
  }

  MNode *
  simple(MRegion * r, const std::vector<MOut *> & ops, const std::vector<int> & results)
  {
    op("n", serial, " = node in r", r->id, " (", name(ops), ") with ", results.size(), " outputs");
    std::vector<Output *> rops;
    for (auto o : ops)
      rops.push_back(o->real);
    std::vector<std::shared_ptr<const Type>> ts;
    for (int t : results)
      ts.push_back(typeOf(t));
    auto m = newNode(r, false);
    m->real = TestOperation::createNode(r->real, rops, ts);
    for (size_t i = 0; i < ops.size(); i++)
      m->ins.push_back(newIn(m->real->input(i), ops[i], m, r));
    for (size_t i = 0; i < results.size(); i++)
      m->outs.push_back(newOut(m->real->output(i), results[i], m, r));
    return m;
  }

  MNode *
  structural(MRegion * r, size_t nsub)
  {
    op("n", serial, " = structural node in r", r->id, " with ", nsub, " subregions");
    auto m = newNode(r, true);
    auto s = TestStructuralNode::create(r->real, nsub);
    m->real = s;
    for (size_t i = 0; i < nsub; i++)
      m->subs.push_back(newRegion(s->subregion(i), m, i, r->depth + 1));
    return m;
  }

  void
  addInput(MNode * n, MOut * origin, bool withArgs)
  {
    op("n", n->serial, " gets an input from ", name(origin), withArgs ? " with arguments" : "");
    auto s = static_cast<TestStructuralNode *>(n->real);
    n->altered = true;
    if (!withArgs)
    {
      n->ins.push_back(newIn(&s->addInputOnly(*origin->real), origin, n, n->parent));
      return;
    }
    auto iv = s->addInputWithArguments(*origin->real);
    auto mi = newIn(iv.input, origin, n, n->parent);
    n->ins.push_back(mi);
    check(iv.argument.size() == n->subs.size(), "arguments of an input variable");
    for (size_t i = 0; i < n->subs.size(); i++)
    {
      auto ma = newOut(iv.argument[i], origin->type, nullptr, n->subs[i]);
      ma->sinput = mi;
      n->subs[i]->args.push_back(ma);
    }
  }

  void
  addOutput(MNode * n, int type, const std::vector<MOut *> & origins)
  {
    op("n", n->serial, " gets an output", origins.empty() ? "" : " of ", name(origins));
    auto s = static_cast<TestStructuralNode *>(n->real);
    if (origins.empty())
    {
      n->outs.push_back(newOut(&s->addOutputOnly(typeOf(type)), type, n, n->parent));
      return;
    }
    std::vector<Output *> ro;
    for (auto o : origins)
      ro.push_back(o->real);
    auto ov = s->addOutputWithResults(ro);
    auto mo = newOut(ov.output, origins[0]->type, n, n->parent);
    n->outs.push_back(mo);
    check(ov.result.size() == n->subs.size(), "results of an output variable");
    for (size_t i = 0; i < n->subs.size(); i++)
    {
      auto mr = newIn(ov.result[i], origins[i], nullptr, n->subs[i]);
      mr->soutput = mo;
      n->subs[i]->results.push_back(mr);
    }
  }

  void
  divert(MIn * i, MOut * o)
  {
    op("divert ", name(i), " to ", name(o));
    i->real->divert_to(o->real);
    moved(i, o);
  }

  void
  moved(MIn * i, MOut * o)
  {
    i->origin->users.erase(i);
    i->origin = o;
    o->users.insert(i);
    if (i->node)
      i->node->altered = true;
  }

  HashSet<size_t>
  someIndices(size_t n)
  {
    HashSet<size_t> s;
    size_t k = c.draw(n + 3);
    for (size_t i = 0; i < k; i++)
      s.insert(c.draw(n + 2));
    return s;
  }

  std::string
  show(const HashSet<size_t> & s)
  {
    std::set<size_t> v;
    for (auto x : s.Items())
      v.insert(x);
    std::string r = "{";
    for (auto x : v)
      r += " " + std::to_string(x);
    return r + " }";
  }

  std::vector<MOut *>
  pickValues(MRegion * r, size_t n)
  {
    auto v = values(r);
    std::vector<MOut *> ops;
    for (size_t i = 0; i < n && !v.empty(); i++)
    {
      // prefer recent values
      auto k = c.draw(3) == 0 ? c.draw(v.size()) : v.size() - 1 - c.draw(std::min<size_t>(v.size(), 5));
      ops.push_back(v[k]);
    }
    return ops;
  }

  // Removing these would leave a dangling structural link.
  bool
  inputHasArguments(MIn * i)
  {
    for (auto s : i->node->subs)
      for (auto a : s->args)
        if (a->sinput == i)
          return true;
    return false;
  }

  bool
  outputHasResults(MOut * o)
  {
    for (auto s : o->node->subs)
      for (auto r : s->results)
        if (r->soutput == o)
          return true;
    return false;
  }

  bool
  removeInputs(MNode * n)
  {
    auto idx = someIndices(n->ins.size());
    for (size_t i = 0; i < n->ins.size(); i++)
      if (idx.Contains(i) && inputHasArguments(n->ins[i]))
        idx.Remove(i);
    op("remove inputs ", show(idx), " of n", n->serial);
    std::vector<MIn *> keep;
    size_t removed = 0;
    for (size_t i = 0; i < n->ins.size(); i++)
    {
      if (idx.Contains(i))
      {
        dropIn(n->ins[i]);
        removed++;
      }
      else
        keep.push_back(n->ins[i]);
    }
    n->ins = keep;
    if (removed)
      n->altered = true;
    check(n->real->RemoveInputs(idx) == removed, "number of removed inputs");
    return removed;
  }

  bool
  removeNode(MNode * n)
  {
    if (successors(n))
      return false;
    op("remove n", n->serial);
    auto real = n->real;
    dropNode(n);
    real->region()->removeNode(real);
    return true;
  }

  void
  prune(MRegion * r, bool recursive)
  {
    op("prune r", r->id, recursive ? " recursively" : "");
    for (bool again = true; again;)
    {
      again = false;
      for (auto n : r->nodes)
        if (!successors(n))
        {
          dropNode(n);
          again = true;
          break;
        }
    }
    if (recursive)
      for (auto n : r->nodes)
        for (auto s : n->subs)
          pruneModel(s);
    r->real->prune(recursive);
  }

  void
  pruneModel(MRegion * r)
  {
    for (bool again = true; again;)
    {
      again = false;
      for (auto n : r->nodes)
        if (!successors(n))
        {
          dropNode(n);
          again = true;
          break;
        }
    }
    for (auto n : r->nodes)
      for (auto s : n->subs)
        pruneModel(s);
  }

  template<class F>
  void
  refused(const char * kind, const F & f)
  {
    try
    {
      f();
    }
    catch (pbt::Failure &)
    {
      throw;
    }
    catch (std::exception &)
    {
      return;
    }
    check(false, kind);
  }

  // One random edit in region r. Returns whether it had an effect.
  bool
  edit(MRegion * r, bool onlyThisRegion)
  {
    auto vals = values(r);
    auto us = uses(r);
    switch (c.draw(26))
    {
    case 0:
    case 1:
    case 2:
    case 3:
    {
      auto ops = pickValues(r, c.draw(4));
      std::vector<int> res;
      for (size_t k = c.draw(3) + (c.draw(8) ? 0 : 1), i = 0; i < k; i++)
        res.push_back(c.draw(4) == 0);
      if (res.empty() && c.draw(3))
        res.push_back(0);
      simple(r, ops, res);
      return true;
    }
    case 4:
    case 5:
      if (r->depth < 3)
      {
        auto n = structural(r, 1 + c.draw(3));
        for (size_t i = c.draw(3); i > 0; i--)
          if (!vals.empty())
            addInput(n, c.pick(vals), c.draw(2));
        return true;
      }
      return false;
    case 6:
    {
      auto si = pickSInput(r);
      addArgument(r, si ? si->type : c.draw(3) == 0, si, 0, false);
      return true;
    }
    case 7:
    {
      auto si = pickSInput(r);
      addArgument(r, si ? si->type : c.draw(3) == 0, si, c.draw(r->args.size() + 1), true);
      return true;
    }
    case 8:
      if (vals.empty())
        return false;
      {
        auto o = c.pick(vals);
        auto so = pickSOutput(r);
        addResult(r, o, so && so->type == o->type ? so : nullptr);
      }
      return true;
    case 9:
    case 10:
    case 11:
    case 12:
    {
      if (us.empty())
        return false;
      auto i = c.pick(us);
      std::vector<MOut *> cand;
      for (auto o : vals)
        if (o->type == i->type && !(i->node && o->node && depends(o->node, i->node)))
          cand.push_back(o);
      if (cand.empty())
        return false;
      divert(i, c.pick(cand));
      return true;
    }
    case 13:
    case 14:
    {
      // replace a value by another one
      if (vals.empty())
        return false;
      auto from = c.pick(vals);
      std::vector<MOut *> cand;
      for (auto o : vals)
      {
        bool ok = o->type == from->type;
        for (auto u : from->users)
          ok = ok && !(u->node && o->node && depends(o->node, u->node));
        if (ok)
          cand.push_back(o);
      }
      if (cand.empty())
        return false;
      auto to = c.pick(cand);
      if (c.draw(2))
      {
        op("divert all users of ", name(from), " to ", name(to));
        from->real->divert_users(to->real);
        auto users = from->users;
        for (auto u : users)
          moved(u, to);
        return !users.empty() && from != to;
      }
      uint64_t mask = c.draw(1 << 8);
      std::map<Input *, MIn *> byReal;
      for (auto u : from->users)
        byReal[u->real] = u;
      auto wanted = [&](MIn * u)
      {
        return (mask >> (u->real->index() % 4) & 1) || (u->node ? mask >> (4 + u->node->serial % 4) & 1 : mask & 1);
      };
      op("divert the users of ", name(from), " that mask ", mask, " selects to ", name(to));
      size_t expected = 0;
      std::vector<MIn *> sel;
      for (auto u : from->users)
        if (wanted(u))
          sel.push_back(u);
      if (from != to)
        expected = sel.size();
      auto got = from->real->divertUsersWhere(
          *to->real,
          [&](const Input & i)
          {
            return wanted(byReal.at(const_cast<Input *>(&i)));
          });
      for (auto u : sel)
        moved(u, to);
      check(got == expected, "number of diverted users");
      return expected;
    }
    case 15:
    {
      std::vector<MNode *> dead;
      for (auto n : r->nodes)
        if (!successors(n))
          dead.push_back(n);
      return !dead.empty() && removeNode(c.pick(dead));
    }
    case 16:
      if (c.draw(3))
        return false;
      prune(r, onlyThisRegion ? false : c.draw(2));
      return true;
    case 17:
    {
      auto idx = someIndices(r->args.size());
      bool all = c.draw(4) == 0;
      op(all ? "prune arguments of r" : "remove arguments of r", r->id, all ? "" : show(idx));
      std::vector<MOut *> keep;
      size_t removed = 0;
      for (size_t i = 0; i < r->args.size(); i++)
      {
        if (r->args[i]->users.empty() && (all || idx.Contains(i)))
          removed++;
        else
          keep.push_back(r->args[i]);
      }
      r->args = keep;
      check((all ? r->real->PruneArguments() : r->real->RemoveArguments(idx)) == removed, "number of removed arguments");
      return removed;
    }
    case 18:
    {
      auto idx = someIndices(r->results.size());
      op("remove results ", show(idx), " of r", r->id);
      std::vector<MIn *> keep;
      size_t removed = 0;
      for (size_t i = 0; i < r->results.size(); i++)
      {
        if (idx.Contains(i))
        {
          dropIn(r->results[i]);
          removed++;
        }
        else
          keep.push_back(r->results[i]);
      }
      r->results = keep;
      check(r->real->RemoveResults(idx) == removed, "number of removed results");
      return removed;
    }
    case 19:
    case 20:
    {
      if (r->nodes.empty())
        return false;
      auto n = c.pick(r->nodes);
      return removeInputs(n);
    }
    case 21:
    {
      if (r->nodes.empty())
        return false;
      auto n = c.pick(r->nodes);
      auto idx = someIndices(n->outs.size());
      for (size_t i = 0; i < n->outs.size(); i++)
        if (idx.Contains(i) && outputHasResults(n->outs[i]))
          idx.Remove(i);
      op("remove outputs ", show(idx), " of n", n->serial);
      std::vector<MOut *> keep;
      size_t removed = 0;
      for (size_t i = 0; i < n->outs.size(); i++)
      {
        if (n->outs[i]->users.empty() && idx.Contains(i))
          removed++;
        else
          keep.push_back(n->outs[i]);
      }
      n->outs = keep;
      check(n->real->RemoveOutputs(idx) == removed, "number of removed outputs");
      return removed;
    }
    case 22:
    case 23:
    {
      std::vector<MNode *> s;
      for (auto n : r->nodes)
        if (n->structural)
          s.push_back(n);
      if (s.empty())
        return false;
      auto n = c.pick(s);
      if (c.draw(2))
      {
        std::vector<MOut *> cand;
        for (auto o : vals)
          if (!(o->node && depends(o->node, n)))
            cand.push_back(o);
        if (cand.empty())
          return false;
        addInput(n, c.pick(cand), c.draw(2));
        return true;
      }
      std::vector<MOut *> origins;
      int type = c.draw(3) == 0;
      if (c.draw(2))
        for (auto sub : n->subs)
        {
          std::vector<MOut *> cand;
          for (auto o : values(sub))
            if (o->type == type)
              cand.push_back(o);
          if (cand.empty())
          {
            origins.clear();
            break;
          }
          origins.push_back(c.pick(cand));
        }
      addOutput(n, type, origins);
      return true;
    }
    case 24:
    {
      // edits that have to be refused
      auto rs = regions();
      auto other = c.pick(rs);
      auto ovals = values(other);
      auto nodesBefore = r->nextNodeId;
      switch (c.draw(6))
      {
      case 0:
        if (us.empty() || other == r || ovals.empty())
          return false;
        {
          auto i = c.pick(us);
          auto o = c.pick(ovals);
          op("divert ", name(i), " to ", name(o), " of another region");
          refused("diverting to another region is accepted", [&] { i->real->divert_to(o->real); });
        }
        return true;
      case 1:
        if (us.empty() || vals.empty())
          return false;
        {
          auto i = c.pick(us);
          auto o = c.pick(vals);
          if (o->type == i->type)
            return false;
          op("divert ", name(i), " to ", name(o), " of another type");
          refused("diverting to another type is accepted", [&] { i->real->divert_to(o->real); });
        }
        return true;
      case 2:
        if (vals.empty() || ovals.empty() || other == r)
          return false;
        {
          auto a = c.pick(vals), b = c.pick(ovals);
          op("node in r", r->id, " with operands ", name(a), ", ", name(b), " of different regions");
          refused(
              "a node with operands of different regions is accepted",
              [&]
              {
                TestOperation::createNode(r->real, { a->real, b->real }, { typeOf(0) });
              });
          r->nextNodeId++;
        }
        return true;
      case 3:
        if (vals.empty())
          return false;
        {
          auto a = c.pick(vals), b = c.pick(vals);
          op("node in r", r->id, " with operand ", name(b), " of the wrong type");
          refused(
              "a node with an operand of the wrong type is accepted",
              [&]
              {
                TestOperation::createNode(
                    r->real,
                    { typeOf(a->type), typeOf(!b->type) },
                    { a->real, b->real },
                    { typeOf(0) });
              });
          r->nextNodeId++;
        }
        return true;
      case 4:
        op("insert an argument past the end of r", r->id);
        refused(
            "inserting past the end is accepted",
            [&]
            {
              r->real->insertArgument(
                  r->args.size() + 1 + c.draw(2),
                  std::make_unique<RegionArgument>(r->real, nullptr, typeOf(0)));
            });
        return true;
      default:
        if (other == r)
          return false;
        op("add an argument of r", other->id, " to r", r->id);
        refused(
            "adding another region's argument is accepted",
            [&]
            {
              auto a = std::make_unique<RegionArgument>(other->real, nullptr, typeOf(0));
              if (c.draw(2))
                r->real->addArgument(std::move(a));
              else
                r->real->insertArgument(0, std::move(a));
            });
        return true;
      }
      (void)nodesBefore;
    }
    default:
    {
      std::vector<MNode *> s;
      for (auto n : r->nodes)
        if (n->structural)
          s.push_back(n);
      if (s.empty())
        return false;
      auto n = c.pick(s);
      int type = c.draw(3) == 0;
      op("n", n->serial, " gets arguments without input");
      auto iv = static_cast<TestStructuralNode *>(n->real)->addArguments(typeOf(type));
      check(iv.argument.size() == n->subs.size(), "arguments without input");
      for (size_t i = 0; i < n->subs.size(); i++)
        n->subs[i]->args.push_back(newOut(iv.argument[i], type, nullptr, n->subs[i]));
      return true;
    }
    }
  }

  MIn *
  pickSInput(MRegion * r)
  {
    if (!r->owner || r->owner->ins.empty() || c.draw(2))
      return nullptr;
    return c.pick(r->owner->ins);
  }

  MOut *
  pickSOutput(MRegion * r)
  {
    if (!r->owner || r->owner->outs.empty() || c.draw(2))
      return nullptr;
    return c.pick(r->owner->outs);
  }

  // ------------------------------------------------------------ agreement

  void
  agree(bool withShadows)
  {
    std::set<uint64_t> regionIds;
    for (auto r : regions())
    {
      agree(r);
      check(regionIds.insert(r->real->getRegionId()).second, "region ids are unique");
      if (!withShadows)
        continue;
      auto & s = shadows[r];
      if (!s)
      {
        s = std::make_unique<Shadow>(*r->real);
        continue;
      }
      check(s->broken.empty(), "notifications", s->broken);
      std::set<Node *> ns;
      std::map<Input *, Output *> is;
      for (auto n : r->nodes)
        ns.insert(n->real);
      for (auto i : uses(r))
        is[i->real] = i->origin->real;
      check(s->nodes == ns, "nodes according to the notifications");
      check(s->inputs == is, "inputs according to the notifications");
    }
  }

  void
  agree(MRegion * r)
  {
    auto & R = *r->real;
    auto at = "r" + std::to_string(r->id);
    check(R.graph() == graph.get(), "graph of a region", at);
    check(R.getRegionId() == r->id, "region id", at);
    check(R.getDepth() == r->depth, "depth", at);
    check(R.index() == r->index, "index of a region", at);
    check(R.node() == (r->owner ? r->owner->real : nullptr), "node of a region", at);
    check(R.IsRootRegion() == (r == root), "root region", at);
    check(R.getNextNodeId() == r->nextNodeId, "next node id", at);
    // arguments
    check(R.narguments() == r->args.size(), "number of arguments", at);
    size_t k = 0;
    for (auto a : R.Arguments())
    {
      auto m = r->args[k];
      check(a == m->real && R.argument(k) == a, "argument", at);
      check(a->input() == (m->sinput ? m->sinput->real : nullptr), "input of an argument", name(m));
      agree(m, k++);
      if (r == root && !m->name.empty())
        check(static_cast<GraphImport *>(a)->Name() == m->name, "name of an import");
    }
    check(k == r->args.size(), "arguments", at);
    check(R.nresults() == r->results.size(), "number of results", at);
    k = 0;
    for (auto a : R.Results())
    {
      auto m = r->results[k];
      check(a == m->real && R.result(k) == a, "result", at);
      check(a->output() == (m->soutput ? m->soutput->real : nullptr), "output of a result", name(m));
      agree(m, k++);
    }
    check(k == r->results.size(), "results", at);
    // nodes
    std::set<Node *> all, top, bottom;
    std::set<uint64_t> ids;
    for (auto n : r->nodes)
    {
      all.insert(n->real);
      if (n->ins.empty())
        top.insert(n->real);
      if (!successors(n))
        bottom.insert(n->real);
    }
    auto compare = [&](auto range, size_t count, const std::set<Node *> & want, const char * kind)
    {
      std::set<Node *> got;
      size_t len = 0;
      for (auto & n : range)
      {
        check(++len <= want.size(), kind, at + ": too many");
        got.insert(&n);
      }
      check(got == want, kind, at);
      check(len == want.size() && count == len, kind, at + ": count " + std::to_string(count));
    };
    compare(R.Nodes(), R.numNodes(), all, "nodes");
    compare(R.TopNodes(), R.numTopNodes(), top, "top nodes");
    compare(R.BottomNodes(), R.numBottomNodes(), bottom, "bottom nodes");
    for (auto n : r->nodes)
    {
      auto & N = *n->real;
      auto nm = "n" + std::to_string(n->serial);
      check(N.GetNodeId() == n->id, "node id", nm);
      check(ids.insert(n->id).second, "node ids are unique", nm);
      check(N.region() == r->real, "region of a node", nm);
      check(N.graph() == graph.get(), "graph of a node", nm);
      check(N.numSuccessors() == successors(n), "number of successors", nm);
      check(N.IsDead() == !successors(n), "dead nodes", nm);
      check(N.ninputs() == n->ins.size(), "number of inputs", nm);
      size_t i = 0;
      for (auto & in : N.Inputs())
      {
        check(i < n->ins.size() && &in == n->ins[i]->real && N.input(i) == &in, "input", nm);
        agree(n->ins[i], i);
        i++;
      }
      check(i == n->ins.size(), "inputs", nm);
      check(N.noutputs() == n->outs.size(), "number of outputs", nm);
      i = 0;
      for (auto & out : N.Outputs())
      {
        check(i < n->outs.size() && &out == n->outs[i]->real && N.output(i) == &out, "output", nm);
        agree(n->outs[i], i);
        i++;
      }
      check(i == n->outs.size(), "outputs", nm);
      if (!n->structural)
        continue;
      auto & S = static_cast<StructuralNode &>(N);
      check(S.nsubregions() == n->subs.size(), "number of subregions", nm);
      for (size_t j = 0; j < n->subs.size(); j++)
        check(S.subregion(j) == n->subs[j]->real, "subregion", nm);
      for (auto mi : n->ins)
      {
        std::multiset<RegionArgument *> got, want;
        for (auto & a : static_cast<StructuralInput *>(mi->real)->arguments)
          got.insert(&a);
        for (auto s : n->subs)
          for (auto a : s->args)
            if (a->sinput == mi)
              want.insert(static_cast<RegionArgument *>(a->real));
        check(got == want, "arguments of an input", name(mi));
      }
      for (auto mo : n->outs)
      {
        std::multiset<RegionResult *> got, want;
        for (auto & a : static_cast<StructuralOutput *>(mo->real)->results)
          got.insert(&a);
        for (auto s : n->subs)
          for (auto a : s->results)
            if (a->soutput == mo)
              want.insert(static_cast<RegionResult *>(a->real));
        check(got == want, "results of an output", name(mo));
      }
    }
  }

  void
  agree(MOut * m, size_t index)
  {
    auto & o = *m->real;
    check(o.index() == index, "index of an output", name(m));
    check(o.region() == m->region->real, "region of an output", name(m));
    check(TryGetOwnerNode<Node>(o) == (m->node ? m->node->real : nullptr), "owner of an output", name(m));
    check(*o.Type() == *typeOf(m->type), "type of an output", name(m));
    check(o.nusers() == m->users.size(), "number of users", name(m));
    check(o.IsDead() == m->users.empty(), "dead outputs", name(m));
    std::set<Input *> got, want;
    size_t n = 0;
    for (auto & u : o.Users())
    {
      check(++n <= m->users.size(), "users", name(m) + ": too many");
      got.insert(&u);
    }
    for (auto u : m->users)
      want.insert(u->real);
    check(n == want.size() && got == want, "users", name(m));
    if (want.size() == 1)
      check(&o.SingleUser() == *want.begin(), "single user", name(m));
  }

  void
  agree(MIn * m, size_t index)
  {
    auto & i = *m->real;
    check(i.index() == index, "index of an input", name(m));
    check(i.region() == m->region->real, "region of an input", name(m));
    check(TryGetOwnerNode<Node>(i) == (m->node ? m->node->real : nullptr), "owner of an input", name(m));
    check(TryGetOwnerRegion(i) == (m->node ? nullptr : m->region->real), "owner region of an input", name(m));
    check(*i.Type() == *typeOf(m->type), "type of an input", name(m));
    check(i.origin() == m->origin->real, "origin", name(m));
  }

  // ------------------------------------------------------------ queries

  void
  queries()
  {
    auto rs = regions();
    for (auto a : rs)
    {
      for (auto b : rs)
      {
        bool anc = false;
        for (auto x = a; x->owner && !anc;)
        {
          x = x->owner->parent;
          anc = x == b;
        }
        check(Region::isAncestor(*a->real, *b->real) == anc, "isAncestor");
      }
      size_t nr = 0, all = 0, simp = 0, structs = 0;
      std::function<void(MRegion *)> walk = [&](MRegion * r)
      {
        nr++;
        for (auto n : r->nodes)
        {
          all++;
          (n->structural ? structs : simp)++;
          for (auto s : n->subs)
            walk(s);
        }
      };
      walk(a);
      check(Region::NumRegions(*a->real) == nr, "NumRegions");
      check(nnodes(a->real) == all, "nnodes");
      check(nsimpnodes(a->real) == simp, "nsimpnodes");
      check(nstructnodes(a->real) == structs, "nstructnodes");
      bool hereSimple = false, hereStruct = false;
      for (auto n : a->nodes)
        (n->structural ? hereStruct : hereSimple) = true;
      check(Region::containsOperation<TestOperation>(*a->real, true) == (simp > 0), "containsOperation");
      check(Region::containsOperation<TestOperation>(*a->real, false) == hereSimple, "containsOperation");
      check(Region::containsNodeType<TestStructuralNode>(*a->real, true) == (structs > 0), "containsNodeType");
      check(Region::containsNodeType<TestStructuralNode>(*a->real, false) == hereStruct, "containsNodeType");
      // depths
      std::map<MNode *, size_t> depth;
      std::function<size_t(MNode *)> d = [&](MNode * n) -> size_t
      {
        auto it = depth.find(n);
        if (it != depth.end())
          return it->second;
        size_t v = 0;
        for (auto i : n->ins)
          if (i->origin->node)
            v = std::max(v, d(i->origin->node) + 1);
        return depth[n] = v;
      };
      auto got = computeDepthMap(*a->real);
      check(got.size() == a->nodes.size(), "computeDepthMap");
      for (auto n : a->nodes)
        check(got.count(n->real) && got[n->real] == d(n), "depth of a node", "n" + std::to_string(n->serial));
    }
    // tree and JSON dumps
    check(Region::ToTree(*root->real) == tree(root, 0), "ToTree", tree(root, 0) + " instead of\n" + Region::ToTree(*root->real));
    check(Region::toJson(*root->real) == json(root), "toJson");
    // tail nodes: those no other node in the root region depends on
    std::multiset<Node *> want, tails;
    for (auto n : root->nodes)
    {
      bool used = false;
      for (auto o : n->outs)
        for (auto u : o->users)
          used = used || u->node;
      if (!used)
        want.insert(n->real);
    }
    for (auto n : Graph::ExtractTailNodes(*graph))
      tails.insert(n);
    check(tails == want, "tail nodes");
  }

  std::string
  tree(MRegion * r, size_t depth)
  {
    std::string ind(depth, '-');
    std::string s = ind + (r == root ? "RootRegion" : "Region[" + std::to_string(r->index) + "]") + "\n";
    for (auto n : r->nodes)
      if (n->structural)
      {
        s += std::string(depth + 1, '-') + n->real->DebugString() + "\n";
        for (auto sub : n->subs)
          s += tree(sub, depth + 2);
      }
    return s;
  }

  std::string
  json(MRegion * r)
  {
    std::string s, e;
    for (auto n : r->nodes)
      if (n->structural)
      {
        s += s.empty() ? "" : ",";
        s += "{\"DebugString\":\"" + n->real->DebugString() + "\",\"Subregions\":[";
        bool first = true;
        for (auto sub : n->subs)
        {
          s += (first ? "" : ",") + json(sub);
          first = false;
        }
        s += "]}";
      }
    return s.empty() ? "{}" : "{\"StructuralNodes\":[" + s + "]}";
  }
};

MRegion *
pickRegion(World & w, Ctx & c)
{
  auto rs = w.regions();
  return c.draw(3) == 0 ? w.root : c.pick(rs);
}

// ---------------------------------------------------------------- G01

void
bookkeeping(Ctx & c)
{
  World w(c, "graph");
  for (int i = c.range(0, 3); i > 0; i--)
    w.addArgument(w.root, c.draw(3) == 0, nullptr, 0, false);
  w.agree(true);
  int steps = c.range(1, c.tier ? 90 : 45);
  for (int i = 0; i < steps; i++)
  {
    if (w.edit(pickRegion(w, c), false))
    {
      w.effective++;
      w.agree(true);
    }
  }
  w.queries();
  c.nontrivial = w.effective >= 5;
  // everything can be taken apart again
  w.op("take the graph apart");
  for (auto r : w.regions())
  {
    HashSet<size_t> all;
    for (size_t i = 0; i < r->results.size(); i++)
      all.insert(i);
    for (auto i : r->results)
      w.dropIn(i);
    r->results.clear();
    r->real->RemoveResults(all);
  }
  w.agree(true);
  w.prune(w.root, true);
  w.agree(true);
  w.check(w.root->real->numNodes() == 0, "nothing is left");
}

// ---------------------------------------------------------------- G02

template<class T>
struct Walk
{
  World & w;
  MRegion * r;
  std::unique_ptr<T> t;
  bool topDown;
  std::set<MNode *> seen, original;
  bool done = false;

  Walk(World & w, MRegion * r, bool topDown)
      : w(w),
        r(r),
        t(std::make_unique<T>(r->real)),
        topDown(topDown),
        original(r->nodes.begin(), r->nodes.end())
  {}

  bool
  isOriginal(MNode * n)
  {
    return original.count(n);
  }

  // The original nodes n has to wait for
  void
  below(MNode * n, std::set<MNode *> & out, std::set<MNode *> & done)
  {
    for (auto i : n->ins)
    {
      auto p = i->origin->node;
      if (!p || !done.insert(p).second)
        continue;
      if (isOriginal(p))
        out.insert(p);
      else if (!p->altered && !p->structural)
        below(p, out, done);
    }
  }

  void
  step()
  {
    auto real = t->next();
    w.op(topDown ? "top-down" : "bottom-up", " next: ", real ? label(real) : "end");
    if (!real)
    {
      done = true;
      for (auto n : r->nodes)
        if (isOriginal(n))
          w.check(seen.count(n), "every node is visited", "n" + std::to_string(n->serial) + " is not visited");
      return;
    }
    MNode * m = nullptr;
    for (auto n : r->nodes)
      if (n->real == real)
        m = n;
    w.check(m, "only nodes of the region are visited");
    auto nm = "n" + std::to_string(m->serial);
    w.check(isOriginal(m), "nodes created during the traversal are not visited", nm);
    w.check(seen.insert(m).second, "no node is visited twice", nm);
    if (topDown)
    {
      std::set<MNode *> need, d;
      below(m, need, d);
      for (auto p : need)
        w.check(seen.count(p), "a node is visited after those it depends on", nm + " before n" + std::to_string(p->serial));
    }
    else
    {
      for (auto o : m->outs)
        for (auto u : o->users)
          if (u->node && isOriginal(u->node))
            w.check(
                seen.count(u->node),
                "a node is visited after its users",
                nm + " before n" + std::to_string(u->node->serial));
    }
  }

  std::string
  label(const Node * real)
  {
    for (auto n : r->nodes)
      if (n->real == real)
        return "n" + std::to_string(n->serial);
    return "?";
  }
};

template<class T>
void
walkWhileEditing(Ctx & c, const std::string & what, bool topDown)
{
  World w(c, what);
  for (int i = c.range(0, 3); i > 0; i--)
    w.addArgument(w.root, c.draw(3) == 0, nullptr, 0, false);
  int build = c.range(1, c.tier ? 60 : 30);
  bool deep = c.draw(2);
  for (int i = 0; i < build; i++)
    w.edit(deep ? pickRegion(w, c) : w.root, false);
  // the traverser observes the region, which has to outlive it
  auto rs = w.regions();
  auto r = deep && c.draw(4) ? c.pick(rs) : w.root;
  if (deep && c.draw(2))
    for (auto x : rs)
      if (x->nodes.size() > r->nodes.size())
        r = x;
  w.tracking = true;
  for (auto & n : w.nodePool)
    n->altered = false;
  bool touched = false;
  {
    Walk<T> walk(w, r, topDown);
    w.op(what, " of r", r->id);
    unsigned eff = 0;
    unsigned rate = c.draw(4);
    for (int steps = 0; !walk.done && steps < 200; steps++)
    {
      for (unsigned k = rate ? c.draw(rate + 1) : 0; k > 0; k--)
        if (w.edit(r, true))
        {
          eff++;
          touched = true;
        }
      walk.step();
    }
    w.check(walk.done, "the traversal ends");
    c.nontrivial = walk.original.size() >= 3 && (eff >= 1 || !rate);
  }
  c.label(touched ? "edited while traversing" : "not edited");
  w.agree(false);
}

struct Reg
{
  Reg()
  {
    auto add = [](const char * id, const char * rule, uint64_t quick, std::vector<std::pair<std::string, std::function<void(Ctx &)>>> fs)
    {
      pbt::Property p;
      p.id = id;
      p.rule = rule;
      p.quickCases = quick;
      p.thoroughCases = quick * 20;
      p.batch = 256;
      p.run = [fs](Ctx & c)
      {
        size_t i = c.draw(fs.size());
        c.label(fs[i].first);
        fs[i].second(c);
        c.sample = fs[i].first;
      };
      pbt::registerProperty(std::move(p));
    };
    add("G01",
        "A case is a history of up to 45 edits of a graph with nested regions, mirrored on a plain model and compared "
        "completely after every edit. Non-trivial if at least five edits took effect.",
        300000,
        { { "bookkeeping", bookkeeping } });
    add("G02",
        "A case is a random region that is traversed while random edits are made between the visits. Non-trivial if the region "
        "has at least three nodes.",
        1500000,
        { { "TopDownTraverser", [](Ctx & c) { walkWhileEditing<TopDownTraverser>(c, "top-down", true); } },
          { "BottomUpTraverser", [](Ctx & c) { walkWhileEditing<BottomUpTraverser>(c, "bottom-up", false); } },
          { "TopDownConstTraverser", [](Ctx & c) { walkWhileEditing<TopDownConstTraverser>(c, "top-down const", true); } },
          { "BottomUpConstTraverser", [](Ctx & c) { walkWhileEditing<BottomUpConstTraverser>(c, "bottom-up const", false); } } });
  }
} reg;
}
