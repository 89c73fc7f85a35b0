// Soundness of analyses, checked against what happens when the analysed program runs.
#include "irgen.hpp"
#include "irinterp.hpp"
#include "passprops.hpp"
#include "pipe.hpp"

#include <jlm/llvm/backend/IpGraphToLlvmConverter.hpp>
#include <jlm/llvm/backend/RvsdgToIpGraphConverter.hpp>
#include <jlm/llvm/ir/LambdaMemoryState.hpp>
#include <jlm/llvm/ir/operators/alloca.hpp>
#include <jlm/llvm/ir/operators/call.hpp>
#include <jlm/llvm/ir/operators/Load.hpp>
#include <jlm/llvm/ir/operators/operators.hpp>
#include <jlm/llvm/ir/operators/Store.hpp>
#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
#include <jlm/llvm/ir/variable.hpp>
#include <jlm/llvm/opt/InvariantValueRedirection.hpp>
#include <jlm/llvm/opt/ScalarEvolution.hpp>
#include <jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.hpp>
#include <jlm/llvm/opt/alias-analyses/AliasAnalysis.hpp>
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp>
#include <jlm/llvm/opt/alias-analyses/ModRefSummary.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToGraph.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToGraphAliasAnalysis.hpp>
#include <jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/simple-node.hpp>
#include <jlm/rvsdg/structural-node.hpp>
#include <jlm/rvsdg/theta.hpp>

#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/ValueHandle.h>

#include <unordered_map>
#include <unordered_set>

namespace
{
using namespace pipeline;
namespace jl = jlm::llvm;
namespace jr = jlm::rvsdg;
namespace aa = jlm::llvm::aa;
using PTG = aa::PointsToGraph;

struct Rng
{
  uint64_t s;
  uint64_t
  next(uint64_t n)
  {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return (z ^ (z >> 31)) % n;
  }
};

std::vector<std::pair<const jr::Output *, const jl::Variable *>> * outVars;
std::unordered_map<const jl::Variable *, llvm::WeakTrackingVH> * varVals;

// An analysed graph together with the program it is exported to.
struct Subject
{
  std::unique_ptr<jl::LlvmRvsdgModule> rm;
  llvm::LLVMContext ctx;
  std::unique_ptr<llvm::Module> module;
  std::vector<std::pair<const jr::Output *, llvm::Value *>> regs;
  std::unordered_map<const jr::Output *, llvm::Value *> valueOf;
  std::unordered_map<const llvm::Value *, std::vector<const jr::Output *>> outputsOf;
  jlm::util::StatisticsCollector sc;

  void
  build(const Case & c)
  {
    scrambleHeap(c.heap);
    llvm::LLVMContext c2;
    auto m = parse(c.ll, c2);
    rm = toRvsdg(*m, sc);
    applyPasses(*rm, c.prefix, sc);
    // The exporter removes invariant values before anything else. Half of the graphs are analysed as they are
    // afterwards, the others before; of the latter, those that lose nodes are given up.
    if (c.schedule % 2)
      jl::InvariantValueRedirection::createAndRun(*rm, { true, true, false, false, false });
  }

  using Shape = std::vector<const void *>;

  static void
  shape(const jr::Region & r, Shape & out)
  {
    for (auto & n : r.Nodes())
    {
      out.push_back(&n);
      if (auto st = dynamic_cast<const jr::StructuralNode *>(&n))
        for (auto & sub : st->Subregions())
          shape(sub, out);
    }
  }

  static Shape
  shape(const jr::Region & r)
  {
    Shape s;
    shape(r, s);
    return s;
  }

  void
  exportIt()
  {
    std::vector<std::pair<const jr::Output *, const jl::Variable *>> ov;
    std::unordered_map<const jl::Variable *, llvm::WeakTrackingVH> vv;
    outVars = &ov;
    varVals = &vv;
    jl::outputConverted = [](const jr::Output & o, const jl::Variable & v)
    {
      outVars->push_back({ &o, &v });
    };
    jl::variableConverted = [](const jl::Variable & v, llvm::Value & x)
    {
      (*varVals)[&v] = llvm::WeakTrackingVH(&x);
    };
    struct Off
    {
      ~Off()
      {
        jl::outputConverted = nullptr;
        jl::variableConverted = nullptr;
        outVars = nullptr;
        varVals = nullptr;
      }
    } off;
    auto before = shape(rm->Rvsdg().GetRootRegion());
    module = toLlvm(*rm, ctx, sc);
    if (before != shape(rm->Rvsdg().GetRootRegion()))
      pbt::discard("the exporter removes nodes");
    for (auto & [o, v] : ov)
    {
      auto it = vv.find(v);
      if (it == vv.end() || !it->second)
        continue;
      llvm::Value * x = it->second;
      regs.push_back({ o, x });
      valueOf[o] = x;
      outputsOf[x].push_back(o);
    }
  }
};

bool
isAncestorOrSame(const jr::Region * a, const jr::Region * r)
{
  for (; r; r = r->node() ? r->node()->region() : nullptr)
    if (r == a)
      return true;
  return false;
}

// Maps what the interpreter allocates to the memory nodes of a points-to graph.
struct MemoryMap
{
  const PTG & g;
  std::unordered_map<const void *, PTG::NodeIndex> sites;

  MemoryMap(const PTG & g, const Subject & s)
      : g(g)
  {
    for (auto & [o, v] : s.valueOf)
    {
      if (auto node = jr::TryGetOwnerNode<jr::SimpleNode>(*o))
      {
        if (o->index() != 0)
          continue;
        if (jr::is<jl::AllocaOperation>(node->GetOperation()))
          sites[v] = g.getNodeForAlloca(*node);
        else if (jr::is<jl::MallocOperation>(node->GetOperation()))
          sites[v] = g.getNodeForMalloc(*node);
      }
      else if (auto delta = jr::TryGetOwnerNode<jr::DeltaNode>(*o))
        sites[v] = g.getNodeForDelta(*delta);
      else if (auto lambda = jr::TryGetOwnerNode<jr::LambdaNode>(*o))
        sites[v] = g.getNodeForLambda(*lambda);
      else if (auto import = dynamic_cast<const jr::GraphImport *>(o))
        sites[v] = g.getNodeForImport(*import);
    }
  }

  std::optional<PTG::NodeIndex>
  of(const sem::Obj & o) const
  {
    if (o.kind == sem::Obj::ExtMem)
      return PTG::externalMemoryNode;
    auto it = sites.find(o.site);
    if (it != sites.end())
      return it->second;
    if (o.kind == sem::Obj::Heap)
      return PTG::externalMemoryNode;
    return std::nullopt; // e.g. declarations that only the backend introduces
  }
};

std::string
describe(const jr::Output & o)
{
  return o.debug_string() + " (region " + std::to_string(o.region()->getRegionId()) + ")";
}

std::string
describe(const llvm::Value * v)
{
  std::string t;
  llvm::raw_string_ostream os(t);
  if (llvm::isa<llvm::Function>(v))
    os << "@" << v->getName();
  else
    v->print(os);
  return os.str();
}

// A violation seen during a run; only counts if the run is free of undefined behaviour.
struct Monitor : sem::IrMachine
{
  using IrMachine::IrMachine;
  std::optional<pbt::Failure> seen;
  uint64_t checks = 0;

  void
  report(const std::string & kind, const std::string & msg)
  {
    if (!seen)
      seen = pbt::Failure{ kind, msg };
  }
  virtual void
  finished()
  {}
};

struct RunResult
{
  unsigned completed = 0;
  uint64_t checks = 0;
  std::map<std::string, unsigned> skipped;
};

template<class M, class... A>
RunResult
observe(Subject & s, const Case & c, A &&... a)
{
  RunResult res;
  auto es = entries(*s.module);
  for (auto & in : c.inputs)
  {
    M mc(*s.module, a...);
    mc.strict = true;
    mc.worldSeed = in.world;
    mc.layoutSeed = 1;
    try
    {
      runAll(mc, es, in);
    }
    catch (sem::UB & u)
    {
      res.skipped["undefined: " + u.why]++;
      continue;
    }
    catch (sem::OutOfFuel &)
    {
      // what was seen so far happened
    }
    catch (sem::Unsupported & u)
    {
      res.skipped["unsupported: " + u.why]++;
      continue;
    }
    mc.finished();
    if (mc.seen)
      pbt::fail(
          mc.seen->kind,
          mc.seen->msg + " on input " + std::to_string(in.a) + "," + std::to_string(in.b) + " world "
              + std::to_string(in.world));
    res.completed++;
    res.checks += mc.checks;
  }
  return res;
}

template<class F>
void
eachPointer(const sem::Val & v, const F & f)
{
  if (v.k == sem::Val::Agg)
  {
    for (auto & x : *v.e)
      eachPointer(x, f);
  }
  else if (v.k == sem::Val::Ptr && !v.und)
    f(v.u());
}

// ---------------------------------------------------------------------------------------------------------------
// points-to soundness

struct PtgMonitor : Monitor
{
  const PTG & g;
  const MemoryMap & mm;
  Subject & s;

  PtgMonitor(llvm::Module & m, const PTG & g, const MemoryMap & mm, Subject & s)
      : Monitor(m),
        g(g),
        mm(mm),
        s(s)
  {}

  sem::Obj *
  target(uint64_t a)
  {
    auto o = lookup(a);
    if (!o || !o->live || a >= o->base + o->size)
      return nullptr;
    return o;
  }

  void
  check(const llvm::Value * v, const sem::Val & x)
  {
    auto it = s.outputsOf.find(v);
    if (it == s.outputsOf.end())
      return;
    eachPointer(x, [&](uint64_t a)
    {
      auto o = target(a);
      if (!o)
        return;
      auto n = mm.of(*o);
      if (!n)
        return;
      for (auto out : it->second)
      {
        auto r = g.tryGetNodeForRegister(*out);
        if (!r)
          continue;
        checks++;
        if (!g.isTargeting(*r, *n))
          report(
              "points-to set misses the target of a pointer",
              describe(*out) + " = " + describe(v) + " points to " + g.getNodeDebugString(*n));
      }
    });
  }

  void
  onEnter(llvm::Function & f, Frame & fr) override
  {
    for (auto & a : f.args())
      check(&a, fr[&a]);
  }

  void
  onValue(Frame & fr, const llvm::Value * v, const sem::Val & x) override
  {
    check(v, x);
    if (auto l = llvm::dyn_cast<llvm::LoadInst>(v))
    {
      auto p = eval(fr, l->getPointerOperand());
      auto from = p.und ? nullptr : target(p.u());
      auto fn = from ? mm.of(*from) : std::nullopt;
      if (!fn)
        return;
      eachPointer(x, [&](uint64_t a)
      {
        auto o = target(a);
        auto n = o ? mm.of(*o) : std::nullopt;
        if (!n)
          return;
        checks++;
        if (!g.isTargeting(*fn, *n))
          report(
              "points-to set of memory misses the target of a pointer in it",
              g.getNodeDebugString(*fn) + " holds a pointer to " + g.getNodeDebugString(*n) + " at " + describe(v));
      });
    }
  }

  void
  finished() override
  {
    std::map<unsigned, sem::Obj *> byId;
    for (auto & [a, o] : objs)
      byId[o->id] = o.get();
    for (auto & e : trace)
      for (auto & so : e.objs)
      {
        auto o = byId.find(so.id);
        auto n = o == byId.end() ? std::nullopt : mm.of(*o->second);
        if (!n)
          continue;
        checks++;
        if (!g.isExternallyAvailable(*n))
          report("memory reached the outside world without being marked as escaped", g.getNodeDebugString(*n) + " in " + e.what);
      }
  }
};

// ---------------------------------------------------------------------------------------------------------------
// alias queries

struct AliasFact
{
  const jr::Output * a;
  const jr::Output * b;
  const llvm::Value * va;
  uint64_t sa, sb;
  bool must;
  std::string who;
};

struct AliasMonitor : Monitor
{
  const std::unordered_map<const llvm::Value *, std::vector<AliasFact>> & facts;

  AliasMonitor(llvm::Module & m, const std::unordered_map<const llvm::Value *, std::vector<AliasFact>> & facts)
      : Monitor(m),
        facts(facts)
  {}

  sem::Obj *
  inBounds(uint64_t a, uint64_t size)
  {
    auto o = lookup(a);
    if (!o || !o->live || a + size > o->base + o->size || size == 0)
      return nullptr;
    if (o->kind == sem::Obj::Function) // functions are called, not accessed: such a query means nothing
      return nullptr;
    return o;
  }

  void
  check(Frame & fr, const llvm::Value * v, const sem::Val & x)
  {
    if (x.k != sem::Val::Ptr || x.und)
      return;
    auto it = facts.find(v);
    if (it == facts.end())
      return;
    for (auto & f : it->second)
    {
      if (!llvm::isa<llvm::Constant>(f.va) && fr.find(f.va) == fr.end())
        continue;
      auto y = eval(fr, f.va);
      if (y.k != sem::Val::Ptr || y.und)
        continue;
      auto p = y.u(), q = x.u();
      auto o1 = inBounds(p, f.sa), o2 = inBounds(q, f.sb);
      if (!o1 || !o2)
        continue;
      checks++;
      bool overlap = p < q + f.sb && q < p + f.sa;
      std::string what = f.who + " on " + describe(*f.a) + " = " + describe(f.va) + " [" + std::to_string(f.sa) + " bytes] and "
                       + describe(*f.b) + " = " + describe(v) + " [" + std::to_string(f.sb) + " bytes]";
      if (f.must && p != q)
        report("pointers that must alias differ", what);
      if (!f.must && overlap)
        report("pointers that must not alias overlap", what);
    }
  }

  void
  onEnter(llvm::Function & f, Frame & fr) override
  {
    for (auto & a : f.args())
      check(fr, &a, fr[&a]);
  }

  void
  onValue(Frame & fr, const llvm::Value * v, const sem::Val & x) override
  {
    check(fr, v, x);
  }
};

bool
isPlainPointer(const jr::Output & o)
{
  return jlm::rvsdg::is<jl::PointerType>(o.Type());
}

const jr::StructuralNode *
ownerStruct(const jr::Output & o)
{
  return jr::TryGetOwnerNode<jr::StructuralNode>(o);
}

std::unordered_map<const llvm::Value *, std::vector<AliasFact>>
collectFacts(Subject & s, aa::AliasAnalysis & an, const std::string & who, Rng & rng, unsigned limit, uint64_t & queries)
{
  std::unordered_map<const llvm::Value *, std::vector<AliasFact>> facts;
  std::unordered_map<const llvm::Function *, std::vector<const jr::Output *>> perFn;
  std::vector<const jr::Output *> consts;
  for (auto & [o, v] : s.regs)
  {
    if (!isPlainPointer(*o) || !v->getType()->isPointerTy())
      continue;
    if (auto i = llvm::dyn_cast<llvm::Instruction>(v))
      perFn[i->getFunction()].push_back(o);
    else if (auto a = llvm::dyn_cast<llvm::Argument>(v))
      perFn[a->getParent()].push_back(o);
    else if (llvm::isa<llvm::Constant>(v))
      consts.push_back(o);
  }
  const std::vector<uint64_t> sizes = { 1, 2, 4, 8, 8, 4, 16, 12, 3 };
  for (auto & f : *s.module)
  {
    if (f.isDeclaration())
      continue;
    auto & os = perFn[&f];
    std::unique_ptr<llvm::DominatorTree> dt;
    std::vector<std::pair<const jr::Output *, const jr::Output *>> pairs;
    auto suits = [&](const jr::Output * a, const jr::Output * b)
    {
      if (a == b || !isAncestorOrSame(a->region(), b->region()))
        return false;
      auto va = s.valueOf[a], vb = s.valueOf[b];
      if (va == vb)
        return false;
      // the output of a loop is a different value inside of the loop
      if (jr::TryGetOwnerNode<jr::ThetaNode>(*b))
        return false;
      if (auto n = ownerStruct(*a))
        for (auto r = b->region(); r; r = r->node() ? r->node()->region() : nullptr)
          if (r->node() == n)
            return false;
      if (llvm::isa<llvm::Constant>(va))
        return true;
      if (llvm::isa<llvm::Argument>(vb))
        return llvm::isa<llvm::Argument>(va) && va < vb;
      if (llvm::isa<llvm::Argument>(va))
        return true;
      if (!dt)
        dt = std::make_unique<llvm::DominatorTree>(f);
      return dt->dominates(llvm::cast<llvm::Instruction>(va), llvm::cast<llvm::Instruction>(vb));
    };
    for (auto b : os)
    {
      for (auto a : os)
        if (suits(a, b))
          pairs.push_back({ a, b });
      for (auto a : consts)
        if (suits(a, b))
          pairs.push_back({ a, b });
    }
    for (unsigned k = 0; k < limit && !pairs.empty(); k++)
    {
      if (pairs.size() > limit)
        std::swap(pairs[k], pairs[k + rng.next(pairs.size() - k)]);
      else if (k >= pairs.size())
        break;
      auto [a, b] = pairs[k];
      for (int rep = 0; rep < 2; rep++)
      {
        uint64_t sa = sizes[rng.next(sizes.size())], sb = sizes[rng.next(sizes.size())];
        bool swap = rng.next(2);
        queries++;
        auto r = swap ? an.Query(*b, sb, *a, sa) : an.Query(*a, sa, *b, sb);
        if (r == aa::AliasAnalysis::MayAlias)
          continue;
        AliasFact ft{ a, b, s.valueOf[a], sa, sb, r == aa::AliasAnalysis::MustAlias, who };
        facts[s.valueOf[b]].push_back(ft);
      }
    }
  }
  return facts;
}

// ---------------------------------------------------------------------------------------------------------------
// mod/ref summaries

struct Summaries
{
  const PTG & g;
  const aa::ModRefSummary & sum;
  std::unordered_map<const llvm::Function *, const jr::LambdaNode *> lambdaOf;
  std::unordered_map<const llvm::Instruction *, const jr::SimpleNode *> nodeOf;
  std::unordered_map<const jr::LambdaNode *, std::unordered_set<PTG::NodeIndex>> mentioned;

  static bool
  isMemoryOp(const jr::Operation & op)
  {
    return jr::is<jl::LoadOperation>(op) || jr::is<jl::StoreOperation>(op) || jr::is<jl::MemCpyOperation>(op)
        || jr::is<jl::MemMoveOperation>(op) || jr::is<jl::MemSetOperation>(op) || jr::is<jl::FreeOperation>(op)
        || jr::is<jl::CallOperation>(op);
  }

  void
  note(const jr::LambdaNode * l, const aa::ModRefSet & m)
  {
    for (auto & [n, e] : m.getModRefNodes())
      mentioned[l].insert(n);
  }

  void
  scan(Subject & s, const jr::LambdaNode * l, const jr::Region & r, llvm::Function * f)
  {
    for (auto & n : r.Nodes())
    {
      if (auto g = dynamic_cast<const jr::GammaNode *>(&n))
      {
        note(l, sum.GetGammaEntryModRef(*g));
        note(l, sum.GetGammaExitModRef(*g));
      }
      if (auto t = dynamic_cast<const jr::ThetaNode *>(&n))
        note(l, sum.GetThetaModRef(*t));
      if (auto st = dynamic_cast<const jr::StructuralNode *>(&n))
      {
        for (size_t i = 0; i < st->nsubregions(); i++)
          scan(s, l, *st->subregion(i), f);
        continue;
      }
      auto sn = dynamic_cast<const jr::SimpleNode *>(&n);
      if (!sn || !isMemoryOp(sn->GetOperation()))
        continue;
      note(l, sum.GetSimpleNodeModRef(*sn));
      // find the instruction the node became
      llvm::Instruction * found = nullptr;
      for (size_t i = 0; i < sn->noutputs() && !found; i++)
      {
        auto it = s.valueOf.find(sn->output(i));
        if (it != s.valueOf.end())
          found = llvm::dyn_cast<llvm::Instruction>(it->second);
      }
      if (!found && f)
      {
        std::vector<const llvm::Value *> ops;
        for (size_t i = 0; i < sn->ninputs(); i++)
        {
          auto it = s.valueOf.find(sn->input(i)->origin());
          if (it != s.valueOf.end())
            ops.push_back(it->second);
        }
        unsigned n = 0;
        for (auto & I : llvm::instructions(*f))
        {
          bool kind = jr::is<jl::StoreOperation>(sn->GetOperation()) ? llvm::isa<llvm::StoreInst>(I)
                    : jr::is<jl::MemCpyOperation>(sn->GetOperation()) ? llvm::isa<llvm::MemCpyInst>(I)
                    : jr::is<jl::MemMoveOperation>(sn->GetOperation()) ? llvm::isa<llvm::MemMoveInst>(I)
                    : jr::is<jl::MemSetOperation>(sn->GetOperation()) ? llvm::isa<llvm::MemSetInst>(I)
                    : llvm::isa<llvm::CallInst>(I) && I.getType()->isVoidTy();
          if (!kind)
            continue;
          std::vector<const llvm::Value *> want, has;
          for (auto & o : I.operands())
            has.push_back(o);
          bool all = true;
          for (auto o : ops)
            all = all && std::find(has.begin(), has.end(), o) != has.end();
          if (all && ops.size() >= 1)
          {
            n++;
            found = const_cast<llvm::Instruction *>(&I);
          }
        }
        if (n != 1)
          found = nullptr;
      }
      if (found)
      {
        auto [it, fresh] = nodeOf.insert({ found, sn });
        if (!fresh && it->second != sn)
          it->second = nullptr; // ambiguous
      }
    }
  }

  Summaries(Subject & s, const PTG & g, const aa::ModRefSummary & sum)
      : g(g),
        sum(sum)
  {
    for (auto & [o, v] : s.regs)
      if (auto l = jr::TryGetOwnerNode<jr::LambdaNode>(*o))
      {
        auto f = llvm::dyn_cast<llvm::Function>(v);
        if (!f)
          continue;
        lambdaOf[f] = l;
        note(l, sum.GetLambdaEntryModRef(*l));
        note(l, sum.GetLambdaExitModRef(*l));
        scan(s, l, *l->subregion(), f);
      }
    // What happens inside of a branch or loop must also be declared for it.
    for (auto & [f, l] : lambdaOf)
      nested(*l, *l->subregion());
  }

  static const jr::Node *
  creator(const PTG & g, PTG::NodeIndex n)
  {
    if (g.getNodeKind(n) == PTG::NodeKind::AllocaNode)
      return &g.getAllocaForNode(n);
    if (g.getNodeKind(n) == PTG::NodeKind::MallocNode)
      return &g.getMallocForNode(n);
    return nullptr;
  }

  void
  within(const jr::SimpleNode & n, const aa::ModRefSet & outer, const jr::Region & region, const std::string & what)
  {
    for (auto & [m, e] : sum.GetSimpleNodeModRef(n).getModRefNodes())
    {
      auto c = creator(g, m);
      if (c && isAncestorOrSame(&region, c->region()))
        continue;
      auto it = outer.getModRefNodes().find(m);
      if (it == outer.getModRefNodes().end() || !aa::isEffectSubset(e, it->second))
        pbt::fail("summary of " + what + " lacks an effect of an operation in it", n.DebugString() + ": " + g.getNodeDebugString(m));
    }
  }

  void
  collect(const jr::Region & r, std::vector<const jr::SimpleNode *> & out)
  {
    for (auto & n : r.Nodes())
    {
      if (auto st = dynamic_cast<const jr::StructuralNode *>(&n))
        for (size_t i = 0; i < st->nsubregions(); i++)
          collect(*st->subregion(i), out);
      else if (auto sn = dynamic_cast<const jr::SimpleNode *>(&n))
        if (isMemoryOp(sn->GetOperation()))
          out.push_back(sn);
    }
  }

  void
  nested(const jr::LambdaNode & l, const jr::Region & r)
  {
    for (auto & n : r.Nodes())
    {
      auto st = dynamic_cast<const jr::StructuralNode *>(&n);
      if (!st)
        continue;
      for (size_t i = 0; i < st->nsubregions(); i++)
      {
        auto & sub = *st->subregion(i);
        std::vector<const jr::SimpleNode *> ops;
        collect(sub, ops);
        for (auto o : ops)
        {
          if (auto g = dynamic_cast<const jr::GammaNode *>(&n))
          {
            within(*o, sum.GetGammaEntryModRef(*g), sub, "a branch (entry)");
            within(*o, sum.GetGammaExitModRef(*g), sub, "a branch (exit)");
          }
          else if (auto t = dynamic_cast<const jr::ThetaNode *>(&n))
            within(*o, sum.GetThetaModRef(*t), sub, "a loop");
        }
        nested(l, sub);
      }
    }
  }
};

struct ModRefMonitor : Monitor
{
  const Summaries & S;
  const MemoryMap & mm;

  struct Extent
  {
    const jr::LambdaNode * owner; // whose sets may leave out compressed nodes
    const aa::ModRefSet * entry;
    const aa::ModRefSet * exit;
    unsigned before; // objects that exist already
    std::string what;
    uint64_t key;
  };
  std::vector<Extent> stack;
  std::vector<const jr::LambdaNode *> fns;
  std::set<PTG::NodeIndex> written;
  std::map<PTG::NodeIndex, std::string> readsOmitted;
  std::set<std::tuple<uint64_t, unsigned, bool>> done;

  ModRefMonitor(llvm::Module & m, const Summaries & S, const MemoryMap & mm)
      : Monitor(m),
        S(S),
        mm(mm)
  {}

  void
  check(const Extent & x, PTG::NodeIndex n, bool write)
  {
    checks++;
    auto has = [&](PTG::NodeIndex k)
    {
      auto & set = write ? *x.exit : *x.entry;
      auto it = set.getModRefNodes().find(k);
      if (it == set.getModRefNodes().end())
        return false;
      return write ? aa::mayEffectModify(it->second) : aa::mayEffectReference(it->second);
    };
    if (has(n))
      return;
    bool mentioned = false;
    if (auto it = S.mentioned.find(x.owner); it != S.mentioned.end())
      mentioned = it->second.count(n);
    if (!mentioned && has(PTG::externalMemoryNode))
      return;
    std::string msg = x.what + (write ? " modifies " : " reads ") + S.g.getNodeDebugString(n);
    if (write)
      report("summary lacks a modified memory location", msg);
    else if (S.g.isNodeConstant(n))
      ;
    else
      readsOmitted.insert({ n, msg });
  }

  void
  access(const void * site, sem::Obj * o, bool write)
  {
    if (o->kind == sem::Obj::Function)
      return;
    auto n = mm.of(*o);
    if (!n)
      return;
    if (write)
      written.insert(*n);
    for (auto & x : stack)
      if (o->id < x.before && done.insert({ x.key, o->id, write }).second)
        check(x, *n, write);
    auto i = static_cast<const llvm::Instruction *>(site);
    if (i)
    {
      auto it = S.nodeOf.find(i);
      if (it != S.nodeOf.end() && it->second && !fns.empty())
      {
        auto & set = S.sum.GetSimpleNodeModRef(*it->second);
        Extent x{ fns.back(), &set, &set, 0, describe(i), 0 };
        check(x, *n, write);
      }
    }
  }

  void
  onAccess(const void * site, sem::Obj * o, uint64_t, uint64_t size, bool write) override
  {
    if (size)
      access(site, o, write);
  }

  uint64_t keys = 1;

  void
  onEnter(llvm::Function & f, Frame &) override
  {
    auto it = S.lambdaOf.find(&f);
    auto l = it == S.lambdaOf.end() ? nullptr : it->second;
    fns.push_back(l);
    Extent x{ l, nullptr, nullptr, (unsigned)objs.size(), "function " + f.getName().str(), keys++ };
    if (l)
    {
      x.entry = &S.sum.GetLambdaEntryModRef(*l);
      x.exit = &S.sum.GetLambdaExitModRef(*l);
    }
    else
      x.before = 0;
    stack.push_back(x);
  }

  void
  onLeave(llvm::Function &) override
  {
    fns.pop_back();
    stack.pop_back();
  }

  void
  onCall(const llvm::CallBase & cb, bool before) override
  {
    if (before)
    {
      auto it = S.nodeOf.find(&cb);
      Extent x{ fns.empty() ? nullptr : fns.back(), nullptr, nullptr, (unsigned)objs.size(), describe(&cb), keys++ };
      if (it != S.nodeOf.end() && it->second)
        x.entry = x.exit = &S.sum.GetSimpleNodeModRef(*it->second);
      else
        x.before = 0;
      events.push_back(trace.size());
      stack.push_back(x);
    }
    else
    {
      // what external code can see, it may read
      if (cb.getCalledFunction() && cb.getCalledFunction()->isDeclaration() && trace.size() > events.back())
      {
        std::set<unsigned> ids;
        for (auto & o : trace[events.back()].objs)
          ids.insert(o.id);
        for (auto & [a, o] : objs)
          if (ids.count(o->id) && o->live && o->size)
            access(&cb, o.get(), false);
      }
      events.pop_back();
      stack.pop_back();
    }
  }
  std::vector<size_t> events;

  void
  finished() override
  {
    for (auto & [n, msg] : readsOmitted)
      if (written.count(n))
        report("summary lacks a referenced memory location", msg);
  }
};

// ---------------------------------------------------------------------------------------------------------------

using Check = std::function<RunResult(Subject &, const Case &, Rng &, uint64_t & queries)>;

RunResult
checkPointsTo(Subject & s, const Case & c, Rng & rng, uint64_t &)
{
  aa::Andersen an;
  auto g = an.Analyze(*s.rm);
  s.exportIt();
  MemoryMap mm(*g, s);
  return observe<PtgMonitor>(s, c, *g, mm, s);
}

// Does the region access memory through a pointer that has no target?
bool
accessesNothing(const PTG & g, const jr::Region & r)
{
  for (auto & n : r.Nodes())
  {
    if (auto st = dynamic_cast<const jr::StructuralNode *>(&n))
    {
      for (auto & sub : st->Subregions())
        if (accessesNothing(g, sub))
          return true;
      continue;
    }
    auto & op = n.GetOperation();
    size_t addresses = jr::is<jl::LoadOperation>(op) || jr::is<jl::StoreOperation>(op) || jr::is<jl::MemSetOperation>(op) ? 1
                     : jr::is<jl::MemCpyOperation>(op) || jr::is<jl::MemMoveOperation>(op)                              ? 2
                                                                                                                        : 0;
    for (size_t i = 0; i < addresses; i++)
    {
      auto & o = *n.input(i)->origin();
      if (!g.hasNodeForRegister(o))
        continue;
      auto k = g.getNodeForRegister(o);
      if (!g.isTargetingAllExternallyAvailable(k) && g.getExplicitTargets(k).Size() == 0)
        return true;
    }
  }
  return false;
}

RunResult
checkSolvers(Subject & s, const Case & c, Rng & rng, uint64_t & queries)
{
  RunResult r;
  aa::Andersen ref;
  ref.SetConfiguration(aa::Andersen::Configuration::NaiveSolverConfiguration());
  auto g = ref.Analyze(*s.rm);
  auto configs = aa::Andersen::Configuration::GetAllConfigurations();
  // Offline substitution takes the accesses through every pointer to connect what flows in and out. That adds targets if
  // some pointer points nowhere at all, which is harmless as the access is undefined. Nothing may be lost in any case.
  const bool exact = !accessesNothing(*g, s.rm->Rvsdg().GetRootRegion());
  r.skipped[exact ? "exact comparison" : "one-sided comparison"]++;
  std::vector<aa::Andersen::Configuration> use = { aa::Andersen::Configuration::DefaultConfiguration() };
  for (int i = 0; i < 8; i++)
    use.push_back(configs[rng.next(configs.size())]);
  const bool listAll = getenv("PBT_ALLCFG"); // debugging aid: list every configuration that disagrees
  if (listAll)
    use = configs;
  for (auto & k : use)
  {
    aa::Andersen an;
    an.SetConfiguration(k);
    auto h = an.Analyze(*s.rm);
    r.checks++;
    bool sub = !exact || g->isSupergraphOf(*h), sup = h->isSupergraphOf(*g);
    if (listAll && (!sub || !sup))
      fprintf(stderr, "%d %d %s\n", sub, sup, k.ToString().c_str());
    else if (!sub || !sup)
      pbt::fail(
          "solver configurations disagree on the points-to graph",
          k.ToString() + (sub ? "" : " finds targets the naive solver does not find") + (sup ? "" : " misses targets the naive solver finds"));
    queries++;
  }
  r.completed = g->numEdges().first > 0 ? 1 : 0;
  return r;
}

RunResult
checkAlias(Subject & s, const Case & c, Rng & rng, uint64_t & queries)
{
  std::shared_ptr<PTG> g;
  std::shared_ptr<aa::AliasAnalysis> an;
  std::string who;
  auto local = [&]
  {
    auto l = std::make_shared<aa::LocalAliasAnalysis>();
    auto k = rng.next(5);
    if (k == 3)
      l->setMaxTraceCollectionSize(1);
    if (k == 4)
      l->setMaxTraceCollectionSize(2 + rng.next(6));
    who = "local alias analysis (collection size " + std::to_string(l->getMaxTraceCollectionSize()) + ")";
    return l;
  };
  if (rng.next(3) == 2)
  {
    aa::Andersen a;
    g = a.Analyze(*s.rm);
    an = std::make_shared<aa::PointsToGraphAliasAnalysis>(g);
    who = "points-to graph alias analysis";
  }
  else
    an = local();
  s.exportIt();
  auto facts = collectFacts(s, *an, who, rng, 300, queries);
  return observe<AliasMonitor>(s, c, facts);
}

RunResult
checkModRef(Subject & s, const Case & c, Rng & rng, uint64_t &)
{
  aa::Andersen an;
  auto g = an.Analyze(*s.rm);
  std::unique_ptr<aa::ModRefSummary> sum;
  if (rng.next(5) == 4)
    sum = aa::AgnosticModRefSummarizer::Create(*s.rm, *g, s.sc);
  else
    sum = aa::RegionAwareModRefSummarizer::Create(*s.rm, *g, s.sc);
  s.exportIt();
  MemoryMap mm(*g, s);
  Summaries S(s, *g, *sum);
  return observe<ModRefMonitor>(s, c, S, mm);
}

void
reg(const std::string & id,
    const std::string & rule,
    Check check,
    std::vector<std::vector<std::string>> prefixes,
    std::function<void(pbt::Ctx &, gen::Opts &)> tune,
    uint64_t quick,
    std::vector<std::string> assumptions)
{
  auto exec = [check](const Case & k, uint64_t & queries)
  {
    Subject s;
    s.build(k);
    Rng rng{ k.schedule * 77 + 5 };
    auto r = check(s, k, rng, queries);
    return r;
  };
  pbt::Property p;
  p.id = id;
  p.rule = rule;
  p.quickCases = quick;
  p.thoroughCases = quick * 40;
  p.assumptions = assumptions;
  p.textArtifact = "case.ll";
  p.run = [=](pbt::Ctx & c)
  {
    Case k;
    gen::Opts o;
    if (tune)
      tune(c, o);
    auto mode = c.draw(4);
    if (mode == 1 || mode == 2)
    {
      if (!prefixes.empty())
        k.prefix = c.pick(prefixes);
    }
    else if (mode == 3)
      for (unsigned i = 0, n = c.draw(4); i < n; i++)
        k.prefix.push_back(c.pick(allPasses));
    passprops::drawInputs(c, k, 3);
    {
      llvm::LLVMContext ctx;
      auto prog = gen::generate(c, ctx, o);
      k.ll = gen::print(*prog.module);
    }
    k.schedule = c.draw(1000);
    if (c.draw(2))
      k.heap = 1 + c.draw(1000);
    auto text = k.text();
    c.artifacts["case.ll"] = text;
    c.setHash(pbt::fnv(text));
    uint64_t queries = 0;
    auto r = exec(k, queries);
    c.evals = r.checks;
    for (auto & [w, n] : r.skipped)
      c.label(w.find("comparison") != std::string::npos ? w : "skipped: " + w);
    c.nontrivial = r.checks > 0 && r.completed > 0;
    c.sample = "ir_bytes=" + std::to_string(k.ll.size()) + " runs=" + std::to_string(r.completed) + " checks="
             + std::to_string(r.checks) + " queries=" + std::to_string(queries);
  };
  p.replayText = [exec](const std::string & t)
  {
    uint64_t q = 0;
    exec(Case::fromText(t), q);
  };
  pbt::registerProperty(std::move(p));
}

struct Reg
{
  Reg()
  {
    const std::string prog =
        "A case is a generated LLVM module, imported and optionally transformed by other passes, and three inputs. ";
    const std::vector<std::string> assume = {
      "programs are bounded: about 10 statements per function, up to 3 functions plus targets, 20 000 interpreter steps per run",
      "the graph is exported to LLVM and interpreted; runs with undefined behaviour say nothing",
    };
    auto mem = [](pbt::Ctx & c, gen::Opts & o)
    {
      o.memWeight = 7;
      o.structPlay = c.draw(4) == 3 ? 5 : 0;
      o.ptrPlay = 1 + c.draw(3) * 4;
      o.cfgPercent = 20;
      o.fp = o.vec = c.draw(4) == 3;
      o.promote = c.draw(3) != 0;
      if (c.draw(3) == 2)
        o.callWeight = 7;
    };
    std::vector<std::vector<std::string>> pre = {
      { "FunctionInlining" }, { "CommonNodeElimination" }, { "InvariantValueRedirection" }, { "AAAndersenRegionAware" },
      { "LoopUnswitching", "NodePushOut" }, { "AAAndersenAgnostic", "StoreValueForwarding", "InvariantValueRedirection" }
    };
    reg("A01",
        prog + "It is analysed, exported and interpreted; every pointer a value or a memory location takes on must be covered by "
               "the points-to graph, as must everything that becomes visible to external code. Non-trivial if a run "
               "completed in which pointers were checked.",
        checkPointsTo, pre, mem, 40000, assume);
    reg("A02",
        prog + "Its points-to graph is computed by the naive solver, the default and eight randomly chosen other "
               "configurations; all results must be equal. Non-trivial if the graph has edges.",
        checkSolvers, pre, mem, 20000, { assume[0] });
    reg("A03",
        prog + "Alias queries are made for pairs of pointers with random access sizes; then the program is interpreted and "
               "every definite answer compared with the actual addresses whenever both accesses would be in bounds. "
               "Non-trivial if a definite answer was compared in a completed run.",
        checkAlias, pre, mem, 12000, assume);
    reg("A04",
        prog + "Mod/ref summaries are computed; then the program is interpreted and every access to an object that existed "
               "before a function, call or memory operation started must be covered by its summary, and summaries of branches "
               "and loops must cover the operations in them. Non-trivial if accesses were checked in a completed run.",
        checkModRef, pre, mem, 40000, assume);
  }
} r;
}
