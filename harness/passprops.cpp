#include "passprops.hpp"

#include <llvm/IR/Module.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/raw_ostream.h>

#include <jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.hpp>
#include <jlm/llvm/ir/CallSummary.hpp>
#include <jlm/llvm/ir/operators/call.hpp>
#include <jlm/llvm/ir/operators/lambda.hpp>
#include <jlm/rvsdg/delta.hpp>
#include <jlm/rvsdg/lambda.hpp>

#include <jlm/rvsdg/graph.hpp>
#include <jlm/rvsdg/simple-node.hpp>
#include <jlm/rvsdg/structural-node.hpp>
#include <jlm/rvsdg/view.hpp>

namespace passprops
{

using pbt::Ctx;
using pipeline::Case;

static uint64_t
mixInto(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xbf58476d1ce4e5b9ull;
}

static uint64_t
originHash(const jlm::rvsdg::Output & o)
{
  auto owner = o.GetOwner();
  if (auto p = std::get_if<jlm::rvsdg::Node *>(&owner))
    return mixInto((*p)->GetNodeId() * 4 + 1, o.index());
  return mixInto(2, o.index());
}

uint64_t
fingerprint(const jlm::rvsdg::Region & r)
{
  uint64_t h = mixInto(r.narguments(), r.nresults());
  for (auto & n : r.Nodes())
  {
    uint64_t x = mixInto(n.GetNodeId(), pbt::fnv(n.DebugString()));
    for (auto & i : n.Inputs())
      x = mixInto(x, originHash(*i.origin()));
    if (auto s = dynamic_cast<const jlm::rvsdg::StructuralNode *>(&n))
      for (size_t i = 0; i < s->nsubregions(); i++)
        x = mixInto(x, fingerprint(*s->subregion(i)));
    h += x;
  }
  for (auto x : r.Results())
    h = mixInto(h, originHash(*x->origin()));
  return h;
}

// Whether all calls in the region are direct calls of functions (not imports) that are not recursive.
static bool
onlyInlinableCalls(const jlm::rvsdg::Region & r, std::set<const jlm::rvsdg::LambdaNode *> stack)
{
  for (auto & n : const_cast<jlm::rvsdg::Region &>(r).Nodes())
  {
    if (auto s = dynamic_cast<jlm::rvsdg::StructuralNode *>(&n))
    {
      for (size_t i = 0; i < s->nsubregions(); i++)
        if (!onlyInlinableCalls(*s->subregion(i), stack))
          return false;
    }
    else if (auto s = dynamic_cast<jlm::rvsdg::SimpleNode *>(&n))
    {
      if (dynamic_cast<const jlm::llvm::CallOperation *>(&s->GetOperation()))
      {
        auto c = jlm::llvm::CallOperation::ClassifyCall(*s);
        if (!c->IsNonRecursiveDirectCall())
          return false;
        auto l = jlm::rvsdg::TryGetOwnerNode<jlm::rvsdg::LambdaNode>(*jlm::hls::trace_call(s->input(0)));
        if (!l || l->region() != &l->graph()->GetRootRegion() || !stack.insert(l).second)
          return false;
        if (!onlyInlinableCalls(*l->subregion(), stack))
          return false;
        stack.erase(l);
      }
    }
  }
  return true;
}

// The names of the functions the HLS driver can extract, i.e., those whose calls can all be inlined, and that refer to
// no other functions.
static std::vector<std::string>
extractable(jlm::llvm::LlvmRvsdgModule & m)
{
  std::vector<std::string> names;
  for (auto & n : m.Rvsdg().GetRootRegion().Nodes())
    if (auto l = dynamic_cast<jlm::rvsdg::LambdaNode *>(&n))
    {
      // functions whose address is needed cannot be extracted
      bool ok = onlyInlinableCalls(*l->subregion(), { l });
      for (auto & v : l->GetContextVars())
      {
        auto o = jlm::rvsdg::TryGetOwnerNode<jlm::rvsdg::Node>(*v.input->origin());
        ok &= o && (dynamic_cast<jlm::rvsdg::DeltaNode *>(o) || dynamic_cast<jlm::rvsdg::LambdaNode *>(o));
      }
      auto & op = dynamic_cast<const jlm::llvm::LlvmLambdaOperation &>(l->GetOperation());
      // a function nobody can call is removed before it can be extracted
      if (ok && op.linkage() == jlm::llvm::Linkage::externalLinkage)
        names.push_back(op.name());
    }
  std::sort(names.begin(), names.end());
  return names;
}

// Extracts a function as the HLS driver does, and links both parts together again.
static std::unique_ptr<llvm::Module>
extractAndLink(jlm::llvm::LlvmRvsdgModule & rm, size_t which, llvm::LLVMContext & ctx, jlm::util::StatisticsCollector & sc,
               uint64_t schedule, const llvm::Module & src)
{
  auto names = extractable(rm);
  if (names.empty())
    pbt::discard("no function can be extracted");
  auto name = names[which % names.size()];
  std::unique_ptr<jlm::llvm::LlvmRvsdgModule> fm;
  {
    std::ostringstream sink;
    auto old = std::cout.rdbuf(sink.rdbuf());
    try
    {
      fm = jlm::hls::split_hls_function(rm, name);
    }
    catch (jlm::util::Error & e)
    {
      std::cout.rdbuf(old);
      if (std::string(e.what()).find("not supported") != std::string::npos)
        pbt::discard("refers to a function");
      throw;
    }
    catch (...)
    {
      std::cout.rdbuf(old);
      throw;
    }
    std::cout.rdbuf(old);
  }
  pipeline::checkGraph(rm.Rvsdg(), "remaining module");
  pipeline::checkGraph(fm->Rvsdg(), "extracted module");
  auto rest = pipeline::toLlvm(rm, ctx, sc, schedule);
  auto fn = pipeline::toLlvm(*fm, ctx, sc, schedule);
  if (getenv("PBT_DUMP"))
    llvm::errs() << "===== rest\n" << *rest << "===== function\n" << *fn;
  auto k = fn->getFunction(name);
  if (!k || k->isDeclaration())
    pbt::fail("extraction: the function is not in the extracted module", name);
  for (auto & f : fn->functions())
    if (!f.isDeclaration() && &f != k)
      pbt::fail("extraction: other functions in the extracted module", f.getName().str());
  if (auto f = rest->getFunction(name); f && !f->isDeclaration())
    pbt::fail("extraction: the function is still in the remaining module", name);
  for (auto & g : fn->globals())
  {
    if (!g.isDeclaration())
      pbt::fail("extraction: global defined in the extracted module", g.getName().str());
    auto d = rest->getNamedGlobal(g.getName());
    if (!d)
      pbt::fail("extraction: the remaining module does not have the global", g.getName().str());
    if (!d->isDeclaration() && d->hasLocalLinkage())
      pbt::fail("extraction: the remaining module hides the global", g.getName().str());
    if (fn->getDataLayout().getTypeAllocSize(d->getValueType()) != fn->getDataLayout().getTypeAllocSize(g.getValueType()))
      pbt::fail("extraction: type of a global differs", g.getName().str());
  }
  std::string err;
  if (llvm::Linker::linkModules(*rest, std::move(fn)))
    pbt::fail("extraction: the parts cannot be linked", name);
  // Undo what is expected to differ, i.e., the order of the globals and which of them are visible to other modules.
  for (auto & g : src.globals())
    if (auto t = rest->getNamedGlobal(g.getName()))
    {
      if (!t->isDeclaration() && g.hasLocalLinkage())
        t->setLinkage(g.getLinkage());
      t->removeFromParent();
      rest->insertGlobalVariable(t);
    }
  for (auto & f : src.functions())
    if (auto t = rest->getFunction(f.getName()))
    {
      t->removeFromParent();
      rest->getFunctionList().push_back(t);
    }
  return rest;
}

Result
execute(const Case & c, bool perPass)
{
  Result res;
  llvm::LLVMContext c1, c2;
  std::unique_ptr<llvm::Module> src;
  if (perPass)
    src = pipeline::roundTrip(c.ll, c.prefix, c1);
  else
    src = pipeline::parse(c.ll, c1);
  std::unique_ptr<llvm::Module> tgt;
  {
    pipeline::scrambleHeap(c.heap);
    jlm::util::StatisticsCollector sc;
    std::unique_ptr<jlm::llvm::LlvmRvsdgModule> rm;
    {
      llvm::LLVMContext c3;
      auto m = pipeline::parse(c.ll, c3);
      rm = pipeline::toRvsdg(*m, sc);
    }
    pipeline::checkGraph(rm->Rvsdg(), "after construction");
    pipeline::applyPasses(*rm, c.prefix, sc);
    if (c.passes.size() == 1 && c.passes[0].rfind("KernelExtraction", 0) == 0)
    {
      tgt = extractAndLink(*rm, c.passes[0].back() - '0', c2, sc, c.schedule, *src);
      res.changed = true;
    }
    auto before = fingerprint(rm->Rvsdg().GetRootRegion());
    if (!tgt && getenv("PBT_BISECT"))
      pipeline::afterPass = [&](jlm::llvm::LlvmRvsdgModule & m, const std::string & name)
      {
        std::string verdict = "ok";
        try
        {
          pipeline::checkRefinement(*src, *pipeline::toLlvm(m, c2, sc, c.schedule), c.inputs);
        }
        catch (pbt::Failure & f)
        {
          verdict = f.kind + ": " + f.msg;
        }
        fprintf(stderr, "===== after %s: %s\n", name.c_str(), verdict.c_str());
        if (getenv("PBT_BISECT") == std::string("2"))
          jlm::rvsdg::view(m.Rvsdg(), stderr);
      };
    if (!tgt)
    {
      pipeline::ScheduleScope scope(c.traversal, true);
      pipeline::applyPasses(*rm, c.passes, sc);
    }
    if (!tgt)
      res.changed = c.passes.empty() || before != fingerprint(rm->Rvsdg().GetRootRegion());
    if (!tgt && (res.changed || !perPass))
      tgt = pipeline::toLlvm(*rm, c2, sc, c.schedule);
  }
  if (getenv("PBT_DUMP"))
  {
    llvm::errs() << "===== source\n" << *src;
    if (tgt)
      llvm::errs() << "===== target\n" << *tgt;
  }
  if (tgt)
  {
    try
    {
      res.outcome = pipeline::checkRefinement(*src, *tgt, c.inputs);
    }
    catch (pbt::Failure &)
    {
      if (auto f = getenv("PBT_SAVE"))
      {
        std::error_code ec;
        llvm::raw_fd_ostream o(std::string(f) + ".src.ll", ec), q(std::string(f) + ".tgt.ll", ec);
        o << *src;
        q << *tgt;
      }
      throw;
    }
  }
  return res;
}

void
drawInputs(Ctx & c, Case & k, unsigned n)
{
  for (unsigned i = 0; i < n; i++)
  {
    pipeline::RunInput in;
    in.a = c.draw(3) ? c.draw(12) : c.bits64();
    in.b = c.draw(3) ? c.draw(12) : c.bits64();
    in.world = c.draw(1000);
    k.inputs.push_back(in);
  }
}

void
add(Spec s)
{
  pbt::Property p;
  p.id = s.id;
  p.rule = s.rule;
  p.quickCases = s.quick;
  p.thoroughCases = s.thorough;
  p.assumptions = s.assumptions;
  p.textArtifact = "case.ll";
  auto spec = std::make_shared<Spec>(std::move(s));
  p.run = [spec](Ctx & c)
  {
    Case k;
    gen::Opts o;
    o.structPlay = c.draw(6) == 5 ? 3 : 0;
    spec->plan(c, k, o);
    drawInputs(c, k, 3);
    {
      llvm::LLVMContext ctx;
      auto prog = gen::generate(c, ctx, o);
      k.ll = gen::print(*prog.module);
    }
    if (c.draw(2))
      k.schedule = 1 + c.draw(200);
    if (c.draw(3) == 2)
      k.traversal = 1 + c.draw(200);
    if (c.draw(2))
      k.heap = 1 + c.draw(1000);
    auto text = k.text();
    c.artifacts["case.ll"] = text;
    c.setHash(pbt::fnv(text));
    auto r = execute(k, spec->perPass);
    c.evals = r.outcome.compared;
    for (auto & [w, n] : r.outcome.skipped)
      c.label("skipped: " + w);
    c.label(r.changed ? "pass changed the graph" : "pass left the graph alone");
    c.nontrivial = r.changed && r.outcome.compared > 0;
    std::string ps;
    for (auto & x : k.passes)
      ps += (ps.empty() ? "" : ",") + x;
    if (k.passes.size() == 1)
      c.label("pass " + k.passes[0] + (c.nontrivial ? " (non-trivial)" : ""));
    std::string pf;
    for (auto & x : k.prefix)
      pf += (pf.empty() ? "" : ",") + x;
    c.sample = "prefix=[" + pf + "] passes=[" + ps + "] ir_bytes=" + std::to_string(k.ll.size()) + " inputs_compared="
             + std::to_string(r.outcome.compared) + " events=" + std::to_string(r.outcome.events)
             + " steps=" + std::to_string(r.outcome.steps);
  };
  p.replayText = [spec](const std::string & t)
  {
    execute(Case::fromText(t), spec->perPass);
  };
  pbt::registerProperty(std::move(p));
}

}
