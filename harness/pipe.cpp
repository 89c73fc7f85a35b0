#include "pipe.hpp"

#include "irinterp.hpp"

#include <jlm/llvm/backend/IpGraphToLlvmConverter.hpp>
#include <jlm/llvm/backend/RvsdgToIpGraphConverter.hpp>
#include <jlm/llvm/frontend/InterProceduralGraphConversion.hpp>
#include <jlm/llvm/frontend/LlvmModuleConversion.hpp>
#include <jlm/llvm/ir/ipgraph-module.hpp>
#include <jlm/llvm/opt/AggregateAllocaSplitting.hpp>
#include <jlm/llvm/opt/CommonNodeElimination.hpp>
#include <jlm/llvm/opt/DeadNodeElimination.hpp>
#include <jlm/llvm/opt/IOBarrierElimination.hpp>
#include <jlm/llvm/opt/IfConversion.hpp>
#include <jlm/llvm/opt/InvariantValueRedirection.hpp>
#include <jlm/llvm/opt/LoadChainSeparation.hpp>
#include <jlm/llvm/opt/LoopStrengthReduction.hpp>
#include <jlm/llvm/opt/LoopUnswitching.hpp>
#include <jlm/llvm/opt/NodeReduction.hpp>
#include <jlm/llvm/opt/PredicateCorrelation.hpp>
#include <jlm/llvm/opt/RvsdgTreePrinter.hpp>
#include <jlm/llvm/opt/ScalarEvolution.hpp>
#include <jlm/llvm/opt/StoreValueForwarding.hpp>
#include <jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.hpp>
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToAnalysisStateEncoder.hpp>
#include <jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp>
#include <jlm/llvm/opt/inlining.hpp>
#include <jlm/llvm/opt/pull.hpp>
#include <jlm/llvm/opt/push.hpp>
#include <jlm/llvm/opt/unroll.hpp>
#include <jlm/rvsdg/view.hpp>
#include <jlm/rvsdg/structural-node.hpp>
#include <jlm/rvsdg/traverser.hpp>

#include <llvm/AsmParser/Parser.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

namespace pipeline
{

const std::vector<std::string> allPasses = { "AAAndersenAgnostic",
                                             "AAAndersenRegionAware",
                                             "AggregateAllocaSplitting",
                                             "CommonNodeElimination",
                                             "DeadNodeElimination",
                                             "FunctionInlining",
                                             "IfConversion",
                                             "InvariantValueRedirection",
                                             "IOBarrierElimination",
                                             "LoadChainSeparation",
                                             "LoopStrengthReduction",
                                             "LoopUnrolling",
                                             "LoopUnswitching",
                                             "NodePullIn",
                                             "NodePushOut",
                                             "NodeReduction",
                                             "PredicateCorrelation",
                                             "ScalarEvolution",
                                             "StoreValueForwarding" };

const std::vector<std::string> o3Passes = {
  "FunctionInlining",      "PredicateCorrelation",      "LoopUnswitching",           "AggregateAllocaSplitting",
  "CommonNodeElimination", "InvariantValueRedirection", "DeadNodeElimination",       "AAAndersenRegionAware",
  "StoreValueForwarding",  "CommonNodeElimination",     "InvariantValueRedirection", "NodeReduction",
  "DeadNodeElimination",   "NodePushOut",               "InvariantValueRedirection", "DeadNodeElimination",
  "NodeReduction",         "CommonNodeElimination",     "DeadNodeElimination",       "NodePullIn",
  "InvariantValueRedirection", "DeadNodeElimination",   "LoopUnrolling",             "InvariantValueRedirection",
  "IfConversion",          "CommonNodeElimination",     "DeadNodeElimination"
};

std::shared_ptr<jlm::rvsdg::Transformation>
makePass(const std::string & n)
{
  using namespace jlm::llvm;
  if (n == "AAAndersenAgnostic")
    return std::make_shared<aa::PointsToAnalysisStateEncoder<aa::Andersen, aa::AgnosticModRefSummarizer>>();
  if (n == "AAAndersenRegionAware")
    return std::make_shared<aa::PointsToAnalysisStateEncoder<aa::Andersen, aa::RegionAwareModRefSummarizer>>();
  if (n == "AggregateAllocaSplitting")
    return std::make_shared<AggregateAllocaSplitting>();
  if (n == "CommonNodeElimination")
    return std::make_shared<CommonNodeElimination>();
  if (n == "DeadNodeElimination")
    return std::make_shared<DeadNodeElimination>();
  if (n == "FunctionInlining")
    return std::make_shared<FunctionInlining>();
  if (n == "IfConversion")
    return std::make_shared<IfConversion>();
  if (n == "InvariantValueRedirection")
    return std::make_shared<InvariantValueRedirection>(InvariantValueRedirection::Configuration());
  if (n == "IOBarrierElimination")
    return std::make_shared<IOBarrierElimination>();
  if (n == "LoadChainSeparation")
    return std::make_shared<LoadChainSeparation>();
  if (n == "LoopStrengthReduction")
    return std::make_shared<LoopStrengthReduction>();
  if (n == "LoopUnrolling")
    return std::make_shared<LoopUnrolling>(4);
  if (n == "LoopUnrolling2")
    return std::make_shared<LoopUnrolling>(2);
  if (n == "LoopUnrolling3")
    return std::make_shared<LoopUnrolling>(3);
  if (n == "LoopUnrolling7")
    return std::make_shared<LoopUnrolling>(7);
  if (n == "LoopUnswitching")
    return std::make_shared<LoopUnswitching>(LoopUnswitchingDefaultHeuristic::create());
  if (n == "NodePullIn")
    return std::make_shared<NodeSinking>();
  if (n == "NodePushOut")
    return std::make_shared<NodeHoisting>();
  if (n == "NodeReduction")
    return std::make_shared<NodeReduction>();
  if (n == "PredicateCorrelation")
    return std::make_shared<PredicateCorrelation>();
  if (n == "ScalarEvolution")
    return std::make_shared<ScalarEvolution>();
  if (n == "StoreValueForwarding")
    return std::make_shared<StoreValueForwarding>();
  throw std::runtime_error("unknown pass " + n);
}

std::unique_ptr<llvm::Module>
parse(const std::string & text, llvm::LLVMContext & ctx)
{
  llvm::SMDiagnostic d;
  auto m = llvm::parseAssemblyString(text, d, ctx);
  if (!m)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    d.print("case", os);
    throw std::runtime_error("harness: cannot parse case: " + os.str());
  }
  return m;
}

std::unique_ptr<jlm::llvm::LlvmRvsdgModule>
toRvsdg(llvm::Module & m, jlm::util::StatisticsCollector & sc)
{
  auto ipg = jlm::llvm::ConvertLlvmModule(m);
  return jlm::llvm::ConvertInterProceduralGraphModule(*ipg, sc);
}

std::function<void(jlm::llvm::LlvmRvsdgModule &, const std::string &)> afterPass;

void
applyPasses(jlm::llvm::LlvmRvsdgModule & m, const std::vector<std::string> & passes, jlm::util::StatisticsCollector & sc)
{
  // like jlm-opt, one object per kind of pass that runs as often as the pass is asked for
  std::map<std::string, std::shared_ptr<jlm::rvsdg::Transformation>> objects;
  for (auto & p : passes)
  {
    auto & t = objects[p];
    if (!t)
      t = makePass(p);
    t->Run(m, sc);
    if (getenv("PBT_DUMP"))
    {
      fprintf(stderr, "===== after %s\n", p.c_str());
      jlm::rvsdg::view(m.Rvsdg(), stderr);
    }
    checkGraph(m.Rvsdg(), "after " + p);
    if (afterPass)
    {
      fflush(nullptr);
      if (fork() == 0)
      {
        afterPass(m, p);
        _exit(0);
      }
      wait(nullptr);
    }
  }
}

static uint64_t scheduleState, scheduleMode;
static bool scheduleStable;

ScheduleScope::ScheduleScope(uint64_t schedule, bool stable)
{
  scheduleStable = stable;
  scheduleMode = schedule;
  scheduleState = schedule * 0x9e3779b97f4a7c15ull;
  if (schedule)
    jlm::rvsdg::detail::frontierChoice = [](size_t n) -> size_t
    {
      if (scheduleMode == 1)
        return n - 1;
      uint64_t x = scheduleStable ? scheduleState + n * 0x9e3779b97f4a7c15ull : (scheduleState += 0x9e3779b97f4a7c15ull);
      x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
      x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
      x ^= x >> 31;
      // mostly late ones, so that some nodes wait for long
      if (scheduleMode % 3 == 0 && (x >> 60))
        return n - 1;
      return (x >> 8) % n;
    };
}

ScheduleScope::~ScheduleScope()
{
  jlm::rvsdg::detail::frontierChoice = nullptr;
}

void
scrambleHeap(uint64_t seed)
{
  if (!seed)
    return;
  uint64_t st = seed * 0x9e3779b97f4a7c15ull;
  auto rnd = [&]()
  {
    uint64_t x = st += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  };
  std::vector<void *> ps;
  for (unsigned i = 0; i < 3000; i++)
    ps.push_back(malloc(16 + rnd() % 30 * 16));
  for (size_t i = ps.size(); i > 1; i--)
    std::swap(ps[i - 1], ps[rnd() % i]);
  // some stay allocated so that the free ones do not coalesce
  for (size_t i = 0; i < ps.size(); i++)
    if (i % 3)
      free(ps[i]);
}

std::unique_ptr<llvm::Module>
toLlvm(jlm::llvm::LlvmRvsdgModule & m, llvm::LLVMContext & ctx, jlm::util::StatisticsCollector & sc, uint64_t schedule)
{
  ScheduleScope scope(schedule, false);
  auto ipg = jlm::llvm::RvsdgToIpGraphConverter::CreateAndConvertModule(m, sc);
  auto r = jlm::llvm::IpGraphToLlvmConverter::CreateAndConvertModule(*ipg, ctx);
  std::string err;
  llvm::raw_string_ostream es(err);
  if (llvm::verifyModule(*r, &es))
  {
    std::string t;
    llvm::raw_string_ostream os(t);
    r->print(os, nullptr);
    pbt::fail("invalid LLVM IR produced", es.str() + "\n" + os.str());
  }
  return r;
}

std::unique_ptr<llvm::Module>
roundTrip(const std::string & text, const std::vector<std::string> & passes, llvm::LLVMContext & ctx)
{
  jlm::util::StatisticsCollector sc;
  std::unique_ptr<jlm::llvm::LlvmRvsdgModule> rm;
  {
    llvm::LLVMContext c2;
    auto m = parse(text, c2);
    rm = toRvsdg(*m, sc);
  }
  checkGraph(rm->Rvsdg(), "after construction");
  applyPasses(*rm, passes, sc);
  return toLlvm(*rm, ctx, sc);
}

std::vector<std::string>
split(const std::string & s, char d)
{
  std::vector<std::string> r;
  std::string cur;
  for (char c : s)
    if (c == d)
    {
      if (!cur.empty())
        r.push_back(cur);
      cur.clear();
    }
    else
      cur += c;
  if (!cur.empty())
    r.push_back(cur);
  return r;
}

static std::string
join(const std::vector<std::string> & v)
{
  std::string s;
  for (auto & x : v)
    s += (s.empty() ? "" : ",") + x;
  return s;
}

std::string
Case::text() const
{
  std::ostringstream o;
  o << "; pbt-prefix: " << join(prefix) << "\n; pbt-passes: " << join(passes) << "\n";
  if (schedule || traversal || heap)
    o << "; pbt-schedule: " << schedule << " " << traversal << " " << heap << "\n";
  for (auto & i : inputs)
    o << "; pbt-input: " << i.a << " " << i.b << " " << i.world << "\n";
  o << ll;
  return o.str();
}

Case
Case::fromText(const std::string & t)
{
  Case c;
  c.ll = t;
  std::istringstream is(t);
  std::string l;
  while (std::getline(is, l))
  {
    if (l.rfind("; pbt-prefix: ", 0) == 0)
      c.prefix = split(l.substr(14), ',');
    else if (l.rfind("; pbt-passes: ", 0) == 0)
      c.passes = split(l.substr(14), ',');
    else if (l.rfind("; pbt-schedule: ", 0) == 0)
    {
      std::istringstream ls(l.substr(16));
      ls >> c.schedule >> c.traversal >> c.heap;
    }
    else if (l.rfind("; pbt-input: ", 0) == 0)
    {
      std::istringstream ls(l.substr(13));
      RunInput i;
      ls >> i.a >> i.b >> i.world;
      c.inputs.push_back(i);
    }
  }
  return c;
}

std::vector<std::string>
entries(llvm::Module & m)
{
  std::vector<std::string> r;
  for (auto & f : m)
    if (!f.isDeclaration() && f.getName().starts_with("entry"))
      r.push_back(f.getName().str());
  std::sort(r.begin(), r.end());
  return r;
}

// returns true when the program ended through an external function that did not return
void
runAll(sem::IrMachine & mc, const std::vector<std::string> & es, const RunInput & in)
{
  mc.init();
  try
  {
    for (auto & e : es)
    {
      auto f = mc.M.getFunction(e);
      if (!f || f->isDeclaration())
        throw sem::Mismatch{ "function missing", "exported function " + e + " is not defined in the output" };
      auto r = mc.run(
          *f,
          { sem::Val::mkInt(64, in.a), sem::Val::mkInt(64, in.b) });
      mc.finishEvent("return of " + e, { r });
    }
    mc.finishEvent("end", {});
  }
  catch (sem::ProgramExit &)
  {
    mc.finishEvent("exit", {});
  }
}

Outcome
checkRefinement(llvm::Module & src, llvm::Module & tgt, const std::vector<RunInput> & inputs)
{
  Outcome out;
  auto es = entries(src);
  unsigned n = 0;
  for (auto & in : inputs)
  {
    n++;
    sem::IrMachine s(src);
    s.strict = true;
    s.worldSeed = in.world;
    s.layoutSeed = 1;
    try
    {
      runAll(s, es, in);
    }
    catch (sem::UB & u)
    {
      out.skipped["source undefined: " + u.why]++;
      continue;
    }
    catch (sem::OutOfFuel &)
    {
      out.skipped["source out of fuel"]++;
      continue;
    }
    catch (sem::Unsupported & u)
    {
      out.skipped["source unsupported: " + u.why]++;
      continue;
    }
    sem::IrMachine t(tgt);
    t.strict = false;
    t.worldSeed = in.world;
    t.layoutSeed = 2;
    t.junkSeed = n % 2 ? n : 0;
    t.fuel = s.steps * 20 + 5000;
    t.maxDepth = 200;
    t.expected = &s.trace;
    t.expectedDeaths = &s.deaths;
    std::string at = " on input " + std::to_string(in.a) + "," + std::to_string(in.b) + " world "
                   + std::to_string(in.world);
    try
    {
      runAll(t, es, in);
      if (t.eventCount != s.trace.size())
        pbt::fail(
            "behaviour differs: missing observable event",
            "only " + std::to_string(t.eventCount) + " of " + std::to_string(s.trace.size()) + " events" + at);
    }
    catch (sem::Mismatch & m)
    {
      pbt::fail("behaviour differs: " + m.kind, m.msg + at);
    }
    catch (sem::UB & u)
    {
      pbt::fail("behaviour differs: target has undefined behaviour: " + u.why, u.why + at);
    }
    catch (sem::OutOfFuel &)
    {
      pbt::fail("behaviour differs: target does not terminate", "source took " + std::to_string(s.steps) + " steps" + at);
    }
    catch (sem::Unsupported & u)
    {
      out.skipped["target unsupported: " + u.why]++;
      continue;
    }
    out.compared++;
    out.events += s.trace.size();
    out.steps += s.steps;
  }
  return out;
}

size_t
countNodes(const jlm::rvsdg::Region & r)
{
  size_t n = 0;
  for (auto & node : r.Nodes())
  {
    n++;
    if (auto s = dynamic_cast<const jlm::rvsdg::StructuralNode *>(&node))
      for (size_t i = 0; i < s->nsubregions(); i++)
        n += countNodes(*s->subregion(i));
  }
  return n;
}

}
