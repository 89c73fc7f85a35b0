// High-level synthesis: the circuit computes what the kernel computes.
#include "hls.hpp"
#include "irgen.hpp"
#include "pipe.hpp"

#include <jlm/hls/backend/rvsdg2rhls/add-buffers.hpp>
#include <jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.hpp>
#include <jlm/hls/HlsDotWriter.hpp>
#include <jlm/llvm/ir/operators/lambda.hpp>
#include <jlm/rvsdg/view.hpp>
#include <jlm/util/common.hpp>

#include <iostream>
#include <sstream>

namespace hlscheck
{

namespace
{

struct Call
{
  uint64_t a, b;
};

struct HCase
{
  std::string ll;
  std::vector<Call> calls;
  uint64_t seed = 0;     // of the memory's timing
  unsigned latency = 10; // that the circuit is built for
  unsigned memory = 10;  // that the memory has
  uint64_t heap = 0;

  std::string
  text() const
  {
    std::ostringstream o;
    o << "; pbt-hls: " << seed << " " << latency << " " << memory << " " << heap << "\n";
    for (auto & c : calls)
      o << "; pbt-input: " << c.a << " " << c.b << " 0\n";
    o << ll;
    return o.str();
  }
  static HCase
  fromText(const std::string & t)
  {
    HCase c;
    c.ll = t;
    std::istringstream is(t);
    std::string l;
    while (std::getline(is, l))
    {
      if (l.rfind("; pbt-hls: ", 0) == 0)
      {
        std::istringstream ls(l.substr(11));
        ls >> c.seed >> c.latency >> c.memory >> c.heap;
      }
      else if (l.rfind("; pbt-input: ", 0) == 0)
      {
        std::istringstream ls(l.substr(13));
        Call x;
        ls >> x.a >> x.b;
        c.calls.push_back(x);
      }
    }
    return c;
  }
};

struct Quiet
{
  std::ostringstream sink;
  std::streambuf * old;
  Quiet()
      : old(std::cout.rdbuf(sink.rdbuf()))
  {}
  ~Quiet()
  {
    std::cout.rdbuf(old);
  }
};

std::unique_ptr<jlm::llvm::LlvmRvsdgModule>
synthesize(llvm::Module & m, unsigned latency, uint64_t heap)
{
  Quiet q;
  jlm::util::StatisticsCollector sc;
  pipeline::scrambleHeap(heap);
  // as the driver does: extract the kernel, write it out, mem2reg, synthesize
  jlm::hls::setMemoryLatency(latency);
  auto rm = pipeline::toRvsdg(m, sc);
  auto extracted = jlm::hls::split_hls_function(*rm, "kernel");
  llvm::LLVMContext ctx;
  auto m2 = pipeline::toLlvm(*extracted, ctx, sc);
  gen::runPasses(*m2, "function(mem2reg)");
  if (getenv("PBT_HLSRVSDG"))
    fprintf(stderr, "%s", gen::print(*m2).c_str());
  auto rhls = pipeline::toRvsdg(*m2, sc);
  jlm::hls::HlsDotWriter dw;
  auto seq = jlm::hls::createTransformationSequence(dw, false);
  if (getenv("PBT_HLSRVSDG"))
    fprintf(stderr, "%s", jlm::rvsdg::view(&rhls->Rvsdg().GetRootRegion()).c_str());
  seq->Run(*rhls, sc);
  if (getenv("PBT_HLSRVSDG"))
    fprintf(stderr, "%s", jlm::rvsdg::view(&rhls->Rvsdg().GetRootRegion()).c_str());
  return rhls;
}

const jlm::rvsdg::LambdaNode &
kernel(jlm::llvm::LlvmRvsdgModule & m)
{
  const jlm::rvsdg::LambdaNode * r = nullptr;
  for (auto & n : m.Rvsdg().GetRootRegion().Nodes())
    if (auto l = dynamic_cast<jlm::rvsdg::LambdaNode *>(&n))
      r = l;
  if (!r)
    pbt::fail("circuit: no kernel in the result", "");
  return *r;
}

struct HOutcome
{
  unsigned calls = 0;
  SimStats stats;
  uint64_t steps = 0;
  std::string skipped;
};

HOutcome
run(const HCase & k)
{
  HOutcome out;
  llvm::LLVMContext ctx;
  auto m = pipeline::parse(k.ll, ctx);
  auto f = m->getFunction("kernel");
  for (auto & a : f->args())
    if (!a.getType()->isPointerTy() && !a.getType()->isIntegerTy(64))
    {
      out.skipped = "not a kernel as generated";
      return out;
    }
  // reference
  sem::IrMachine ref(*m);
  ref.strict = true;
  ref.fuel = 6000;
  ref.init();
  std::vector<std::vector<uint64_t>> args;
  std::vector<uint64_t> results, steps;
  std::vector<std::map<std::string, std::pair<std::vector<uint8_t>, std::vector<uint8_t>>>> memory;
  for (auto & c : k.calls)
  {
    std::vector<sem::Val> v;
    std::vector<uint64_t> raw;
    for (auto & a : f->args())
    {
      if (a.getType()->isPointerTy())
      {
        auto g = ref.globals.find("buf" + a.getName().substr(1).str());
        if (g == ref.globals.end())
        {
          out.skipped = "not a kernel as generated";
          return out;
        }
        raw.push_back(g->second->base);
        v.push_back(sem::Val::mkPtr(g->second->base));
      }
      else
      {
        raw.push_back(a.getName() == "a" ? c.a : c.b);
        v.push_back(sem::Val::mkInt(64, raw.back()));
      }
    }
    try
    {
      auto before = ref.steps;
      auto r = ref.run(*f, v);
      if (r.anyUnd())
        throw sem::UB{ "undefined result" };
      results.push_back(r.u());
      steps.push_back(ref.steps - before);
    }
    catch (sem::UB & u)
    {
      out.skipped = "source undefined: " + u.why;
      break;
    }
    catch (sem::OutOfFuel &)
    {
      out.skipped = "source out of fuel";
      break;
    }
    args.push_back(raw);
    memory.emplace_back();
    for (auto & [n, g] : ref.globals)
      if (g->kind == sem::Obj::Global)
        memory.back()[n] = { g->bytes, g->und };
  }
  out.calls = results.size();
  if (results.empty())
    return out;
  auto rhls = synthesize(*m, k.latency, k.heap);
  sem::IrMachine mem(*m);
  mem.strict = false;
  mem.init();
  for (auto & [n, g] : ref.globals)
    if (mem.globals[n]->base != g->base)
      throw std::runtime_error("harness: layouts differ");
  Simulator sim(kernel(*rhls), mem, { k.seed, k.memory });
  for (size_t i = 0; i < results.size(); i++)
  {
    auto at = " in call " + std::to_string(i) + " of kernel(" + std::to_string(k.calls[i].a) + ", "
            + std::to_string(k.calls[i].b) + ")";
    auto r = sim.call(args[i], 20000 + steps[i] * (100 + 5 * k.memory));
    if (r != results[i])
      pbt::fail("behaviour differs: result", std::to_string(r) + " instead of " + std::to_string(results[i]) + at);
    for (auto & [n, g] : memory[i])
    {
      auto & b = mem.globals[n]->bytes;
      for (size_t j = 0; j < b.size(); j++)
        if (!g.second[j] && b[j] != g.first[j])
          pbt::fail(
              "behaviour differs: memory",
              n + "[" + std::to_string(j) + "] is " + std::to_string(b[j]) + " instead of "
                  + std::to_string(g.first[j]) + at);
    }
    out.steps += steps[i];
  }
  out.stats = sim.stats;
  return out;
}

void
circuits(pbt::Ctx & c)
{
  KernelOpts o;
  o.stmts = 2 + c.draw(c.tier ? 14 : 9);
  o.fp = c.draw(5) == 4;
  o.loops = c.draw(8) != 7;
  o.local = getenv("PBT_LOCAL");
  HCase k;
  k.ll = generateKernel(c, o);
  unsigned n = 1 + c.draw(3);
  for (unsigned i = 0; i < n; i++)
  {
    uint64_t a = c.draw(4) ? c.draw(20) : c.bits64();
    uint64_t b = c.draw(4) ? c.draw(20) : c.bits64();
    k.calls.push_back({ a, b });
  }
  static const unsigned lat[] = { 10, 1, 3, 30 };
  k.latency = lat[c.draw(4)];
  k.memory = c.draw(2) ? lat[c.draw(4)] : k.latency;
  k.seed = c.draw(3) ? c.draw(1u << 20) : 0;
  k.heap = c.draw(2) ? c.draw(1u << 16) : 0;
  c.artifacts["case.ll"] = k.text();
  c.setHash(pbt::fnv(k.text()));
  if (auto p = getenv("PBT_DUMP"))
    if (auto f = fopen(p, "w"))
    {
      fputs(k.text().c_str(), f);
      fclose(f);
    }
  auto r = run(k);
  if (r.skipped.size())
    c.label("skip " + r.skipped);
  c.nontrivial = r.calls && r.stats.loads + r.stats.stores > 0;
  c.evals = r.calls;
  c.sample = std::to_string(r.calls) + " calls of a circuit of " + std::to_string(r.stats.nodes) + " operations, "
           + std::to_string(r.stats.cycles) + " cycles, " + std::to_string(r.stats.loads) + " loads, "
           + std::to_string(r.stats.stores) + " stores (" + std::to_string(r.steps) + " interpreted steps)";
}

struct Reg
{
  Reg()
  {
    pbt::Property p;
    p.id = "H02";
    p.rule = "the kernel ran to completion without undefined behaviour and its circuit accessed memory at least once";
    p.run = circuits;
    p.quickCases = 24000;
    p.thoroughCases = 100000;
    p.textArtifact = "case.ll";
    p.replayText = [](const std::string & t)
    {
      auto r = run(HCase::fromText(t));
      printf("; %u calls, %lu cycles %s\n", r.calls, r.stats.cycles, r.skipped.c_str());
    };
    p.assumptions = { "operations behave as the simulator's model of their FIRRTL implementation" };
    pbt::registerProperty(std::move(p));
  }
} reg;

}

}
