// Round trip, single pass and pipeline properties over generated programs.
#include "passprops.hpp"

namespace
{
using namespace passprops;
using pbt::Ctx;
using pipeline::Case;

const std::string progRule =
    "A case is a generated LLVM module (functions with structured or arbitrary control flow, integers of many "
    "widths, floats, vectors, structs, pointers, globals, heap, calls, recursion, external calls), optionally "
    "preprocessed by LLVM passes, with three inputs (two 64 bit arguments and a behaviour of the outside world). ";
const std::vector<std::string> progAssume = {
  "programs are bounded: about 10 statements per function, up to 3 functions plus targets, 20 000 interpreter steps per run",
  "runs on which the source program is undefined or exceeds the step bound are not compared",
  "the observable behaviour is: returned values, sequence of external calls and volatile accesses with arguments, "
  "final contents of memory reachable by the outside world, and termination"
};

// random passes to put the graph into an interesting shape
void
randomPrefix(Ctx & c, Case & k, unsigned max)
{
  unsigned n = c.draw(max + 1);
  for (unsigned i = 0; i < n; i++)
    k.prefix.push_back(c.pick(pipeline::allPasses));
}

struct PassSpec
{
  std::string id, pass, note;
  std::vector<std::vector<std::string>> prefixes; // helpful prefixes
  std::function<void(Ctx &, gen::Opts &)> tune;
  uint64_t quick;
};

struct Reg
{
  void
  pass(PassSpec s)
  {
    Spec p;
    p.id = s.id;
    p.rule = progRule + "The graph is optionally transformed by other passes first, then by " + s.note
           + ". A case is non-trivial if that changed the graph and at least one input could be compared.";
    p.assumptions = progAssume;
    p.quick = s.quick;
    p.thorough = s.quick * 40;
    auto passes = s.pass;
    p.plan = [s](Ctx & c, Case & k, gen::Opts & o)
    {
      if (s.tune)
        s.tune(c, o);
      unsigned mode = c.draw(4);
      if (mode == 0)
        ;
      else if (mode == 3 || s.prefixes.empty())
        randomPrefix(c, k, 3);
      else
      {
        k.prefix = c.pick(s.prefixes);
        if (c.draw(3) == 2)
          randomPrefix(c, k, 1);
      }
      std::vector<std::string> ps;
      size_t b = 0;
      while (b <= s.pass.size())
      {
        auto e = s.pass.find(',', b);
        if (e == std::string::npos)
          e = s.pass.size();
        ps.push_back(s.pass.substr(b, e - b));
        b = e + 1;
      }
      k.passes.push_back(c.pick(ps));
    };
    add(p);
  }

  Reg()
  {
    add({ "R01",
          progRule + "It is imported and exported again. A case is non-trivial if at least one input could be compared.",
          [](Ctx &, Case &, gen::Opts &) {},
          false, 60000, 2000000, progAssume });
    add({ "R02",
          "As for the round trip, but every function is a random control flow graph (irreducible regions, multi-way "
          "branches, several cases sharing a target, nested and overlapping loops, early exits, endless loops), with few "
          "other instructions. Non-trivial if at least one input could be compared.",
          [](Ctx & c, Case &, gen::Opts & o)
          {
            o.cfgPercent = 100;
            o.maxFuncs = 2;
            o.stmts = 4 + c.draw(16);
            o.fp = o.vec = o.agg = o.heap = o.fnptr = o.undefs = false;
            o.endless = c.draw(3) == 2;
            o.memWeight = 1;
          },
          false, 60000, 2000000, progAssume });
    add({ "H03",
          progRule + "It is imported, one function is extracted as the HLS driver does, both parts are exported and linked "
                     "together. A case is non-trivial if at least one input could be compared.",
          [](Ctx & c, Case & k, gen::Opts & o)
          {
            o.external = c.draw(4) == 3;
            o.fnptr = o.exits = false;
            o.allocaCount = o.variadic = 0; // not supported by the HLS inliner
            o.maxFuncs = 5;
            o.stmts = 4 + c.draw(10);
            o.callWeight = 4 + c.draw(4);
            if (c.draw(3) == 2)
              randomPrefix(c, k, 2);
            k.passes.push_back("KernelExtraction" + std::to_string(c.draw(10)));
          },
          false, 14000, 400000, progAssume });
    add({ "O01",
          progRule + "It is imported, transformed by the -O3 sequence of optimisations and exported. A case is "
                     "non-trivial if at least one input could be compared and the graph changed.",
          [](Ctx &, Case & k, gen::Opts &)
          {
            k.passes = pipeline::o3Passes;
          },
          false, 20000, 600000, progAssume });
    add({ "O02",
          progRule + "It is imported, transformed by a random sequence of 1 to 12 transformations and exported. A case is "
                     "non-trivial if at least one input could be compared and the graph changed.",
          [](Ctx & c, Case & k, gen::Opts &)
          {
            unsigned n = 1 + c.draw(12);
            for (unsigned i = 0; i < n; i++)
              k.passes.push_back(c.pick(pipeline::allPasses));
          },
          false, 30000, 900000, progAssume });

    const std::string aa = "AAAndersenRegionAware", ab = "AAAndersenAgnostic";
    auto loops = [](Ctx & c, gen::Opts & o)
    {
      o.loopWeight = 8;
      o.promote = c.draw(3) != 2;
      o.constLoops = c.draw(2);
      o.cfgPercent = 15;
    };
    auto mem = [](Ctx & c, gen::Opts & o)
    {
      o.memWeight = 9;
      o.structPlay = c.draw(4) == 3 ? 6 : 0;
      o.cfgPercent = 20;
      o.fp = o.vec = c.draw(4) == 3;
    };
    pass({ "O03", "CommonNodeElimination", "common node elimination", { { aa }, { "NodePushOut" }, { "FunctionInlining" } }, {}, 40000 });
    pass({ "O04", "DeadNodeElimination", "dead node elimination",
           { { aa }, { "CommonNodeElimination" }, { "InvariantValueRedirection" }, { "FunctionInlining" }, { "LoopUnrolling" } }, {}, 40000 });
    pass({ "O05", "FunctionInlining", "function inlining", { { aa }, { "CommonNodeElimination" }, { "DeadNodeElimination" } },
           [](Ctx & c, gen::Opts & o)
           {
             o.callWeight = 8;
             o.maxFuncs = 4;
             o.variadic = 3;
           },
           40000 });
    pass({ "O06", "IfConversion", "if conversion", { { "NodePushOut" }, { aa, "StoreValueForwarding", "InvariantValueRedirection" } },
           [](Ctx & c, gen::Opts & o)
           {
             o.promote = c.draw(4) != 3;
           },
           40000 });
    pass({ "O07", "InvariantValueRedirection", "invariant value redirection", { { aa }, { "CommonNodeElimination" }, { "DeadNodeElimination" } },
           loops, 40000 });
    pass({ "O08", "IOBarrierElimination", "IO barrier elimination", { { aa }, { "NodePushOut" } }, {}, 40000 });
    pass({ "O09", "LoadChainSeparation", "load chain separation", { { aa }, { ab }, { aa, "CommonNodeElimination" }, { aa, "InvariantValueRedirection", "IOBarrierElimination" }, { aa, "IOBarrierElimination", "InvariantValueRedirection" } }, mem, 40000 });
    pass({ "O10", "LoopStrengthReduction", "loop strength reduction",
           { { "InvariantValueRedirection" }, { "LoopUnswitching" }, { "LoopUnswitching", "InvariantValueRedirection", "DeadNodeElimination" } },
           loops, 40000 });
    pass({ "O11", "LoopUnrolling", "loop unrolling",
           { { "LoopUnswitching" }, { "LoopUnswitching", "InvariantValueRedirection", "DeadNodeElimination" },
             { "PredicateCorrelation", "LoopUnswitching", "CommonNodeElimination", "InvariantValueRedirection", "DeadNodeElimination" } },
           [](Ctx & c, gen::Opts & o)
           {
             o.loopWeight = 9;
             o.promote = true;
             o.constLoops = c.draw(3) != 2;
             o.cfgPercent = 5;
           },
           40000 });
    pass({ "O12", "LoopUnswitching", "loop unswitching", { { "PredicateCorrelation" }, { "InvariantValueRedirection" } }, loops, 40000 });
    pass({ "O13", "NodePullIn,NodePushOut", "pulling nodes into or pushing them out of branches and loops",
           { { aa }, { "LoopUnswitching" }, { "CommonNodeElimination", "InvariantValueRedirection" } }, loops, 40000 });
    pass({ "O14", "NodeReduction", "node reduction (local rewriting)",
           { { aa }, { ab }, { aa, "NodePushOut" }, { aa, "IOBarrierElimination" }, { aa, "StoreValueForwarding" }, { "NodePushOut" } }, mem, 40000 });
    pass({ "O15", "PredicateCorrelation", "predicate correlation", { { "LoopUnswitching" }, { "CommonNodeElimination" }, { "InvariantValueRedirection" } },
           [](Ctx & c, gen::Opts & o)
           {
             o.loopWeight = 6;
             o.cfgPercent = 60;
             o.promote = c.draw(2);
           },
           40000 });
    pass({ "O16", "StoreValueForwarding", "store value forwarding", { { aa }, { ab }, { aa, "InvariantValueRedirection" }, { aa, "IOBarrierElimination", "InvariantValueRedirection" }, { aa, "NodeReduction" } }, mem,
           40000 });
    pass({ "O17", "AggregateAllocaSplitting", "splitting of aggregate allocas",
           { { "CommonNodeElimination" }, { "InvariantValueRedirection" }, { "FunctionInlining" } },
           [](Ctx & c, gen::Opts & o)
           {
             o.structPlay = c.draw(3) * 6;
             o.memWeight = 9;
             o.fp = o.vec = c.draw(4) == 3;
           },
           40000 });
    pass({ "O18", "AAAndersenAgnostic,AAAndersenRegionAware", "encoding of memory states from points-to analysis",
           { { aa }, { "FunctionInlining" }, { "CommonNodeElimination" }, { "InvariantValueRedirection" }, { "IOBarrierElimination", "InvariantValueRedirection" } }, mem, 40000 });
  }
} reg;
}
