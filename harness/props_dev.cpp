// Self checks of the harness (not registered as properties of jlm).
#include "passprops.hpp"

namespace
{
using namespace passprops;

struct Dev
{
  Dev()
  {
    pbt::Property p;
    p.id = "SELF";
    p.rule = "source compared with itself";
    p.quickCases = 2000;
    p.thoroughCases = 20000;
    p.textArtifact = "case.ll";
    p.run = [](pbt::Ctx & c)
    {
      pipeline::Case k;
      drawInputs(c, k, 3);
      llvm::LLVMContext x1, x2, x3;
      gen::Opts o0;
      o0.vol = false;
      k.ll = gen::print(*gen::generate(c, x1, o0).module);
      c.artifacts["case.ll"] = k.text();
      auto m = pipeline::parse(k.ll, x2);
      auto n = pipeline::parse(k.ll, x3);
      if (c.draw(2))
        gen::runPasses(*n, "function(sroa,instcombine<no-verify-fixpoint>,simplifycfg,gvn,loop-mssa(licm),loop-unroll,dse),globaldce");
      auto o = pipeline::checkRefinement(*m, *n, k.inputs);
      for (auto & [w, q] : o.skipped)
        c.label("skipped: " + w);
      c.nontrivial = o.compared > 0;
      c.evals = o.compared;
      c.label("compared " + std::to_string(o.compared));
      c.sample = "events " + std::to_string(o.events) + " steps " + std::to_string(o.steps);
    };
    pbt::registerProperty(std::move(p));
  }
} dev;
}
