// Behaviour-preservation properties of pipelines over generated programs.
#ifndef VERIF_PASSPROPS_HPP
#define VERIF_PASSPROPS_HPP

#include "irgen.hpp"
#include "pbt.hpp"
#include "pipe.hpp"

namespace passprops
{

struct Spec
{
  std::string id;
  std::string rule;
  // fills the pass lists of the case and the generator options
  std::function<void(pbt::Ctx &, pipeline::Case &, gen::Opts &)> plan;
  bool perPass = true; // compare against the output of the prefix, else against the original program
  uint64_t quick = 4000, thorough = 100000;
  std::vector<std::string> assumptions;
};

struct Result
{
  pipeline::Outcome outcome;
  bool changed = false;
};

Result
execute(const pipeline::Case & c, bool perPass);

void
drawInputs(pbt::Ctx & c, pipeline::Case & k, unsigned n);

void
add(Spec s);

uint64_t
fingerprint(const jlm::rvsdg::Region & r);

}

#endif
