#ifndef VERIF_PIPE_HPP
#define VERIF_PIPE_HPP

#include "pbt.hpp"
#include "irinterp.hpp"
#include "sem.hpp"

#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <jlm/rvsdg/Transformation.hpp>
#include <jlm/util/Statistics.hpp>

#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>

#include <memory>
#include <string>
#include <vector>

namespace pipeline
{

extern const std::vector<std::string> allPasses;
extern const std::vector<std::string> o3Passes;

std::shared_ptr<jlm::rvsdg::Transformation>
makePass(const std::string & name);

std::unique_ptr<llvm::Module>
parse(const std::string & text, llvm::LLVMContext & ctx);

std::unique_ptr<jlm::llvm::LlvmRvsdgModule>
toRvsdg(llvm::Module & m, jlm::util::StatisticsCollector & sc);

// for debugging: called after every pass, in a child process
extern std::function<void(jlm::llvm::LlvmRvsdgModule &, const std::string &)> afterPass;

void
applyPasses(jlm::llvm::LlvmRvsdgModule & m, const std::vector<std::string> & passes, jlm::util::StatisticsCollector & sc);

// How traversers pick the next node: 0 first ready node (as always), 1 last ready node, n > 1 randomly with seed n.
// If stable, an unchanged region is always traversed in the same order, as transformations may expect.
struct ScheduleScope
{
  explicit ScheduleScope(uint64_t schedule, bool stable);
  ~ScheduleScope();
};

// Leaves the allocator with free blocks in random order, so that addresses do not follow creation order.
void
scrambleHeap(uint64_t seed);

// Converts back and runs the LLVM verifier. The schedule decides the order of nodes that no dependency orders.
std::unique_ptr<llvm::Module>
toLlvm(
    jlm::llvm::LlvmRvsdgModule & m,
    llvm::LLVMContext & ctx,
    jlm::util::StatisticsCollector & sc,
    uint64_t schedule = 0);

std::unique_ptr<llvm::Module>
roundTrip(const std::string & text, const std::vector<std::string> & passes, llvm::LLVMContext & ctx);

struct RunInput
{
  uint64_t a, b, world;
};

struct Case
{
  std::string ll;
  std::vector<std::string> prefix; // common to both sides
  std::vector<std::string> passes; // under test
  std::vector<RunInput> inputs;
  uint64_t schedule = 0; // order of independent nodes in the result
  uint64_t heap = 0; // how fragmented the heap is before the passes run (nothing may depend on addresses)
  uint64_t traversal = 0; // order in which the passes under test traverse independent nodes

  std::string
  text() const;
  static Case
  fromText(const std::string & t);
};

std::vector<std::string>
entries(llvm::Module & m);

// Runs all entry functions of a program; throws sem::UB and the like.
void
runAll(sem::IrMachine & mc, const std::vector<std::string> & es, const RunInput & in);

struct Outcome
{
  unsigned compared = 0; // inputs on which the source ran to completion without undefined behaviour
  uint64_t events = 0;
  uint64_t steps = 0;
  std::map<std::string, unsigned> skipped;
};

// Checks that every behaviour of tgt is one of src on these inputs; throws pbt::Failure otherwise.
Outcome
checkRefinement(llvm::Module & src, llvm::Module & tgt, const std::vector<RunInput> & inputs);

std::vector<std::string>
split(const std::string & s, char d);

// Structural sanity of an RVSDG; throws pbt::Failure.
void
checkGraph(const jlm::rvsdg::Graph & g, const std::string & where);

size_t
countNodes(const jlm::rvsdg::Region & r);

}
#endif
