// High-level synthesis: kernel generator and a cycle-accurate simulator of the dataflow circuits.
#ifndef VERIF_HLS_HPP
#define VERIF_HLS_HPP

#include "pbt.hpp"
#include "sem.hpp"

#include <jlm/rvsdg/lambda.hpp>

#include <string>
#include <vector>

namespace hlscheck
{

struct KernelOpts
{
  unsigned stmts = 6;
  bool fp = false;
  bool loops = true;
  bool local = true;   // local arrays
  bool indirect = true; // pointers loaded from memory
};

// A module with the function i64 @kernel(ptr.., i64, i64) and the memory it works on.
std::string
generateKernel(pbt::Ctx & c, const KernelOpts & o);

struct SimOpts
{
  uint64_t seed = 0;     // 0: fixed latency, memory always ready
  unsigned latency = 10;
};

struct SimStats
{
  uint64_t cycles = 0, loads = 0, stores = 0, nodes = 0;
};

class Circuit;

// Runs the circuit of a lambda after the conversion to RHLS; throws pbt::Failure.
class Simulator
{
public:
  Simulator(const jlm::rvsdg::LambdaNode & lambda, sem::Machine & memory, const SimOpts & o);
  ~Simulator();

  uint64_t
  call(const std::vector<uint64_t> & args, uint64_t maxCycles);

  SimStats stats;

private:
  std::unique_ptr<Circuit> c_;
};

}
#endif
