// Random graphs with all kinds of structural nodes over uninterpreted operations, and their meaning.
#ifndef VERIF_STRUCTGEN_HPP
#define VERIF_STRUCTGEN_HPP

#include "pbt.hpp"

#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/graph.hpp>
#include <jlm/rvsdg/simple-node.hpp>
#include <jlm/rvsdg/theta.hpp>

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace sg
{
using namespace jlm::rvsdg;

// An operation without any meaning of its own: equal tags and types make equal functions.
class TagOperation final : public SimpleOperation
{
public:
  TagOperation(unsigned tag, std::vector<std::shared_ptr<const Type>> args, std::vector<std::shared_ptr<const Type>> res)
      : SimpleOperation(std::move(args), std::move(res)),
        tag(tag)
  {}

  ~TagOperation() noexcept override;

  bool
  operator==(const Operation & other) const noexcept override;
  [[nodiscard]] std::string
  debug_string() const override;
  [[nodiscard]] std::unique_ptr<Operation>
  copy() const override;

  unsigned tag;
};

struct GenOptions
{
  size_t budget = 30;        // nodes
  size_t maxDepth = 3;       // nesting of regions below the root
  bool realistic = false;    // only functions, globals and recursion environments at the root, as in compiled modules
  bool matchContent = false; // gamma nodes with match content
  size_t maxAlternatives = 3;
  int focus = 0;             // 1: loops shaped like translated ones, 2: branches that choose between constants
};

enum Ty
{
  V,
  S,
  B,
  B1,
  C2,
  C3,
  F,
  NTY
};

std::shared_ptr<const Type>
type(int t);

int
kindOf(const Type & t);

struct Gen
{
  pbt::Ctx & c;
  GenOptions o;
  size_t budget;
  Graph * graph = nullptr;
  unsigned names = 0;

  Gen(pbt::Ctx & c, GenOptions o)
      : c(c),
        o(o),
        budget(o.budget)
  {}

  using Pool = std::vector<Output *>;

  void
  fill(Graph & g);

  Output *
  any(Region & r, Pool & pool);
  // A value of type t, made if there is none.
  Output *
  some(Region & r, Pool & pool, const std::shared_ptr<const Type> & t, bool fresh = false);
  Output *
  make(Region & r, Pool & pool, const std::shared_ptr<const Type> & t);
  void
  tag(Region & r, Pool & pool);
  void
  step(Region & r, Pool & pool, size_t depth, bool functions);
  void
  body(Region & r, Pool & pool, size_t n, size_t depth, bool functions);
  GammaNode *
  gamma(Region & r, Pool & pool, size_t depth);
  ThetaNode *
  theta(Region & r, Pool & pool, size_t depth);
  Output *
  lambda(Region & r, Pool & pool, size_t depth, std::shared_ptr<const Type> want);
  Output *
  delta(Region & r, Pool & pool, size_t depth);
  void
  phi(Region & r, Pool & pool, size_t depth);
};

// The meaning of a graph under one choice (seed) of what the operations compute.
struct TooLong
{
};

class Meaning
{
public:
  struct Frame
  {
    const Region * region = nullptr;
    Frame * parent = nullptr;
    std::vector<uint64_t> args;
    std::unordered_map<const Output *, uint64_t> vals;
    std::unordered_map<const Node *, std::vector<uint64_t>> thetaOut;
    std::unordered_map<const Node *, std::unique_ptr<Frame>> sub; // the activation whose results a node hands out
    int depth = 2; // how often recursion is unrolled
  };

  explicit Meaning(uint64_t seed, unsigned maxIterations, bool truncate)
      : seed_(seed),
        maxIterations_(maxIterations),
        truncate_(truncate)
  {}

  uint64_t
  value(Frame & f, const Output & o);

  // Called for every activation of a region, when its values are known; every output is evaluated.
  std::function<void(Frame &)> visit;

  std::unique_ptr<Frame>
  root(const Graph & g);

  // The exported values by name.
  std::map<std::string, uint64_t>
  exports(const Graph & g);

  size_t activations = 0;

private:
  uint64_t
  typed(uint64_t h, const Type & t) const;
  uint64_t
  simple(Frame & f, const SimpleNode & n, size_t index);
  Frame &
  activate(Frame & f, const Node & n, size_t subregion, std::vector<uint64_t> args, bool keep = true);
  void
  visitAll(Frame & f);
  std::vector<uint64_t> &
  loop(Frame & f, const ThetaNode & n);
  std::vector<uint64_t>
  fixValues(Frame & f, const StructuralNode & n, int depth, bool keep);

  uint64_t seed_;
  unsigned maxIterations_;
  bool truncate_;
  size_t steps_ = 0;
  std::vector<std::unique_ptr<Frame>> garbage_;
};

uint64_t
mix(uint64_t a, uint64_t b);

// Structure of a region up to the order of nodes and names of values.
uint64_t
shape(const Region & r);

std::string
dump(const Graph & g);

void
compare(
    const std::map<std::string, uint64_t> & a,
    const std::map<std::string, uint64_t> & b,
    const std::string & kind,
    const std::string & msg);

}
#endif
