// A small choice-sequence based property testing engine (Hypothesis style).
//
// A case is a pure function of a finite sequence of bounded choices. Fresh cases draw the choices
// from a PRNG keyed by (VERIF_SEED, property, case index); shrinking and replaying re-run the property on
// an explicit sequence (reads past its end yield 0, which every generator maps to its simplest option).
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt
{

struct Discard
{
  std::string why;
};

struct Failure
{
  std::string kind; // stable signature: what sort of violation, no addresses / case specific numbers
  std::string msg;  // human readable detail
};

[[noreturn]] void
fail(const std::string & kind, const std::string & msg);

[[noreturn]] void
discard(const std::string & why);

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)

class Ctx
{
public:
  // fresh
  Ctx(uint64_t seed, uint64_t index);
  // explicit
  explicit Ctx(std::vector<uint64_t> choices);

  uint64_t
  draw(uint64_t n); // uniform in [0,n)

  int64_t
  range(int64_t lo, int64_t hi) // inclusive
  {
    return lo + (int64_t)draw((uint64_t)(hi - lo) + 1);
  }

  bool
  chance(unsigned num, unsigned den) // 0 -> false
  {
    return draw(den) >= den - num;
  }

  uint64_t
  bits64(); // edge-biased 64 bit value, zero simplest

  size_t
  weighted(const std::vector<unsigned> & w);

  template<class T>
  const T &
  pick(const std::vector<T> & v)
  {
    return v[draw(v.size())];
  }

  void
  label(const std::string & l)
  {
    labels[l]++;
  }

  void
  setHash(uint64_t h)
  {
    hash = h;
    hashSet = true;
  }

  // results of a case
  std::map<std::string, unsigned> labels;
  bool nontrivial = false;
  uint64_t hash = 0;
  bool hashSet = false;
  std::string sample;                          // one line description
  std::map<std::string, std::string> artifacts; // extra files written next to the replay
  std::vector<uint64_t> choices;               // as recorded
  bool explicitMode = false;
  int tier = 0; // 0 quick, 1 thorough
  uint64_t evals = 1; // number of oracle evaluations in this case

private:
  std::vector<uint64_t> given_;
  size_t pos_ = 0;
  uint64_t rng_[2];
};

struct Property
{
  std::string id;
  std::string rule; // what counts as a non-trivial case
  std::function<void(Ctx &)> run;
  uint64_t quickCases;
  uint64_t thoroughCases;
  unsigned batch = 16;
  std::vector<std::string> assumptions;
  // If set: the artifact with this name is a self-contained case that replayText can execute.
  std::string textArtifact;
  std::function<void(const std::string &)> replayText;
};

void
registerProperty(Property p);

struct Registrar
{
  explicit Registrar(Property p)
  {
    registerProperty(std::move(p));
  }
};

uint64_t
fnv(const std::string & s, uint64_t h = 1469598103934665603ull);

int
pbtMain(int argc, char ** argv);

}

#endif
