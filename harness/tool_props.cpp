// Properties of jlm/tooling: command lines and the command graphs of the compiler drivers.
#include "pbt.hpp"

#include <jlm/tooling/Command.hpp>
#include <jlm/tooling/CommandGraph.hpp>
#include <jlm/tooling/CommandGraphGenerator.hpp>
#include <jlm/tooling/CommandLine.hpp>

#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
using pbt::Ctx;
using namespace jlm::tooling;
namespace util = jlm::util;
typedef std::vector<std::string> Strs;

std::string
join(const Strs & v)
{
  std::string s;
  for (auto & x : v)
    s += (s.empty() ? "" : " ") + x;
  return s;
}

// The words a POSIX shell makes of a command string (quoting only, no expansion).
Strs
shellWords(const std::string & s)
{
  Strs r;
  std::string cur;
  bool in = false;
  char q = 0;
  for (size_t i = 0; i < s.size(); i++)
  {
    char ch = s[i];
    if (q)
    {
      if (ch == q)
        q = 0;
      else if (q == '"' && ch == '\\' && i + 1 < s.size() && strchr("\"\\$`", s[i + 1]))
        cur += s[++i];
      else
        cur += ch;
    }
    else if (ch == '"' || ch == '\'')
      q = ch, in = true;
    else if (ch == '\\' && i + 1 < s.size())
      cur += s[++i], in = true;
    else if (ch == ' ' || ch == '\t' || ch == '\n')
    {
      if (in)
        r.push_back(cur);
      cur.clear();
      in = false;
    }
    else
      cur += ch, in = true;
  }
  if (in)
    r.push_back(cur);
  return r;
}

struct Argv
{
  Strs words;
  std::vector<const char *> p;

  explicit Argv(Strs w)
      : words(std::move(w))
  {
    for (auto & x : words)
      p.push_back(x.c_str());
    p.push_back(nullptr);
  }

  int
  argc() const
  {
    return words.size();
  }

  const char * const *
  argv() const
  {
    return p.data();
  }
};

// What a clang command line asks for.
struct ClangWords
{
  bool emitLlvm = false, compileOnly = false;
  std::string out, depFile, depTarget, std;
  bool md = false;
  Strs inputs, I, L, l, D, W, f;
  std::set<std::string> flags;
};

ClangWords
parseClang(const Strs & w)
{
  ClangWords r;
  for (size_t i = 1; i < w.size(); i++)
  {
    auto & a = w[i];
    auto next = [&]
    {
      if (++i >= w.size())
        pbt::fail("clang option without its argument", join(w));
      return w[i];
    };
    if (a == "-o")
      r.out = next();
    else if (a == "-MF")
      r.depFile = next();
    else if (a == "-MT")
      r.depTarget = next();
    else if (a == "-MD")
      r.md = true;
    else if (a == "-Xclang")
      next();
    else if (a == "-emit-llvm")
      r.emitLlvm = true;
    else if (a == "-S")
      r.compileOnly = true;
    else if (a.rfind("-std=", 0) == 0)
      r.std = a.substr(5);
    else if (a == "-v" || a == "-w" || a == "-rdynamic" || a == "-pthread")
      r.flags.insert(a);
    else if (a == "-no-pie" || a.rfind("-O", 0) == 0)
      ;
    else if (a.rfind("-I", 0) == 0)
      r.I.push_back(a.substr(2));
    else if (a.rfind("-L", 0) == 0)
      r.L.push_back(a.substr(2));
    else if (a.rfind("-l", 0) == 0)
      r.l.push_back(a.substr(2));
    else if (a.rfind("-D", 0) == 0)
      r.D.push_back(a.substr(2));
    else if (a.rfind("-W", 0) == 0)
      r.W.push_back(a.substr(2));
    else if (a.rfind("-f", 0) == 0)
      r.f.push_back(a.substr(2));
    else if (a[0] == '-')
      pbt::fail("clang is given an option nobody asked for", a + " in: " + join(w));
    else
      r.inputs.push_back(a);
  }
  return r;
}

typedef JlmOptCommandLineOptions::OptimizationId Opt;

const std::vector<std::pair<Opt, const char *>> &
optNames()
{
  static const std::vector<std::pair<Opt, const char *>> v{
    { Opt::AAAndersenAgnostic, "AAAndersenAgnostic" },
    { Opt::AAAndersenRegionAware, "AAAndersenRegionAware" },
    { Opt::AggregateAllocaSplitting, "AggregateAllocaSplitting" },
    { Opt::CommonNodeElimination, "CommonNodeElimination" },
    { Opt::DeadNodeElimination, "DeadNodeElimination" },
    { Opt::FunctionInlining, "FunctionInlining" },
    { Opt::IfConversion, "IfConversion" },
    { Opt::InvariantValueRedirection, "InvariantValueRedirection" },
    { Opt::IOBarrierElimination, "IOBarrierElimination" },
    { Opt::LoadChainSeparation, "LoadChainSeparation" },
    { Opt::LoopStrengthReduction, "LoopStrengthReduction" },
    { Opt::LoopUnrolling, "LoopUnrolling" },
    { Opt::LoopUnswitching, "LoopUnswitching" },
    { Opt::NodePullIn, "NodePullIn" },
    { Opt::NodePushOut, "NodePushOut" },
    { Opt::NodeReduction, "NodeReduction" },
    { Opt::PredicateCorrelation, "PredicateCorrelation" },
    { Opt::RvsdgTreePrinter, "RvsdgTreePrinter" },
    { Opt::ScalarEvolution, "ScalarEvolution" },
    { Opt::StoreValueForwarding, "StoreValueForwarding" },
  };
  return v;
}

std::string
optText(const std::vector<Opt> & v)
{
  std::string s;
  for (auto o : v)
    for (auto & [id, n] : optNames())
      if (id == o)
        s += std::string(n) + " ";
  return s;
}

const std::vector<std::pair<util::Statistics::Id, const char *>> &
statNames()
{
  typedef util::Statistics::Id S;
  static const std::vector<std::pair<S, const char *>> v{
    { S::AggregateAllocaSplitting, "print-aggregate-alloca-splitting" },
    { S::Aggregation, "print-aggregation-time" },
    { S::AgnosticModRefSummarizer, "print-agnostic-mod-ref-summarization" },
    { S::AliasAnalysisPrecisionEvaluation, "print-aa-precision-evaluation" },
    { S::AndersenAnalysis, "print-andersen-analysis" },
    { S::Annotation, "print-annotation-time" },
    { S::CommonNodeElimination, "print-cne-stat" },
    { S::ControlFlowRecovery, "print-cfr-time" },
    { S::DataNodeToDelta, "printDataNodeToDelta" },
    { S::DeadNodeElimination, "print-dne-stat" },
    { S::FunctionInlining, "print-iln-stat" },
    { S::IfConversion, "print-if-conversion" },
    { S::InvariantValueRedirection, "printInvariantValueRedirection" },
    { S::IOBarrierElimination, "print-io-barrier-elimination" },
    { S::JlmToRvsdgConversion, "print-jlm-rvsdg-conversion" },
    { S::LoopStrengthReduction, "print-loop-strength-reduction" },
    { S::LoopUnrolling, "print-unroll-stat" },
    { S::LoopUnswitching, "print-ivt-stat" },
    { S::MemoryStateEncoder, "print-basicencoder-encoding" },
    { S::PullNodes, "print-pull-stat" },
    { S::PushNodes, "print-push-stat" },
    { S::ReduceNodes, "print-reduction-stat" },
    { S::RegionAwareModRefSummarizer, "print-mod-ref-summarization" },
    { S::RvsdgConstruction, "print-rvsdg-construction" },
    { S::RvsdgDestruction, "print-rvsdg-destruction" },
    { S::RvsdgOptimization, "print-rvsdg-optimization" },
    { S::RvsdgTreePrinter, "print-rvsdg-tree" },
    { S::ScalarEvolution, "print-scalar-evolution" },
    { S::StoreValueForwarding, "print-store-value-forwarding" },
  };
  return v;
}

void
same(const char * kind, const Strs & got, const Strs & want, const std::string & ctx)
{
  if (got != want)
    pbt::fail(kind, "[" + join(got) + "] instead of [" + join(want) + "]\n" + ctx);
}

void
same(const char * kind, const std::string & got, const std::string & want, const std::string & ctx)
{
  if (got != want)
    pbt::fail(kind, "'" + got + "' instead of '" + want + "'\n" + ctx);
}

// ------------------------------------------------------------------ jlc

struct JlcCase
{
  Strs args; // without argv[0]
  Strs inputs;
  Strs I, L, l, D, W, f, J;
  std::vector<Opt> opts;
  std::set<util::Statistics::Id> stats;
  std::string o, std, O, MF, MT;
  bool c = false, g = false, v = false, w = false, rdynamic = false, pthread = false, md = false;
};

bool
isObject(const std::string & f)
{
  return f.size() > 2 && f.substr(f.size() - 2) == ".o";
}

std::string
objectOf(const std::string & f)
{
  return f.substr(0, f.rfind('.')) + ".o";
}

JlcCase
genJlc(Ctx & c)
{
  JlcCase k;
  std::vector<Strs> groups; // options, to be shuffled with the inputs
  auto word = [&](const Strs & v)
  {
    return v[c.draw(v.size())];
  };
  size_t n = c.weighted({ 4, 4, 3, 2 }) + 1;
  std::set<std::string> stems;
  static const Strs dirs{ "", "", "dir/", "a/b/", "../up/", "/abs/" };
  static const Strs names{ "x", "y", "main", "x.1", "x.2", "lib.core", "foo_bar" };
  static const Strs exts{ ".c", ".c", ".cpp", ".o" };
  k.c = c.chance(1, 4);
  for (size_t i = 0; i < n; i++)
  {
    auto stem = word(dirs) + word(names);
    if (!stems.insert(stem).second)
      continue;
    auto e = word(exts);
    if (k.c && e == ".o")
      e = ".c";
    k.inputs.push_back(stem + e);
    groups.push_back({ k.inputs.back() });
  }
  auto list = [&](Strs & dst, const char * opt, const Strs & vals, bool joinedOnly)
  {
    size_t n = c.weighted({ 5, 2, 2, 1 });
    for (size_t i = 0; i < n; i++)
    {
      auto v = word(vals);
      dst.push_back(v);
      if (!joinedOnly && c.draw(3) == 0)
        groups.push_back({ opt, v });
      else
        groups.push_back({ opt + v });
    }
  };
  list(k.I, "-I", { "inc", "../include", "/usr/x" }, false);
  list(k.L, "-L", { "libs", "/opt/lib", "." }, false);
  list(k.l, "-l", { "m", "pthread", "foo", "dl" }, false);
  list(k.D, "-D", { "A", "B=1", "NAME=\"text\"", "C=a\"b\"", "XSTR=-5" }, false);
  list(k.W, "-W", { "all", "extra", "no-unused", "error=format" }, true);
  list(k.f, "-f", { "no-strict-aliasing", "PIC", "lto", "inline-limit=3" }, true);
  {
    size_t n = c.weighted({ 6, 2, 2, 1 });
    for (size_t i = 0; i < n; i++)
    {
      auto & [id, name] = c.pick(optNames());
      k.opts.push_back(id);
      groups.push_back({ std::string("-J") + name });
    }
  }
  {
    size_t n = c.weighted({ 6, 2, 1 });
    for (size_t i = 0; i < n; i++)
    {
      auto & [id, name] = c.pick(statNames());
      if (k.stats.insert(id).second)
        groups.push_back({ std::string("--JlmOptPassStatistics=") + name });
    }
  }
  auto one = [&](bool & b, const char * opt, unsigned num, unsigned den)
  {
    if (c.chance(num, den))
    {
      b = true;
      groups.push_back({ opt });
    }
  };
  one(k.g, "-g", 1, 4);
  one(k.v, "-v", 1, 4);
  one(k.w, "-w", 1, 4);
  one(k.rdynamic, "-rdynamic", 1, 4);
  one(k.pthread, "-pthread", 1, 4);
  one(k.md, "-MD", 1, 3);
  if (k.c)
    groups.push_back({ "-c" });
  if (k.md && c.draw(2))
    groups.push_back({ "-MF", k.MF = "deps/out.d" });
  if (k.md && c.draw(2))
    groups.push_back({ "-MT", k.MT = "build/target.o" });
  if (c.draw(2) && !(k.c && k.inputs.size() > 1))
    groups.push_back({ "-o", k.o = word({ "prog", "bin/out", "q.o" }) });
  if (c.draw(2))
    groups.push_back({ "-O" + (k.O = word({ "0", "1", "2", "3" })) });
  if (c.draw(3) == 0)
  {
    k.std = word({ "gnu89", "gnu99", "c89", "c90", "c99", "c11", "c++98", "c++03", "c++11", "c++14" });
    groups.push_back({ c.draw(2) ? "--std=" + k.std : "-std=" + k.std });
  }
  // Any interleaving; the order within one option kind (and of the inputs) is the given one.
  std::map<std::string, std::vector<Strs>> byKind;
  std::vector<std::string> order;
  for (auto & g : groups)
  {
    std::string kind = g[0][0] == '-' ? g[0].substr(0, 2) : "input";
    byKind[kind].push_back(g);
    order.push_back(kind);
  }
  for (size_t i = order.size(); i > 1; i--)
    std::swap(order[i - 1], order[c.draw(i)]);
  std::map<std::string, size_t> pos;
  for (auto & kind : order)
    for (auto & a : byKind[kind][pos[kind]++])
      if (1)
      {
        k.args.push_back(a);
      }
  return k;
}

const std::vector<Opt> &
defaultO3()
{
  static const std::vector<Opt> v{
    Opt::FunctionInlining, Opt::PredicateCorrelation, Opt::LoopUnswitching, Opt::AggregateAllocaSplitting,
  };
  return v;
}

struct Step
{
  std::string text;
  const Command * command;
};

std::vector<Step>
stepsOf(const CommandGraph & g)
{
  std::vector<Step> r;
  for (auto n : CommandGraph::SortNodesTopological(g))
    if (n != &g.GetEntryNode() && n != &g.GetExitNode())
      r.push_back({ n->GetCommand().ToString(), &n->GetCommand() });
  return r;
}

std::string
baseName(const std::string & p)
{
  return p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1);
}

void
sameStd(const std::string & got, const std::string & want, const std::string & ctx)
{
  // c90 is another name of c89
  auto norm = [](const std::string & s)
  {
    return s == "c90" ? "c89" : s;
  };
  same("clang's language standard", norm(got), norm(want), ctx);
}

void
checkJlc(Ctx & c, const JlcCase & k)
{
  Strs full{ "jlc" };
  full.insert(full.end(), k.args.begin(), k.args.end());
  c.sample = join(full);
  c.artifacts["command.txt"] = c.sample + "\n";
  Argv a(full);
  static JlcCommandLineParser parser;
  auto & options = parser.ParseCommandLineArguments(a.argc(), a.argv());
  auto graph = JlcCommandGraphGenerator::Generate(options);
  auto steps = stepsOf(*graph);
  std::string ctx = "command line: " + join(full) + "\ncommands in order of execution:\n";
  for (auto & s : steps)
    ctx += "  " + s.text + "\n";
  c.artifacts["command.txt"] = ctx;

  // A file system in which only the inputs of the user exist.
  std::map<std::string, std::string> fs; // file -> which source it was made from
  for (auto & i : k.inputs)
    fs[i] = i;
  auto need = [&](const std::string & f)
  {
    c.evals++;
    if (!fs.count(f))
      pbt::fail("jlc: a command runs before its input exists", f + "\n" + ctx);
    return fs[f];
  };
  auto make = [&](const std::string & f, const std::string & from)
  {
    if (fs.count(f))
      pbt::fail("jlc: a file is overwritten", f + " made from " + fs[f] + " and from " + from + "\n" + ctx);
    fs[f] = from;
  };
  std::map<std::string, int> stage; // per source: 1 parsed, 2 optimised, 3 assembled
  std::map<std::string, std::string> object;
  std::vector<Strs> links;
  size_t nlink = 0;
  for (auto & s : steps)
  {
    auto w = shellWords(s.text);
    if (w.empty())
      pbt::fail("jlc: empty command", ctx);
    auto prog = baseName(w[0]);
    if (nlink)
      pbt::fail("jlc: a command runs after linking", s.text + "\n" + ctx);
    if (prog == "clang")
    {
      auto q = parseClang(w);
      if (q.emitLlvm)
      {
        if (!q.compileOnly)
          pbt::fail("jlc: parsing command is no -S -emit-llvm", s.text + "\n" + ctx);
        if (q.inputs.size() != 1)
          pbt::fail("jlc: parsing command without its single input", s.text + "\n" + ctx);
        auto src = need(q.inputs[0]);
        if (std::find(k.inputs.begin(), k.inputs.end(), src) == k.inputs.end() || isObject(src) || q.inputs[0] != src)
          pbt::fail("jlc: something is parsed that is no source file", s.text + "\n" + ctx);
        if (stage[src]++)
          pbt::fail("jlc: a source is parsed twice", ctx);
        same("jlc: -I of the parsing command", q.I, k.I, ctx);
        same("jlc: -D of the parsing command", q.D, k.D, ctx);
        same("jlc: -W of the parsing command", q.W, k.W, ctx);
        same("jlc: -f of the parsing command", q.f, k.f, ctx);
        sameStd(q.std, k.std, ctx);
        std::set<std::string> want;
        if (k.v)
          want.insert("-v");
        if (k.w)
          want.insert("-w");
        if (k.rdynamic)
          want.insert("-rdynamic");
        if (k.pthread)
          want.insert("-pthread");
        same("jlc: flags of the parsing command", Strs(q.flags.begin(), q.flags.end()), Strs(want.begin(), want.end()), ctx);
        if (q.md != k.md)
          pbt::fail("jlc: -MD of the parsing command", ctx);
        if (k.md)
        {
          if (!k.MF.empty())
            same("jlc: -MF of the parsing command", q.depFile, k.MF, ctx);
          else if (q.depFile.size() < 2 || q.depFile.substr(q.depFile.size() - 2) != ".d")
            pbt::fail("jlc: no dependency file", ctx);
          if (!k.MT.empty())
            same("jlc: -MT of the parsing command", q.depTarget, k.MT, ctx);
          if (k.MF.empty())
            make(q.depFile, src);
        }
        make(q.out, src);
      }
      else
      {
        nlink++;
        Strs from;
        for (auto & i : q.inputs)
        {
          auto src = need(i);
          if (!isObject(src) && (stage[src] != 3 || object[src] != i))
            pbt::fail("jlc: something is linked that is no object", i + "\n" + ctx);
          from.push_back(src);
        }
        same("jlc: what is linked", from, k.inputs, ctx);
        same("jlc: -L of the linker", q.L, k.L, ctx);
        same("jlc: -l of the linker", q.l, k.l, ctx);
        same("jlc: output of the linker", q.out, k.o.empty() ? "a.out" : k.o, ctx);
        if (q.flags.count("-pthread") != k.pthread)
          pbt::fail("jlc: -pthread of the linker", ctx);
        if (q.compileOnly)
          pbt::fail("jlc: the linker command does not link", ctx);
        fs[q.out] = "";
      }
    }
    else if (prog == "jlm-opt")
    {
      // read back the way the program itself would
      Argv ja(w);
      auto & jo = JlmOptCommandLineParser::Parse(ja.argc(), ja.argv());
      auto src = need(jo.GetInputFile().to_str());
      if (stage[src]++ != 1)
        pbt::fail("jlc: optimises something that is not the parsed source", s.text + "\n" + ctx);
      auto want = k.opts;
      if (want.empty() && k.O == "3")
      {
        if (jo.GetOptimizationIds().empty())
          pbt::fail("jlc: -O3 does not optimise", ctx);
      }
      else if (jo.GetOptimizationIds() != want)
        pbt::fail("jlc: optimizations", optText(jo.GetOptimizationIds()) + " instead of " + optText(want) + "\n" + ctx);
      if (jo.GetInputFormat() != JlmOptCommandLineOptions::InputFormat::Llvm
          || jo.GetOutputFormat() != JlmOptCommandLineOptions::OutputFormat::Llvm)
        pbt::fail("jlc: jlm-opt's formats", ctx);
      std::set<util::Statistics::Id> gs;
      for (auto & x : jo.GetStatisticsCollectorSettings().GetDemandedStatistics().Items())
        gs.insert(x);
      if (gs != k.stats)
        pbt::fail("jlc: statistics asked from jlm-opt", ctx);
      make(jo.GetOutputFile().to_str(), src);
      // the command runs inside of this process: it has to be the one that is shown
      auto jc = dynamic_cast<const JlmOptCommand *>(s.command);
      if (!jc)
        continue;
      auto & real = jc->GetCommandLineOptions();
      if (real.GetInputFile().to_str() != jo.GetInputFile().to_str() || real.GetOutputFile().to_str() != jo.GetOutputFile().to_str()
          || real.GetOptimizationIds() != jo.GetOptimizationIds())
        pbt::fail("jlc: jlm-opt runs something else than what is shown", ctx);
    }
    else if (prog == "llc")
    {
      std::string in, out, O, type;
      for (size_t i = 1; i < w.size(); i++)
      {
        if (w[i] == "-o" && i + 1 < w.size())
          out = w[++i];
        else if (w[i].rfind("-O", 0) == 0)
          O = w[i].substr(2);
        else if (w[i].rfind("-filetype=", 0) == 0)
          type = w[i].substr(10);
        else if (w[i][0] != '-')
          in = w[i];
      }
      auto src = need(in);
      if (stage[src]++ != 2)
        pbt::fail("jlc: assembles something that is not the optimised source", s.text + "\n" + ctx);
      same("jlc: llc's optimization level", O, k.O.empty() ? "0" : k.O, ctx);
      same("jlc: llc's output", type, "obj", ctx);
      make(out, src);
      object[src] = out;
      if (k.c)
        same("jlc: the object file", out, k.o.empty() ? objectOf(src) : k.o, ctx);
    }
    else
      pbt::fail("jlc: unknown command", s.text + "\n" + ctx);
  }
  for (auto & i : k.inputs)
    if (!isObject(i) && stage[i] != 3)
      pbt::fail("jlc: a source is not compiled", i + "\n" + ctx);
  if (nlink != (k.c ? 0 : 1))
    pbt::fail("jlc: number of linker runs", ctx);
  c.evals += steps.size();
}

// One real compilation: sources whose values are known, compiled by the command graph, and run.
void
runJlc(Ctx & c)
{
  char dir[] = "/tmp/pbt-jlc-XXXXXX";
  if (!mkdtemp(dir))
    pbt::discard("no scratch directory");
  struct Clean
  {
    std::string d;

    ~Clean()
    {
      unsetenv("TMPDIR");
      std::error_code ec;
      std::filesystem::remove_all(d, ec);
    }
  } clean{ dir };
  std::string d = dir;
  std::filesystem::create_directory(d + "/tmp");
  std::filesystem::create_directory(d + "/inc");
  setenv("TMPDIR", (d + "/tmp").c_str(), 1);
  auto sh = [&](const std::string & cmd)
  {
    return std::system((cmd + " >/dev/null 2>&1").c_str());
  };
  size_t n = c.range(1, 3);
  Strs inputs;
  std::string main = "int printf(const char*,...);\n";
  std::string calls;
  long want = 0;
  Strs args{ "jlc" };
  bool macro = c.draw(2), inc = c.draw(2);
  int mv = c.range(1, 50), iv = c.range(1, 50);
  std::ofstream(d + "/inc/val.h") << "#define IV " << iv << "\n";
  for (size_t i = 0; i < n; i++)
  {
    int v = c.range(1, 100), t = c.range(2, 9);
    std::string fn = "f" + std::to_string(i);
    std::string body = (inc ? "#include \"val.h\"\n" : "") + std::string("int ") + fn
                     + "(int n){ int s=" + std::to_string(v) + "; for(int i=0;i<n;i++){ if(i&1) s+=i*" + std::to_string(t)
                     + "; else s-=i; } return s" + (macro ? "+MV" : "") + (inc ? "+IV" : "") + "; }\n";
    int arg = c.range(0, 12);
    long s = v;
    for (int j = 0; j < arg; j++)
      s += (j & 1) ? j * t : -j;
    s += (macro ? mv : 0) + (inc ? iv : 0);
    want += s * (long)(i + 1);
    main += "int " + fn + "(int);\n";
    calls += "+" + fn + "(" + std::to_string(arg) + ")*" + std::to_string(i + 1);
    std::string base = d + "/" + (c.draw(3) == 0 ? "m." + std::to_string(i) : "u" + std::to_string(i));
    std::ofstream(base + ".c") << body;
    bool obj = c.draw(3) == 0;
    if (obj)
    {
      if (sh("clang-18 -c " + base + ".c -o " + base + ".o -I" + d + "/inc -DMV=" + std::to_string(mv)))
        pbt::discard("clang");
      std::filesystem::remove(base + ".c");
      inputs.push_back(base + ".o");
    }
    else
      inputs.push_back(base + ".c");
  }
  std::ofstream(d + "/main.c") << main << "int main(void){ printf(\"%ld\\n\",(long)(0" << calls << ")); return 0; }\n";
  inputs.insert(inputs.begin() + c.draw(inputs.size() + 1), d + "/main.c");
  for (auto & i : inputs)
    args.push_back(i);
  if (macro)
    args.push_back("-DMV=" + std::to_string(mv));
  if (inc)
    args.push_back("-I" + d + "/inc");
  args.push_back("-O" + std::to_string(c.range(0, 3)));
  size_t no = c.draw(4);
  std::vector<Opt> usable;
  for (auto & [id, nm] : optNames())
    if (id != Opt::RvsdgTreePrinter)
      usable.push_back(id);
  for (size_t i = 0; i < no; i++)
  {
    auto id = c.pick(usable);
    for (auto & [q, nm] : optNames())
      if (q == id)
        args.push_back(std::string("-J") + nm);
  }
  args.push_back("-o");
  args.push_back(d + "/prog");
  c.sample = "run " + join(args);
  c.artifacts["command.txt"] = c.sample + "\n";
  Argv a(args);
  static JlcCommandLineParser parser;
  auto & options = parser.ParseCommandLineArguments(a.argc(), a.argv());
  auto graph = JlcCommandGraphGenerator::Generate(options);
  int err = dup(2), null = ::open("/dev/null", 1);
  dup2(null, 2);
  std::string error;
  try
  {
    graph->Run();
  }
  catch (std::exception & e)
  {
    error = e.what();
  }
  dup2(err, 2);
  ::close(err);
  ::close(null);
  if (!error.empty())
    pbt::fail("jlc: a valid compilation fails", c.sample + "\n" + error);
  FILE * p = popen((d + "/prog").c_str(), "r");
  char buf[64] = "";
  if (p)
  {
    if (!fgets(buf, sizeof buf, p))
      buf[0] = 0;
    pclose(p);
  }
  c.label("program run");
  if (std::string(buf) != std::to_string(want) + "\n")
    pbt::fail("jlc: the compiled program prints something else", c.sample + "\nprinted " + buf + " instead of " + std::to_string(want));
}

void
jlc(Ctx & c)
{
  if (c.draw(300) == 299)
  {
    runJlc(c);
    c.nontrivial = true;
    return;
  }
  // several command lines in one process: nothing is left over from the previous one
  size_t n = c.range(1, 2);
  for (size_t i = 0; i < n; i++)
  {
    auto k = genJlc(c);
    checkJlc(c, k);
    if (k.inputs.size() > 1 || k.args.size() > 5)
      c.nontrivial = true;
    if (k.inputs.size() > 1)
      c.label("several inputs");
    if (k.c)
      c.label("-c");
    for (auto & x : k.inputs)
      if (isObject(x))
        c.label("object input");
    if (k.md)
      c.label("-MD");
    if (!k.opts.empty())
      c.label("-J");
  }
}

// ------------------------------------------------------------------ jlm-opt, jlm-hls

void
jlmOptLine(Ctx & c)
{
  Strs args;
  std::vector<Opt> opts;
  std::set<util::Statistics::Id> stats;
  std::string in = c.pick(Strs{ "in.ll", "dir/a.b.ll", "/abs/x", "m.mlir" }), out, sdir;
  typedef JlmOptCommandLineOptions::OutputFormat OF;
  std::vector<std::pair<OF, const char *>> formats{ { OF::Llvm, "llvm" },         { OF::Ascii, "ascii" },
                                                    { OF::Dot, "dot" },           { OF::Json, "json" },
                                                    { OF::JsonTree, "jsonTree" }, { OF::Tree, "tree" } };
  OF of = OF::Llvm;
  std::vector<std::pair<int, Strs>> groups; // kind 0: ordered
  size_t n = c.range(0, 6);
  std::vector<Strs> ordered;
  for (size_t i = 0; i < n; i++)
  {
    auto & [id, name] = c.pick(optNames());
    opts.push_back(id);
    std::string nm = name;
    if (id == Opt::LoopUnswitching && c.draw(3) == 0)
      nm = "ThetaGammaInversion";
    ordered.push_back({ (c.draw(2) ? "-" : "--") + nm });
  }
  std::vector<Strs> free;
  size_t ns = c.range(0, 4);
  for (size_t i = 0; i < ns; i++)
  {
    auto & [id, name] = c.pick(statNames());
    if (stats.insert(id).second)
      free.push_back({ (c.draw(2) ? "-" : "--") + std::string(name) });
  }
  if (c.draw(2))
    free.push_back({ "-o", out = c.pick(Strs{ "out.ll", "d/o", "/tmp/z" }) });
  if (c.draw(2))
    free.push_back({ "-s", sdir = c.pick(Strs{ "stats", "/tmp/statistics" }) });
  if (c.draw(2))
  {
    auto & [f, name] = c.pick(formats);
    of = f;
    free.push_back({ "--output-format=" + std::string(name) });
  }
  if (c.draw(3) == 0)
    free.push_back({ "--input-format=llvm" });
  bool dump = c.draw(3) == 0;
  if (dump)
    free.push_back({ "--dumpRvsdgGraphs" });
  typedef jlm::llvm::RvsdgTreePrinter::Configuration::Annotation An;
  std::vector<std::pair<An, const char *>> ans{ { An::DebugIds, "DebugIds" },
                                                { An::NumAggregateAllocaNodes, "NumAggregateAllocaNodes" },
                                                { An::NumAllocaNodes, "NumAllocaNodes" },
                                                { An::NumLoadNodes, "NumLoadNodes" },
                                                { An::NumMemoryStateInputsOutputs, "NumMemoryStateInputsOutputs" },
                                                { An::NumRvsdgNodes, "NumRvsdgNodes" },
                                                { An::NumStoreNodes, "NumStoreNodes" } };
  std::set<An> anns;
  if (c.draw(3) == 0)
  {
    std::string s;
    size_t k = c.range(1, 3);
    for (size_t i = 0; i < k; i++)
    {
      auto & [a, name] = c.pick(ans);
      if (anns.insert(a).second)
        s += (s.empty() ? "" : ",") + std::string(name);
    }
    free.push_back({ "--annotations=" + s });
  }
  free.push_back({ in });
  std::vector<int> order(ordered.size(), 0);
  order.resize(ordered.size() + free.size(), 1);
  for (size_t i = order.size(); i > 1; i--)
    std::swap(order[i - 1], order[c.draw(i)]);
  for (size_t i = free.size(); i > 1; i--)
    std::swap(free[i - 1], free[c.draw(i)]);
  size_t a = 0, b = 0;
  Strs full{ "jlm-opt" };
  for (int o : order)
  {
    auto & g = o ? free[b++] : ordered[a++];
    full.insert(full.end(), g.begin(), g.end());
  }
  c.sample = join(full);
  c.artifacts["command.txt"] = c.sample + "\n";
  c.nontrivial = full.size() > 3;
  auto check = [&](const JlmOptCommandLineOptions & o, const std::string & how, bool all)
  {
    std::string ctx = how + ": " + c.sample;
    c.evals++;
    if (o.GetOptimizationIds() != opts)
      pbt::fail(how + ": optimizations", optText(o.GetOptimizationIds()) + " instead of " + optText(opts) + "\n" + ctx);
    same((how + ": input file").c_str(), o.GetInputFile().to_str(), in, ctx);
    same((how + ": output file").c_str(), o.GetOutputFile().to_str(), out, ctx);
    if (o.GetOutputFormat() != of)
      pbt::fail(how + ": output format", ctx);
    if (o.GetInputFormat() != JlmOptCommandLineOptions::InputFormat::Llvm)
      pbt::fail(how + ": input format", ctx);
    auto & sc = o.GetStatisticsCollectorSettings();
    std::set<util::Statistics::Id> got;
    for (auto & x : sc.GetDemandedStatistics().Items())
      got.insert(x);
    if (got != stats)
      pbt::fail(how + ": statistics", ctx);
    if (!sdir.empty())
      same((how + ": statistics directory").c_str(), sc.GetOutputDirectory().to_str(), sdir, ctx);
    if (all)
    {
      if (o.dumpRvsdgGraphs() != dump)
        pbt::fail(how + ": --dumpRvsdgGraphs", ctx);
      std::set<An> ga;
      for (auto & x : o.GetRvsdgTreePrinterConfiguration().RequiredAnnotations().Items())
        ga.insert(x);
      if (ga != anns)
        pbt::fail(how + ": annotations", ctx);
    }
  };
  Argv av(full);
  auto & parsed = JlmOptCommandLineParser::Parse(av.argc(), av.argv());
  check(parsed, "jlm-opt", true);
  JlmOptCommand cmd("jlm-opt", parsed);
  auto text = cmd.ToString();
  c.artifacts["command.txt"] = c.sample + "\n" + text + "\n";
  Argv again(shellWords(text));
  auto & re = JlmOptCommandLineParser::Parse(again.argc(), again.argv());
  check(re, "jlm-opt, printed and read back", false);
  JlmOptCommand cmd2("jlm-opt", re);
  auto sorted = [](Strs v)
  {
    std::sort(v.begin(), v.end());
    return v;
  };
  same("jlm-opt: printing is not stable", sorted(shellWords(cmd2.ToString())), sorted(shellWords(text)), c.sample);
}

void
jlmHlsLine(Ctx & c)
{
  std::string in = c.pick(Strs{ "k.ll", "d/k.ll" }), out = c.pick(Strs{ "o", "d/out" }), fn;
  typedef JlmHlsCommandLineOptions::OutputFormat F;
  F f = F::Firrtl;
  int latency = 10;
  bool extract = false, dump = false;
  std::vector<Strs> g{ { "-o", out }, { in } };
  if (c.draw(2))
  {
    fn = c.pick(Strs{ "kernel", "f.*", "main" });
    g.push_back(c.draw(2) ? Strs{ "--hls-function", fn } : Strs{ "--hls-function=" + fn });
    if (c.draw(2))
      extract = true, g.push_back({ "--extract" });
  }
  if (c.draw(2))
    latency = c.range(1, 200), g.push_back({ "--latency=" + std::to_string(latency) });
  if (c.draw(3) == 0)
    dump = true, g.push_back({ "--dumpRvsdgGraphs" });
  switch (c.draw(3))
  {
  case 1:
    f = F::Dot;
    g.push_back({ "--dot" });
    break;
  case 2:
    g.push_back({ "--fir" });
    break;
  }
  for (size_t i = g.size(); i > 1; i--)
    std::swap(g[i - 1], g[c.draw(i)]);
  Strs full{ "jlm-hls" };
  for (auto & x : g)
    full.insert(full.end(), x.begin(), x.end());
  c.sample = join(full);
  c.artifacts["command.txt"] = c.sample + "\n";
  Argv a(full);
  auto & o = JlmHlsCommandLineParser::Parse(a.argc(), a.argv());
  same("jlm-hls: input file", o.InputFile_.to_str(), in, c.sample);
  same("jlm-hls: output file", o.OutputFiles_.to_str(), out, c.sample);
  same("jlm-hls: function", o.HlsFunction_, fn, c.sample);
  if (o.ExtractHlsFunction_ != extract || o.MemoryLatency_ != (size_t)latency || o.OutputFormat_ != f
      || o.dumpRvsdgGraphs_ != dump)
    pbt::fail("jlm-hls: options", c.sample);
  c.nontrivial = g.size() > 2;
  c.evals++;
}

void
jhlsLine(Ctx & c)
{
  size_t n = c.range(1, 3);
  Strs inputs;
  std::vector<Strs> groups;
  Strs I, D, W, f, J;
  for (size_t i = 0; i < n; i++)
  {
    inputs.push_back(c.pick(Strs{ "", "d/", "/x/" }) + "s" + std::to_string(i) + ".c");
    groups.push_back({ inputs.back() });
  }
  auto list = [&](Strs & dst, const char * opt, const Strs & vals)
  {
    size_t n = c.weighted({ 5, 2, 2 });
    for (size_t i = 0; i < n; i++)
    {
      dst.push_back(c.pick(vals));
      groups.push_back({ opt + dst.back() });
    }
  };
  list(I, "-I", { "inc", "/usr/x" });
  list(D, "-D", { "A", "B=1", "N=\"t\"" });
  list(W, "-W", { "all", "extra" });
  list(f, "-f", { "no-inline", "PIC" });
  list(J, "-J", { "--dumpRvsdgGraphs", "--latency=5" });
  std::string regex = c.pick(Strs{ "kernel", "k1" }), out = c.pick(Strs{ "", "prog", "d/out" }), std;
  groups.push_back({ "--hls-function", regex });
  if (!out.empty())
    groups.push_back({ "-o", out });
  if (c.draw(3) == 0)
  {
    std = c.pick(Strs{ "gnu89", "gnu99", "c89", "c90", "c99", "c11", "c++98", "c++03", "c++11", "c++14" });
    groups.push_back({ "-std=" + std });
  }
  // keep the order within one kind
  std::map<std::string, std::vector<Strs>> byKind;
  std::vector<std::string> order;
  for (auto & g : groups)
  {
    std::string kind = g[0][0] == '-' ? g[0].substr(0, 2) : "input";
    byKind[kind].push_back(g);
    order.push_back(kind);
  }
  for (size_t i = order.size(); i > 1; i--)
    std::swap(order[i - 1], order[c.draw(i)]);
  std::map<std::string, size_t> pos;
  Strs full{ "jhls" };
  for (auto & kind : order)
    for (auto & x : byKind[kind][pos[kind]++])
      full.push_back(x);
  c.sample = join(full);
  c.artifacts["command.txt"] = c.sample + "\n";
  c.nontrivial = full.size() > 4;
  Argv a(full);
  auto & o = JhlsCommandLineParser::Parse(a.argc(), a.argv());
  auto graph = JhlsCommandGraphGenerator::Generate(o);
  auto steps = stepsOf(*graph);
  std::string ctx = "command line: " + join(full) + "\ncommands in order of execution:\n";
  for (auto & s : steps)
    ctx += "  " + s.text + "\n";
  c.artifacts["command.txt"] = ctx;
  std::set<std::string> fs(inputs.begin(), inputs.end());
  std::string outName = out.empty() ? "a.out" : out;
  auto need = [&](const std::string & p)
  {
    c.evals++;
    auto star = p.find('*');
    if (star == std::string::npos)
    {
      if (!fs.count(p))
        pbt::fail("jhls: a command runs before its input exists", p + "\n" + ctx);
      return;
    }
    for (auto & x : fs)
      if (x.size() >= p.size() - 1 && x.rfind(p.substr(0, star), 0) == 0
          && x.substr(x.size() - (p.size() - star - 1)) == p.substr(star + 1))
        return;
    pbt::fail("jhls: a command runs before its input exists", p + "\n" + ctx);
  };
  Strs parsed;
  std::map<std::string, std::string> made;
  bool extracted = false, synthesised = false, assembled = false;
  std::set<std::string> dirs;
  for (auto & s : steps)
  {
    auto w = shellWords(s.text);
    auto prog = baseName(w.at(0));
    std::string outFile, passes, fnName;
    Strs in;
    bool extract = false;
    for (size_t i = 1; i < w.size() && prog != "clang"; i++)
    {
      if (w[i] == "-o" && i + 1 < w.size())
        outFile = w[++i];
      else if (w[i] == "--hls-function" && i + 1 < w.size())
        fnName = w[++i];
      else if (w[i] == "--extract")
        extract = true;
      else if (w[i][0] != '-')
        in.push_back(w[i]);
      else
        passes += w[i] + " ";
    }
    if (prog == "mkdir")
    {
      dirs.insert(in.at(0));
    }
    else if (prog == "clang")
    {
      auto q = parseClang(w);
      if (!q.emitLlvm || q.inputs.size() != 1)
        pbt::fail("jhls: parsing command", s.text + "\n" + ctx);
      need(q.inputs[0]);
      same("jhls: -I of the parsing command", q.I, I, ctx);
      same("jhls: -D of the parsing command", q.D, D, ctx);
      same("jhls: -W of the parsing command", q.W, W, ctx);
      same("jhls: -f of the parsing command", q.f, f, ctx);
      sameStd(q.std, std, ctx);
      parsed.push_back(q.inputs[0]);
      made[q.inputs[0]] = q.out;
      auto dir = q.out.substr(0, q.out.rfind('/'));
      if (!dirs.count(dir))
        pbt::fail("jhls: temporary directory is used before it exists", ctx);
      if (!fs.insert(q.out).second)
        pbt::fail("jhls: a file is overwritten", q.out + "\n" + ctx);
    }
    else
    {
      for (auto & x : in)
        need(x);
      if (prog == "llvm-link" && !extracted)
      {
        Strs bitcode;
        for (auto & i : inputs)
          bitcode.push_back(made[i]);
        same("jhls: what is merged", in, bitcode, ctx);
      }
      else if (prog == "jlm-hls" && extract)
      {
        extracted = true;
        same("jhls: the function to extract", fnName, regex, ctx);
        fs.insert(outFile + ".rest.ll");
        fs.insert(outFile + ".function.ll");
      }
      else if (prog == "jlm-hls")
      {
        if (!extracted)
          pbt::fail("jhls: synthesis before extraction", ctx);
        synthesised = true;
        fs.insert(outFile + ".ref.ll");
        Strs got;
        for (auto & x : w)
          if (std::find(J.begin(), J.end(), x) != J.end())
            got.push_back(x);
        same("jhls: options of jlm-hls", got, J, ctx);
      }
      else if (prog == "llc")
      {
        assembled = synthesised;
        same("jhls: the object file", outFile, outName + ".o", ctx);
      }
      if (!outFile.empty())
        fs.insert(outFile);
    }
  }
  std::sort(parsed.begin(), parsed.end());
  std::sort(inputs.begin(), inputs.end());
  same("jhls: what is parsed", parsed, inputs, ctx);
  if (!extracted || !synthesised || !assembled)
    pbt::fail("jhls: a step is missing", ctx);
}

void
otherTools(Ctx & c)
{
  switch (c.weighted({ 6, 2, 3 }))
  {
  case 0:
    c.label("jlm-opt");
    jlmOptLine(c);
    break;
  case 1:
    c.label("jlm-hls");
    jlmHlsLine(c);
    break;
  case 2:
    c.label("jhls");
    jhlsLine(c);
    break;
  }
}

pbt::Registrar t01({ "T01",
                     "more than one input, or at least five words of options, or a program that is compiled and run",
                     jlc,
                     60000,
                     600000,
                     64,
                     { "file names and option values consist of characters that are ordinary to a shell (and double quotes in macros)",
                       "no two source files of one command line have the same name without their suffix in the same directory" },
                     "",
                     nullptr });

pbt::Registrar t02({ "T02",
                     "a command line with at least two options",
                     otherTools,
                     60000,
                     600000,
                     64,
                     { "file names and option values consist of characters that are ordinary to a shell" },
                     "",
                     nullptr });
}
