#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <regex>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

#include <cxxabi.h>

namespace pbt
{

static uint64_t
splitmix(uint64_t & s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t
fnv(const std::string & s, uint64_t h)
{
  for (unsigned char c : s)
  {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

void
fail(const std::string & kind, const std::string & msg)
{
  throw Failure{ kind, msg };
}

void
discard(const std::string & why)
{
  throw Discard{ why };
}

Ctx::Ctx(uint64_t seed, uint64_t index)
{
  uint64_t s = seed * 0x9e3779b97f4a7c15ull + index * 0xd1342543de82ef95ull + 77;
  rng_[0] = splitmix(s);
  rng_[1] = splitmix(s);
}

Ctx::Ctx(std::vector<uint64_t> given)
    : explicitMode(true),
      given_(std::move(given))
{
  rng_[0] = rng_[1] = 0;
}

uint64_t
Ctx::draw(uint64_t n)
{
  if (n <= 1)
    return 0;
  uint64_t v;
  if (explicitMode)
  {
    v = pos_ < given_.size() ? given_[pos_] : 0;
    if (v >= n)
      v = n - 1;
  }
  else
  {
    uint64_t s = rng_[0] ^ (pos_ * 0x9e3779b97f4a7c15ull) ^ rng_[1];
    v = (uint64_t)(((unsigned __int128)splitmix(s) * n) >> 64);
  }
  pos_++;
  if (choices.size() < 200000)
    choices.push_back(v);
  return v;
}

uint64_t
Ctx::bits64()
{
  switch (draw(8))
  {
  case 0:
    return draw(4);
  case 1:
    return draw(256);
  case 2:
    return ~draw(16);
  case 3:
  {
    uint64_t k = draw(64);
    return (uint64_t(1) << k) + draw(3) - 1;
  }
  case 4:
    return draw(uint64_t(1) << 32);
  case 5:
    return draw(uint64_t(1) << 16);
  default:
  {
    uint64_t hi = draw(uint64_t(1) << 32);
    return (hi << 32) | draw(uint64_t(1) << 32);
  }
  }
}

size_t
Ctx::weighted(const std::vector<unsigned> & w)
{
  uint64_t sum = 0;
  for (auto x : w)
    sum += x;
  uint64_t v = draw(sum);
  for (size_t i = 0; i < w.size(); i++)
  {
    if (v < w[i])
      return i;
    v -= w[i];
  }
  return 0;
}

static std::vector<Property> &
registry()
{
  static std::vector<Property> r;
  return r;
}

void
registerProperty(Property p)
{
  registry().push_back(std::move(p));
}

// ---------------------------------------------------------------------------------------------

enum Status
{
  Pass,
  Disc,
  Fail,
  Crash,
  Hang,
  Memory
};

struct Result
{
  Status st = Pass;
  std::string kind, msg;
  std::map<std::string, unsigned> labels;
  bool nontrivial = false;
  uint64_t hash = 0;
  uint64_t evals = 1;
  std::string sample;
  std::vector<uint64_t> choices;
  std::map<std::string, std::string> artifacts;

  bool
  bad() const
  {
    return st == Fail || st == Crash || st == Hang;
  }
};

static std::string
esc(const std::string & s)
{
  std::string o;
  for (char c : s)
  {
    if (c == '\n')
      o += "\\n";
    else if (c == '\\')
      o += "\\\\";
    else if (c == '\t')
      o += "\\t";
    else
      o += c;
  }
  return o;
}

static std::string
unesc(const std::string & s)
{
  std::string o;
  for (size_t i = 0; i < s.size(); i++)
  {
    if (s[i] == '\\' && i + 1 < s.size())
    {
      i++;
      o += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i];
    }
    else
      o += s[i];
  }
  return o;
}

static std::string
json(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c >= 127)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += c;
  }
  return o + "\"";
}

static double
now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static int g_tier = 0;
static unsigned g_cpuLimit = 60;

static Result
runCase(const Property & p, Ctx & c)
{
  Result r;
  c.tier = g_tier;
  try
  {
    p.run(c);
  }
  catch (Discard & d)
  {
    r.st = Disc;
    r.kind = d.why;
  }
  catch (Failure & f)
  {
    r.st = Fail;
    r.kind = f.kind;
    r.msg = f.msg;
  }
  catch (std::exception & e)
  {
    r.st = Fail;
    int st = 0;
    char * dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    r.kind = std::string("exception ") + (dn ? dn : typeid(e).name()) + ": " + e.what();
    r.msg = r.kind;
  }
  r.labels = c.labels;
  r.nontrivial = c.nontrivial && r.st == Pass;
  r.hash = c.hashSet ? c.hash : 0;
  if (!c.hashSet)
  {
    uint64_t h = 1469598103934665603ull;
    for (auto v : c.choices)
    {
      h ^= v;
      h *= 1099511628211ull;
    }
    r.hash = h;
  }
  r.evals = c.evals;
  r.sample = c.sample;
  return r;
}

static void
writeAll(int fd, const std::string & s)
{
  size_t o = 0;
  while (o < s.size())
  {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0)
    {
      if (n < 0 && errno == EINTR)
        continue;
      _exit(99);
    }
    o += n;
  }
}

static std::string
ser(const Result & r, bool full)
{
  std::ostringstream o;
  o << "E\t" << (int)r.st << "\t" << r.nontrivial << "\t" << r.hash << "\t" << r.evals << "\t"
    << esc(r.kind) << "\t" << esc(r.msg) << "\t" << esc(r.sample) << "\t";
  for (auto & [k, v] : r.labels)
    o << esc(k) << "\x01" << v << "\x02";
  if (full)
  {
    o << "\t";
    for (auto v : r.choices)
      o << v << " ";
    o << "\t";
    for (auto & [k, v] : r.artifacts)
      o << k << "\x01" << esc(v) << "\x02";
  }
  o << "\n";
  return o.str();
}

static std::vector<std::string>
split(const std::string & s, char d)
{
  std::vector<std::string> o;
  size_t b = 0;
  for (;;)
  {
    size_t e = s.find(d, b);
    if (e == std::string::npos)
    {
      o.push_back(s.substr(b));
      return o;
    }
    o.push_back(s.substr(b, e - b));
    b = e + 1;
  }
}

static Result
deser(const std::string & line)
{
  auto f = split(line, '\t');
  Result r;
  if (f.size() < 9)
  {
    r.st = Disc;
    r.kind = "protocol";
    return r;
  }
  r.st = (Status)std::stoi(f[1]);
  r.nontrivial = f[2] == "1";
  r.hash = std::stoull(f[3]);
  r.evals = std::stoull(f[4]);
  r.kind = unesc(f[5]);
  r.msg = unesc(f[6]);
  r.sample = unesc(f[7]);
  for (auto & kv : split(f[8], '\x02'))
  {
    auto x = split(kv, '\x01');
    if (x.size() == 2)
      r.labels[unesc(x[0])] = std::stoul(x[1]);
  }
  if (f.size() > 10)
  {
    std::istringstream is(f[9]);
    uint64_t v;
    while (is >> v)
      r.choices.push_back(v);
    for (auto & kv : split(f[10], '\x02'))
    {
      auto x = split(kv, '\x01');
      if (x.size() == 2)
        r.artifacts[x[0]] = unesc(x[1]);
    }
  }
  return r;
}

static void
childSetup(int errfd, unsigned cpu)
{
  dup2(errfd, 2);
  int dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  struct rlimit rl;
  rl.rlim_cur = cpu;
  rl.rlim_max = RLIM_INFINITY;
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
#if !__has_feature(address_sanitizer)
  rl.rlim_cur = rl.rlim_max = 3ull << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
  signal(SIGPIPE, SIG_DFL);
  setpgid(0, 0);
}

// Turns a dead child's exit status and stderr into a crash signature.
static void
classifyCrash(Result & r, int status, const std::string & err)
{
  if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL))
  {
    r.st = WTERMSIG(status) == SIGXCPU ? Hang : Memory;
    r.kind = WTERMSIG(status) == SIGXCPU ? "hang: cpu limit exceeded" : "killed";
    r.msg = r.kind;
    return;
  }
  if (err.find("std::bad_alloc") != std::string::npos || err.find("out of memory") != std::string::npos
      || err.find("Allocation failed") != std::string::npos)
  {
    r.st = Memory;
    r.kind = "out of memory";
    r.msg = r.kind;
    return;
  }
  r.st = Crash;
  std::string line;
  for (auto & l : split(err, '\n'))
  {
    if (l.find("ssert") != std::string::npos || l.find("terminate called") != std::string::npos
        || l.find("what():") != std::string::npos || l.find("nreachable") != std::string::npos
        || l.find("UNREACHABLE") != std::string::npos || l.find("SUMMARY:") != std::string::npos
        || l.find("runtime error:") != std::string::npos || l.find("LLVM ERROR") != std::string::npos)
    {
      line = l;
      if (l.find("terminate called") == std::string::npos)
        break;
    }
  }
  // drop line numbers and addresses: they change under refactoring
  line = std::regex_replace(line, std::regex(":[0-9]+(:[0-9]+)?"), "");
  line = std::regex_replace(line, std::regex("0x[0-9a-f]+"), "ADDR");
  std::string sig = WIFSIGNALED(status) ? std::string("signal ") + strsignal(WTERMSIG(status))
                                        : "exit " + std::to_string(WEXITSTATUS(status));
  r.kind = "crash: " + sig + (line.empty() ? "" : ": " + line);
  r.msg = r.kind + "\n" + err.substr(err.size() > 3000 ? err.size() - 3000 : 0);
}

static std::string
slurpFd(int fd)
{
  lseek(fd, 0, SEEK_SET);
  std::string s;
  char b[8192];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0)
  {
    s.append(b, n);
    if (s.size() > 4000000)
      break;
  }
  return s;
}

struct Child
{
  pid_t pid = -1;
  int rfd = -1;
  int efd = -1;
  std::string buf;
  uint64_t next = 0, end = 0; // indices
  uint64_t begin = 0;
  bool inCase = false;
  double start = 0;
};

static void
spawn(Child & ch, const std::function<void(int)> & body, unsigned cpu)
{
  int p[2];
  if (pipe(p))
    abort();
  ch.efd = memfd_create("err", 0);
  ch.pid = fork();
  if (ch.pid == 0)
  {
    close(p[0]);
    childSetup(ch.efd, cpu);
    body(p[1]);
    _exit(0);
  }
  close(p[1]);
  ch.rfd = p[0];
  ch.buf.clear();
  ch.inCase = false;
  ch.start = now();
}

// Evaluate explicit sequences, up to 8 in parallel, each in its own process.
static std::vector<Result>
evalMany(const Property & p, const std::vector<std::function<Ctx()>> & mk, unsigned cpu)
{
  std::vector<Result> out(mk.size());
  std::vector<Child> cs(mk.size());
  for (size_t i = 0; i < mk.size(); i++)
  {
    spawn(
        cs[i],
        [&](int fd)
        {
          Ctx c = mk[i]();
          Result r = runCase(p, c);
          r.choices = c.choices;
          r.artifacts = c.artifacts;
          writeAll(fd, ser(r, true));
        },
        cpu);
  }
  for (size_t i = 0; i < mk.size(); i++)
  {
    std::string s;
    char b[65536];
    ssize_t n;
    while ((n = read(cs[i].rfd, b, sizeof b)) > 0 || (n < 0 && errno == EINTR))
      if (n > 0)
        s.append(b, n);
    int st;
    waitpid(cs[i].pid, &st, 0);
    kill(-cs[i].pid, SIGKILL);
    if (!s.empty() && s.back() == '\n')
      out[i] = deser(s.substr(0, s.size() - 1));
    else
      classifyCrash(out[i], st, slurpFd(cs[i].efd));
    close(cs[i].rfd);
    close(cs[i].efd);
  }
  return out;
}

static Result
evalSeq(const Property & p, const std::vector<uint64_t> & seq, unsigned cpu)
{
  return evalMany(
      p,
      { [&]()
        {
          return Ctx(seq);
        } },
      cpu)[0];
}

// The recorded choices of a crashing case are lost with the process: a dry Ctx records them through a
// shared mapping instead.
static uint64_t * g_shared = nullptr; // [0]=count, [1..]

struct KnownFinding
{
  std::string prop, what;
  std::string kindRe; // regex over kind + "\n" + msg
  std::string replay; // path relative to /verif
};

static std::string g_verif = "/verif";

static std::vector<KnownFinding>
loadKnown(const std::string & id)
{
  // format: one finding per line, tab separated:
  //   finding <TAB> property=<id> <TAB> replay=<path> <TAB> match=<regex> <TAB> <description>
  //   fixed: property=<id> <commit> <what failed>            (informational)
  std::vector<KnownFinding> out;
  std::ifstream f(g_verif + "/known_findings.txt");
  std::string l;
  while (std::getline(f, l))
  {
    auto x = split(l, '\t');
    if (x.size() < 5 || x[0] != "finding")
      continue;
    KnownFinding k;
    k.prop = x[1].substr(9);
    k.replay = x[2].substr(7);
    k.kindRe = x[3].substr(6);
    k.what = x[4];
    if (k.prop == id)
      out.push_back(k);
  }
  return out;
}

static bool
matches(const KnownFinding & k, const Result & r)
{
  return std::regex_search(r.kind + "\n" + r.msg, std::regex(k.kindRe));
}

static const KnownFinding *
known(const std::vector<KnownFinding> & ks, const Result & r)
{
  for (auto & k : ks)
    if (matches(k, r))
      return &k;
  return nullptr;
}

static Result
evalText(const Property & p, const std::string & text, unsigned cpu)
{
  Property q = p;
  q.run = [&](Ctx &)
  {
    p.replayText(text);
  };
  return evalSeq(q, {}, cpu);
}

static std::string
kindClass(const std::string & k)
{
  // first line, digits removed
  std::string s = k.substr(0, k.find('\n'));
  std::string o;
  for (char c : s)
    if (!isdigit((unsigned char)c))
      o += c;
  return o;
}

static std::vector<uint64_t>
shrink(const Property & p, std::vector<uint64_t> seq, Result & best, double budget,
       const std::vector<KnownFinding> & ks)
{
  double t0 = now();
  size_t attempts = 0;
  std::string cls = kindClass(best.kind);
  unsigned cpu = best.st == Hang ? 20 : g_cpuLimit;
  auto ok = [&](const Result & r)
  {
    return r.bad() && !known(ks, r) && kindClass(r.kind) == cls;
  };
  auto timeUp = [&]()
  {
    return now() - t0 > budget;
  };
  // Tries candidates in order, 8 at a time; returns index of first accepted or -1.
  auto tryAll = [&](const std::vector<std::vector<uint64_t>> & cands) -> bool
  {
    for (size_t i = 0; i < cands.size() && !timeUp(); i += 8)
    {
      std::vector<std::function<Ctx()>> mk;
      size_t e = std::min(cands.size(), i + 8);
      for (size_t j = i; j < e; j++)
        mk.push_back(
            [&cands, j]()
            {
              return Ctx(cands[j]);
            });
      auto rs = evalMany(p, mk, cpu);
      attempts += rs.size();
      for (size_t j = i; j < e; j++)
      {
        if (ok(rs[j - i]))
        {
          best = rs[j - i];
          auto & rec = rs[j - i].choices;
          seq = (!rec.empty() && rec.size() <= cands[j].size()) ? rec : cands[j];
          return true;
        }
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && !timeUp())
  {
    progress = false;
    // delete blocks
    for (size_t len = std::max<size_t>(1, seq.size() / 2); len >= 1 && !timeUp(); len /= 2)
    {
      size_t pos = 0;
      while (pos < seq.size() && !timeUp())
      {
        std::vector<std::vector<uint64_t>> cands;
        size_t q = pos;
        std::vector<size_t> where;
        for (; q < seq.size() && cands.size() < 8; q += len)
        {
          auto c = seq;
          c.erase(c.begin() + q, c.begin() + std::min(seq.size(), q + len));
          cands.push_back(c);
        }
        if (tryAll(cands))
          progress = true;
        else
          pos = q;
      }
      if (len == 1)
        break;
    }
    // zero blocks, then lower single values
    for (size_t len = std::max<size_t>(1, std::min<size_t>(32, seq.size() / 2)); len >= 1 && !timeUp(); len /= 2)
    {
      size_t pos = 0;
      while (pos < seq.size() && !timeUp())
      {
        std::vector<std::vector<uint64_t>> cands;
        size_t q = pos;
        for (; q < seq.size() && cands.size() < 8; q += len)
        {
          auto c = seq;
          bool ch = false;
          for (size_t k = q; k < std::min(seq.size(), q + len); k++)
            if (c[k])
            {
              c[k] = 0;
              ch = true;
            }
          if (ch)
            cands.push_back(c);
        }
        if (!cands.empty() && tryAll(cands))
          progress = true;
        else
          pos = q;
      }
      if (len == 1)
        break;
    }
    for (size_t i = 0; i < seq.size() && !timeUp(); i++)
    {
      if (seq[i] == 0)
        continue;
      std::vector<std::vector<uint64_t>> cands;
      auto add = [&](uint64_t v)
      {
        if (v < seq[i])
        {
          auto c = seq;
          c[i] = v;
          cands.push_back(c);
        }
      };
      add(1);
      add(2);
      add(seq[i] / 2);
      add(seq[i] / 4 * 3);
      add(seq[i] - 1);
      if (tryAll(cands))
      {
        progress = true;
      }
    }
  }
  fprintf(stderr, "[shrink] %zu attempts, %zu choices, %.1fs\n", attempts, seq.size(), now() - t0);
  return seq;
}

static std::string
readFile(const std::string & p)
{
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

static std::vector<uint64_t>
parseReplay(const std::string & text)
{
  std::vector<uint64_t> seq;
  std::istringstream is(text);
  std::string l;
  while (std::getline(is, l))
    if (l.rfind("choices:", 0) == 0)
    {
      std::istringstream ls(l.substr(8));
      uint64_t v;
      while (ls >> v)
        seq.push_back(v);
    }
  return seq;
}

static Result
evalReplayFile(const Property & p, const std::string & path, unsigned cpu)
{
  std::string t = readFile(path);
  if (t.rfind("pbt-choices", 0) == 0)
    return evalSeq(p, parseReplay(t), cpu);
  return evalText(p, t, cpu);
}

static std::string
writeReplay(const Property & p, const Result & r, const std::vector<uint64_t> & seq)
{
  std::string dir = g_verif + "/replays";
  mkdir(dir.c_str(), 0777);
  char hb[32];
  std::string all;
  for (auto v : seq)
    all += std::to_string(v) + " ";
  snprintf(hb, sizeof hb, "%012llx", (unsigned long long)(fnv(all) & 0xffffffffffffull));
  std::string base = dir + "/" + p.id + "-" + hb;
  std::ofstream f(base + ".replay");
  f << "pbt-choices property=" << p.id << "\nchoices: " << all << "\n";
  f << "kind: " << esc(r.kind) << "\nmsg: " << esc(r.msg) << "\n";
  for (auto & [n, c] : r.artifacts)
  {
    std::ofstream g(base + "." + n);
    g << c;
  }
  return base + ".replay";
}

static bool g_collect = false; // developer aid: tally failures instead of stopping at the first

struct Totals
{
  std::map<std::string, std::pair<uint64_t, std::vector<uint64_t>>> groups;
  uint64_t cases = 0, evals = 0, disc = 0, knownHits = 0, memory = 0, flaky = 0;
  std::map<std::string, uint64_t> labels, discWhy, knownBy;
  std::set<uint64_t> nontrivial;
  std::vector<std::string> samples;
};

// Runs a case that dies without reporting and salvages its choices (into g_shared) and artifacts.
static void
recordCrash(const Property & p, const std::function<Ctx()> & mk, std::map<std::string, std::string> * artifacts)
{
  g_shared[0] = 0;
  static Ctx * cur;
  static int artFd;
  artFd = memfd_create("art", 0);
  static auto salvage = []()
  {
    size_t n = std::min<size_t>(cur->choices.size(), 200000);
    memcpy(g_shared + 1, cur->choices.data(), n * 8);
    g_shared[0] = n;
    for (auto & [k, v] : cur->artifacts)
    {
      std::string h = k + " " + std::to_string(v.size()) + "\n" + v;
      if (write(artFd, h.data(), h.size()) < 0)
        return;
    }
  };
  Child ch;
  spawn(
      ch,
      [&](int)
      {
        Ctx c = mk();
        cur = &c;
        auto dump = [](int sig)
        {
          salvage();
          signal(sig, SIG_DFL);
          raise(sig);
          _exit(1);
        };
        atexit(
            []()
            {
              salvage();
            });
        for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU, SIGTRAP })
        {
          struct sigaction sa;
          memset(&sa, 0, sizeof sa);
          sa.sa_handler = dump;
          sa.sa_flags = SA_ONSTACK;
          static char stk[1 << 16];
          stack_t ss;
          memset(&ss, 0, sizeof ss);
          ss.ss_sp = stk;
          ss.ss_size = sizeof stk;
          sigaltstack(&ss, nullptr);
          sigaction(s, &sa, nullptr);
        }
        runCase(p, c);
        if (cur->artifacts.size())
          salvage();
      },
      g_cpuLimit * 2);
  int st;
  waitpid(ch.pid, &st, 0);
  close(ch.rfd);
  close(ch.efd);
  if (artifacts)
  {
    std::string t = slurpFd(artFd);
    size_t pos = 0;
    while (pos < t.size())
    {
      auto nl = t.find('\n', pos);
      auto sp = t.rfind(' ', nl);
      if (nl == std::string::npos || sp == std::string::npos || sp < pos)
        break;
      size_t len = std::stoull(t.substr(sp + 1, nl - sp - 1));
      (*artifacts)[t.substr(pos, sp - pos)] = t.substr(nl + 1, len);
      pos = nl + 1 + len;
    }
  }
  close(artFd);
}

static int
check(const Property & p, uint64_t seed, uint64_t cases, double maxTime, unsigned workers, uint64_t first,
      const std::string & evidence, double shrinkBudget, double timePrior)
{
  double t0 = now();
  auto ks = loadKnown(p.id);
  uint64_t pseed = fnv(p.id, seed * 0x9e3779b97f4a7c15ull + 1469598103934665603ull);
  Totals T;
  int violations = 0;

  for (auto & k : ks)
  {
    auto r = evalReplayFile(p, g_verif + "/" + k.replay, g_cpuLimit);
    if (r.bad() && matches(k, r))
    {
      printf("KNOWN-FINDING: property=%s %s\n", p.id.c_str(), k.what.c_str());
      fflush(stdout);
    }
    else
      printf("note: known finding no longer reproduces (status %d, %s): %s\n", (int)r.st, r.kind.c_str(),
             k.what.c_str());
  }

  uint64_t next = first, endAll = first + cases;
  std::vector<Child> cs(workers);
  std::vector<uint64_t> retry; // remaining ranges after crash
  std::vector<std::pair<uint64_t, uint64_t>> ranges;
  bool stop = false;
  std::map<uint64_t, Result> bad; // idx -> result
  auto startChild = [&](Child & ch) -> bool
  {
    if (stop)
      return false;
    uint64_t b, e;
    if (!ranges.empty())
    {
      b = ranges.back().first;
      e = ranges.back().second;
      ranges.pop_back();
    }
    else if (next < endAll)
    {
      b = next;
      e = std::min(endAll, next + p.batch);
      next = e;
    }
    else
      return false;
    ch.begin = ch.next = b;
    ch.end = e;
    spawn(
        ch,
        [&](int fd)
        {
          for (uint64_t i = b; i < e; i++)
          {
            writeAll(fd, "S\n");
            Ctx c(pseed, i);
            Result r = runCase(p, c);
            writeAll(fd, ser(r, false));
            struct rusage ru;
            getrusage(RUSAGE_SELF, &ru);
            struct rlimit rl;
            rl.rlim_cur = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + 1 + g_cpuLimit;
            rl.rlim_max = RLIM_INFINITY;
            setrlimit(RLIMIT_CPU, &rl);
          }
        },
        g_cpuLimit);
    return true;
  };
  auto account = [&](uint64_t idx, Result & r)
  {
    T.cases++;
    T.evals += r.evals;
    for (auto & [k, v] : r.labels)
      T.labels[k] += 1;
    if (r.st == Disc)
    {
      T.disc++;
      T.discWhy[r.kind]++;
    }
    else if (r.st == Memory)
      T.memory++;
    else if (r.bad())
    {
      if (auto k = known(ks, r))
      {
        T.knownHits++;
        T.knownBy[k->what]++;
      }
      else if (g_collect)
      {
        auto & g = T.groups[r.kind];
        g.first++;
        if (g.second.size() < 6)
          g.second.push_back(idx);
      }
      else
        bad[idx] = r;
    }
    else if (r.nontrivial)
    {
      if (T.nontrivial.insert(r.hash).second && T.samples.size() < 12 && !r.sample.empty()
          && (T.samples.size() < 4 || (T.nontrivial.size() % 37) == 0))
        T.samples.push_back(r.sample);
    }
  };
  for (auto & c : cs)
    startChild(c);
  size_t flakyTried = 0;
  for (;;)
  {
    std::vector<pollfd> fds;
    std::vector<Child *> who;
    for (auto & c : cs)
      if (c.pid > 0)
      {
        fds.push_back({ c.rfd, POLLIN, 0 });
        who.push_back(&c);
      }
    if (fds.empty())
    {
      // drained. Confirm failures, lowest index first.
      bool resumed = false;
      for (auto & [idx, r0] : bad)
      {
        auto mk = [&, i = idx]()
        {
          return Ctx(pseed, i);
        };
        auto rs = evalMany(p, { mk, mk, mk }, g_cpuLimit * 2);
        bool all = true;
        for (auto & r : rs)
          all = all && r.bad() && !known(ks, r);
        if (!all)
        {
          if (rs[0].bad() && known(ks, rs[0]))
          {
            T.knownHits++;
            continue;
          }
          T.flaky++;
          fprintf(stderr, "[flaky] case %llu: first %s; replays: %d %d %d\n", (unsigned long long)idx,
                  r0.kind.c_str(), (int)rs[0].st, (int)rs[1].st, (int)rs[2].st);
          continue;
        }
        // recover the choices of this case (a crash loses them): re-run with shared recording
        fprintf(stderr, "[fail] case %llu: %s\n%s\n", (unsigned long long)idx, rs[0].kind.c_str(),
                rs[0].msg.substr(0, 1500).c_str());
        std::vector<uint64_t> seq = rs[0].choices;
        Result best = rs[0];
        if (seq.empty())
        {
          // generate a long explicit prefix: values are bounded by the draw they answer, so recording needs the
          // crash-surviving shared buffer
          recordCrash(
              p,
              [&]()
              {
                return Ctx(pseed, idx);
              },
              nullptr);
          seq.assign(g_shared + 1, g_shared + 1 + g_shared[0]);
        }
        auto again = evalSeq(p, seq, g_cpuLimit * 2);
        if (!again.bad())
        {
          fprintf(stderr, "[warn] explicit sequence of case %llu does not fail\n", (unsigned long long)idx);
          T.flaky++;
          continue;
        }
        best = again;
        auto orig = seq;
        seq = shrink(p, seq, best, shrinkBudget, ks);
        bool stable = true;
        for (int i = 0; i < 3; i++)
        {
          auto r = evalSeq(p, seq, g_cpuLimit * 2);
          stable = stable && r.bad() && !known(ks, r);
          best = r.bad() ? r : best;
        }
        if (!stable)
          seq = orig;
        if (best.artifacts.empty())
          recordCrash(
              p,
              [&]()
              {
                return Ctx(seq);
              },
              &best.artifacts);
        std::string path = writeReplay(p, best, seq);
        printf("failure: %s\n%s\n", best.kind.c_str(), best.msg.substr(0, 4000).c_str());
        for (auto & [n, c] : best.artifacts)
          printf("--- %s\n%s\n", n.c_str(), c.substr(0, 6000).c_str());
        printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str());
        fflush(stdout);
        violations++;
        break;
      }
      bad.clear();
      if (!violations && now() - t0 < maxTime && (next < endAll || !ranges.empty()) && flakyTried < 20)
      {
        flakyTried++;
        stop = false;
        for (auto & c : cs)
          resumed |= startChild(c);
      }
      if (!resumed)
        break;
      continue;
    }
    poll(fds.data(), fds.size(), 1000);
    if (now() - t0 > maxTime)
      stop = true;
    for (size_t i = 0; i < fds.size(); i++)
    {
      Child & c = *who[i];
      if (!(fds[i].revents & (POLLIN | POLLHUP | POLLERR)))
        continue;
      char b[65536];
      ssize_t n = read(c.rfd, b, sizeof b);
      if (n < 0 && errno == EINTR)
        continue;
      if (n > 0)
      {
        c.buf.append(b, n);
        size_t nl;
        while ((nl = c.buf.find('\n')) != std::string::npos)
        {
          std::string l = c.buf.substr(0, nl);
          c.buf.erase(0, nl + 1);
          if (l == "S")
            c.inCase = true;
          else
          {
            auto r = deser(l);
            account(c.next, r);
            c.next++;
            c.inCase = false;
          }
        }
        continue;
      }
      // EOF
      int st;
      waitpid(c.pid, &st, 0);
      kill(-c.pid, SIGKILL);
      if (c.inCase)
      {
        Result r;
        classifyCrash(r, st, slurpFd(c.efd));
        account(c.next, r);
        c.next++;
        if (c.next < c.end)
          ranges.push_back({ c.next, c.end });
      }
      close(c.rfd);
      close(c.efd);
      c.pid = -1;
      if (!bad.empty())
        stop = true;
      startChild(c);
    }
  }
  double wall = now() - t0 + timePrior;
  if (!evidence.empty())
  {
    std::ofstream o(evidence);
    o << "{\n \"property\": " << json(p.id) << ",\n \"tier\": " << json(g_tier ? "thorough" : "quick")
      << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << T.evals << ",\n  \"distinct_nontrivial\": " << T.nontrivial.size()
      << ",\n  \"rule\": " << json(p.rule) << ",\n  \"cases\": " << T.cases << ",\n  \"discarded\": " << T.disc
      << ",\n  \"discard_reasons\": {";
    bool f1 = true;
    for (auto & [k, v] : T.discWhy)
    {
      o << (f1 ? "" : ", ") << json(k) << ": " << v;
      f1 = false;
    }
    o << "},\n  \"known_finding_hits\": " << T.knownHits << ",\n  \"resource_limited\": " << T.memory
      << ",\n  \"unreproducible\": " << T.flaky << ",\n  \"classes\": {";
    f1 = true;
    for (auto & [k, v] : T.labels)
    {
      o << (f1 ? "" : ", ") << json(k) << ": " << v;
      f1 = false;
    }
    o << "},\n  \"samples\": [";
    f1 = true;
    for (auto & s : T.samples)
    {
      o << (f1 ? "" : ", ") << json(s);
      f1 = false;
    }
    o << "]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << ",\n \"assumptions\": [";
    f1 = true;
    for (auto & s : p.assumptions)
    {
      o << (f1 ? "" : ", ") << json(s);
      f1 = false;
    }
    o << "]\n}\n";
  }
  printf("[%s] %llu cases, %llu evaluations, %zu distinct non-trivial, %llu discarded, %llu known, %llu "
         "resource-limited, %llu unreproducible, %.1fs\n",
         p.id.c_str(), (unsigned long long)T.cases, (unsigned long long)T.evals, T.nontrivial.size(),
         (unsigned long long)T.disc, (unsigned long long)T.knownHits, (unsigned long long)T.memory,
         (unsigned long long)T.flaky, wall);
  if (!T.discWhy.empty() || getenv("PBT_VERBOSE"))
  {
    for (auto & [k, v] : T.discWhy)
      printf("  discard %-40s %llu\n", k.c_str(), (unsigned long long)v);
    for (auto & [k, v] : T.knownBy)
      printf("  known   %-40s %llu\n", k.c_str(), (unsigned long long)v);
    for (auto & [k, v] : T.labels)
      printf("  label   %-40s %llu\n", k.c_str(), (unsigned long long)v);
  }
  for (auto & [k, v] : T.groups)
  {
    printf("  FAIL %6llu  %s  e.g.", (unsigned long long)v.first, k.c_str());
    for (auto i : v.second)
      printf(" %llu", (unsigned long long)i);
    printf("\n");
  }
  if (violations)
    return 1;
  if (T.cases == T.disc || T.cases == 0)
  {
    printf("error: nothing explored\n");
    return 3;
  }
  return 0;
}

int
pbtMain(int argc, char ** argv)
{
  // reproducible pointer values
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_NOREEXEC"))
  {
    setenv("PBT_NOREEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  g_shared = (uint64_t *)mmap(nullptr, 200001 * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> opt;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; i++)
  {
    std::string a = argv[i];
    if (a.rfind("--", 0) == 0)
    {
      auto e = a.find('=');
      opt[a.substr(2, e == std::string::npos ? e : e - 2)] = e == std::string::npos ? "1" : a.substr(e + 1);
    }
    else
      pos.push_back(a);
  }
  if (getenv("VERIF_ROOT"))
    g_verif = getenv("VERIF_ROOT");
  auto find = [&](const std::string & id) -> Property *
  {
    for (auto & p : registry())
      if (p.id == id)
        return &p;
    return nullptr;
  };
  if (mode == "list")
  {
    for (auto & p : registry())
      printf("%s quick=%llu thorough=%llu\n", p.id.c_str(), (unsigned long long)p.quickCases,
             (unsigned long long)p.thoroughCases);
    return 0;
  }
  if (pos.empty() || !find(pos[0]))
  {
    fprintf(stderr, "usage: pbt list | check ID [--tier=] [--seed=] | replay ID FILE | one ID INDEX\n");
    return 2;
  }
  Property & p = *find(pos[0]);
  g_tier = opt["tier"] == "thorough";
  uint64_t seed = opt.count("seed") ? std::stoull(opt["seed"]) : 1;
  if (opt.count("cpu"))
    g_cpuLimit = std::stoul(opt["cpu"]);
  g_collect = opt.count("collect");
  if (mode == "check")
  {
    uint64_t cases = opt.count("cases") ? std::stoull(opt["cases"]) : (g_tier ? p.thoroughCases : p.quickCases);
    double mt = opt.count("time") ? std::stod(opt["time"]) : (g_tier ? 3000 : 240);
    unsigned w = opt.count("workers") ? std::stoul(opt["workers"]) : 8;
    return check(p, seed, cases, mt, w, opt.count("first") ? std::stoull(opt["first"]) : 0, opt["evidence"],
                 opt.count("shrink") ? std::stod(opt["shrink"]) : 60,
                 opt.count("prior") ? std::stod(opt["prior"]) : 0);
  }
  if (mode == "replay")
  {
    auto r = evalReplayFile(p, pos.at(1), g_cpuLimit * 2);
    std::string text = readFile(pos.at(1));
    if (r.artifacts.empty() && r.bad() && text.rfind("pbt-choices", 0) == 0)
      recordCrash(
          p,
          [&]()
          {
            return Ctx(parseReplay(text));
          },
          &r.artifacts);
    printf("status %d\nkind: %s\nmsg: %s\n", (int)r.st, r.kind.c_str(), r.msg.c_str());
    for (auto & [n, c] : r.artifacts)
      printf("--- %s\n%s\n", n.c_str(), c.c_str());
    return r.bad() ? 1 : 0;
  }
  if (mode == "one") // in-process, for debugging
  {
    uint64_t pseed = fnv(p.id, seed * 0x9e3779b97f4a7c15ull + 1469598103934665603ull);
    Ctx c(pseed, std::stoull(pos.at(1)));
    Result r = runCase(p, c);
    printf("status %d\nkind: %s\nmsg: %s\n", (int)r.st, r.kind.c_str(), r.msg.c_str());
    for (auto & [n, t] : c.artifacts)
      printf("--- %s\n%s\n", n.c_str(), t.c_str());
    for (auto & [k, v] : c.labels)
      printf("label %s %u\n", k.c_str(), v);
    return r.bad();
  }
  if (mode == "text") // in-process execution of a text case
  {
    try
    {
      p.replayText(readFile(pos.at(1)));
      printf("ok\n");
      return 0;
    }
    catch (Failure & f)
    {
      printf("kind: %s\nmsg: %s\n", f.kind.c_str(), f.msg.c_str());
      return 1;
    }
    catch (Discard & d)
    {
      printf("discard: %s\n", d.why.c_str());
      return 0;
    }
  }
  return 2;
}

}
