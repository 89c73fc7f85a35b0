// Properties of jlm/util: collections, worklists, strongly connected components, number and path helpers.
// Every case is a sequence of operations executed on the real object and on a plain reference model.
#include "pbt.hpp"

#include <jlm/util/AnnotationMap.hpp>
#include <jlm/util/BijectiveMap.hpp>
#include <jlm/util/HashSet.hpp>
#include <jlm/util/Math.hpp>
#include <jlm/util/TarjanScc.hpp>
#include <jlm/util/Worklist.hpp>
#include <jlm/util/disjointset.hpp>
#include <jlm/util/file.hpp>
#include <jlm/util/intrusive-hash.hpp>
#include <jlm/util/intrusive-list.hpp>

#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <sstream>

namespace
{
using pbt::Ctx;
using namespace jlm::util;

struct Trace
{
  Ctx & c;
  std::ostringstream os;
  std::string what;
  size_t n = 0;

  Trace(Ctx & c, std::string what)
      : c(c),
        what(std::move(what))
  {}

  template<class... A>
  void
  op(const A &... a)
  {
    (os << ... << a);
    os << "\n";
    c.artifacts["trace.txt"] = what + "\n" + os.str();
    n++;
  }

  void
  check(bool ok, const char * kind, const std::string & msg = "")
  {
    c.evals++;
    if (!ok)
      pbt::fail(what + ": " + kind, msg + " after:\n" + os.str());
  }
};

#define CHK(cond, ...) t.check((cond), #cond, ##__VA_ARGS__)

template<class S>
std::string
show(const S & s)
{
  std::ostringstream o;
  o << "{";
  for (auto & x : s)
    o << x << " ";
  o << "}";
  return o.str();
}

// ---------------------------------------------------------------- HashSet

void
hashSet(Ctx & c)
{
  Trace t(c, "HashSet");
  const int dom = c.pick(std::vector<int>{ 4, 8, 40 });
  HashSet<int> real[3];
  std::set<int> model[3];
  auto agree = [&](int i)
  {
    std::set<int> got;
    size_t n = 0;
    for (auto & x : real[i].Items())
      got.insert(x), n++;
    t.check(got == model[i], "contents", show(got) + " instead of " + show(model[i]));
    CHK(n == model[i].size());
    CHK(real[i].Size() == model[i].size());
    CHK(real[i].IsEmpty() == model[i].empty());
  };
  int steps = c.range(1, 40);
  for (int s = 0; s < steps; s++)
  {
    int i = c.draw(3), j = c.draw(3), x = c.draw(dom);
    switch (c.draw(17))
    {
    case 0:
    case 1:
    case 2:
    {
      t.op("s", i, ".insert(", x, ")");
      CHK(real[i].insert(x) == model[i].insert(x).second);
      break;
    }
    case 3:
    {
      t.op("s", i, ".Remove(", x, ")");
      CHK(real[i].Remove(x) == (model[i].erase(x) == 1));
      break;
    }
    case 4:
    {
      t.op("s", i, ".UnionWith(s", j, ")");
      auto before = model[i].size();
      model[i].insert(model[j].begin(), model[j].end());
      CHK(real[i].UnionWith(real[j]) == (model[i].size() != before));
      break;
    }
    case 5:
    {
      if (i == j)
        break;
      t.op("s", i, ".UnionWithAndClear(s", j, ")");
      auto before = model[i].size();
      model[i].insert(model[j].begin(), model[j].end());
      model[j].clear();
      CHK(real[i].UnionWithAndClear(real[j]) == (model[i].size() != before));
      break;
    }
    case 6:
    case 7:
    {
      bool clr = c.draw(2) && i != j;
      t.op("s", i, clr ? ".IntersectWithAndClear(s" : ".IntersectWith(s", j, ")");
      std::set<int> r;
      for (int v : model[i])
        if (model[j].count(v))
          r.insert(v);
      model[i] = r;
      if (clr)
      {
        model[j].clear();
        real[i].IntersectWithAndClear(real[j]);
      }
      else
        real[i].IntersectWith(real[j]);
      break;
    }
    case 8:
    {
      t.op("s", i, ".DifferenceWith(s", j, ")");
      std::set<int> r;
      for (int v : model[i])
        if (!model[j].count(v))
          r.insert(v);
      model[i] = r;
      real[i].DifferenceWith(real[j]);
      break;
    }
    case 9:
    {
      int m = c.range(1, 4), k = c.draw(m);
      t.op("s", i, ".RemoveWhere(x % ", m, " == ", k, ")");
      size_t n = 0;
      for (auto it = model[i].begin(); it != model[i].end();)
        if (*it % m == k)
          it = model[i].erase(it), n++;
        else
          ++it;
      CHK(real[i].RemoveWhere([&](const int & v) { return v % m == k; }) == n);
      break;
    }
    case 10:
    {
      t.op("s", i, " = s", j);
      model[i] = model[j];
      real[i] = real[j];
      break;
    }
    case 11:
    {
      if (i == j)
        break;
      t.op("s", i, " = move(s", j, ")");
      model[i] = model[j];
      real[i] = std::move(real[j]);
      real[j].Clear();
      model[j].clear();
      break;
    }
    case 12:
    {
      t.op("s", i, ".Clear()");
      model[i].clear();
      real[i].Clear();
      break;
    }
    case 13:
    {
      t.op("erase odd items of s", i, " by iterator");
      auto items = real[i].Items();
      auto it = items.begin();
      size_t seen = 0;
      while (it != real[i].Items().end())
      {
        CHK(seen++ < 1000);
        if (*it % 2)
          it = real[i].Erase(it);
        else
          ++it;
      }
      for (auto m = model[i].begin(); m != model[i].end();)
        m = *m % 2 ? model[i].erase(m) : std::next(m);
      break;
    }
    case 14:
    {
      t.op("copies of s", i);
      HashSet<int> a(real[i]), b(model[i].begin(), model[i].end()), d(std::move(a));
      CHK(b == real[i]);
      CHK(d == real[i]);
      CHK(!(b != d));
      break;
    }
    default:
    {
      t.op("compare s", i, " with s", j);
      CHK((real[i] == real[j]) == (model[i] == model[j]));
      CHK((real[i] != real[j]) == (model[i] != model[j]));
      CHK(real[i].IsSubsetOf(real[j]) == std::includes(model[j].begin(), model[j].end(), model[i].begin(), model[i].end()));
      CHK(real[i].Contains(x) == (model[i].count(x) == 1));
    }
    }
    agree(i);
    agree(j);
  }
  c.nontrivial = t.n >= 3;
}

// ---------------------------------------------------------------- BijectiveMap

void
bijectiveMap(Ctx & c)
{
  Trace t(c, "BijectiveMap");
  const int dom = c.pick(std::vector<int>{ 3, 8, 30 });
  using Map = BijectiveMap<int, std::string>;
  Map real[2];
  std::map<int, std::string> model[2];
  auto val = [](int v) { return "v" + std::to_string(v); };
  auto hasVal = [&](int i, const std::string & v)
  {
    for (auto & [k, w] : model[i])
      if (w == v)
        return true;
    return false;
  };
  auto agree = [&](int i)
  {
    std::map<int, std::string> got;
    size_t n = 0;
    for (auto & [k, v] : real[i])
      got[k] = v, n++;
    CHK(got == model[i]);
    CHK(n == model[i].size());
    CHK(real[i].Size() == model[i].size());
    for (int k = 0; k < dom; k++)
    {
      CHK(real[i].HasKey(k) == (model[i].count(k) == 1));
      CHK(real[i].HasValue(val(k)) == hasVal(i, val(k)));
      try
      {
        auto & v = real[i].LookupKey(k);
        CHK(model[i].count(k) && model[i][k] == v);
      }
      catch (Error &)
      {
        CHK(!model[i].count(k));
      }
      try
      {
        auto & q = real[i].LookupValue(val(k));
        CHK(model[i].count(q) && model[i][q] == val(k));
      }
      catch (Error &)
      {
        CHK(!hasVal(i, val(k)));
      }
    }
  };
  int steps = c.range(1, 30);
  for (int s = 0; s < steps; s++)
  {
    int i = c.draw(2), k = c.draw(dom), v = c.draw(dom);
    switch (c.draw(12))
    {
    case 0:
    case 1:
    case 2:
    {
      t.op("m", i, ".Insert(", k, ", ", v, ")");
      bool ok = !model[i].count(k) && !hasVal(i, val(v));
      if (ok)
        model[i][k] = val(v);
      CHK(real[i].Insert(k, val(v)) == ok);
      break;
    }
    case 3:
    {
      t.op("m", i, ".InsertOrThrow(", k, ", ", v, ")");
      bool ok = !model[i].count(k) && !hasVal(i, val(v));
      if (ok)
        model[i][k] = val(v);
      bool threw = false;
      try
      {
        real[i].InsertOrThrow(k, val(v));
      }
      catch (Error &)
      {
        threw = true;
      }
      CHK(threw == !ok);
      break;
    }
    case 4:
    {
      t.op("m", i, ".RemoveKey(", k, ")");
      CHK(real[i].RemoveKey(k) == (model[i].erase(k) == 1));
      break;
    }
    case 5:
    {
      t.op("m", i, ".RemoveValue(", v, ")");
      bool ok = false;
      for (auto it = model[i].begin(); it != model[i].end(); ++it)
        if (it->second == val(v))
        {
          model[i].erase(it);
          ok = true;
          break;
        }
      CHK(real[i].RemoveValue(val(v)) == ok);
      break;
    }
    case 6:
    case 7:
    {
      int m = c.range(1, 3), r = c.draw(m), how = c.draw(3);
      t.op("m", i, ".Remove*Where ", how, " % ", m, " == ", r);
      auto num = [](const std::string & x) { return std::stoi(x.substr(1)); };
      auto pred = [&](int a, const std::string & b)
      { return (how == 0 ? a : how == 1 ? num(b) : a + num(b)) % m == r; };
      size_t n = 0;
      for (auto it = model[i].begin(); it != model[i].end();)
        if (pred(it->first, it->second))
          it = model[i].erase(it), n++;
        else
          ++it;
      size_t got = how == 0 ? real[i].RemoveKeysWhere([&](const int & a) { return a % m == r; })
                 : how == 1 ? real[i].RemoveValuesWhere([&](const std::string & b) { return num(b) % m == r; })
                            : real[i].RemoveWhere(pred);
      CHK(got == n);
      break;
    }
    case 8:
    {
      t.op("m", i, ".InsertPairs(m", 1 - i, ")");
      size_t n = 0;
      // pairs are offered in an unspecified order, but each key and value only once, so the order is irrelevant
      auto other = model[1 - i];
      for (auto & [a, b] : other)
        if (!model[i].count(a) && !hasVal(i, b))
          model[i][a] = b, n++;
      CHK(real[i].InsertPairs(real[1 - i].begin(), real[1 - i].end()) == n);
      break;
    }
    case 9:
    {
      t.op("m", i, " = m", 1 - i);
      bool mv = c.draw(2);
      model[i] = model[1 - i];
      if (mv)
      {
        real[i] = std::move(real[1 - i]);
        real[1 - i].Clear();
        model[1 - i].clear();
      }
      else
        real[i] = real[1 - i];
      break;
    }
    case 10:
    {
      t.op("construct from pairs");
      std::vector<std::pair<int, std::string>> ps;
      std::set<int> ks;
      std::set<std::string> vs;
      bool ok = true;
      for (int q = c.draw(5); q > 0; q--)
      {
        ps.push_back({ (int)c.draw(dom), val(c.draw(dom)) });
        ok &= ks.insert(ps.back().first).second;
        ok &= vs.insert(ps.back().second).second;
      }
      bool threw = false;
      try
      {
        Map x(ps.begin(), ps.end());
        CHK(x.Size() == ps.size());
      }
      catch (Error &)
      {
        threw = true;
      }
      CHK(threw == !ok);
      break;
    }
    default:
      t.op("compare");
      CHK((real[0] == real[1]) == (model[0] == model[1]));
      CHK((real[0] != real[1]) == (model[0] != model[1]));
    }
    agree(0);
    agree(1);
  }
  c.nontrivial = t.n >= 3;
}

// ---------------------------------------------------------------- DisjointSet

void
disjointSet(Ctx & c)
{
  Trace t(c, "DisjointSet");
  const int dom = c.pick(std::vector<int>{ 3, 8, 30 });
  DisjointSet<int> real;
  std::map<int, int> cls; // element -> class id
  int next = 0;
  auto agree = [&]
  {
    std::map<int, std::set<int>> classes;
    for (auto & [e, k] : cls)
      classes[k].insert(e);
    CHK(real.nvalues() == cls.size());
    CHK(real.nsets() == classes.size());
    CHK(real.empty() == cls.empty());
    std::set<std::set<int>> want, got;
    for (auto & [k, m] : classes)
      want.insert(m);
    size_t n = 0;
    for (auto & set : real)
    {
      CHK(set.is_root());
      std::set<int> m;
      size_t k = 0;
      for (auto & e : set)
      {
        CHK(k++ <= cls.size());
        m.insert(e);
      }
      CHK(k == m.size());
      CHK(set.nmembers() == m.size());
      CHK(m.count(set.value()) == 1);
      got.insert(m);
      n++;
    }
    CHK(n == classes.size());
    CHK(got == want);
    for (auto & [e, k] : cls)
    {
      auto s = real.find(e);
      CHK(s->is_root());
      CHK(s->nmembers() == classes[k].size());
      CHK(classes[k].count(s->value()) == 1);
      for (auto & [f, l] : cls)
        CHK((real.find(f) == s) == (k == l));
    }
  };
  int steps = c.range(1, 40);
  for (int s = 0; s < steps; s++)
  {
    int a = c.draw(dom), b = c.draw(dom);
    switch (c.draw(8))
    {
    case 0:
    case 1:
      t.op("insert ", a);
      if (!cls.count(a))
        cls[a] = next++;
      real.insert(a);
      break;
    case 2:
      t.op("find_or_insert ", a);
      if (!cls.count(a))
        cls[a] = next++;
      real.find_or_insert(a);
      break;
    case 3:
      if (c.draw(8) == 7)
      {
        t.op("clear");
        cls.clear();
        real.clear();
        break;
      }
      [[fallthrough]];
    default:
    {
      for (int x : { a, b })
        if (!cls.count(x))
        {
          t.op("insert ", x);
          cls[x] = next++;
          real.insert(x);
        }
      t.op("merge ", a, " ", b);
      int ka = cls[a], kb = cls[b];
      for (auto & [e, k] : cls)
        if (k == kb)
          k = ka;
      auto r = real.merge(a, b);
      CHK(r == real.find(a));
      CHK(r == real.find(b));
    }
    }
    if (c.draw(3) == 0 || s + 1 == steps)
      agree();
  }
  c.nontrivial = t.n >= 3;
}

// ---------------------------------------------------------------- intrusive list

struct Item
{
  explicit Item(int v)
      : v(v)
  {
    live++;
  }
  ~Item() noexcept
  {
    live--;
  }
  int v;
  IntrusiveListAnchor<Item> anchor{ nullptr, nullptr };
  IntrusiveHashAnchor<Item> hanchor{ nullptr, nullptr };
  static int live;
};
int Item::live = 0;

using ItemAccessor = IntrusiveListAccessor<Item, &Item::anchor>;

template<class List, bool owner>
void
intrusiveList(Ctx & c)
{
  Trace t(c, owner ? "OwnerIntrusiveList" : "IntrusiveList");
  Item::live = 0;
  {
    std::vector<std::unique_ptr<Item>> pool;
    List real[2];
    std::list<Item *> model[2];
    int next = 0;
    auto fresh = [&]
    {
      auto it = new Item(next++);
      if (!owner)
        pool.emplace_back(it);
      return it;
    };
    auto wrap = [&](Item * i)
    {
      if constexpr (owner)
        return std::unique_ptr<Item>(i);
      else
        return i;
    };
    auto at = [&](int i, size_t pos)
    {
      auto it = real[i].begin();
      for (size_t k = 0; k < pos; k++)
        ++it;
      return it;
    };
    auto agree = [&](int i)
    {
      std::vector<Item *> f, b, want(model[i].begin(), model[i].end());
      for (auto it = real[i].begin(); it != real[i].end(); ++it)
      {
        CHK(f.size() <= want.size());
        f.push_back(it.ptr());
      }
      CHK(f == want);
      auto it = real[i].end();
      for (size_t k = 0; k < want.size(); k++)
      {
        --it;
        b.push_back(it.ptr());
      }
      std::reverse(b.begin(), b.end());
      CHK(b == want);
      CHK(real[i].size() == want.size());
      CHK(real[i].empty() == want.empty());
      if constexpr (!owner)
      {
        CHK(real[i].first() == (want.empty() ? nullptr : want.front()));
        CHK(real[i].last() == (want.empty() ? nullptr : want.back()));
      }
      else
        CHK((size_t)Item::live == model[0].size() + model[1].size());
    };
    int steps = c.range(1, 40);
    for (int s = 0; s < steps; s++)
    {
      int i = c.draw(2), j = c.draw(2);
      size_t n = model[i].size();
      switch (c.draw(11))
      {
      case 0:
      case 1:
      {
        auto x = fresh();
        t.op("l", i, ".push_back(", x->v, ")");
        model[i].push_back(x);
        real[i].push_back(wrap(x));
        break;
      }
      case 2:
      {
        auto x = fresh();
        t.op("l", i, ".push_front(", x->v, ")");
        model[i].push_front(x);
        real[i].push_front(wrap(x));
        break;
      }
      case 3:
      case 4:
      {
        auto x = fresh();
        size_t pos = c.draw(n + 1);
        t.op("l", i, ".insert(", pos, ", ", x->v, ")");
        model[i].insert(std::next(model[i].begin(), pos), x);
        auto it = real[i].insert(at(i, pos), wrap(x));
        CHK(it.ptr() == x);
        break;
      }
      case 5:
      {
        if (!n)
          break;
        size_t pos = c.draw(n);
        t.op("l", i, ".erase(", pos, ")");
        auto m = std::next(model[i].begin(), pos);
        auto p = *m;
        model[i].erase(m);
        switch (c.draw(2))
        {
        case 0:
          real[i].erase(at(i, pos));
          break;
        default:
          real[i].erase(p);
        }
        break;
      }
      case 6:
      {
        size_t a = c.draw(n + 1), b = a + c.draw(n - a + 1);
        t.op("l", i, ".erase(", a, ", ", b, ")");
        model[i].erase(std::next(model[i].begin(), a), std::next(model[i].begin(), b));
        real[i].erase(at(i, a), at(i, b));
        break;
      }
      case 7:
      {
        // splice a range
        size_t m = model[j].size();
        size_t a = c.draw(m + 1), b = a + c.draw(m - a + 1);
        size_t pos = c.draw(n + 1);
        if (i == j && pos >= a && pos < b)
          pos = b;
        t.op("l", i, ".splice(", pos, ", l", j, ", ", a, ", ", b, ")");
        auto rp = at(i, pos);
        auto ra = at(j, a), rb = at(j, b);
        auto mp = std::next(model[i].begin(), pos);
        auto ma = std::next(model[j].begin(), a), mb = std::next(model[j].begin(), b);
        if (b == a + 1 && c.draw(2))
          real[i].splice(rp, real[j], ra);
        else
          real[i].splice(rp, real[j], ra, rb);
        model[i].splice(mp, model[j], ma, mb);
        break;
      }
      case 8:
      {
        size_t pos = c.draw(n + 1);
        if (i == j)
          break;
        t.op("l", i, ".splice(", pos, ", l", j, ")");
        real[i].splice(at(i, pos), real[j]);
        model[i].splice(std::next(model[i].begin(), pos), model[j]);
        break;
      }
      case 9:
      {
        if (c.draw(2))
        {
          t.op("swap");
          real[0].swap(real[1]);
          model[0].swap(model[1]);
        }
        else
        {
          t.op("clear l", i);
          real[i].clear();
          model[i].clear();
        }
        break;
      }
      default:
        if constexpr (owner)
        {
          if (!n)
            break;
          size_t pos = c.draw(n);
          t.op("l", i, ".unlink(", pos, ")");
          auto m = std::next(model[i].begin(), pos);
          auto u = real[i].unlink(at(i, pos));
          CHK(u.get() == *m);
          model[i].erase(m);
          u.reset();
        }
      }
      agree(0);
      agree(1);
    }
  }
  CHK(Item::live == 0);
  c.nontrivial = t.n >= 3;
}

// ---------------------------------------------------------------- intrusive hash

template<int how>
struct WeakHash
{
  size_t
  operator()(int k) const noexcept
  {
    return how == 0 ? (size_t)k : how == 1 ? (size_t)k % 3 : 7;
  }
};

template<int how>
void
intrusiveHash(Ctx & c)
{
  Trace t(c, "IntrusiveHash");
  Item::live = 0;
  using Hash = IntrusiveHash<int, Item, IntrusiveHashAccessor<int, Item, &Item::v, &Item::hanchor>, WeakHash<how>>;
  const int dom = c.pick(std::vector<int>{ 4, 12, 60 });
  std::vector<std::unique_ptr<Item>> pool;
  Hash real[2];
  std::map<int, Item *> model[2];
  auto agree = [&](int i)
  {
    std::set<Item *> got, want;
    size_t n = 0;
    for (auto it = real[i].begin(); it != real[i].end(); ++it)
    {
      CHK(n++ <= model[i].size());
      got.insert(it.ptr());
    }
    for (auto & [k, p] : model[i])
      want.insert(p);
    CHK(got == want);
    CHK(n == want.size());
    CHK(real[i].size() == want.size());
    CHK(real[i].empty() == want.empty());
    for (int k = 0; k < dom; k++)
    {
      auto it = real[i].find(k);
      CHK((it == real[i].end()) == !model[i].count(k));
      if (model[i].count(k))
        CHK(it.ptr() == model[i][k]);
    }
  };
  int steps = c.range(1, 50);
  for (int s = 0; s < steps; s++)
  {
    int i = c.draw(2), k = c.draw(dom);
    switch (c.draw(10))
    {
    case 0:
    case 1:
    case 2:
    case 3:
    case 4:
    {
      if (model[i].count(k))
        break;
      t.op("h", i, ".insert(", k, ")");
      pool.emplace_back(new Item(k));
      auto p = pool.back().get();
      model[i][k] = p;
      CHK(real[i].insert(p).ptr() == p);
      break;
    }
    case 5:
      t.op("h", i, ".erase(", k, ")");
      real[i].erase(k);
      model[i].erase(k);
      break;
    case 6:
      if (model[i].count(k))
      {
        t.op("h", i, ".erase(element ", k, ")");
        if (c.draw(2))
          real[i].erase(model[i][k]);
        else
          real[i].erase(real[i].find(k));
        model[i].erase(k);
      }
      break;
    case 7:
    {
      t.op("erase a prefix of h", i);
      size_t n = c.draw(model[i].size() + 1);
      auto e = real[i].begin();
      for (size_t q = 0; q < n; q++)
      {
        model[i].erase(e->v);
        ++e;
      }
      real[i].erase(real[i].begin(), e);
      break;
    }
    case 8:
      t.op("swap");
      real[0].swap(real[1]);
      model[0].swap(model[1]);
      break;
    default:
      if (c.draw(3) == 2)
      {
        t.op("clear h", i);
        real[i].clear();
        model[i].clear();
      }
    }
    agree(0);
    agree(1);
  }
  c.nontrivial = t.n >= 3;
}

// ---------------------------------------------------------------- worklists

template<class W>
void
worklist(Ctx & c, int kind, const char * name)
{
  Trace t(c, name);
  const int dom = c.pick(std::vector<int>{ 3, 8, 20 });
  W w;
  std::set<int> pending;
  std::deque<int> order;             // LIFO, FIFO
  std::map<int, size_t> fired;       // last fire time
  std::set<int> current;             // two phase
  size_t clock = 0;
  int steps = c.range(1, 60);
  for (int s = 0; s < steps || !pending.empty(); s++)
  {
    CHK(w.HasMoreWorkItems() == !pending.empty());
    if (s < steps && (pending.empty() || c.draw(5) < 3))
    {
      int x = c.draw(dom);
      t.op("push ", x);
      w.PushWorkItem(x);
      if (pending.insert(x).second)
        order.push_back(x);
      continue;
    }
    int x = w.PopWorkItem();
    t.op("pop -> ", x);
    CHK(pending.count(x) == 1);
    if (kind == 0)
      CHK(order.back() == x);
    if (kind == 1)
      CHK(order.front() == x);
    if (kind == 2)
      for (int y : pending)
        CHK(fired[x] <= fired[y]);
    if (kind == 3)
    {
      if (current.empty())
        current = pending;
      CHK(current.count(x) == 1);
      for (int y : current)
        CHK(fired[x] <= fired[y]);
      current.erase(x);
    }
    pending.erase(x);
    order.erase(std::find(order.begin(), order.end(), x));
    fired[x] = ++clock;
  }
  CHK(!w.HasMoreWorkItems());
  c.nontrivial = t.n >= 4;
}

void
workset(Ctx & c)
{
  Trace t(c, "Workset");
  Workset<int> w;
  std::set<int> m;
  int steps = c.range(1, 40);
  for (int s = 0; s < steps; s++)
  {
    int x = c.draw(6);
    if (c.draw(2))
    {
      t.op("push ", x);
      w.PushWorkItem(x);
      m.insert(x);
    }
    else
    {
      t.op("remove ", x);
      w.RemoveWorkItem(x);
      m.erase(x);
    }
    CHK(w.HasMoreWorkItems() == !m.empty());
    for (int y = 0; y < 6; y++)
      CHK(w.HasWorkItem(y) == (m.count(y) == 1));
  }
  c.nontrivial = t.n >= 3;
}

// ---------------------------------------------------------------- strongly connected components

void
scc(Ctx & c)
{
  Trace t(c, "FindStronglyConnectedComponents");
  size_t n = c.range(0, c.pick(std::vector<int>{ 6, 6, 16 }));
  std::vector<size_t> root(n);
  bool unify = n && c.draw(2);
  for (size_t i = 0; i < n; i++)
    root[i] = i;
  if (unify)
    for (size_t k = c.draw(n); k > 0; k--)
    {
      size_t a = root[c.draw(n)], b = root[c.draw(n)];
      for (auto & r : root)
        if (r == b)
          r = a;
    }
  std::vector<std::vector<size_t>> succ(n);
  std::ostringstream g;
  if (n)
    for (size_t e = c.draw(n * 2 + 2); e > 0; e--)
    {
      size_t a = c.draw(n), b = c.draw(n);
      succ[root[a]].push_back(b);
      g << root[a] << "->" << b << " ";
    }
  g << "roots";
  for (auto r : root)
    g << " " << r;
  t.op(g.str());
  // reachability between roots
  std::vector<std::vector<char>> reach(n, std::vector<char>(n, 0));
  for (size_t i = 0; i < n; i++)
    if (root[i] == i)
    {
      std::vector<size_t> st{ i };
      reach[i][i] = 1;
      while (!st.empty())
      {
        auto v = st.back();
        st.pop_back();
        for (auto s : succ[v])
          if (!reach[i][root[s]])
          {
            reach[i][root[s]] = 1;
            st.push_back(root[s]);
          }
      }
    }
  std::vector<size_t> index(c.draw(3), 77), topo(c.draw(3), 77);
  size_t count;
  auto getSucc = [&](size_t v) -> const std::vector<size_t> & { return succ[v]; };
  if (unify)
    count = FindStronglyConnectedComponents<size_t>(n, [&](size_t v) { return root[v]; }, getSucc, index, topo);
  else
    count = FindStronglyConnectedComponents<size_t>(n, getSucc, index, topo);
  std::set<size_t> used;
  std::vector<size_t> roots;
  CHK(index.size() == n);
  for (size_t i = 0; i < n; i++)
  {
    if (root[i] != i)
      continue;
    roots.push_back(i);
    used.insert(index[i]);
    CHK(index[i] < count);
    for (size_t j = 0; j < n; j++)
    {
      if (root[j] != j)
        continue;
      CHK((index[i] == index[j]) == (reach[i][j] && reach[j][i]));
      if (reach[i][j])
        CHK(index[i] >= index[j]);
    }
  }
  CHK(used.size() == count);
  auto sorted = topo;
  std::sort(sorted.begin(), sorted.end());
  CHK(sorted == roots);
  for (size_t k = 1; k < topo.size(); k++)
    CHK(index[topo[k - 1]] <= index[topo[k]]);
  c.nontrivial = roots.size() >= 2;
}

// ---------------------------------------------------------------- numbers

template<class T>
void
numbersOf(Ctx & c, Trace & t, const char * type)
{
  __int128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  for (int k = 0; k < 12; k++)
  {
    T v = (T)c.bits64(), m = (T)c.bits64();
    t.op(type, " ", std::to_string((long long)v), " ", std::to_string((long long)m));
    int l = -1;
    for (int b = 0; b < (int)sizeof(T) * 8; b++)
      if ((__int128)v >= ((__int128)1 << b))
        l = b;
    CHK(log2Floor<T>(v) == l);
    __int128 p = 1;
    while (p < (__int128)v)
      p *= 2;
    if (p <= hi)
      CHK((__int128)RoundUpToPowerOf2<T>(v) == p);
    int bits = 0;
    auto u = (std::make_unsigned_t<T>)v;
    while (bits < (int)sizeof(T) * 8 && ((unsigned __int128)u >> bits))
      bits++;
    CHK(BitsRequiredToRepresent<T>(v) == bits);
    if (m > 0)
    {
      __int128 q = (__int128)v / m;
      if (q * m < v)
        q++;
      __int128 r = q * m;
      if (r <= hi && r >= lo && (__int128)v + m <= hi)
        CHK((__int128)RoundUpToMultipleOf<T>(v, m) == r);
    }
  }
}

void
numbers(Ctx & c)
{
  Trace t(c, "numbers");
  switch (c.draw(8))
  {
  case 0:
    numbersOf<int32_t>(c, t, "i32");
    break;
  case 1:
    numbersOf<uint64_t>(c, t, "u64");
    break;
  case 2:
    numbersOf<int64_t>(c, t, "i64");
    break;
  case 3:
    numbersOf<uint32_t>(c, t, "u32");
    break;
  default:
    for (int k = 0; k < 12; k++)
    {
      int64_t v = (int64_t)c.bits64();
      uint64_t n = c.draw(65);
      t.op("truncate ", v, " to ", n, " bits");
      uint64_t mask = n == 64 ? ~0ull : (1ull << n) - 1;
      uint64_t z = (uint64_t)v & mask, s = z;
      if (n && n < 64 && (z >> (n - 1) & 1))
        s |= ~mask;
      CHK(truncateAndZeroExtend(v, n) == (int64_t)z);
      CHK(truncateAndSignExtend(v, n) == (int64_t)s);
    }
  }
  c.nontrivial = true;
}

// ---------------------------------------------------------------- file paths

void
paths(Ctx & c)
{
  Trace t(c, "FilePath");
  auto component = [&]
  {
    static const std::vector<std::string> atoms{ "a", "b.c", ".", "..", "x.tar.gz", "foo", ".hid", "d.", "e f", "..z", "q.r.s.t" };
    return c.pick(atoms);
  };
  auto make = [&](bool & doubled)
  {
    std::string p;
    doubled = false;
    if (c.draw(2))
      p = "/";
    int n = c.draw(5);
    for (int i = 0; i < n; i++)
    {
      p += component();
      if (i + 1 < n || c.draw(3) == 2)
        p += "/";
    }
    if (c.draw(4) == 3 && !p.empty())
    {
      p.insert(c.draw(p.size() + 1), "/");
      for (size_t i = 0; i + 1 < p.size(); i++)
        doubled |= p[i] == '/' && p[i + 1] == '/';
    }
    return p;
  };
  for (int k = 0; k < 6; k++)
  {
    bool dbl, dbl2;
    std::string s = make(dbl), o = make(dbl2);
    t.op("'", s, "' and '", o, "'");
    FilePath f(s);
    CHK(f.to_str() == s);
    CHK(f == s && f == FilePath(s) && (f == o) == (s == o));
    // components by hand
    std::string name;
    for (char ch : s)
      if (ch == '/')
        name.clear();
      else
        name += ch;
    CHK(f.name() == name, f.name());
    auto dot = name.find('.'), rdot = name.rfind('.');
    CHK(f.base() == (dot == std::string::npos ? name : name.substr(0, dot)), f.base());
    if (dot != std::string::npos)
    {
      CHK(f.complete_suffix() == name.substr(dot + 1), f.complete_suffix());
      CHK(f.suffix() == name.substr(rdot + 1), f.suffix());
    }
    CHK(f.WithSuffix(o).to_str() == s + o);
    // what dirname(1) says
    std::string d = s;
    while (d.size() > 1 && d.back() == '/')
      d.pop_back();
    if (d == "/")
      ;
    else
    {
      while (!d.empty() && d.back() != '/')
        d.pop_back();
      if (d.empty())
        d = ".";
      while (d.size() > 1 && d.back() == '/')
        d.pop_back();
    }
    CHK(f.Dirname().to_str() == d, "'" + f.Dirname().to_str() + "' instead of '" + d + "'");
    // joining
    std::string j;
    if (!o.empty() && o[0] == '/')
      j = o;
    else if (s == "." || s.empty())
      j = o;
    else
      j = s + (s.back() == '/' ? "" : "/") + o;
    CHK(f.Join(o).to_str() == j, "'" + f.Join(o).to_str() + "' instead of '" + j + "'");
    CHK(f.Join(FilePath(o)) == f.Join(o));
  }
  c.nontrivial = true;
}

struct Reg
{
  Reg()
  {
    auto add = [](const char * id, const char * rule, uint64_t quick, std::vector<std::pair<std::string, std::function<void(Ctx &)>>> fs)
    {
      pbt::Property p;
      p.id = id;
      p.rule = rule;
      p.quickCases = quick;
      p.thoroughCases = quick * 20;
      p.batch = 512;
      p.run = [fs](Ctx & c)
      {
        size_t i = c.draw(fs.size());
        c.label(fs[i].first);
        fs[i].second(c);
        c.sample = fs[i].first;
      };
      pbt::registerProperty(std::move(p));
    };
    add("U01",
        "A case is a sequence of up to 50 operations on two or three collections of one kind, mirrored on std:: containers and "
        "compared after every step. Non-trivial if at least three operations took effect.",
        300000,
        { { "HashSet", hashSet },
          { "BijectiveMap", bijectiveMap },
          { "DisjointSet", disjointSet },
          { "IntrusiveList", intrusiveList<IntrusiveList<Item, ItemAccessor>, false> },
          { "OwnerIntrusiveList", intrusiveList<OwnerIntrusiveList<Item, ItemAccessor>, true> },
          { "IntrusiveHash", intrusiveHash<0> },
          { "IntrusiveHash, colliding keys", intrusiveHash<1> },
          { "IntrusiveHash, one bucket", intrusiveHash<2> } });
    add("U02",
        "A case is either a push/pop history of up to 60 steps on one worklist, drained at the end, or a random directed graph "
        "with up to 16 nodes and optional unifications. Non-trivial if at least four steps were made or two roots exist.",
        300000,
        { { "LifoWorklist", [](Ctx & c) { worklist<LifoWorklist<int>>(c, 0, "LifoWorklist"); } },
          { "FifoWorklist", [](Ctx & c) { worklist<FifoWorklist<int>>(c, 1, "FifoWorklist"); } },
          { "LrfWorklist", [](Ctx & c) { worklist<LrfWorklist<int>>(c, 2, "LrfWorklist"); } },
          { "TwoPhaseLrfWorklist", [](Ctx & c) { worklist<TwoPhaseLrfWorklist<int>>(c, 3, "TwoPhaseLrfWorklist"); } },
          { "Workset", workset },
          { "scc", scc },
          { "scc", scc } });
    add("U03",
        "A case is a dozen random numbers of one type (edge values preferred), or six pairs of path strings built from awkward "
        "components. Every case is non-trivial.",
        300000,
        { { "numbers", numbers }, { "paths", paths } });
  }
} reg;
}
