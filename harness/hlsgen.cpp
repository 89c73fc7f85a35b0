// Generates kernels within the subset that high-level synthesis supports.
#include "hls.hpp"
#include "irgen.hpp"
#include "pipe.hpp"

#include <llvm/IR/Module.h>

namespace hlscheck
{

namespace
{

struct Mem
{
  std::string ptr;   // expression of its base in the kernel
  std::string name;  // of the global, or empty for local arrays
  unsigned bits;     // of an element; 0: double
  unsigned n;        // number of elements, a power of two
  bool constant = false;
  enum
  {
    Arg,
    Global,
    Local
  } kind = Arg;
};

struct Gen
{
  pbt::Ctx & c;
  const KernelOpts & o;
  std::string body, entry, globals;
  unsigned tmp = 0, lbl = 0, depth = 0, budget;
  struct Var
  {
    std::string name;
    unsigned bits; // 0: double
  };
  std::vector<Var> vars;
  std::vector<Mem> mems;
  bool indirect = false;
  unsigned hidBits = 32, hidN = 4, hidCount = 2;

  Gen(pbt::Ctx & c, const KernelOpts & o)
      : c(c),
        o(o),
        budget(o.stmts)
  {}

  static std::string
  ty(unsigned bits)
  {
    return bits ? "i" + std::to_string(bits) : "double";
  }
  std::string
  emit(const std::string & e)
  {
    auto n = "%t" + std::to_string(tmp++);
    body += "  " + n + " = " + e + "\n";
    return n;
  }
  void
  line(const std::string & e)
  {
    body += "  " + e + "\n";
  }
  void
  label(const std::string & l)
  {
    body += l + ":\n";
  }
  std::string
  newLabel()
  {
    return "l" + std::to_string(lbl++);
  }

  std::string
  constant(unsigned bits)
  {
    if (!bits)
    {
      static const char * k[] = { "0.0", "1.0", "-1.0", "2.0", "5.000000e-01", "3.0" };
      return k[c.draw(6)];
    }
    if (bits == 1)
      return c.draw(2) ? "true" : "false";
    uint64_t v = c.draw(3) ? c.draw(9) : c.bits64();
    if (c.draw(5) == 4)
      v = -v;
    v &= bits == 64 ? ~0ull : (1ull << bits) - 1;
    int64_t s = (int64_t)(v << (64 - bits)) >> (64 - bits);
    return std::to_string(s);
  }

  std::string
  cast(const std::string & v, unsigned from, unsigned to)
  {
    if (from == to)
      return v;
    if (!from)
      return cast(emit("fcmp ogt double " + v + ", 0.5"), 1, to);
    if (!to)
      return emit("sitofp " + ty(from) + " " + v + " to double");
    if (from > to)
      return emit("trunc " + ty(from) + " " + v + " to " + ty(to));
    return emit(std::string(c.draw(2) ? "sext " : "zext ") + ty(from) + " " + v + " to " + ty(to));
  }

  std::string
  readVar(unsigned bits)
  {
    std::vector<const Var *> same, ints;
    for (auto & v : vars)
    {
      if (v.bits == bits)
        same.push_back(&v);
      if (v.bits || !bits)
        ints.push_back(&v);
    }
    if (ints.empty())
      return constant(bits);
    const Var * v;
    if (!same.empty() && c.draw(4))
      v = same[c.draw(same.size())];
    else
      v = ints[c.draw(ints.size())];
    auto r = emit("load " + ty(v->bits) + ", ptr " + v->name);
    return cast(r, v->bits, bits);
  }

  std::string
  index(unsigned n, unsigned d)
  {
    auto e = expr(64, d);
    return emit("and i64 " + e + ", " + std::to_string(n - 1));
  }

  std::string
  address(const Mem & m, unsigned d)
  {
    auto i = index(m.n, d);
    if (m.kind == Mem::Local || (m.kind == Mem::Global && c.draw(2)))
      return emit("getelementptr [" + std::to_string(m.n) + " x " + ty(m.bits) + "], ptr " + m.ptr + ", i64 0, i64 " + i);
    return emit("getelementptr " + ty(m.bits) + ", ptr " + m.ptr + ", i64 " + i);
  }

  std::string
  hidden(unsigned d)
  {
    auto i = index(2, d);
    auto p = emit("getelementptr ptr, ptr @ptab, i64 " + i);
    auto q = emit("load ptr, ptr " + p);
    auto j = index(hidN, d);
    return emit("getelementptr " + ty(hidBits) + ", ptr " + q + ", i64 " + j);
  }

  std::string
  loadMem(unsigned bits, unsigned d)
  {
    if (indirect && bits && c.draw(5) == 4)
    {
      auto a = hidden(d);
      return cast(emit("load " + ty(hidBits) + ", ptr " + a), hidBits, bits);
    }
    std::vector<const Mem *> ms;
    for (auto & m : mems)
      if (!!m.bits == !!bits)
        ms.push_back(&m);
    if (ms.empty())
      return readVar(bits);
    auto m = ms[c.draw(ms.size())];
    auto a = address(*m, d);
    return cast(emit("load " + ty(m->bits) + ", ptr " + a), m->bits, bits);
  }

  std::string
  cond(unsigned d)
  {
    if (o.fp && c.draw(6) == 5)
    {
      static const char * fp[] = { "oeq", "olt", "ogt", "ole", "une" };
      auto a = expr(0, d), b = expr(0, d);
      return emit(std::string("fcmp ") + fp[c.draw(5)] + " double " + a + ", " + b);
    }
    static const char * ps[] = { "eq", "ne", "slt", "sgt", "sle", "sge", "ult", "ugt", "ule", "uge" };
    unsigned bits = width();
    auto a = expr(bits, d), b = c.draw(2) ? constant(bits) : expr(bits, d);
    return emit(std::string("icmp ") + ps[c.draw(10)] + " " + ty(bits) + " " + a + ", " + b);
  }

  unsigned
  width()
  {
    static const unsigned w[] = { 64, 32, 64, 8, 16 };
    return w[c.draw(5)];
  }

  std::string
  expr(unsigned bits, unsigned d)
  {
    if (!bits)
    {
      switch (d ? c.draw(5) : c.draw(2))
      {
      case 0:
        return readVar(0);
      case 1:
        return constant(0);
      case 2:
        return loadMem(0, d - 1);
      default:
      {
        static const char * ops[] = { "fadd", "fsub", "fmul" };
        auto a = expr(0, d - 1), b = expr(0, d - 1);
        return emit(std::string(ops[c.draw(3)]) + " double " + a + ", " + b);
      }
      }
    }
    switch (d ? c.draw(8) : c.draw(3))
    {
    case 0:
    case 1:
      return readVar(bits);
    case 2:
      return constant(bits);
    case 3:
    case 4:
      return loadMem(bits, d - 1);
    case 5:
      return cast(cond(d - 1), 1, bits);
    default:
    {
      auto a = expr(bits, d - 1);
      auto w = c.draw(12);
      if (w < 7)
      {
        static const char * ops[] = { "add", "sub", "xor", "and", "or", "mul", "add" };
        return emit(std::string(ops[w]) + " " + ty(bits) + " " + a + ", " + expr(bits, d - 1));
      }
      if (w < 10)
      {
        static const char * ops[] = { "shl", "lshr", "ashr" };
        std::string s;
        if (c.draw(2))
          s = std::to_string(c.draw(bits));
        else
          s = emit("and " + ty(bits) + " " + expr(bits, d - 1) + ", " + std::to_string(bits - 1));
        return emit(std::string(ops[w - 7]) + " " + ty(bits) + " " + a + ", " + s);
      }
      static const char * ops[] = { "sdiv", "srem", "udiv", "urem" };
      auto x = emit("and " + ty(bits) + " " + expr(bits, d - 1) + ", 7");
      auto y = emit("or " + ty(bits) + " " + x + ", 1");
      return emit(std::string(ops[c.draw(4)]) + " " + ty(bits) + " " + a + ", " + y);
    }
    }
  }

  void
  assign()
  {
    std::vector<Var> ws;
    for (auto & v : vars)
      if (v.name[1] == 'v')
        ws.push_back(v);
    auto & v = ws[c.draw(ws.size())];
    auto name = v.name;
    auto bits = v.bits;
    auto e = expr(bits, 2);
    line("store " + ty(bits) + " " + e + ", ptr " + name);
  }

  void
  store()
  {
    if (indirect && c.draw(5) == 4)
    {
      auto e = expr(hidBits, 1);
      auto a = hidden(1);
      line("store " + ty(hidBits) + " " + e + ", ptr " + a);
      return;
    }
    std::vector<const Mem *> ms;
    for (auto & m : mems)
      if (!m.constant)
        ms.push_back(&m);
    if (ms.empty())
      return assign();
    auto m = ms[c.draw(ms.size())];
    auto e = expr(m->bits, 1);
    auto a = address(*m, 1);
    line("store " + ty(m->bits) + " " + e + ", ptr " + a);
  }

  void
  block()
  {
    unsigned n = 1 + c.draw(3);
    depth++;
    while (n--)
      stmt();
    depth--;
  }

  void
  stmt()
  {
    if (!budget)
      return;
    budget--;
    unsigned k = depth < 3 ? c.draw(10) : c.draw(5);
    switch (k)
    {
    case 0:
    case 1:
      return assign();
    case 2:
    case 3:
    case 4:
      return store();
    case 5:
    case 6:
    {
      auto t = newLabel(), e = newLabel();
      bool hasElse = c.draw(2);
      auto f = hasElse ? newLabel() : e;
      auto x = cond(1);
      line("br i1 " + x + ", label %" + t + ", label %" + f);
      label(t);
      block();
      line("br label %" + e);
      if (hasElse)
      {
        label(f);
        block();
        line("br label %" + e);
      }
      label(e);
      return;
    }
    case 7:
    {
      auto e = newLabel();
      unsigned n = 2 + c.draw(3);
      std::vector<std::string> ls;
      for (unsigned i = 0; i < n; i++)
        ls.push_back(newLabel());
      unsigned bits = width();
      auto x = emit("and " + ty(bits) + " " + expr(bits, 1) + ", 7");
      std::string s = "switch " + ty(bits) + " " + x + ", label %" + ls[0] + " [";
      uint64_t used = 0;
      for (unsigned i = 1; i < n; i++)
      {
        uint64_t v = c.draw(8);
        while (used >> v & 1)
          v = (v + 1) % 8;
        used |= 1ull << v;
        s += " " + ty(bits) + " " + std::to_string(v) + ", label %" + ls[i];
      }
      line(s + " ]");
      for (auto & l : ls)
      {
        label(l);
        if (c.draw(3))
          block();
        line("br label %" + e);
      }
      label(e);
      return;
    }
    default:
      if (!o.loops)
        return store();
      return loop();
    }
  }

  void
  loop()
  {
    auto i = "%c" + std::to_string(tmp++);
    entry += "  " + i + " = alloca i64\n";
    line("store i64 0, ptr " + i);
    std::string bound;
    if (c.draw(2))
      bound = std::to_string(1 + c.draw(5));
    else
      bound = emit("and i64 " + expr(64, 1) + ", " + (c.draw(3) ? "3" : "7"));
    bool tail = c.draw(2);
    bool extra = c.draw(4) == 3;
    auto head = newLabel(), bodyL = newLabel(), exit = newLabel();
    line("br label %" + head);
    label(head);
    if (!tail)
    {
      auto v = emit("load i64, ptr " + i);
      auto x = emit("icmp ult i64 " + v + ", " + bound);
      if (extra)
        x = emit("and i1 " + x + ", " + cond(1));
      line("br i1 " + x + ", label %" + bodyL + ", label %" + exit);
      label(bodyL);
    }
    vars.push_back({ i, 64 });
    auto nv = vars.size();
    block(); // may read the counter, but not assign it
    vars.resize(nv - 1);
    auto v = emit("load i64, ptr " + i);
    auto w = emit("add i64 " + v + ", 1");
    line("store i64 " + w + ", ptr " + i);
    if (tail)
    {
      auto x = emit("icmp ult i64 " + w + ", " + bound);
      if (extra)
        x = emit("and i1 " + x + ", " + cond(1));
      line("br i1 " + x + ", label %" + head + ", label %" + exit);
    }
    else
      line("br label %" + head);
    label(exit);
  }

  std::string
  run()
  {
    std::string params, init;
    auto addGlobal = [&](const Mem & m)
    {
      std::string s = "@" + m.name + " = " + (m.constant ? "constant" : "global") + " [" + std::to_string(m.n) + " x "
                    + ty(m.bits) + "] [";
      for (unsigned i = 0; i < m.n; i++)
        s += (i ? ", " : "") + ty(m.bits) + " " + constant(m.bits);
      globals += s + "]\n";
    };
    unsigned nm = 1 + c.draw(3);
    for (unsigned i = 0; i < nm; i++)
    {
      Mem m;
      static const unsigned w[] = { 32, 64, 8, 16, 0 };
      m.bits = w[c.draw(o.fp ? 5 : 4)];
      m.n = 2u << c.draw(3);
      m.name = "buf" + std::to_string(i);
      m.kind = c.draw(3) == 2 ? Mem::Global : Mem::Arg;
      m.constant = m.kind == Mem::Global && c.draw(3) == 2;
      addGlobal(m);
      if (m.kind == Mem::Arg)
      {
        m.ptr = "%p" + std::to_string(i);
        params += "ptr " + m.ptr + ", ";
      }
      else
        m.ptr = "@" + m.name;
      mems.push_back(m);
    }
    if (o.indirect && c.draw(5) == 4)
    {
      indirect = true;
      hidBits = c.draw(2) ? 32 : 64;
      for (unsigned i = 0; i < 2; i++)
      {
        Mem m;
        m.bits = hidBits;
        m.n = hidN;
        m.name = "hid" + std::to_string(i);
        addGlobal(m);
      }
      globals += "@ptab = global [2 x ptr] [ptr @hid0, ptr @hid1]\n";
    }
    unsigned nv = 2 + c.draw(3);
    for (unsigned i = 0; i < nv; i++)
    {
      static const unsigned w[] = { 64, 32, 64, 8, 0 };
      Var v{ "%v" + std::to_string(i), w[c.draw(o.fp ? 5 : 4)] };
      entry += "  " + v.name + " = alloca " + ty(v.bits) + "\n";
      std::string x;
      if (i < 2)
        x = cast(i ? "%b" : "%a", 64, v.bits);
      else
        x = constant(v.bits);
      line("store " + ty(v.bits) + " " + x + ", ptr " + v.name);
      vars.push_back(v);
    }
    if (o.local && c.draw(4) == 3)
    {
      unsigned nl = 1 + c.draw(2);
      for (unsigned i = 0; i < nl; i++)
      {
        Mem m;
        m.kind = Mem::Local;
        m.bits = c.draw(2) ? 32 : 64;
        m.n = 2u << c.draw(2);
        m.ptr = "%loc" + std::to_string(i);
        entry += "  " + m.ptr + " = alloca [" + std::to_string(m.n) + " x " + ty(m.bits) + "]\n";
        for (unsigned j = 0; j < m.n; j++)
        {
          auto a = emit(
              "getelementptr [" + std::to_string(m.n) + " x " + ty(m.bits) + "], ptr " + m.ptr + ", i64 0, i64 "
              + std::to_string(j));
          line("store " + ty(m.bits) + " " + constant(m.bits) + ", ptr " + a);
        }
        mems.push_back(m);
      }
    }
    while (budget)
      stmt();
    std::string r = "1234567";
    for (auto & v : vars)
    {
      std::string x;
      if (v.bits)
      {
        auto y = emit("load " + ty(v.bits) + ", ptr " + v.name);
        x = v.bits == 64 ? y : emit("zext " + ty(v.bits) + " " + y + " to i64");
      }
      else
      {
        auto y = emit("load double, ptr " + v.name);
        x = emit("zext i1 " + emit("fcmp olt double " + y + ", 3.0") + " to i64");
      }
      auto m = emit("mul i64 " + r + ", 31");
      r = emit("add i64 " + m + ", " + x);
    }
    line("ret i64 " + r);
    return globals + "\ndefine i64 @kernel(" + params + "i64 %a, i64 %b) {\n" + entry + body + "}\n";
  }
};

}

std::string
generateKernel(pbt::Ctx & c, const KernelOpts & o)
{
  Gen g(c, o);
  auto text = g.run();
  static const char * pipes[] = { "function(mem2reg)", "function(mem2reg,loop-simplify,loop(loop-rotate))",
                                  "function(mem2reg,early-cse)", "function(mem2reg,dce,gvn)" };
  auto k = c.draw(4);
  llvm::LLVMContext ctx;
  auto m = pipeline::parse(text, ctx);
  gen::runPasses(*m, pipes[k]);
  return gen::print(*m);
}

}
