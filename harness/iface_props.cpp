// R03: what a module offers to and demands of the linker and the code generator survives.
#include "pbt.hpp"
#include "pipe.hpp"

#include <llvm/IR/Constants.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/DepthFirstIterator.h>
#include <llvm/IR/CFG.h>

#include <set>
#include <sstream>

namespace
{
using pbt::Ctx;
typedef std::vector<std::string> Strs;

std::string
typeText(llvm::Type * t)
{
  if (auto s = llvm::dyn_cast<llvm::StructType>(t))
  {
    if (s->isOpaque())
      return "opaque";
    std::string r = s->isPacked() ? "<{" : "{";
    for (auto e : s->elements())
      r += typeText(e) + ",";
    return r + "}";
  }
  if (auto a = llvm::dyn_cast<llvm::ArrayType>(t))
    return "[" + std::to_string(a->getNumElements()) + " x " + typeText(a->getElementType()) + "]";
  if (auto f = llvm::dyn_cast<llvm::FunctionType>(t))
  {
    std::string r = typeText(f->getReturnType()) + "(";
    for (auto p : f->params())
      r += typeText(p) + ",";
    return r + (f->isVarArg() ? "...)" : ")");
  }
  std::string s;
  llvm::raw_string_ostream os(s);
  t->print(os);
  return os.str();
}

std::string
attrText(const llvm::AttributeSet & as)
{
  std::set<std::string> v;
  for (auto a : as)
    v.insert(a.isTypeAttribute() && a.getValueAsType()
                 ? llvm::Attribute::getNameFromAttrKind(a.getKindAsEnum()).str() + "(" + typeText(a.getValueAsType()) + ")"
                 : a.getAsString());
  std::string s = "{";
  for (auto & x : v)
    s += x + " ";
  return s + "}";
}

std::string
linkageText(llvm::GlobalValue & g)
{
  static const char * n[] = { "external", "available_externally", "linkonce", "linkonce_odr", "weak",       "weak_odr",
                              "appending", "internal",            "private",  "extern_weak",  "common" };
  return n[g.getLinkage()];
}

std::string
describe(llvm::GlobalVariable & g)
{
  std::ostringstream o;
  o << linkageText(g) << (g.isConstant() ? " constant " : " global ") << typeText(g.getValueType()) << " align "
    << g.getPointerAlignment(g.getParent()->getDataLayout()).value();
  if (g.hasInitializer()) // jlm does not model sections of declarations
    o << " section '" << g.getSection().str() << "'";
  o << (g.hasInitializer() ? " initialised" : " external");
  return o.str();
}

std::string
describe(llvm::Function & f)
{
  std::ostringstream o;
  o << linkageText(f) << (f.isDeclaration() ? " declare " : " define ") << "cc" << f.getCallingConv() << " "
    << typeText(f.getFunctionType());
  if (f.isDeclaration()) // jlm does not model attributes of declarations
    return o.str();
  o << " " << attrText(f.getAttributes().getFnAttrs());
    for (unsigned i = 0; i < f.arg_size(); i++)
      o << " arg" << i << attrText(f.getAttributes().getParamAttrs(i));
  return o.str();
}

void
describeBody(llvm::Function & f, std::multiset<std::string> & out)
{
  for (auto bb : llvm::depth_first(&f.getEntryBlock()))
   for (auto & i : *bb)
   {
    std::ostringstream o;
    if (auto l = llvm::dyn_cast<llvm::LoadInst>(&i))
      o << (l->isVolatile() ? "volatile " : "") << "load " << typeText(l->getType()) << " align " << l->getAlign().value();
    else if (auto s = llvm::dyn_cast<llvm::StoreInst>(&i))
      o << (s->isVolatile() ? "volatile " : "") << "store " << typeText(s->getValueOperand()->getType()) << " align "
        << s->getAlign().value();
    else if (auto a = llvm::dyn_cast<llvm::AllocaInst>(&i))
      o << "alloca " << typeText(a->getAllocatedType()) << " align " << a->getAlign().value();
    else if (auto c = llvm::dyn_cast<llvm::CallInst>(&i))
    {
      if (llvm::isa<llvm::IntrinsicInst>(c))
        continue;
      auto callee = c->getCalledFunction();
      o << "call cc" << c->getCallingConv() << " " << (callee ? callee->getName().str() : "indirect") << " "
        << typeText(c->getFunctionType()) << " " << attrText(c->getAttributes().getFnAttrs()) << " ret"
        << attrText(c->getAttributes().getRetAttrs());
      for (unsigned n = 0; n < c->arg_size(); n++)
        o << " arg" << n << attrText(c->getAttributes().getParamAttrs(n));
    }
    else
      continue;
    out.insert(o.str());
   }
}

// ---------------------------------------------------------------- generator

struct Gen
{
  Ctx & c;
  std::ostringstream o;
  struct F
  {
    std::string name, cc;
    Strs params; // types
    std::string ret;
    bool vararg;
    bool noinline = false;
  };
  std::vector<F> fs;
  Strs globals;

  template<class... A>
  std::string
  pick(A... a)
  {
    std::vector<std::string> v{ a... };
    return v[c.draw(v.size())];
  }

  bool
  one(unsigned n)
  {
    return c.draw(n) == n - 1;
  }

  std::string
  scalar()
  {
    return pick("i32", "i64", "ptr", "i8", "i16", "i1", "double", "float", "i128", "x86_fp80", "half");
  }

  std::string
  type(unsigned d)
  {
    if (d && one(4))
      return "[" + std::to_string(c.range(1, 5)) + " x " + type(d - 1) + "]";
    if (d && one(4))
      return pick("%S", "%P", "{ i8, i32 }");
    if (d && one(12))
      return "<4 x i32>";
    return scalar();
  }

  std::string
  value(const std::string & t)
  {
    if (t[0] == 'i')
      return t == "i1" ? "true" : std::to_string(c.range(0, 100));
    if (t == "double" || t == "float")
      return "1.0";
    if (t == "half")
      return "0xH3C00";
    if (t == "x86_fp80")
      return "0xK3FFF8000000000000000";
    if (t == "ptr")
    {
      if (!globals.empty() && c.draw(2))
        return c.pick(globals);
      return "null";
    }
    return pick("zeroinitializer", "undef");
  }

  std::string
  fnAttrs(bool call)
  {
    std::string s;
    auto maybe = [&](const std::string & a, unsigned n)
    {
      if (one(n))
        s += " " + a;
    };
    static const Strs plain{ "cold", "convergent", "hot", "mustprogress", "nobuiltin", "nocallback", "noduplicate", "nofree",
                             "nomerge", "norecurse", "nosync", "nounwind", "returns_twice", "willreturn",
                             "strictfp", "minsize", "optsize", "nocf_check", "noreturn" };
    static const Strs defs{ "speculatable", "disable_sanitizer_instrumentation", "fn_ret_thunk_extern", "inlinehint", "naked",
                            "noimplicitfloat", "noprofile", "noredzone", "nosanitize_bounds", "nosanitize_coverage",
                            "nonlazybind", "null_pointer_is_valid", "optforfuzzing", "presplitcoroutine", "safestack",
                            "sanitize_address", "sanitize_hwaddress", "sanitize_memory", "sanitize_memtag", "sanitize_thread",
                            "shadowcallstack", "skipprofile", "speculative_load_hardening", "ssp", "sspreq", "sspstrong" };
    size_t n = c.weighted({ 4, 3, 2, 1 });
    for (size_t i = 0; i < n; i++)
      s += " " + c.pick(plain);
    if (!call)
    {
      size_t n = c.weighted({ 4, 3, 2, 1 });
      for (size_t i = 0; i < n; i++)
        s += " " + c.pick(defs);
    }
    if (one(4))
      s += " " + pick("memory(none)", "memory(read)", "memory(argmem: readwrite)", "memory(write)", "memory(inaccessiblemem: read)");
    if (!call)
    {
      maybe(pick("uwtable", "uwtable(sync)"), 6);
      maybe("alignstack(" + pick("8", "16") + ")", 10);
      maybe("vscale_range(1,16)", 20);
    }
    if (one(4))
      s += " \"" + pick("target-cpu", "no-trapping-math", "x", "min-legal-vector-width") + "\"=\"" + pick("all", "x86-64", "true", "") + "\"";
    maybe("\"flag\"", 10);
    maybe("noinline", 6);
    return s;
  }

  std::string
  paramAttrs(const std::string & t, bool ret, bool call)
  {
    std::string s, ext = pick("signext", "zeroext");
    size_t n = c.weighted({ 5, 3, 1 });
    for (size_t i = 0; i < n; i++)
    {
      if (t == "ptr" && c.draw(4))
      {
        std::string al = pick("1", "4", "8", "16"), dn = pick("4", "8", "40");
        if (ret)
          s += " " + pick("noalias", "nonnull", "align " + al, "dereferenceable(" + dn + ")", "dereferenceable_or_null(" + dn + ")");
        else
          s += " "
             + pick(
                   "noalias", "nonnull", "nocapture", "readonly", "readnone", "writeonly", "nofree", "writable",
                   "dead_on_unwind", "align " + al, "dereferenceable(" + dn + ")", "dereferenceable_or_null(" + dn + ")",
                   "byval(%S)", "byval(i64)", "sret(%S)", "nest", "swiftself", "allocptr");
      }
      else if (t[0] == 'i')
        s += " " + pick("noundef", ext, "inreg", "noundef");
      else if (t == "double" || t == "float")
        s += " " + pick("noundef", "nofpclass(nan inf)", "inreg");
      else
        s += " noundef";
    }
    return s;
  }

  std::string
  module()
  {
    o << "target datalayout = \"e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128\"\n"
         "target triple = \"x86_64-pc-linux-gnu\"\n"
         "%S = type { i32, ptr, i16 }\n%P = type <{ i8, i64 }>\n";
    size_t ng = c.range(0, 4);
    for (size_t i = 0; i < ng; i++)
    {
      std::string t = type(2), name = "@g" + std::to_string(i);
      std::string al = one(2) ? ", align " + pick("1", "2", "4", "8", "16", "64") : "";
      std::string sec = one(4) ? std::string(", section \"") + pick(".mydata", ".init_array", "__DATA,x") + "\"" : "";
      std::string kind = pick("global", "constant");
      if (one(3))
        o << name << " = " << pick("external", "extern_weak") << " " << kind << " " << t << sec << al << "\n";
      else
      {
        auto l = pick("", "internal", "private", "weak", "weak_odr", "linkonce", "linkonce_odr", "available_externally", "common");
        std::string v = value(t);
        if (l == "common")
          kind = "global", v = "zeroinitializer", sec = "";
        o << name << " = " << l << (l.empty() ? "" : " ") << kind << " " << t << " " << v << sec << al << "\n";
      }
      globals.push_back(name);
    }
    size_t nf = c.range(1, 5);
    for (size_t i = 0; i < nf; i++)
    {
      F f;
      f.name = "@f" + std::to_string(i);
      f.cc = one(3) ? pick("fastcc", "coldcc", "tailcc", "ccc") : "";
      f.ret = one(3) ? "void" : pick("i32", "ptr", "i8", "double", "i64", "{ i32, i64 }");
      size_t np = c.range(0, 4);
      for (size_t n = 0; n < np; n++)
        f.params.push_back(pick("i32", "ptr", "ptr", "i8", "double", "i64", "i16"));
      f.vararg = (f.cc.empty() || f.cc == "ccc") && one(3);
      fs.push_back(f);
    }
    for (size_t i = 0; i < nf; i++)
      function(i);
    return o.str();
  }

  void
  function(size_t index)
  {
    auto & f = fs[index];
    bool decl = index && one(3);
    std::string linkage = decl ? pick("", "extern_weak")
                               : pick("", "", "internal", "private", "weak", "weak_odr", "linkonce", "linkonce_odr", "available_externally");
    o << (decl ? "declare " : "define ") << linkage << " " << f.cc << " ";
    o << f.ret << " " << f.name << "(";
    for (size_t n = 0; n < f.params.size(); n++)
      o << (n ? ", " : "") << f.params[n] << (decl ? "" : paramAttrs(f.params[n], false, false))
        << (!decl && n == 0 && f.params[0] == f.ret && one(4) ? " returned" : "")
        << (decl ? "" : " %p" + std::to_string(n));
    if (f.vararg)
      o << (f.params.empty() ? "..." : ", ...");
    o << ")" << fnAttrs(false);
    if (decl)
    {
      o << "\n";
      return;
    }
    o << " {\n";
    // the values a function can use, per type
    std::map<std::string, Strs> vals;
    for (size_t n = 0; n < f.params.size(); n++)
      vals[f.params[n]].push_back("%p" + std::to_string(n));
    size_t k = 0;
    auto operand = [&](const std::string & t)
    {
      auto it = vals.find(t);
      if (it != vals.end() && c.draw(3))
        return c.pick(it->second);
      return value(t);
    };
    auto block = [&](size_t n)
    {
      for (size_t i = 0; i < n; i++)
        switch (c.draw(4))
        {
        case 0:
        {
          auto t = type(0), v = "%v" + std::to_string(k++);
          o << "  " << v << " = load " << pick("", "", "volatile ") << t << ", ptr " << operand("ptr");
          if (c.draw(2))
            o << ", align " << pick("1", "2", "4", "8", "16", "32");
          o << "\n";
          vals[t].push_back(v);
          break;
        }
        case 1:
        {
          auto t = type(0);
          o << "  store " << pick("", "", "volatile ") << t << " " << operand(t) << ", ptr " << operand("ptr");
          if (c.draw(2))
            o << ", align " << pick("1", "2", "4", "8", "16", "32");
          o << "\n";
          break;
        }
        case 2:
        {
          auto t = type(2), v = "%v" + std::to_string(k++);
          o << "  " << v << " = alloca " << t;
          if (c.draw(2))
            o << ", align " << pick("1", "4", "8", "16", "64");
          o << "\n";
          vals["ptr"].push_back(v);
          break;
        }
        case 3:
        {
          auto & g = c.pick(fs);
          std::string v = "%v" + std::to_string(k++);
          o << "  ";
          if (g.ret != "void")
            o << v << " = ";
          std::string ra = g.ret == "void" || g.ret[0] == '{' ? "" : paramAttrs(g.ret, true, true);
          o << "call " << g.cc << ra << " " << g.ret << " (";
          for (size_t n = 0; n < g.params.size(); n++)
            o << (n ? ", " : "") << g.params[n];
          if (g.vararg)
            o << (g.params.empty() ? "..." : ", ...");
          o << ") " << (one(6) ? operand("ptr") : g.name) << "(";
          bool first = true;
          for (auto & t : g.params)
          {
            o << (first ? "" : ", ") << t << paramAttrs(t, false, true) << " " << operand(t);
            first = false;
          }
          if (g.vararg)
            for (size_t n = c.draw(3); n; n--)
            {
              auto t = pick("i32", "ptr", "double");
              o << (first ? "" : ", ") << t << (one(3) ? " noundef" : "") << " " << operand(t);
              first = false;
            }
          o << ")" << fnAttrs(true) << "\n";
          if (g.ret != "void")
            vals[g.ret].push_back(v);
          break;
        }
        }
    };
    block(c.range(0, 4));
    if (one(2))
    {
      auto saved = vals;
      o << "  br i1 " << operand("i1") << ", label %t, label %e\nt:\n";
      block(c.range(0, 3));
      o << "  br label %j\ne:\n";
      vals = saved;
      block(c.range(0, 3));
      o << "  br label " << (one(3) ? "%e2\ne2:\n  br i1 " + operand("i1") + ", label %e2, label %j" : "%j") << "\nj:\n";
      vals = saved;
      block(c.range(0, 2));
    }
    if (f.ret == "void")
      o << "  ret void\n}\n";
    else
      o << "  ret " << f.ret << " " << operand(f.ret) << "\n}\n";
  }
};

std::map<std::string, std::string>
symbols(llvm::Module & m, bool variables)
{
  std::map<std::string, std::string> r;
  if (variables)
    for (auto & g : m.globals())
      r[g.getName().str()] = describe(g);
  else
    for (auto & f : m.functions())
      if (!f.isIntrinsic())
        r[f.getName().str()] = describe(f);
  return r;
}

void
checkCase(const std::string & text, const Strs & passes, Ctx * c)
{
  llvm::LLVMContext c1, c2;
  auto src = pipeline::parse(text, c1);
  auto tgt = pipeline::roundTrip(text, passes, c2);
  std::string out;
  {
    llvm::raw_string_ostream os(out);
    tgt->print(os, nullptr);
  }
  if (c)
    c->artifacts["result.ll"] = out;
  if (src->getDataLayoutStr() != tgt->getDataLayoutStr() || src->getTargetTriple() != tgt->getTargetTriple())
    pbt::fail("interface: data layout or target", tgt->getDataLayoutStr() + " " + tgt->getTargetTriple());
  for (bool variables : { true, false })
  {
    auto a = symbols(*src, variables), b = symbols(*tgt, variables);
    std::string what = variables ? "global variable" : "function";
    for (auto & [n, d] : a)
    {
      if (c)
        c->evals++;
      auto g = src->getNamedValue(n);
      auto it = b.find(n);
      if (it == b.end())
      {
        if (!passes.empty() && (g->isDiscardableIfUnused() || g->isDeclaration()))
          continue;
        if (passes.empty() && g->isDeclaration() && g->use_empty())
          continue;
        pbt::fail("interface: a " + what + " is lost", n + ": " + d + "\n" + out);
      }
      if (it->second != d)
        pbt::fail("interface: a " + what + " changes", n + ": " + it->second + "\ninstead of " + d + "\n" + out);
    }
    for (auto & [n, d] : b)
      if (!a.count(n) && !tgt->getNamedValue(n)->hasLocalLinkage())
        pbt::fail("interface: a new external symbol", n + ": " + d + "\n" + out);
  }
  if (!passes.empty())
    return;
  for (auto & f : *src)
  {
    if (f.isDeclaration())
      continue;
    auto g = tgt->getFunction(f.getName());
    std::multiset<std::string> a, b;
    describeBody(f, a);
    describeBody(*g, b);
    if (c)
      c->evals += a.size();
    if (a == b)
      continue;
    std::string msg = f.getName().str() + ":\n";
    for (auto & x : a)
      if (b.count(x) < a.count(x))
        msg += "  lost " + x + "\n";
    for (auto & x : b)
      if (a.count(x) < b.count(x))
        msg += "  new  " + x + "\n";
    pbt::fail("interface: memory accesses or calls change", msg + out);
  }
}

void
r03(Ctx & c)
{
  Gen g{ c };
  auto text = g.module();
  Strs passes;
  if (c.draw(4) == 3)
    for (size_t n = c.range(1, 4); n; n--)
      passes.push_back(c.pick(pipeline::allPasses));
  std::string full = "; pbt-passes:";
  for (auto & p : passes)
    full += " " + p;
  full += "\n" + text;
  c.artifacts["case.ll"] = full;
  {
    llvm::LLVMContext ctx;
    std::unique_ptr<llvm::Module> m;
    try
    {
      m = pipeline::parse(text, ctx);
    }
    catch (std::runtime_error &)
    {
      pbt::discard("attributes that the parser rejects");
    }
    std::string err;
    llvm::raw_string_ostream es(err);
    if (llvm::verifyModule(*m, &es))
      pbt::discard("attributes that exclude each other");
  }
  c.sample = std::to_string(g.globals.size()) + " variables, " + std::to_string(g.fs.size()) + " functions, "
           + std::to_string(passes.size()) + " passes";
  c.nontrivial = true;
  c.setHash(pbt::fnv(full));
  c.label(passes.empty() ? "round trip" : "passes");
  checkCase(text, passes, &c);
}

pbt::Registrar r({ "R03",
                   "a generated module that LLVM's verifier accepts",
                   r03,
                   60000,
                   2000000,
                   32,
                   { "attributes of return values of functions, and parameter attributes of declarations, are outside of the "
                     "property (documented as unsupported)",
                     "visibility, thread_local, unnamed_addr, comdat, aliases and metadata are outside of the property" },
                   "case.ll",
                   [](const std::string & t)
                   {
                     Strs passes;
                     std::istringstream is(t);
                     std::string l, w;
                     std::getline(is, l);
                     std::istringstream ls(l);
                     ls >> w >> w;
                     while (ls >> w)
                       passes.push_back(w);
                     checkCase(t, passes, nullptr);
                   } });
}
