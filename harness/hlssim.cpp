// A cycle-accurate simulator of RHLS circuits, following the hardware that every operation stands for.
#include "hls.hpp"

#include <jlm/hls/ir/hls.hpp>
#include <jlm/llvm/ir/operators/operators.hpp>
#include <jlm/llvm/ir/operators/ConversionOperations.hpp>
#include <jlm/llvm/ir/operators/GetElementPtr.hpp>
#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
#include <jlm/llvm/ir/operators/MemoryStateOperations.hpp>
#include <jlm/llvm/ir/operators/IOBarrier.hpp>
#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/simple-node.hpp>

#include <llvm/ADT/APFloat.h>

#include <deque>
#include <cstring>

namespace hlscheck
{

namespace H = jlm::hls;
namespace L = jlm::llvm;
namespace R = jlm::rvsdg;

namespace
{

enum Kind
{
  Arg,     // an argument register
  Result,  // a result register
  MemPort, // memory request: consumes the request bundle
  RespPort, // produces the response bundle
  Simple,
  Const,
  Sink,
  Fork,
  CFork,
  Branch,
  NDMux,
  PredBuf,
  LCB,
  Buf,
  Gate,
  Queue,
  Load,
  DecLoad,
  Store,
  LocalStore,
  LocalMem,
  LocalResp,
  LocalReq,
  MemReq,
  MemResp
};

struct Bundle
{
  uint64_t addr = 0, data = 0, size = 0, id = 0;
  bool write = false;
};

struct Chan
{
  int prod = -1, cons = -1;
  int pi = 0, ci = 0;
  bool valid = false, ready = false;
  uint64_t data = 0;
};

struct Node
{
  Kind kind;
  const R::SimpleNode * n = nullptr;
  std::vector<int> in, out;
  bool dirty = true;
  // state
  std::vector<char> reg;
  std::vector<uint64_t> dreg;
  std::deque<uint64_t> fifo;
  size_t cap = 0;
  bool pass = false;
  unsigned outstanding = 0;
  Bundle bundle;
  int granted = -1;
  int port = -1;
  int partner = -1;
  std::vector<unsigned> sizes; // of the accesses, in bytes
  size_t nloads = 0;
  std::function<uint64_t(const uint64_t *)> fn;
};

struct Port
{
  int req = -1, resp = -1; // node indices
  struct Response
  {
    Bundle b;
    uint64_t due;
  };
  std::deque<Response> q;
  bool ready = true;
};

unsigned
bitsOf(const R::Type & t)
{
  if (auto b = dynamic_cast<const R::BitType *>(&t))
    return b->nbits();
  if (dynamic_cast<const L::PointerType *>(&t))
    return 64;
  if (auto f = dynamic_cast<const L::FloatingPointType *>(&t))
    switch (f->size())
    {
    case L::fpsize::half:
      return 16;
    case L::fpsize::flt:
      return 32;
    case L::fpsize::dbl:
      return 64;
    default:
      throw std::runtime_error("harness: unsupported float type");
    }
  if (dynamic_cast<const R::ControlType *>(&t))
    return 64;
  if (t.Kind() == R::TypeKind::State)
    return 1;
  throw std::runtime_error("harness: unsupported type " + t.debug_string());
}

uint64_t
mask(uint64_t v, unsigned bits)
{
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}

int64_t
sgn(uint64_t v, unsigned bits)
{
  return bits >= 64 ? (int64_t)v : (int64_t)(v << (64 - bits)) >> (64 - bits);
}

double
asDouble(uint64_t v)
{
  double d;
  memcpy(&d, &v, 8);
  return d;
}

uint64_t
fromDouble(double d)
{
  uint64_t v;
  memcpy(&v, &d, 8);
  return v;
}

int64_t
typeBytes(const R::Type & t)
{
  if (auto a = dynamic_cast<const L::ArrayType *>(&t))
    return a->nelements() * typeBytes(a->element_type());
  return bitsOf(t) / 8;
}

}

class Circuit
{
public:
  std::vector<Node> nodes;
  std::vector<Chan> chans;
  std::vector<Port> ports;
  std::vector<int> argNodes, resultNodes; // in the order of the lambda, without bundles
  std::vector<bool> argIsValue, resultIsValue;
  std::map<const R::Output *, std::pair<int, int>> source; // primary output -> node, index
  std::vector<int> work;
  sem::Machine & mem;
  SimOpts o;
  SimStats & stats;
  uint64_t now = 0, rngState;
  std::map<int, std::vector<uint64_t>> localMem;

  Circuit(const R::LambdaNode & lambda, sem::Machine & m, const SimOpts & o, SimStats & st)
      : mem(m),
        o(o),
        stats(st),
        rngState(o.seed * 0x9e3779b97f4a7c15ull + 1)
  {
    build(lambda);
  }

  uint64_t
  rng()
  {
    uint64_t x = (rngState += 0x9e3779b97f4a7c15ull);
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }

  int
  addNode(Kind k)
  {
    nodes.emplace_back();
    nodes.back().kind = k;
    return nodes.size() - 1;
  }

  // The output of a simple node, or the argument of the lambda, that an input gets its tokens from.
  const R::Output *
  trace(const R::Output * o)
  {
    for (unsigned i = 0; i < 100000; i++)
    {
      if (auto arg = dynamic_cast<const H::BackEdgeArgument *>(o))
        o = const_cast<H::BackEdgeArgument *>(arg)->result()->origin();
      else if (auto arg = dynamic_cast<const R::RegionArgument *>(o))
      {
        if (!arg->input() || !dynamic_cast<const H::LoopNode *>(arg->region()->node()))
          return o;
        o = arg->input()->origin();
      }
      else if (auto so = dynamic_cast<const R::StructuralOutput *>(o))
      {
        if (!dynamic_cast<const H::LoopNode *>(so->node()))
          pbt::fail("circuit: unexpected structural node", so->node()->DebugString());
        if (so->results.size() != 1)
          pbt::fail("circuit: loop output without a result", so->node()->DebugString());
        o = so->results.first()->origin();
      }
      else
        return o;
    }
    pbt::fail("circuit: a wire without a driver", "cyclic connection through loop variables");
  }

  void
  collect(const R::Region & r)
  {
    for (auto & n : const_cast<R::Region &>(r).Nodes())
    {
      if (auto l = dynamic_cast<const H::LoopNode *>(&n))
        collect(*l->subregion());
      else if (auto s = dynamic_cast<const R::SimpleNode *>(&n))
        addSimple(*s);
      else
        pbt::fail("circuit: unexpected structural node", n.DebugString());
    }
  }

  void
  connect(const R::Input & i, int node, int index)
  {
    auto src = trace(i.origin());
    auto it = source.find(src);
    if (it == source.end())
      pbt::fail("circuit: a wire without a driver", "input " + std::to_string(index));
    auto [p, pi] = it->second;
    auto & pn = nodes[p];
    if (pn.out[pi] != -1)
      pbt::fail("circuit: a wire with two users", i.origin()->debug_string());
    int c = chans.size();
    chans.emplace_back();
    chans[c].prod = p;
    chans[c].pi = pi;
    chans[c].cons = node;
    chans[c].ci = index;
    pn.out[pi] = c;
    nodes[node].in.push_back(c);
  }

  void
  build(const R::LambdaNode & lambda)
  {
    auto region = const_cast<R::LambdaNode &>(lambda).subregion();
    std::vector<int> respPorts, reqPorts;
    // arguments
    for (auto a : region->Arguments())
    {
      int k;
      if (dynamic_cast<const H::BundleType *>(a->Type().get()))
      {
        k = addNode(RespPort);
        respPorts.push_back(k);
      }
      else
      {
        k = addNode(Arg);
        nodes[k].reg = { 0 };
        nodes[k].dreg = { 0 };
      }
      nodes[k].out = { -1 };
      source[a] = { k, 0 };
    }
    // function arguments first, then context variables: the order in which the module lists its ports
    for (auto a : const_cast<R::LambdaNode &>(lambda).GetFunctionArguments())
      if (nodes[source[a].first].kind == Arg)
      {
        argNodes.push_back(source[a].first);
        argIsValue.push_back(a->Type()->Kind() != R::TypeKind::State);
      }
    for (auto & cv : const_cast<R::LambdaNode &>(lambda).GetContextVars())
    {
      int k = source[cv.inner].first;
      auto imp = dynamic_cast<const L::LlvmGraphImport *>(cv.input->origin());
      if (!imp || !mem.globals.count(imp->Name()))
        pbt::fail("circuit: context variable is not a global", cv.input->origin()->debug_string());
      ctx.push_back({ k, mem.globals[imp->Name()]->base });
    }
    collect(*region);
    for (size_t k = 0; k < nodes.size(); k++)
      if (nodes[k].n)
        for (auto & i : const_cast<R::SimpleNode *>(nodes[k].n)->Inputs())
          connect(i, k, i.index());
    for (auto r : region->Results())
    {
      int k;
      if (dynamic_cast<const H::BundleType *>(r->Type().get()))
      {
        k = addNode(MemPort);
        reqPorts.push_back(k);
      }
      else
      {
        k = addNode(Result);
        nodes[k].reg = { 0 };
        nodes[k].dreg = { 0 };
        resultNodes.push_back(k);
        resultIsValue.push_back(r->Type()->Kind() != R::TypeKind::State);
      }
      connect(*r, k, 0);
    }
    if (respPorts.size() != reqPorts.size())
      pbt::fail("circuit: memory ports do not match", "requests and responses");
    for (size_t i = 0; i < respPorts.size(); i++)
    {
      ports.emplace_back();
      ports[i].req = reqPorts[i];
      ports[i].resp = respPorts[i];
      nodes[reqPorts[i]].port = nodes[respPorts[i]].port = i;
      if (nodes[respPorts[i]].out[0] == -1)
        pbt::fail("circuit: response port without user", std::to_string(i));
      // the request and the response operation of a port must belong together
      auto & rq = nodes[chans[nodes[reqPorts[i]].in[0]].prod];
      auto & rs = nodes[chans[nodes[respPorts[i]].out[0]].cons];
      if (rq.kind != MemReq || rs.kind != MemResp)
        pbt::fail("circuit: memory port not connected to a memory operation", std::to_string(i));
      checkPort(chans[nodes[reqPorts[i]].in[0]].prod, chans[nodes[respPorts[i]].out[0]].cons);
    }
    for (size_t k = 0; k < nodes.size(); k++)
    {
      for (int c : nodes[k].out)
        if (c == -1)
          pbt::fail(
              "circuit: an output without user",
              nodes[k].n ? nodes[k].n->DebugString() : "argument of the lambda");
      if (nodes[k].kind == LocalMem)
      {
        auto & n = nodes[k];
        int resp = chans[n.out[0]].cons, req = chans[n.out[1]].cons;
        if (nodes[resp].kind != LocalResp || nodes[req].kind != LocalReq)
          pbt::fail("circuit: local memory not connected to its ports", n.n->DebugString());
        nodes[req].partner = k;
        nodes[resp].partner = req;
        nodes[req].port = resp;
        nodes[req].nloads = nodes[resp].out.size();
        nodes[req].reg.assign(nodes[req].nloads, 0);
        nodes[req].dreg.assign(1, 0);
        auto at = std::dynamic_pointer_cast<const L::ArrayType>(
            dynamic_cast<const H::LocalMemoryOperation &>(n.n->GetOperation()).result(0));
        localMem[k].assign(at->nelements(), 0);
        for (auto & x : localMem[k])
          x = rng();
      }
    }
    stats.nodes = nodes.size();
    for (size_t k = 0; k < nodes.size(); k++)
      work.push_back(k);
  }
  std::vector<std::pair<int, uint64_t>> ctx;

  // Every access the request operation serialises must get its response back.
  void
  checkPort(int req, int resp)
  {
    auto & q = nodes[req];
    size_t stores = (q.in.size() - q.nloads) / 2;
    if (nodes[resp].out.size() != q.nloads + stores)
      pbt::fail(
          "circuit: responses do not match requests",
          std::to_string(q.nloads) + " loads and " + std::to_string(stores) + " stores but "
              + std::to_string(nodes[resp].out.size()) + " responses");
  }

  void
  addSimple(const R::SimpleNode & s)
  {
    auto & op = s.GetOperation();
    auto add = [&](Kind k) -> Node &
    {
      int i = addNode(k);
      auto & n = nodes[i];
      n.n = &s;
      n.out.assign(s.noutputs(), -1);
      for (size_t j = 0; j < s.noutputs(); j++)
        source[s.output(j)] = { i, (int)j };
      return n;
    };
    if (dynamic_cast<const H::SinkOperation *>(&op))
      add(Sink);
    else if (auto f = dynamic_cast<const H::ForkOperation *>(&op))
    {
      auto & n = add(f->IsConstant() ? CFork : Fork);
      n.reg.assign(s.noutputs(), 0);
      if (f->IsConstant())
      {
        auto src = trace(s.input(0)->origin());
        if (!isConst(src))
          pbt::fail("circuit: constant fork of a value that is not constant", src->debug_string());
      }
    }
    else if (dynamic_cast<const H::BranchOperation *>(&op))
      add(Branch);
    else if (auto m = dynamic_cast<const H::MuxOperation *>(&op))
    {
      if (m->discarding)
      {
        auto & n = add(Simple);
        size_t k = s.ninputs();
        n.fn = [k](const uint64_t * v)
        {
          return v[0] + 1 < k ? v[1 + v[0]] : 0;
        };
      }
      else
        add(NDMux);
    }
    else if (dynamic_cast<const H::PredicateBufferOperation *>(&op))
    {
      auto & n = add(PredBuf);
      n.reg = { 1 };
      n.dreg = { 0 };
    }
    else if (dynamic_cast<const H::LoopConstantBufferOperation *>(&op))
      add(LCB).dreg = { 0 };
    else if (auto b = dynamic_cast<const H::BufferOperation *>(&op))
    {
      auto & n = add(Buf);
      n.cap = b->Capacity();
      n.pass = b->IsPassThrough();
    }
    else if (dynamic_cast<const H::StateGateOperation *>(&op))
      add(Gate).reg.assign(s.noutputs(), 0);
    else if (auto q = dynamic_cast<const H::AddressQueueOperation *>(&op))
    {
      auto & n = add(Queue);
      n.cap = q->capacity;
      n.pass = q->combinatorial;
    }
    else if (dynamic_cast<const H::LoadOperation *>(&op) || dynamic_cast<const H::LocalLoadOperation *>(&op))
    {
      auto & n = add(Load);
      n.reg.assign(s.noutputs(), 0); // 0: data, 1..: states, last: sent
      n.dreg.assign(1, 0);
    }
    else if (auto d = dynamic_cast<const H::DecoupledLoadOperation *>(&op))
      add(DecLoad).cap = d->capacity;
    else if (dynamic_cast<const H::StoreOperation *>(&op))
      add(Store);
    else if (dynamic_cast<const H::LocalStoreOperation *>(&op))
      add(LocalStore).reg.assign(s.noutputs() - 2, 0); // states
    else if (dynamic_cast<const H::LocalMemoryOperation *>(&op))
      add(LocalMem);
    else if (dynamic_cast<const H::LocalMemoryResponseOperation *>(&op))
      add(LocalResp);
    else if (dynamic_cast<const H::LocalMemoryRequestOperation *>(&op))
      add(LocalReq);
    else if (auto q = dynamic_cast<const H::MemoryRequestOperation *>(&op))
    {
      auto & n = add(MemReq);
      n.nloads = q->get_nloads();
      for (auto & t : *q->GetLoadTypes())
        n.sizes.push_back(bitsOf(*t) / 8);
      for (auto & t : *q->GetStoreTypes())
        n.sizes.push_back(bitsOf(*t) / 8);
      if (s.noutputs() != 1)
        pbt::fail("circuit: memory request with several ports", s.DebugString());
    }
    else if (dynamic_cast<const H::MemoryResponseOperation *>(&op))
      add(MemResp);
    else
    {
      if (s.noutputs() != 1)
        pbt::fail("circuit: operation without hardware", s.DebugString());
      auto f = function(s);
      auto & n = add(s.ninputs() ? Simple : Const);
      n.fn = std::move(f);
      if (!s.ninputs())
        n.dreg = { n.fn(nullptr) };
    }
  }

  bool
  isConst(const R::Output * src)
  {
    auto n = R::TryGetOwnerNode<R::SimpleNode>(*src);
    if (!n)
      return false;
    if (n->ninputs() == 0)
      return true;
    auto & op = n->GetOperation();
    auto f = dynamic_cast<const H::ForkOperation *>(&op);
    if ((f && f->IsConstant()) || dynamic_cast<const H::BranchOperation *>(&op)
        || dynamic_cast<const R::UnaryOperation *>(&op)
        || dynamic_cast<const R::BinaryOperation *>(&op))
    {
      for (size_t i = 0; i < n->ninputs(); i++)
        if (!isConst(trace(n->input(i)->origin())))
          return false;
      return true;
    }
    return false;
  }

  std::function<uint64_t(const uint64_t *)>
  function(const R::SimpleNode & s)
  {
    auto & op = s.GetOperation();
    unsigned w = s.ninputs() ? bitsOf(*s.input(0)->Type()) : 0;
    unsigned ow = bitsOf(*s.output(0)->Type());
    auto state = [](const uint64_t *) -> uint64_t
    {
      return 0;
    };
    using V = const uint64_t *;
#define BIN(CLASS, EXPR) \
  if (dynamic_cast<const L::CLASS *>(&op)) \
    return [w](V v) -> uint64_t \
    { \
      [[maybe_unused]] uint64_t a = v[0], b = v[1]; \
      [[maybe_unused]] int64_t x = sgn(v[0], w), y = sgn(v[1], w); \
      return mask(EXPR, w); \
    };
    BIN(IntegerAddOperation, a + b)
    BIN(IntegerSubOperation, a - b)
    BIN(IntegerMulOperation, a * b)
    BIN(IntegerAndOperation, a & b)
    BIN(IntegerOrOperation, a | b)
    BIN(IntegerXorOperation, a ^ b)
    BIN(IntegerUDivOperation, b ? a / b : 0)
    BIN(IntegerURemOperation, b ? a % b : 0)
    BIN(IntegerSDivOperation, !y ? 0 : y == -1 ? (uint64_t)0 - (uint64_t)x : (uint64_t)(x / y))
    BIN(IntegerSRemOperation, !y || y == -1 ? 0 : (uint64_t)(x % y))
    BIN(IntegerShlOperation, b < w ? a << b : 0)
    BIN(IntegerLShrOperation, b < w ? a >> b : 0)
    BIN(IntegerAShrOperation, (uint64_t)(x >> (b < w ? b : w - 1)))
    BIN(IntegerEqOperation, a == b)
    BIN(IntegerNeOperation, a != b)
    BIN(IntegerUltOperation, a < b)
    BIN(IntegerUleOperation, a <= b)
    BIN(IntegerUgtOperation, a > b)
    BIN(IntegerUgeOperation, a >= b)
    BIN(IntegerSltOperation, x < y)
    BIN(IntegerSleOperation, x <= y)
    BIN(IntegerSgtOperation, x > y)
    BIN(IntegerSgeOperation, x >= y)
#undef BIN
    if (dynamic_cast<const L::ZExtOperation *>(&op) || dynamic_cast<const L::BitCastOperation *>(&op)
        || dynamic_cast<const L::IntToPtrOperation *>(&op) || dynamic_cast<const L::PtrToIntOperation *>(&op)
        || dynamic_cast<const L::TruncOperation *>(&op))
      return [ow](V v)
      {
        return mask(v[0], ow);
      };
    if (dynamic_cast<const L::SExtOperation *>(&op))
      return [w, ow](V v)
      {
        return mask(sgn(v[0], w), ow);
      };
    if (auto k = dynamic_cast<const L::IntegerConstantOperation *>(&op))
    {
      auto str = k->Representation().str();
      uint64_t v = 0;
      for (size_t i = 0; i < str.size() && i < 64; i++)
        if (str[i] == '1')
          v |= 1ull << i;
      return [v](V)
      {
        return v;
      };
    }
    if (auto k = dynamic_cast<const R::ControlConstantOperation *>(&op))
    {
      uint64_t v = k->value().alternative();
      return [v](V)
      {
        return v;
      };
    }
    if (auto k = dynamic_cast<const L::ConstantFP *>(&op))
    {
      uint64_t v = k->constant().bitcastToAPInt().getZExtValue();
      return [v](V)
      {
        return v;
      };
    }
    if (dynamic_cast<const L::UndefValueOperation *>(&op) || dynamic_cast<const L::PoisonValueOperation *>(&op))
    {
      uint64_t v = mask(rng(), ow);
      if (auto ct = dynamic_cast<const R::ControlType *>(s.output(0)->Type().get()))
        v %= ct->nalternatives();
      return [v](V)
      {
        return v;
      };
    }
    if (dynamic_cast<const L::ConstantPointerNullOperation *>(&op))
      return state;
    if (auto m = dynamic_cast<const R::MatchOperation *>(&op))
      return [m](V v)
      {
        return m->alternative(v[0]);
      };
    if (dynamic_cast<const L::LambdaExitMemoryStateMergeOperation *>(&op)
        || dynamic_cast<const L::MemoryStateMergeOperation *>(&op)
        || dynamic_cast<const L::MemoryStateJoinOperation *>(&op))
      return state;
    if (dynamic_cast<const L::SelectOperation *>(&op))
      return [](V v)
      {
        return v[0] ? v[1] : v[2];
      };
    if (auto g = dynamic_cast<const L::GetElementPtrOperation *>(&op))
    {
      std::vector<int64_t> scale;
      std::vector<unsigned> width;
      const R::Type * t = g->getPointeeType().get();
      for (size_t i = 1; i < s.ninputs(); i++)
      {
        scale.push_back(typeBytes(*t));
        width.push_back(bitsOf(*s.input(i)->Type()));
        if (auto a = dynamic_cast<const L::ArrayType *>(t))
          t = &a->element_type();
      }
      return [scale, width](V v)
      {
        uint64_t r = v[0];
        for (size_t i = 0; i < scale.size(); i++)
          r += (uint64_t)scale[i] * (uint64_t)sgn(v[i + 1], width[i]);
        return r;
      };
    }
    if (auto f = dynamic_cast<const L::FBinaryOperation *>(&op))
    {
      if (w != 64)
        throw std::runtime_error("harness: float width");
      auto k = f->fpop();
      return [k](V v)
      {
        double a = asDouble(v[0]), b = asDouble(v[1]);
        switch (k)
        {
        case L::fpop::add:
          return fromDouble(a + b);
        case L::fpop::sub:
          return fromDouble(a - b);
        case L::fpop::mul:
          return fromDouble(a * b);
        case L::fpop::div:
          return fromDouble(a / b);
        default:
          throw std::runtime_error("harness: float operation");
        }
      };
    }
    if (auto f = dynamic_cast<const L::FCmpOperation *>(&op))
    {
      auto k = f->cmp();
      return [k](V v) -> uint64_t
      {
        double a = asDouble(v[0]), b = asDouble(v[1]);
        bool un = a != a || b != b;
        switch (k)
        {
        case L::fpcmp::TRUE:
          return 1;
        case L::fpcmp::FALSE:
          return 0;
        case L::fpcmp::oeq:
          return a == b;
        case L::fpcmp::ogt:
          return a > b;
        case L::fpcmp::oge:
          return a >= b;
        case L::fpcmp::olt:
          return a < b;
        case L::fpcmp::ole:
          return a <= b;
        case L::fpcmp::one:
          return !un && a != b;
        case L::fpcmp::ord:
          return !un;
        case L::fpcmp::ueq:
          return un || a == b;
        case L::fpcmp::ugt:
          return un || a > b;
        case L::fpcmp::uge:
          return un || a >= b;
        case L::fpcmp::ult:
          return un || a < b;
        case L::fpcmp::ule:
          return un || a <= b;
        case L::fpcmp::une:
          return un || a != b;
        case L::fpcmp::uno:
          return un;
        }
        return 0;
      };
    }
    if (dynamic_cast<const L::SIToFPOperation *>(&op))
      return [w](V v)
      {
        return fromDouble((double)sgn(v[0], w));
      };
    if (dynamic_cast<const L::UIToFPOperation *>(&op))
      return [](V v)
      {
        return fromDouble((double)v[0]);
      };
    pbt::fail("circuit: operation without hardware", s.DebugString());
  }

  // ---- combinational part

  void
  touch(int k)
  {
    if (!nodes[k].dirty)
    {
      nodes[k].dirty = true;
      work.push_back(k);
    }
  }
  void
  setOut(int c, bool valid, uint64_t data)
  {
    auto & ch = chans[c];
    if (ch.valid != valid || (valid && ch.data != data))
    {
      ch.valid = valid;
      ch.data = data;
      touch(ch.cons);
    }
  }
  void
  setReady(int c, bool ready)
  {
    auto & ch = chans[c];
    if (ch.ready != ready)
    {
      ch.ready = ready;
      touch(ch.prod);
    }
  }
  bool
  inV(const Node & n, size_t i) const
  {
    return chans[n.in[i]].valid;
  }
  uint64_t
  inD(const Node & n, size_t i) const
  {
    return chans[n.in[i]].data;
  }
  bool
  outR(const Node & n, size_t i) const
  {
    return chans[n.out[i]].ready;
  }
  bool
  fireIn(const Node & n, size_t i) const
  {
    auto & c = chans[n.in[i]];
    return c.valid && c.ready;
  }
  bool
  fireOut(const Node & n, size_t i) const
  {
    auto & c = chans[n.out[i]];
    return c.valid && c.ready;
  }

  void
  eval(int k)
  {
    auto & n = nodes[k];
    switch (n.kind)
    {
    case Arg:
      setOut(n.out[0], n.reg[0], n.dreg[0]);
      break;
    case Result:
      setReady(n.in[0], !n.reg[0]);
      break;
    case MemPort:
      setReady(n.in[0], ports[n.port].ready);
      break;
    case RespPort:
    {
      auto & p = ports[n.port];
      setOut(n.out[0], !p.q.empty() && p.q.front().due <= now, p.q.empty() ? 0 : p.q.front().b.id * 0x10000 + stats.loads);
      break;
    }
    case Simple:
    {
      bool all = true;
      uint64_t v[64];
      for (size_t i = 0; i < n.in.size(); i++)
      {
        all &= inV(n, i);
        if (i < 64)
          v[i] = inD(n, i);
      }
      setOut(n.out[0], all, all ? n.fn(v) : 0);
      bool fire = all && outR(n, 0);
      for (auto c : n.in)
        setReady(c, fire);
      break;
    }
    case Const:
      setOut(n.out[0], true, n.dreg[0]);
      break;
    case Sink:
      setReady(n.in[0], true);
      break;
    case CFork:
      setReady(n.in[0], true);
      for (auto c : n.out)
        setOut(c, inV(n, 0), inD(n, 0));
      break;
    case Fork:
    {
      bool all = inV(n, 0);
      for (size_t i = 0; i < n.out.size(); i++)
      {
        setOut(n.out[i], inV(n, 0) && !n.reg[i], inD(n, 0));
        all &= outR(n, i) || n.reg[i];
      }
      setReady(n.in[0], all);
      break;
    }
    case Gate:
    {
      bool v = true, all = true;
      for (size_t i = 0; i < n.in.size(); i++)
        v &= inV(n, i);
      for (size_t i = 0; i < n.out.size(); i++)
      {
        setOut(n.out[i], v && !n.reg[i], inD(n, i));
        all &= fireOut(n, i) || n.reg[i];
      }
      for (auto c : n.in)
        setReady(c, all);
      break;
    }
    case Branch:
    {
      bool v = inV(n, 0) && inV(n, 1);
      uint64_t p = inD(n, 0);
      bool rdy = false;
      for (size_t i = 0; i < n.out.size(); i++)
      {
        bool sel = inV(n, 0) && p == i;
        setOut(n.out[i], sel && inV(n, 1), inD(n, 1));
        if (sel)
          rdy = outR(n, i);
      }
      setReady(n.in[1], rdy);
      setReady(n.in[0], rdy && v);
      break;
    }
    case NDMux:
    {
      bool pv = inV(n, 0), ov = false, pr = false;
      uint64_t p = inD(n, 0), d = 0;
      for (size_t i = 1; i < n.in.size(); i++)
      {
        bool sel = pv && p == i - 1;
        if (sel)
        {
          ov = inV(n, i);
          d = inD(n, i);
          pr = ov && outR(n, 0);
        }
        setReady(n.in[i], sel && outR(n, 0));
      }
      setOut(n.out[0], ov, d);
      setReady(n.in[0], pr);
      break;
    }
    case PredBuf:
      setOut(n.out[0], n.reg[0] || inV(n, 0), n.reg[0] ? n.dreg[0] : inD(n, 0));
      setReady(n.in[0], !n.reg[0]);
      break;
    case LCB:
    {
      bool pv = inV(n, 0), p = inD(n, 0);
      bool ov = pv && (p || inV(n, 1));
      setOut(n.out[0], ov, inV(n, 1) && !p ? inD(n, 1) : n.dreg[0]);
      setReady(n.in[0], outR(n, 0) && ov);
      setReady(n.in[1], outR(n, 0) && pv && !p);
      break;
    }
    case Buf:
      if (n.pass && n.fifo.empty())
        setOut(n.out[0], inV(n, 0), inD(n, 0));
      else
        setOut(n.out[0], !n.fifo.empty(), n.fifo.empty() ? 0 : n.fifo.front());
      setReady(n.in[0], n.fifo.size() < n.cap);
      break;
    case Queue:
    {
      bool hit = n.pass && inV(n, 1) && inD(n, 1) == inD(n, 0);
      for (auto x : n.fifo)
        hit |= x == inD(n, 0);
      bool ov = inV(n, 0) && !hit;
      setOut(n.out[0], ov, inD(n, 0));
      setReady(n.in[0], ov && outR(n, 0));
      setReady(n.in[1], n.fifo.size() < n.cap);
      setReady(n.in[2], !n.fifo.empty());
      break;
    }
    case Load:
    {
      size_t ns = n.in.size() - 2, last = n.reg.size() - 1;
      bool sent = n.reg[last];
      bool can = !sent && inV(n, 0);
      for (size_t i = 0; i < ns; i++)
        can &= inV(n, 1 + i);
      for (size_t i = 0; i < last; i++)
        can &= !n.reg[i];
      setOut(n.out.back(), can, inD(n, 0));
      bool resp = sent && inV(n, n.in.size() - 1);
      setOut(n.out[0], n.reg[0] || resp, resp ? inD(n, n.in.size() - 1) : n.dreg[0]);
      for (size_t i = 1; i <= ns; i++)
        setOut(n.out[i], n.reg[i], 0);
      bool r = outR(n, n.out.size() - 1);
      setReady(n.in[0], r);
      for (size_t i = 1; i <= ns; i++)
        setReady(n.in[i], r);
      setReady(n.in.back(), sent);
      break;
    }
    case DecLoad:
    {
      bool room = n.outstanding + n.fifo.size() < n.cap;
      setOut(n.out[1], inV(n, 0) && room, inD(n, 0));
      setReady(n.in[0], outR(n, 1) && room && inV(n, 0));
      setOut(n.out[0], !n.fifo.empty(), n.fifo.empty() ? 0 : n.fifo.front());
      setReady(n.in[1], true);
      break;
    }
    case Store:
    {
      size_t ns = n.in.size() - 3;
      bool can = inV(n, 0) && inV(n, 1);
      for (size_t i = 0; i < ns; i++)
        can &= inV(n, 2 + i);
      setOut(n.out[ns], can, inD(n, 0));
      setOut(n.out[ns + 1], can, inD(n, 1));
      bool all = true;
      for (size_t i = 0; i < ns; i++)
      {
        setOut(n.out[i], inV(n, n.in.size() - 1), 0);
        all &= outR(n, i);
      }
      setReady(n.in.back(), all);
      bool r = outR(n, ns);
      for (size_t i = 0; i + 1 < n.in.size(); i++)
        setReady(n.in[i], r);
      break;
    }
    case MemReq:
    {
      n.granted = -1;
      bool r = outR(n, 0);
      size_t na = n.sizes.size();
      for (size_t i = 0; i < na; i++)
      {
        size_t at = i < n.nloads ? i : n.nloads + 2 * (i - n.nloads);
        bool v = inV(n, at) && (i < n.nloads || inV(n, at + 1));
        bool g = v && n.granted < 0;
        if (g)
        {
          n.granted = i;
          n.bundle.addr = inD(n, at);
          n.bundle.id = i;
          n.bundle.size = n.sizes[i];
          n.bundle.write = i >= n.nloads;
          n.bundle.data = n.bundle.write ? inD(n, at + 1) : 0;
        }
        setReady(n.in[at], g && r);
        if (i >= n.nloads)
          setReady(n.in[at + 1], g && r);
      }
      setOut(n.out[0], n.granted >= 0, 0);
      break;
    }
    case MemResp:
    {
      bool v = inV(n, 0);
      auto & p = ports[nodes[chans[n.in[0]].prod].port];
      bool ready = true;
      for (size_t i = 0; i < n.out.size(); i++)
      {
        bool sel = v && p.q.front().b.id == i;
        if (sel)
          ready = outR(n, i);
        setOut(n.out[i], sel, sel ? p.q.front().b.data : 0);
      }
      setReady(n.in[0], ready);
      break;
    }
    case LocalMem:
      // a token that stands for the memory itself
      setOut(n.out[0], true, 0);
      setOut(n.out[1], true, 0);
      break;
    case LocalResp:
    {
      auto & q = nodes[n.partner];
      for (size_t i = 0; i < n.out.size(); i++)
        setOut(n.out[i], q.reg[i], q.dreg[0]);
      setReady(n.in[0], false);
      break;
    }
    case LocalReq:
    {
      // stores first, then loads
      n.granted = -1;
      setReady(n.in[0], false);
      for (size_t i = n.nloads + 1; i + 1 < n.in.size(); i += 2)
      {
        bool g = n.granted < 0 && inV(n, i) && inV(n, i + 1);
        if (g)
          n.granted = i;
        setReady(n.in[i], g);
        setReady(n.in[i + 1], g);
      }
      for (size_t i = 1; i <= n.nloads; i++)
      {
        bool g = n.granted < 0 && inV(n, i);
        if (g)
          n.granted = i;
        setReady(n.in[i], g);
      }
      break;
    }
    case LocalStore:
    {
      // no response: the local memory serves a store in the cycle in which it accepts it
      bool can = true;
      for (size_t i = 0; i < n.in.size(); i++)
        can &= inV(n, i);
      for (auto r : n.reg)
        can &= !r;
      size_t ns = n.reg.size();
      for (size_t i = 0; i < ns; i++)
        setOut(n.out[i], n.reg[i], 0);
      setOut(n.out[ns], can, inD(n, 0));
      setOut(n.out[ns + 1], can, inD(n, 1));
      bool r = can && outR(n, ns);
      for (auto c : n.in)
        setReady(c, r);
      break;
    }
    }
  }

  void
  settle()
  {
    uint64_t steps = 0, limit = 2000 * (nodes.size() + 10);
    while (!work.empty())
    {
      int k = work.back();
      work.pop_back();
      nodes[k].dirty = false;
      eval(k);
      if (++steps > limit)
        pbt::fail("circuit: combinational loop does not settle", "cycle " + std::to_string(now));
    }
  }

  // ---- clock edge; returns whether anything changed
  bool
  tick()
  {
    bool progress = false;
    for (size_t k = 0; k < nodes.size(); k++)
    {
      auto & n = nodes[k];
      bool ch = false;
      switch (n.kind)
      {
      case Arg:
        if (fireOut(n, 0))
        {
          n.reg[0] = 0;
          ch = true;
        }
        break;
      case Result:
        if (fireIn(n, 0))
        {
          n.reg[0] = 1;
          n.dreg[0] = inD(n, 0);
          ch = true;
        }
        break;
      case MemPort:
        if (fireIn(n, 0))
        {
          request(n.port, nodes[chans[n.in[0]].prod].bundle);
          progress = true;
          touch(ports[n.port].resp);
        }
        break;
      case RespPort:
        if (fireOut(n, 0))
        {
          ports[n.port].q.pop_front();
          ch = true;
          touch(chans[n.out[0]].cons);
        }
        if (!ports[n.port].q.empty())
        {
          touch(k); // may become due
          progress = true;
        }
        break;
      case Fork:
      case Gate:
      {
        bool all = n.kind == Fork ? chans[n.in[0]].ready : true;
        if (n.kind == Gate)
          for (size_t i = 0; i < n.out.size(); i++)
            all &= fireOut(n, i) || n.reg[i];
        for (size_t i = 0; i < n.out.size(); i++)
        {
          char x = all ? 0 : n.reg[i] || fireOut(n, i);
          ch |= x != n.reg[i];
          n.reg[i] = x;
        }
        break;
      }
      case PredBuf:
        if (fireIn(n, 0) || fireOut(n, 0))
        {
          bool i = fireIn(n, 0), ou = fireOut(n, 0);
          if (i)
          {
            n.reg[0] = 1;
            n.dreg[0] = inD(n, 0);
          }
          if (ou)
            n.reg[0] = 0;
          ch = true;
        }
        break;
      case LCB:
        if (fireIn(n, 1))
        {
          n.dreg[0] = inD(n, 1);
          ch = true;
        }
        break;
      case Buf:
      {
        bool i = fireIn(n, 0), ou = fireOut(n, 0);
        if (n.pass && n.fifo.empty())
        {
          if (i && !ou)
          {
            n.fifo.push_back(inD(n, 0));
            ch = true;
          }
        }
        else
        {
          if (ou)
            n.fifo.pop_front();
          if (i)
            n.fifo.push_back(inD(n, 0));
          ch = i || ou;
        }
        break;
      }
      case Queue:
      {
        bool e = fireIn(n, 1), d = fireIn(n, 2);
        if (d)
          n.fifo.pop_front();
        if (e)
          n.fifo.push_back(inD(n, 1));
        ch = e || d;
        break;
      }
      case Load:
      {
        size_t last = n.reg.size() - 1;
        bool sent = n.reg[last];
        bool resp = sent && inV(n, n.in.size() - 1);
        bool req = outR(n, n.out.size() - 1);
        bool f0 = fireOut(n, 0);
        for (size_t i = 1; i < last; i++)
          if (fireOut(n, i))
          {
            n.reg[i] = 0;
            ch = true;
          }
        if (resp)
        {
          n.reg[last] = 0;
          n.dreg[0] = inD(n, n.in.size() - 1);
          n.reg[0] = 1;
          ch = true;
        }
        if (req)
        {
          n.reg[last] = 1;
          for (size_t i = 1; i < last; i++)
            n.reg[i] = 1;
          ch = true;
        }
        if (f0)
        {
          n.reg[0] = 0;
          ch = true;
        }
        break;
      }
      case DecLoad:
      {
        if (fireOut(n, 0))
        {
          n.fifo.pop_front();
          ch = true;
        }
        if (fireOut(n, 1))
        {
          n.outstanding++;
          ch = true;
        }
        if (fireIn(n, 1))
        {
          if (!n.outstanding)
            pbt::fail("circuit: response to a decoupled load that did not ask", "");
          n.outstanding--;
          n.fifo.push_back(inD(n, 1));
          ch = true;
        }
        break;
      }
      case LocalStore:
      {
        bool req = fireOut(n, n.reg.size());
        for (size_t i = 0; i < n.reg.size(); i++)
        {
          char x = (n.reg[i] && !fireOut(n, i)) || req;
          ch |= x != n.reg[i];
          n.reg[i] = x;
        }
        ch |= req;
        break;
      }
      case LocalReq:
      {
        auto & m = localMem[n.partner];
        std::vector<char> was = n.reg;
        for (size_t i = 0; i < n.nloads; i++)
        {
          if (n.reg[i] && !fireOut(nodes[n.port], i))
            pbt::fail("circuit: local memory response lost", "cycle " + std::to_string(now));
          n.reg[i] = 0;
        }
        if (n.granted > 0)
        {
          uint64_t a = inD(n, n.granted);
          unsigned bits = 0;
          while ((1ull << bits) < m.size())
            bits++;
          a = mask(a, bits);
          if (a >= m.size())
            pbt::fail("behaviour differs: local memory access out of bounds", std::to_string(a));
          if ((size_t)n.granted > n.nloads)
          {
            m[a] = inD(n, n.granted + 1);
            stats.stores++;
          }
          else
          {
            n.dreg[0] = m[a];
            n.reg[n.granted - 1] = 1;
            stats.loads++;
          }
          ch = true;
        }
        ch |= was != n.reg;
        if (ch)
          touch(n.port);
        break;
      }
      default:
        break;
      }
      if (ch)
      {
        touch(k);
        progress = true;
      }
    }
    now++;
    stats.cycles++;
    if (o.seed)
      for (auto & p : ports)
      {
        bool r = o.seed % 3 == 0 || rng() % 4;
        if (r != p.ready)
        {
          p.ready = r;
          touch(p.req);
          progress = true;
        }
      }
    return progress;
  }

  void
  request(int port, const Bundle & b)
  {
    auto obj = mem.lookup(b.addr);
    std::string what = b.write ? "store" : "load";
    if (!obj || !obj->live || (obj->kind != sem::Obj::Global) || b.addr < obj->base
        || b.addr - obj->base + b.size > obj->size)
      pbt::fail(
          "behaviour differs: " + what + " outside of any object",
          "address " + std::to_string(b.addr) + " cycle " + std::to_string(now));
    if (b.write && obj->constant)
      pbt::fail("behaviour differs: store to a constant", obj->name);
    uint64_t off = b.addr - obj->base;
    Port::Response r;
    r.b = b;
    if (b.write)
    {
      for (unsigned i = 0; i < b.size; i++)
        obj->bytes[off + i] = b.data >> (8 * i);
      stats.stores++;
    }
    else
    {
      r.b.data = 0;
      for (unsigned i = 0; i < b.size; i++)
        r.b.data |= (uint64_t)obj->bytes[off + i] << (8 * i);
      stats.loads++;
    }
    r.due = now + 1 + (o.seed ? rng() % (2 * o.latency + 1) : o.latency);
    ports[port].q.push_back(r);
    if (getenv("PBT_HLSTRACE"))
      fprintf(
          stderr,
          "%lu port %d %s %s+%lu size %lu data %lu id %lu\n",
          now,
          port,
          what.c_str(),
          obj->name.c_str(),
          off,
          b.size,
          r.b.data,
          b.id);
  }

  uint64_t
  call(const std::vector<uint64_t> & args, uint64_t maxCycles)
  {
    uint64_t end = now + maxCycles;
    unsigned idle = 0;
    auto step = [&](const char * what)
    {
      bool p = tick();
      settle();
      idle = p ? 0 : idle + 1;
      if (idle > 40 || now > end)
      {
        if (getenv("PBT_HLSTRACE"))
          dump();
        pbt::fail(std::string("behaviour differs: ") + what, (idle > 40 ? "deadlock in cycle " : "still running in cycle ") + std::to_string(now));
      }
    };
    settle();
    for (;;)
    {
      bool busy = false;
      for (int k : argNodes)
        busy |= nodes[k].reg[0];
      for (auto & [k, v] : ctx)
        busy |= nodes[k].reg[0];
      if (!busy)
        break;
      step("the circuit does not get ready for the next call");
    }
    size_t values = 0;
    for (size_t i = 0; i < argNodes.size(); i++)
    {
      auto & n = nodes[argNodes[i]];
      n.reg[0] = 1;
      n.dreg[0] = 0;
      if (argIsValue[i])
      {
        if (values >= args.size())
          pbt::fail("circuit: too many arguments", "");
        n.dreg[0] = args[values++];
      }
      touch(argNodes[i]);
    }
    if (values != args.size())
      pbt::fail("circuit: an argument of the kernel is missing", std::to_string(values) + " instead of " + std::to_string(args.size()));
    for (auto & [k, v] : ctx)
    {
      nodes[k].reg[0] = 1;
      nodes[k].dreg[0] = v;
      touch(k);
    }
    idle = 0;
    settle();
    for (;;)
    {
      bool done = true;
      for (int k : resultNodes)
        done &= nodes[k].reg[0];
      if (done)
        break;
      step("the circuit does not finish");
    }
    // loads whose value nobody needs may still be under way
    for (auto & p : ports)
      for (auto & r : p.q)
        if (r.b.write)
          pbt::fail("behaviour differs: store outstanding when the circuit has finished", std::to_string(p.q.size()));
    uint64_t r = 0;
    size_t nr = 0;
    for (size_t i = 0; i < resultNodes.size(); i++)
    {
      if (resultIsValue[i])
      {
        nr++;
        r = nodes[resultNodes[i]].dreg[0];
      }
      nodes[resultNodes[i]].reg[0] = 0;
      touch(resultNodes[i]);
    }
    if (nr != 1)
      pbt::fail("circuit: wrong number of results", std::to_string(nr));
    settle();
    return r;
  }

  void
  dump()
  {
    for (size_t k = 0; k < nodes.size(); k++)
    {
      auto & n = nodes[k];
      fprintf(stderr, "%zu %s in:", k, n.n ? n.n->DebugString().c_str() : n.kind == Arg ? "ARG" : n.kind == Result ? "RESULT" : "PORT");
      for (auto c : n.in)
        fprintf(stderr, " %d.%d%s%s=%lu", chans[c].prod, chans[c].pi, chans[c].valid ? "V" : "", chans[c].ready ? "R" : "", chans[c].data);
      fprintf(stderr, " reg:");
      for (auto r : n.reg)
        fprintf(stderr, " %d", r);
      fprintf(stderr, " fifo %zu\n", n.fifo.size());
    }
  }
};

Simulator::Simulator(const R::LambdaNode & lambda, sem::Machine & memory, const SimOpts & o)
    : c_(new Circuit(lambda, memory, o, stats))
{}

Simulator::~Simulator() = default;

uint64_t
Simulator::call(const std::vector<uint64_t> & args, uint64_t maxCycles)
{
  return c_->call(args, maxCycles);
}

}
