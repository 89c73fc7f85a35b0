// Value, memory and external-world semantics shared by the LLVM IR interpreter and the RVSDG interpreter.
#ifndef VERIF_SEM_HPP
#define VERIF_SEM_HPP

#include "pbt.hpp"

#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Module.h>

#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sem
{

struct UB
{
  std::string why;
};

struct OutOfFuel
{
  std::string why;
};

struct ProgramExit
{
};

// The program at hand uses something the interpreter does not model.
struct Unsupported
{
  std::string why;
};

struct Val
{
  enum Kind : uint8_t
  {
    None,
    Int,
    Fp,
    Ptr,
    Agg
  };
  Kind k = None;
  bool und = false; // undef or poison (strict mode only)
  llvm::APInt i;
  std::shared_ptr<std::vector<Val>> e;

  static Val
  mkInt(llvm::APInt v)
  {
    Val r;
    r.k = Int;
    r.i = std::move(v);
    return r;
  }
  static Val
  mkInt(unsigned bits, uint64_t v)
  {
    return mkInt(llvm::APInt(bits, v));
  }
  static Val
  mkPtr(uint64_t a)
  {
    Val r;
    r.k = Ptr;
    r.i = llvm::APInt(64, a);
    return r;
  }
  static Val
  mkFp(llvm::APInt bits)
  {
    Val r;
    r.k = Fp;
    r.i = std::move(bits);
    return r;
  }
  static Val
  mkAgg(std::vector<Val> v)
  {
    Val r;
    r.k = Agg;
    r.e = std::make_shared<std::vector<Val>>(std::move(v));
    return r;
  }
  bool
  anyUnd() const
  {
    if (k == Agg)
    {
      for (auto & x : *e)
        if (x.anyUnd())
          return true;
      return false;
    }
    return und;
  }
  uint64_t
  u() const
  {
    return i.getZExtValue();
  }
};

struct Obj
{
  enum Kind
  {
    Global,
    Function,
    Alloca,
    Heap,
    ExtMem
  };
  unsigned id = 0;
  Kind kind = Global;
  uint64_t base = 0, size = 0;
  std::vector<uint8_t> bytes, und;
  bool live = true;
  bool constant = false;
  bool exported = false;
  std::string name;
  const void * site = nullptr;
};

struct SnapPtr
{
  uint64_t slot;      // offset within the snapshotted object
  int obj;            // index into snapshot, or -1: wildcard (dead object)
  uint64_t off;
};

struct SnapObj
{
  Obj::Kind kind;
  std::string name;
  uint64_t size;
  unsigned id;
  std::vector<uint8_t> bytes, und;
  std::vector<SnapPtr> ptrs;
};

struct SnapVal
{
  bool und = false;
  bool ptr = false; // refers to snapshot object
  Val::Kind k = Val::None;
  llvm::APInt i;
  int obj = -1;
  uint64_t off = 0;
  std::vector<SnapVal> e;
};

struct Event
{
  std::string what; // "call f", "vload", "vstore", "return", "exit"
  std::vector<SnapVal> vals;
  std::vector<SnapObj> objs; // closure of escaped memory
  std::vector<int> roots;    // indices of stashed objects, in stash order (-1: dead)
};

struct Mismatch
{
  std::string kind, msg;
};

class Machine;

// What an interpreter must offer so that external code can call back into the module.
struct Callee
{
  std::string name;
  llvm::FunctionType * type = nullptr;
  bool defined = false;
};

class Machine
{
public:
  explicit Machine(const llvm::DataLayout & dl, llvm::LLVMContext & ctx)
      : DL(dl),
        Context(ctx)
  {}
  virtual ~Machine() = default;

  const llvm::DataLayout & DL;
  llvm::LLVMContext & Context;

  // configuration
  bool strict = true;        // source program: track undef/poison
  uint64_t worldSeed = 1;    // behaviour of the external world (equal for both sides)
  uint64_t layoutSeed = 1;   // address space layout (may differ)
  uint64_t junkSeed = 1;     // contents of undefined values (lenient mode)
  uint64_t fuel = 20000;
  unsigned maxDepth = 60;
  const std::vector<Event> * expected = nullptr; // lenient mode: compare against this trace on the fly

  // state
  std::vector<Event> trace;
  uint64_t steps = 0;
  unsigned depth = 0;
  std::map<uint64_t, std::unique_ptr<Obj>> objs;
  std::map<std::string, Obj *> globals;
  std::vector<std::pair<Obj *, uint64_t>> stash;
  std::map<unsigned, unsigned> srcToTgt; // object correspondence (lenient mode)
  std::map<unsigned, unsigned> tgtToSrc;
  uint64_t eventCount = 0;
  std::map<unsigned, uint64_t> deaths; // allocas that are gone, with the first event after their end
  const std::map<unsigned, uint64_t> * expectedDeaths = nullptr;
  unsigned callbackDepth = 0;
  std::map<std::string, unsigned> features;

  void
  tick(uint64_t n = 1)
  {
    steps += n;
    if (steps > fuel)
      throw OutOfFuel{ "fuel" };
  }

  Obj *
  allocate(uint64_t size, uint64_t align, Obj::Kind kind, const std::string & name, const void * site);
  Obj *
  lookup(uint64_t addr) const; // object containing addr or ending at it
  Obj *
  access(uint64_t addr, uint64_t size, uint64_t align, bool write, const char * what);

  Val
  undef(llvm::Type * t);
  Val
  zero(llvm::Type * t);
  Val
  load(llvm::Type * t, uint64_t addr, uint64_t align, const void * site);
  void
  store(llvm::Type * t, const Val & v, uint64_t addr, uint64_t align, const void * site, bool init = false);
  void
  memcopy(uint64_t dst, uint64_t src, uint64_t n, bool move, const void * site);
  void
  memset(uint64_t dst, const Val & byte, uint64_t n, const void * site);
  void
  freeObj(uint64_t addr, const void * site);

  // semantic operations, elementwise on vectors
  Val
  binop(unsigned opcode, const Val & a, const Val & b, bool nsw = false, bool nuw = false, bool exact = false);
  Val
  icmp(llvm::CmpInst::Predicate p, const Val & a, const Val & b);
  Val
  fcmp(llvm::CmpInst::Predicate p, const Val & a, const Val & b);
  Val
  cast(unsigned opcode, const Val & a, llvm::Type * src, llvm::Type * dst, bool nneg = false);
  Val
  fneg(const Val & a);
  Val
  poison(const Val & like); // undefined value of the same shape
  Val
  extractValue(const Val & a, const std::vector<unsigned> & idx);
  Val
  insertValue(const Val & a, const Val & x, const std::vector<unsigned> & idx, size_t at = 0);
  Val
  extractElement(const Val & v, const Val & idx);
  Val
  insertElement(const Val & v, const Val & x, const Val & idx);
  Val
  intrinsic(const std::string & name, const std::vector<Val> & args, llvm::Type * ret, const void * site);
  bool
  truth(const Val & v, const char * where); // condition of control flow

  // external world
  Val
  externalCall(const std::string & name, llvm::FunctionType * ft, const std::vector<Val> & args, const void * site);
  void
  volatileEvent(bool isStore, uint64_t addr, uint64_t size, const Val & v);
  void
  finishEvent(const std::string & what, const std::vector<Val> & vals);

  // hooks
  virtual Val
  callFunction(Obj * f, const std::vector<Val> & args) = 0;
  virtual Callee
  calleeInfo(Obj * f) = 0;
  virtual void
  onAccess(const void * /*site*/, Obj * /*o*/, uint64_t /*off*/, uint64_t /*size*/, bool /*write*/)
  {}

  uint64_t
  rnd(uint64_t salt) const; // world randomness, a function of worldSeed and eventCount

private:
  void
  event(Event e, const std::vector<Val> & vals, bool closure);
  int
  snapObj(Event & e, std::map<Obj *, int> & idx, Obj * o);
  SnapVal
  snapVal(Event & e, std::map<Obj *, int> & idx, const Val & v);
  void
  compare(const Event & want, const std::string & what, const std::vector<Val> & vals, bool closure);
  void
  compareVal(const Event & want, const SnapVal & w, const Val & v, const std::string & where);
  void
  relate(const Event & want, int obj, Obj * o, const std::string & where);
  std::vector<std::pair<int, Obj *>> pending_;
  void
  compareObjs(const Event & want);
  uint64_t
  junk();
  uint64_t junkState_ = 0;
  uint64_t nextAddr_ = 0;
  unsigned nextId_ = 0;
};

const llvm::fltSemantics &
semantics(unsigned bits);

std::string
show(const Val & v);

llvm::Type *
elemType(llvm::Type * aggregate, unsigned i);

}

#endif
