#ifndef VERIF_IRINTERP_HPP
#define VERIF_IRINTERP_HPP

#include "sem.hpp"

#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>

namespace sem
{

class IrMachine : public Machine
{
public:
  explicit IrMachine(llvm::Module & m);

  // Lays out globals and functions; call after configuration.
  void
  init();

  Val
  run(llvm::Function & f, const std::vector<Val> & args);

  Val
  callFunction(Obj * f, const std::vector<Val> & args) override;
  Callee
  calleeInfo(Obj * f) override;

  llvm::Module & M;

  using Frame = llvm::DenseMap<const llvm::Value *, Val>;

  // observation
  virtual void
  onEnter(llvm::Function &, Frame &)
  {}
  virtual void
  onLeave(llvm::Function &)
  {}
  virtual void
  onBlock(Frame &, llvm::BasicBlock * /*block*/, llvm::BasicBlock * /*previous*/)
  {}
  virtual void
  onCall(const llvm::CallBase &, bool /*before*/)
  {}
  virtual void
  onValue(Frame &, const llvm::Value *, const Val &)
  {}

  Val
  eval(Frame & fr, const llvm::Value * v);

private:
  Val
  constant(const llvm::Constant * c);
  Val
  exec(llvm::Function & f, const std::vector<Val> & args);
  Val
  gep(llvm::Type * srcTy, const Val & base, const std::vector<Val> & idx, llvm::Type * resTy);
  Val
  call(const llvm::CallBase & cb, Frame & fr);

  void
  vaList(const std::string & name, const std::vector<Val> & args, const llvm::CallBase & cb);

  std::vector<std::pair<bool, std::vector<Val>>> variadic_; // of the functions being executed
  llvm::DenseMap<const llvm::Constant *, Val> consts_;
  std::map<Obj *, llvm::Function *> funcs_;
};

}
#endif
