#ifndef VERIF_IRGEN_HPP
#define VERIF_IRGEN_HPP

#include "pbt.hpp"

#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>

#include <memory>

namespace gen
{

struct Opts
{
  unsigned maxFuncs = 3;
  unsigned stmts = 10;      // per function, roughly
  unsigned cfgPercent = 35; // functions with a random control flow graph instead of structured code
  bool fp = true;
  bool vec = true;
  bool vol = true;
  bool calls = true;      // internal calls, recursion
  bool external = true;   // external calls
  bool fnptr = true;
  bool memory = true;     // pointers, globals, heap
  bool intrinsics = true;
  bool agg = true;        // struct values
  bool heap = true;
  bool undefs = true;     // undefined values, freeze, overflow flags
  bool oddInts = true;
  bool endless = false;
  bool prelude = true;    // run random LLVM passes afterwards
  bool exits = true;      // external functions that may not return
  unsigned loopWeight = 4;
  unsigned memWeight = 5;
  bool constLoops = false;  // favour counted loops with constant bounds
  bool promote = false;     // always promote scalars to SSA form
  unsigned callWeight = 3;
  bool ptrSelect = true;
  unsigned ptrPlay = 1; // weight of statements that move pointers around
  unsigned structPlay = 0; // weight of statements about local structs
  bool allocaAgg = true;
  bool allocaCount = true;  // allocas of several elements, possibly a number only known at run time
  unsigned variadic = 6;    // functions with variadic arguments in one of this many programs
};

struct Program
{
  std::unique_ptr<llvm::Module> module;
  std::vector<std::string> entries; // functions of type i64 (i64, i64)
};

Program
generate(pbt::Ctx & c, llvm::LLVMContext & ctx, const Opts & o);

void
runPasses(llvm::Module & m, const std::string & pipeline);

std::string
print(const llvm::Module & m);

}
#endif
