From fb1883bf27a34f2ef373cffd557b9185e551f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 01/75] fix: keep the natural alignment of globals that carry
 no explicit alignment

An absent alignment attribute means that LLVM picks (at least) the ABI
alignment, not that the global is only byte aligned. Emitting 'align 1' made
every naturally aligned access to such a global undefined.
---
 jlm/llvm/frontend/LlvmModuleConversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/llvm/frontend/LlvmModuleConversion.cpp b/jlm/llvm/frontend/LlvmModuleConversion.cpp
index f2e86c7..417a2b8 100644
--- a/jlm/llvm/frontend/LlvmModuleConversion.cpp
+++ b/jlm/llvm/frontend/LlvmModuleConversion.cpp
@@ -2547,7 +2547,7 @@ declare_globals(::llvm::Module & lm, Context & ctx)
     auto type = ctx.GetTypeConverter().ConvertLlvmType(*gv.getValueType());
     auto linkage = convert_linkage(gv.getLinkage());
     auto section = gv.getSection().str();
-    const auto alignment = gv.getAlign().valueOrOne().value();
+    const auto alignment = gv.getPointerAlignment(gv.getParent()->getDataLayout()).value();
 
     return DataNode::Create(
         ctx.module().ipgraph(),
-- 
2.43.0


From 09dd87bb16b60743d44466bab32087c7ca247151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 02/75] fix: accept select instructions that choose between
 vectors with a scalar condition

---
 jlm/llvm/frontend/LlvmModuleConversion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/frontend/LlvmModuleConversion.cpp b/jlm/llvm/frontend/LlvmModuleConversion.cpp
index 417a2b8..708cd60 100644
--- a/jlm/llvm/frontend/LlvmModuleConversion.cpp
+++ b/jlm/llvm/frontend/LlvmModuleConversion.cpp
@@ -1853,7 +1853,8 @@ convert_select_instruction(::llvm::Instruction * i, tacsvector_t & tacs, Context
   auto t = ConvertValue(instruction->getTrueValue(), tacs, ctx);
   auto f = ConvertValue(instruction->getFalseValue(), tacs, ctx);
 
-  if (i->getType()->isVectorTy())
+  // A scalar condition selects between entire vectors
+  if (instruction->getCondition()->getType()->isVectorTy())
     tacs.push_back(VectorSelectOperation::create(p, t, f));
   else
     tacs.push_back(SelectOperation::create(p, t, f));
-- 
2.43.0


From 2dc85783764d8901084cd0ba144e7db3503215e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 03/75] fix: do not treat a multi-way branch that reenters its
 loop as a tail-controlled loop

A switch with a repetition, an exit, and a third alternative into the middle of
the loop was taken for the end of a tail-controlled loop, which violated the
assumptions of loop extraction (assertions, crashes).
---
 jlm/llvm/ir/cfg-structure.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/ir/cfg-structure.cpp b/jlm/llvm/ir/cfg-structure.cpp
index a8f0a2b..fbe4c69 100644
--- a/jlm/llvm/ir/cfg-structure.cpp
+++ b/jlm/llvm/ir/cfg-structure.cpp
@@ -29,7 +29,9 @@ bool
 StronglyConnectedComponentStructure::IsTailControlledLoop() const noexcept
 {
   return NumEntryNodes() == 1 && NumRepetitionEdges() == 1 && NumExitEdges() == 1
-      && (*RepetitionEdges().begin())->source() == (*ExitEdges().begin())->source();
+      && (*RepetitionEdges().begin())->source() == (*ExitEdges().begin())->source()
+      // A branch with further alternatives reenters the loop body in the middle
+      && (*RepetitionEdges().begin())->source()->NumOutEdges() == 2;
 }
 
 std::unique_ptr<StronglyConnectedComponentStructure>
-- 
2.43.0


From 165fac78506e2d3d3dfd32d0badb658e3260f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 04/75] fix: swap every alternative when inverting the
 predicate of a tail-controlled loop

---
 .../frontend/ControlFlowRestructuring.cpp     | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/jlm/llvm/frontend/ControlFlowRestructuring.cpp b/jlm/llvm/frontend/ControlFlowRestructuring.cpp
index 6aa9a10..0ed497f 100644
--- a/jlm/llvm/frontend/ControlFlowRestructuring.cpp
+++ b/jlm/llvm/frontend/ControlFlowRestructuring.cpp
@@ -251,17 +251,18 @@ invertMatchOperation(const rvsdg::MatchOperation & matchOperation)
 {
   JLM_ASSERT(matchOperation.nalternatives() == 2);
 
-  const size_t numBits = matchOperation.nbits();
-  const auto oldDefaultAlternative = matchOperation.default_alternative();
-  auto [oldValue, oldAlternative] = *matchOperation.begin();
-  const auto newDefaultAlternative = oldAlternative;
-  auto newAlternative = oldDefaultAlternative;
-
-  return std::unique_ptr<rvsdg::MatchOperation>(new rvsdg::MatchOperation(
-      numBits,
-      { { oldValue, newAlternative } },
-      newDefaultAlternative,
-      matchOperation.nalternatives()));
+  // Every alternative needs to be swapped, as more than one value can be mapped explicitly
+  std::unordered_map<uint64_t, uint64_t> newMapping;
+  for (const auto & [value, alternative] : matchOperation)
+  {
+    newMapping[value] = 1 - alternative;
+  }
+
+  return std::make_unique<rvsdg::MatchOperation>(
+      matchOperation.nbits(),
+      newMapping,
+      1 - matchOperation.default_alternative(),
+      matchOperation.nalternatives());
 }
 
 /**
-- 
2.43.0


From 3d216e576e6dbd5820e3eb3158aeca44c66963cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 05/75] fix: give shufflevector results the type implied by
 their mask

---
 jlm/llvm/ir/operators/operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/operators/operators.hpp b/jlm/llvm/ir/operators/operators.hpp
index 9b39190..d02ca52 100644
--- a/jlm/llvm/ir/operators/operators.hpp
+++ b/jlm/llvm/ir/operators/operators.hpp
@@ -1226,14 +1226,14 @@ public:
   ShuffleVectorOperation(
       const std::shared_ptr<const FixedVectorType> & v,
       const std::vector<int> & mask)
-      : SimpleOperation({ v, v }, { v }),
+      : SimpleOperation({ v, v }, { FixedVectorType::Create(v->Type(), mask.size()) }),
         Mask_(mask)
   {}
 
   ShuffleVectorOperation(
       const std::shared_ptr<const ScalableVectorType> & v,
       const std::vector<int> & mask)
-      : SimpleOperation({ v, v }, { v }),
+      : SimpleOperation({ v, v }, { ScalableVectorType::Create(v->Type(), mask.size()) }),
         Mask_(mask)
   {}
 
-- 
2.43.0


From e158ee7ff52427c800203b6d849711043fe477c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 06/75] fix: lower one-bit matches with any mapping and any
 number of alternatives

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 30 ++++++++-------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index c69d1ab..9b40e75 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -305,18 +305,6 @@ IpGraphToLlvmConverter::convert(
   return callInstruction;
 }
 
-static bool
-is_identity_mapping(const rvsdg::MatchOperation & op)
-{
-  for (const auto & pair : op)
-  {
-    if (pair.first != pair.second)
-      return false;
-  }
-
-  return true;
-}
-
 ::llvm::Value *
 IpGraphToLlvmConverter::convert_match(
     const rvsdg::SimpleOperation & op,
@@ -326,15 +314,19 @@ IpGraphToLlvmConverter::convert_match(
   JLM_ASSERT(is<rvsdg::MatchOperation>(op));
   auto mop = static_cast<const rvsdg::MatchOperation *>(&op);
 
-  if (is_identity_mapping(*mop))
-    return Context_->value(args[0]);
-
   if (mop->nalternatives() == 2 && mop->nbits() == 1)
   {
+    const auto value = Context_->value(args[0]);
+    const auto alternative0 = mop->alternative(0);
+    const auto alternative1 = mop->alternative(1);
+
+    if (alternative0 == 0 && alternative1 == 1)
+      return value;
+
     auto i1 = ::llvm::IntegerType::get(builder.getContext(), 1);
-    auto t = ::llvm::ConstantInt::getFalse(i1);
-    auto f = ::llvm::ConstantInt::getTrue(i1);
-    return builder.CreateSelect(Context_->value(args[0]), t, f);
+    auto t = ::llvm::ConstantInt::get(i1, alternative1);
+    auto f = ::llvm::ConstantInt::get(i1, alternative0);
+    return builder.CreateSelect(value, t, f);
   }
 
   /* FIXME: This is not working if the match is not directly connected to a gamma node. */
@@ -1903,7 +1895,7 @@ IpGraphToLlvmConverter::create_terminator_instruction(const llvm::ControlFlowGra
   JLM_ASSERT(branch && is<BranchOperation>(branch));
 
   // conditional branch
-  if (Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
+  if (node->NumOutEdges() == 2 && Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
     return create_conditional_branch(node);
 
   // switch
-- 
2.43.0


From e53882571c59e30a8dc8ce33ef1588e903a683a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 07/75] fix: update phis when an endless loop is given an exit

---
 jlm/llvm/frontend/LlvmModuleConversion.cpp | 49 +++++++++++++++++++++-
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/frontend/LlvmModuleConversion.cpp b/jlm/llvm/frontend/LlvmModuleConversion.cpp
index 708cd60..5614174 100644
--- a/jlm/llvm/frontend/LlvmModuleConversion.cpp
+++ b/jlm/llvm/frontend/LlvmModuleConversion.cpp
@@ -2363,6 +2363,40 @@ convert_argument(const ::llvm::Argument & argument, Context & ctx)
   return llvm::Argument::create(name, type, attributes);
 }
 
+/**
+ * Replaces \p oldPredecessor with \p newPredecessor in the incoming nodes of all
+ * \ref SsaPhiOperation%s of \p node.
+ */
+static void
+ReplacePhiPredecessor(
+    ControlFlowGraphNode & node,
+    ControlFlowGraphNode & oldPredecessor,
+    ControlFlowGraphNode & newPredecessor)
+{
+  const auto basicBlock = dynamic_cast<BasicBlock *>(&node);
+  if (!basicBlock)
+    return;
+
+  for (auto & tac : basicBlock->tacs())
+  {
+    const auto phi = dynamic_cast<const SsaPhiOperation *>(&tac->operation());
+    if (!phi)
+      break;
+
+    std::vector<ControlFlowGraphNode *> incomingNodes;
+    std::vector<const Variable *> operands;
+    for (size_t n = 0; n < phi->narguments(); n++)
+    {
+      const auto incomingNode = phi->GetIncomingNode(n);
+      incomingNodes.push_back(incomingNode == &oldPredecessor ? &newPredecessor : incomingNode);
+      operands.push_back(tac->operand(n));
+    }
+
+    const SsaPhiOperation newPhi(std::move(incomingNodes), phi->Type());
+    tac->replace(newPhi, operands);
+  }
+}
+
 static void
 EnsureSingleInEdgeToExitNode(ControlFlowGraph & cfg)
 {
@@ -2407,10 +2441,21 @@ EnsureSingleInEdgeToExitNode(ControlFlowGraph & cfg)
             basicBlock->append_last(ThreeAddressCode::create(std::move(op), {}))->result(0);
         basicBlock->append_last(BranchOperation::create(2, operand));
 
+        auto loopNode = repetitionEdge->sink();
+        auto repetitionNode = repetitionEdge->source();
+
         basicBlock->add_outedge(exitNode);
-        basicBlock->add_outedge(repetitionEdge->sink());
+        basicBlock->add_outedge(loopNode);
+
+        for (size_t n = 0; n < repetitionNode->NumOutEdges(); n++)
+        {
+          const auto edge = repetitionNode->OutEdge(n);
+          if (edge->sink() == loopNode)
+            edge->divert(basicBlock);
+        }
 
-        repetitionEdge->divert(basicBlock);
+        // The inserted basic block takes the place of the repetition node in the phi operations
+        ReplacePhiPredecessor(*loopNode, *repetitionNode, *basicBlock);
         break;
       }
     }
-- 
2.43.0


From b13110aa54a38eb94101de28dbd7ec5654a0f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 08/75] fix: only split allocas whose consumers address their
 elements

---
 jlm/llvm/opt/AggregateAllocaSplitting.cpp | 68 ++++++++++++++++++++---
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.cpp b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
index 22961b0..3ca0130 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.cpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
@@ -106,15 +106,63 @@ AggregateAllocaSplitting::isSplitableType(const rvsdg::Type & type)
 
   for (const auto & elementType : structType->elementTypes())
   {
-    if (IsAggregateType(*elementType))
+    if (IsAggregateType(*elementType) && !isSplitableType(*elementType))
     {
-      return isSplitableType(*elementType);
+      return false;
     }
   }
 
   return true;
 }
 
+/**
+ * Returns the type of the element that the constant \p indices of a \ref GetElementPtrOperation
+ * select within \p structType, or nullptr if they do not select a non-aggregate element.
+ */
+static std::shared_ptr<const rvsdg::Type>
+tryGetElementType(
+    std::shared_ptr<const rvsdg::Type> structType,
+    const std::vector<uint64_t> & indices)
+{
+  if (indices.size() < 2 || indices[0] != 0)
+    return nullptr;
+
+  auto type = std::move(structType);
+  for (size_t n = 1; n < indices.size(); n++)
+  {
+    const auto currentType = dynamic_cast<const StructType *>(type.get());
+    if (!currentType)
+      return nullptr;
+
+    JLM_ASSERT(indices[n] < currentType->numElements());
+    type = currentType->getElementType(indices[n]);
+  }
+
+  return IsAggregateType(*type) ? nullptr : type;
+}
+
+/**
+ * Checks whether \p gepNode always computes the address of a statically known non-aggregate element
+ * of the struct that is allocated by \p allocaNode.
+ */
+static bool
+isElementAddress(const rvsdg::SimpleNode & gepNode, rvsdg::SimpleNode & allocaNode)
+{
+  const auto gepConstant = GetElementPtrOperation::tryGetAsConstant(gepNode);
+  if (!gepConstant.has_value())
+    return false;
+
+  const auto allocaOperation =
+      util::assertedCast<const AllocaOperation>(&allocaNode.GetOperation());
+  if (*gepConstant->pointeeType != *allocaOperation->allocatedType()
+      || !tryGetElementType(gepConstant->pointeeType, gepConstant->indices))
+    return false;
+
+  // The base address can only be replaced if it never originates from anywhere else
+  return &rvsdg::traceOutput(*gepNode.input(0)->origin())
+      == &AllocaOperation::getPointerOutput(allocaNode);
+}
+
 std::optional<AggregateAllocaSplitting::AllocaTraceInfo>
 AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 {
@@ -232,7 +280,9 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
                   [&](const GetElementPtrOperation &)
                   {
                     JLM_ASSERT(userNode->input(0) == &user);
-                    JLM_ASSERT(GetElementPtrOperation::tryGetAsConstant(simpleNode).has_value());
+                    if (!isElementAddress(simpleNode, allocaNode))
+                      return false;
+
                     allocaTraceInfo.allocaConsumers.push_back(&simpleNode);
                     return true;
                   },
@@ -271,8 +321,8 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 bool
 AggregateAllocaSplitting::checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode)
 {
-  [[maybe_unused]] auto gepOperation =
-      dynamic_cast<const GetElementPtrOperation *>(&gepNode.GetOperation());
+  const auto gepConstant = GetElementPtrOperation::tryGetAsConstant(gepNode).value();
+  const auto elementType = tryGetElementType(gepConstant.pointeeType, gepConstant.indices);
   auto & address = *gepNode.output(0);
 
   bool hasOnlyLoadsAndStores = true;
@@ -372,14 +422,18 @@ AggregateAllocaSplitting::checkGetElementPtrUsers(const rvsdg::SimpleNode & gepN
                   operation,
                   [&](const LoadOperation &)
                   {
-                    return true;
+                    // The load must not read beyond the element
+                    const auto loadedType = LoadOperation::LoadedValueOutput(simpleNode).Type();
+                    return GetTypeStoreSize(*loadedType) <= GetTypeStoreSize(*elementType);
                   },
                   [&](const StoreOperation &)
                   {
                     if (&user != &StoreOperation::AddressInput(simpleNode))
                       return false;
 
-                    return true;
+                    // The store must not write beyond the element
+                    const auto storedType = StoreOperation::StoredValueInput(simpleNode).Type();
+                    return GetTypeStoreSize(*storedType) <= GetTypeStoreSize(*elementType);
                   },
                   [&](const IOBarrierOperation &)
                   {
-- 
2.43.0


From c0b4d518813b23146f0ec46fc11c9bf39f028e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 09/75] fix: handle memmove in load chain separation and in the
 agnostic mod/ref summarizer

---
 jlm/llvm/opt/LoadChainSeparation.cpp                     | 7 +++++++
 jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 11723b1..850b233 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -428,6 +428,13 @@ LoadChainSeparation::traceModRefChains(rvsdg::Output & startOutput, ModRefChainS
                 currentOutput =
                     MemCpyOperation::mapMemoryStateOutputToInput(*currentOutput).origin();
               },
+              [&](const MemMoveOperation &)
+              {
+                hasModRefChainLinkAboveInRegion = true;
+                currentModRefChain.add({ currentOutput, ModRefChainLink::Type::Modification });
+                currentOutput =
+                    MemMoveOperation::mapMemoryStateOutputToInput(*currentOutput).origin();
+              },
               [&](const MemSetOperation &)
               {
                 hasModRefChainLinkAboveInRegion = true;
diff --git a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
index 602d8ae..fc2e8c8 100644
--- a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
@@ -255,6 +255,15 @@ AgnosticModRefSummarizer::AnnotateSimpleNode(const rvsdg::SimpleNode & node)
         AddPointerTargetsToModRefSet(dstAddress, ModRefEffect::ModOnly, modRefSet);
         ModRefSummary_->SetSimpleNodeModRef(node, std::move(modRefSet));
       },
+      [&](const MemMoveOperation &)
+      {
+        AgnosticModRefSet modRefSet;
+        const auto & srcAddress = *MemMoveOperation::sourceInput(node).origin();
+        const auto & dstAddress = *MemMoveOperation::destinationInput(node).origin();
+        AddPointerTargetsToModRefSet(srcAddress, ModRefEffect::RefOnly, modRefSet);
+        AddPointerTargetsToModRefSet(dstAddress, ModRefEffect::ModOnly, modRefSet);
+        ModRefSummary_->SetSimpleNodeModRef(node, std::move(modRefSet));
+      },
       [&](const MemSetOperation &)
       {
         AgnosticModRefSet modRefSet;
-- 
2.43.0


From 42d9ecfdde57556e7c8ecb46d2c76e44f9e7d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 10/75] fix: handle select operations in the points-to analysis

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 22 ++++++++++++++++++++++
 jlm/llvm/opt/alias-analyses/Andersen.hpp |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index 8a338f9..331c939 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -682,6 +682,10 @@ Andersen::AnalyzeSimpleNode(const rvsdg::SimpleNode & node)
       {
         AnalyzeFreeze(node);
       },
+      [&](const SelectOperation &)
+      {
+        AnalyzeSelect(node);
+      },
       [&](const MemCpyOperation &)
       {
         AnalyzeMemcpy(node);
@@ -967,6 +971,24 @@ Andersen::AnalyzeFreeze(const rvsdg::SimpleNode & node)
   Set_->MapRegisterToExistingPointerObject(output, operandPO);
 }
 
+void
+Andersen::AnalyzeSelect(const rvsdg::SimpleNode & node)
+{
+  JLM_ASSERT(is<SelectOperation>(node.GetOperation()));
+  const auto & output = *node.output(0);
+
+  if (!IsOrContainsPointerType(*output.Type()))
+    return;
+
+  // The output is one of the two alternatives, so it may point to anything they may point to
+  const auto outputPO = Set_->CreateRegisterPointerObject(output);
+  for (const size_t n : { 1, 2 })
+  {
+    const auto alternativePO = Set_->GetRegisterPointerObject(*node.input(n)->origin());
+    Constraints_->AddConstraint(SupersetConstraint(outputPO, alternativePO));
+  }
+}
+
 void
 Andersen::AnalyzeMemcpy(const rvsdg::SimpleNode & node)
 {
diff --git a/jlm/llvm/opt/alias-analyses/Andersen.hpp b/jlm/llvm/opt/alias-analyses/Andersen.hpp
index dee5a4b..e9e9133 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.hpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.hpp
@@ -391,6 +391,9 @@ private:
   void
   AnalyzeFreeze(const rvsdg::SimpleNode & node);
 
+  void
+  AnalyzeSelect(const rvsdg::SimpleNode & node);
+
   void
   AnalyzeMemcpy(const rvsdg::SimpleNode & node);
 
-- 
2.43.0


From f108ea83e2afc9657533c433cbaa83167b0b8b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 11/75] fix: emit phis of function values as pointer phis

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index 9b40e75..de32e9a 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -358,7 +358,10 @@ IpGraphToLlvmConverter::convert_phi(
   if (rvsdg::is<MemoryStateType>(phi.Type()))
     return nullptr;
 
-  auto t = typeConverter.ConvertJlmType(*phi.Type(), llvmContext);
+  // LLVM has no values of function type, but only pointers to functions
+  auto t = rvsdg::is<rvsdg::FunctionType>(phi.Type())
+             ? ::llvm::PointerType::getUnqual(llvmContext)
+             : typeConverter.ConvertJlmType(*phi.Type(), llvmContext);
   return builder.CreatePHI(t, op.narguments());
 }
 
-- 
2.43.0


From 6e871296d3a32c9e70bfc584f197457fea751285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 12/75] fix: give LLVM phis one operand per edge of a switch

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index de32e9a..41efb39 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -2202,9 +2202,16 @@ IpGraphToLlvmConverter::convert_cfg(ControlFlowGraph & cfg, ::llvm::Function & f
       auto & op = *static_cast<const SsaPhiOperation *>(&tac->operation());
       auto phi = ::llvm::dyn_cast<::llvm::PHINode>(Context_->value(tac->result(0)));
       for (size_t n = 0; n < tac->noperands(); n++)
-        phi->addIncoming(
-            Context_->value(tac->operand(n)),
-            Context_->basic_block(op.GetIncomingNode(n)));
+      {
+        // A switch can have several edges to the same basic block, and LLVM requires an operand for
+        // each of them
+        auto incomingBlock = Context_->basic_block(op.GetIncomingNode(n));
+        for (const auto successor : ::llvm::successors(incomingBlock))
+        {
+          if (successor == phi->getParent())
+            phi->addIncoming(Context_->value(tac->operand(n)), incomingBlock);
+        }
+      }
     }
   }
 }
-- 
2.43.0


From 9002aa01250fa17b65cecac305a307747f54a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 13/75] fix: do not forward loads that do not match an element
 of a delta's initializer

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 181 +++++++++++++-------------
 1 file changed, 90 insertions(+), 91 deletions(-)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index faec2db..28a317c 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -1143,129 +1143,136 @@ copyDeltaRegionSlice(rvsdg::Output & output, rvsdg::Region & targetRegion)
   return substitutionMap.lookup(output);
 }
 
-static rvsdg::Output &
-copyDeltaElement(
+/**
+ * Attempts to create a copy of the element that is found in the initializer of a delta node at the
+ * given offset.
+ *
+ * @return the copied element in \p targetRegion, or nullptr if the bytes that are loaded do not
+ * correspond to a single element of the initializer.
+ */
+static rvsdg::Output *
+tryCopyDeltaElement(
     const uint64_t elementOffsetInBytes,
     rvsdg::Output & output,
     rvsdg::Region & targetRegion,
     const std::shared_ptr<const rvsdg::Type> & loadedType)
 {
+  const auto tryCopyScalar = [&]() -> rvsdg::Output *
+  {
+    if (elementOffsetInBytes != 0)
+      return nullptr;
+
+    if (*output.Type() == *loadedType)
+      return &copyDeltaRegionSlice(output, targetRegion);
+
+    // A narrower integer can be extracted from the least significant bits
+    const auto elementBitType = dynamic_cast<const rvsdg::BitType *>(output.Type().get());
+    const auto loadBitType = dynamic_cast<const rvsdg::BitType *>(loadedType.get());
+    if (elementBitType && loadBitType && loadBitType->nbits() < elementBitType->nbits())
+    {
+      auto & copiedOutput = copyDeltaRegionSlice(output, targetRegion);
+      return TruncOperation::createNode(copiedOutput, loadedType).output(0);
+    }
+
+    // FIXME: Loads of wider integers would need to concat multiple integers.
+    return nullptr;
+  };
+
+  const auto tryCopyArrayElement = [&](const rvsdg::SimpleNode & node,
+                                       const ArrayType & arrayType) -> rvsdg::Output *
+  {
+    const auto elementSizeInBytes = GetTypeAllocSize(*arrayType.GetElementType());
+    if (elementSizeInBytes == 0)
+      return nullptr;
+
+    const auto index = elementOffsetInBytes / elementSizeInBytes;
+    if (index >= node.ninputs())
+      return nullptr;
+
+    return tryCopyDeltaElement(
+        elementOffsetInBytes - (elementSizeInBytes * index),
+        *node.input(index)->origin(),
+        targetRegion,
+        loadedType);
+  };
+
   if (const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(output))
   {
     return rvsdg::MatchTypeWithDefault(
         node->GetOperation(),
-        [&](const IntegerConstantOperation &) -> rvsdg::Output &
+        [&](const IntegerConstantOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          auto copiedOutput = &copyDeltaRegionSlice(output, targetRegion);
-
-          const auto loadBitType = util::assertedCast<const rvsdg::BitType>(loadedType.get());
-          const auto copiedBitType =
-              util::assertedCast<const rvsdg::BitType>(copiedOutput->Type().get());
-          if (copiedBitType->nbits() == loadBitType->nbits())
-          {
-            return *copiedOutput;
-          }
-
-          if (loadBitType->nbits() < copiedBitType->nbits())
-          {
-            return *TruncOperation::createNode(*copiedOutput, loadedType).output(0);
-          }
-
-          // FIXME: In this case, we would need to concat multiple integers.
-          return *copiedOutput;
+          return tryCopyScalar();
         },
-        [&](const ConstantFP &) -> rvsdg::Output &
+        [&](const ConstantFP &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          return tryCopyScalar();
         },
-        [&](const ConstantPointerNullOperation &) -> rvsdg::Output &
+        [&](const ConstantPointerNullOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          return tryCopyScalar();
         },
-        [&](const FunctionToPointerOperation &) -> rvsdg::Output &
+        [&](const FunctionToPointerOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          return tryCopyScalar();
         },
-        [&](const IntToPtrOperation &) -> rvsdg::Output &
+        [&](const IntToPtrOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          return tryCopyScalar();
         },
-        [&](const GetElementPtrOperation &) -> rvsdg::Output &
+        [&](const GetElementPtrOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          return tryCopyScalar();
         },
-        [&](const ConstantAggregateZeroOperation &) -> rvsdg::Output &
+        [&](const ConstantAggregateZeroOperation &) -> rvsdg::Output *
         {
+          const auto loadedSize = GetTypeStoreSize(*loadedType);
+          const auto aggregateSize = GetTypeAllocSize(*output.Type());
+          if (loadedSize > aggregateSize || elementOffsetInBytes > aggregateSize - loadedSize)
+            return nullptr;
+
           if (is<PointerType>(loadedType))
           {
-            return *ConstantPointerNullOperation::createNode(targetRegion).output(0);
+            return ConstantPointerNullOperation::createNode(targetRegion).output(0);
           }
 
           if (const auto bitType = std::dynamic_pointer_cast<const rvsdg::BitType>(loadedType))
           {
-            return *IntegerConstantOperation::Create(targetRegion, bitType->nbits(), 0).output(0);
+            return IntegerConstantOperation::Create(targetRegion, bitType->nbits(), 0).output(0);
           }
 
           if (const auto floatType = std::dynamic_pointer_cast<const FloatingPointType>(loadedType))
           {
             const auto zero = ConstantFP::getZeroRepresentation(floatType->size());
-            return *ConstantFP::createNode(targetRegion, floatType->size(), zero).output(0);
+            return ConstantFP::createNode(targetRegion, floatType->size(), zero).output(0);
           }
 
           if (const auto vectorType = std::dynamic_pointer_cast<const FixedVectorType>(loadedType))
           {
-            return *ConstantAggregateZeroOperation::createNode(targetRegion, vectorType).output(0);
+            return ConstantAggregateZeroOperation::createNode(targetRegion, vectorType).output(0);
           }
 
-          throw std::logic_error("Unsupported load type");
+          return nullptr;
         },
-        [&](const ConstantArrayOperation & constantArrayOperation) -> rvsdg::Output &
+        [&](const ConstantArrayOperation & constantArrayOperation) -> rvsdg::Output *
         {
-          const auto arrayType = constantArrayOperation.type();
-          const auto elementSizeInBytes = GetTypeAllocSize(*arrayType->GetElementType());
-
-          const auto index = elementOffsetInBytes / elementSizeInBytes;
-          return copyDeltaElement(
-              elementOffsetInBytes - (elementSizeInBytes * index),
-              *node->input(index)->origin(),
-              targetRegion,
-              loadedType);
+          return tryCopyArrayElement(*node, *constantArrayOperation.type());
         },
-        [&](const ConstantDataArrayOperation & constantDataArrayOperation) -> rvsdg::Output &
+        [&](const ConstantDataArrayOperation & constantDataArrayOperation) -> rvsdg::Output *
         {
-          const auto arrayType = constantDataArrayOperation.type();
-          const auto elementSizeInBytes = GetTypeAllocSize(*arrayType->GetElementType());
-
-          const auto index = elementOffsetInBytes / elementSizeInBytes;
-          return copyDeltaElement(
-              elementOffsetInBytes - (elementSizeInBytes * index),
-              *node->input(index)->origin(),
-              targetRegion,
-              loadedType);
+          return tryCopyArrayElement(*node, *constantDataArrayOperation.type());
         },
-        [&](const ConstantStructOperation & constantStruct) -> rvsdg::Output &
+        [&](const ConstantStructOperation & constantStruct) -> rvsdg::Output *
         {
           auto & structType = constantStruct.type();
 
-          for (size_t n = 0; n < structType.numElements(); ++n)
+          // Find the last field that starts at or before the loaded offset
+          for (size_t n = structType.numElements(); n > 0; --n)
           {
-            auto fieldOffsetInBytes = structType.GetFieldOffset(n);
-
-            if (fieldOffsetInBytes == elementOffsetInBytes)
-            {
-              return copyDeltaElement(0, *node->input(n)->origin(), targetRegion, loadedType);
-            }
-
-            if (fieldOffsetInBytes > elementOffsetInBytes)
+            const auto fieldOffsetInBytes = structType.GetFieldOffset(n - 1);
+            if (fieldOffsetInBytes <= elementOffsetInBytes)
             {
-              fieldOffsetInBytes = structType.GetFieldOffset(n - 1);
-              return copyDeltaElement(
+              return tryCopyDeltaElement(
                   elementOffsetInBytes - fieldOffsetInBytes,
                   *node->input(n - 1)->origin(),
                   targetRegion,
@@ -1273,28 +1280,20 @@ copyDeltaElement(
             }
           }
 
-          const auto lastElementIndex = structType.numElements() - 1;
-          const auto fieldOffsetInBytes = structType.GetFieldOffset(lastElementIndex);
-          JLM_ASSERT(fieldOffsetInBytes <= elementOffsetInBytes);
-          return copyDeltaElement(
-              elementOffsetInBytes - fieldOffsetInBytes,
-              *node->input(lastElementIndex)->origin(),
-              targetRegion,
-              loadedType);
+          return nullptr;
         },
-        [&]() -> rvsdg::Output &
+        []() -> rvsdg::Output *
         {
-          throw std::logic_error("Unsupported operation: " + node->DebugString());
+          return nullptr;
         });
   }
 
   if (rvsdg::TryGetRegionParentNode<rvsdg::DeltaNode>(output))
   {
-    JLM_ASSERT(elementOffsetInBytes == 0);
-    return copyDeltaRegionSlice(output, targetRegion);
+    return tryCopyScalar();
   }
 
-  throw std::logic_error("Unsupported output owner");
+  return nullptr;
 }
 
 void
@@ -1317,19 +1316,19 @@ StoreValueForwarding::forwardLoadWithoutMemoryStates(
   JLM_ASSERT(tracedDelta.gepConstants.size() <= 1);
   const uint64_t offsetInBytes =
       tracedDelta.gepConstants.empty() ? 0 : tracedDelta.gepConstants.front().getOffsetInBytes();
-  auto & newOutput = copyDeltaElement(
+  const auto newOutput = tryCopyDeltaElement(
       offsetInBytes,
       deltaResultOrigin,
       *loadNode.region(),
       loadOperation->GetLoadedType());
 
-  if (*loadOperation->GetLoadedType() != *newOutput.Type())
+  if (!newOutput)
   {
-    // FIXME:
     return;
   }
 
-  LoadOperation::LoadedValueOutput(loadNode).divert_users(&newOutput);
+  JLM_ASSERT(*loadOperation->GetLoadedType() == *newOutput->Type());
+  LoadOperation::LoadedValueOutput(loadNode).divert_users(newOutput);
   context_->numForwardedLoadsWithoutMemoryState++;
 }
 
-- 
2.43.0


From 33d821da0ec29e089a8f08cc001fdd5e26b2572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 14/75] fix: keep IO barriers of accesses at negative offsets,
 beyond the known alignment, or to weak symbols

---
 jlm/llvm/ir/operators/Load.cpp        | 41 +++++++++++++++++------
 jlm/llvm/ir/operators/Store.cpp       | 41 +++++++++++++++++------
 jlm/llvm/opt/IOBarrierElimination.cpp | 48 ++++++++++++++++-----------
 3 files changed, 90 insertions(+), 40 deletions(-)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 71d452d..2bc593b 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -338,26 +338,42 @@ LoadNonVolatileOperation::NormalizeDuplicateStates(
   return std::nullopt;
 }
 
-static std::optional<size_t>
-getAllocationSizeInBytes(const rvsdg::Output & output)
+namespace
+{
+
+struct Allocation
+{
+  size_t sizeInBytes;
+  size_t alignment;
+};
+
+}
+
+static std::optional<Allocation>
+getAllocation(const rvsdg::Output & output)
 {
   auto [allocaNode, allocaOperation] =
       rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(output);
   if (allocaOperation)
   {
-    return GetTypeAllocSize(*allocaOperation->allocatedType());
+    return Allocation{ GetTypeAllocSize(*allocaOperation->allocatedType()),
+                       allocaOperation->alignment() };
   }
 
   if (const auto deltaNode = rvsdg::TryGetOwnerNode<rvsdg::DeltaNode>(output))
   {
     const auto deltaOperation =
         util::assertedCast<const LlvmDeltaOperation>(&deltaNode->GetOperation());
-    return GetTypeAllocSize(*deltaOperation->Type());
+    return Allocation{ GetTypeAllocSize(*deltaOperation->Type()), deltaOperation->getAlignment() };
   }
 
   if (const auto llvmImport = dynamic_cast<const LlvmGraphImport *>(&output))
   {
-    return GetTypeAllocSize(*llvmImport->ValueType());
+    // A weak symbol might not be defined at all
+    if (llvmImport->linkage() == Linkage::externalWeakLinkage)
+      return std::nullopt;
+
+    return Allocation{ GetTypeAllocSize(*llvmImport->ValueType()), llvmImport->getAlignment() };
   }
 
   return std::nullopt;
@@ -378,11 +394,11 @@ LoadNonVolatileOperation::normalizeIOBarrierAddress(
 
   auto & barredAddress = *IOBarrierOperation::BarredInput(*ioBarrierNode).origin();
   const auto & pointerOrigin = TracePointerOriginPrecise(barredAddress);
-  const auto allocationSizeInBytes = getAllocationSizeInBytes(*pointerOrigin.BasePointer);
-  if (!allocationSizeInBytes.has_value())
+  const auto allocation = getAllocation(*pointerOrigin.BasePointer);
+  if (!allocation.has_value())
     return std::nullopt;
 
-  size_t offsetInBytes = 0;
+  int64_t offsetInBytes = 0;
   if (const auto offsetInBytesOpt = pointerOrigin.getOffsetInBytes(); offsetInBytesOpt.has_value())
   {
     offsetInBytes = offsetInBytesOpt.value();
@@ -390,8 +406,13 @@ LoadNonVolatileOperation::normalizeIOBarrierAddress(
 
   // This transformation is only valid if the affected bytes by the load operation are within the
   // size of the allocation site.
-  if (offsetInBytes + GetTypeStoreSize(*loadOperation.GetLoadedType())
-      > allocationSizeInBytes.value())
+  if (offsetInBytes < 0
+      || offsetInBytes + GetTypeStoreSize(*loadOperation.GetLoadedType()) > allocation->sizeInBytes)
+    return std::nullopt;
+
+  // The address must also be known to be as aligned as the load operation demands.
+  const auto alignment = loadOperation.GetAlignment();
+  if (allocation->alignment < alignment || offsetInBytes % alignment != 0)
     return std::nullopt;
 
   auto & loadNode = CreateNode(
diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index fabf118..26e4fb1 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -250,26 +250,42 @@ StoreNonVolatileOperation::NormalizeDuplicateStates(
 
 // FIXME: We have exactly the same function for the
 // LoadNonVolatileOperation::normalizeIOBarrierAddress
-static std::optional<size_t>
-getAllocationSizeInBytes(const rvsdg::Output & output)
+namespace
+{
+
+struct Allocation
+{
+  size_t sizeInBytes;
+  size_t alignment;
+};
+
+}
+
+static std::optional<Allocation>
+getAllocation(const rvsdg::Output & output)
 {
   auto [allocaNode, allocaOperation] =
       rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(output);
   if (allocaOperation)
   {
-    return GetTypeAllocSize(*allocaOperation->allocatedType());
+    return Allocation{ GetTypeAllocSize(*allocaOperation->allocatedType()),
+                       allocaOperation->alignment() };
   }
 
   if (const auto deltaNode = rvsdg::TryGetOwnerNode<rvsdg::DeltaNode>(output))
   {
     const auto deltaOperation =
         util::assertedCast<const LlvmDeltaOperation>(&deltaNode->GetOperation());
-    return GetTypeAllocSize(*deltaOperation->Type());
+    return Allocation{ GetTypeAllocSize(*deltaOperation->Type()), deltaOperation->getAlignment() };
   }
 
   if (const auto llvmImport = dynamic_cast<const LlvmGraphImport *>(&output))
   {
-    return GetTypeAllocSize(*llvmImport->ValueType());
+    // A weak symbol might not be defined at all
+    if (llvmImport->linkage() == Linkage::externalWeakLinkage)
+      return std::nullopt;
+
+    return Allocation{ GetTypeAllocSize(*llvmImport->ValueType()), llvmImport->getAlignment() };
   }
 
   return std::nullopt;
@@ -291,11 +307,11 @@ StoreNonVolatileOperation::normalizeIOBarrierAddress(
 
   auto & barredAddress = *IOBarrierOperation::BarredInput(*ioBarrierNode).origin();
   const auto & pointerOrigin = TracePointerOriginPrecise(barredAddress);
-  const auto allocationSizeInBytes = getAllocationSizeInBytes(*pointerOrigin.BasePointer);
-  if (!allocationSizeInBytes.has_value())
+  const auto allocation = getAllocation(*pointerOrigin.BasePointer);
+  if (!allocation.has_value())
     return std::nullopt;
 
-  size_t offsetInBytes = 0;
+  int64_t offsetInBytes = 0;
   if (const auto offsetInBytesOpt = pointerOrigin.getOffsetInBytes(); offsetInBytesOpt.has_value())
   {
     offsetInBytes = offsetInBytesOpt.value();
@@ -303,8 +319,13 @@ StoreNonVolatileOperation::normalizeIOBarrierAddress(
 
   // This transformation is only valid if the affected bytes by the store operation are within the
   // size of the allocation site.
-  if (offsetInBytes + GetTypeStoreSize(storeOperation.GetStoredType())
-      > allocationSizeInBytes.value())
+  if (offsetInBytes < 0
+      || offsetInBytes + GetTypeStoreSize(storeOperation.GetStoredType()) > allocation->sizeInBytes)
+    return std::nullopt;
+
+  // The address must also be known to be as aligned as the store operation demands.
+  const auto alignment = storeOperation.GetAlignment();
+  if (allocation->alignment < alignment || offsetInBytes % alignment != 0)
     return std::nullopt;
 
   auto & storeNode = CreateNode(
diff --git a/jlm/llvm/opt/IOBarrierElimination.cpp b/jlm/llvm/opt/IOBarrierElimination.cpp
index cc92b29..7746b9b 100644
--- a/jlm/llvm/opt/IOBarrierElimination.cpp
+++ b/jlm/llvm/opt/IOBarrierElimination.cpp
@@ -63,30 +63,36 @@ class IOBarrierElimination::Context
 {
 public:
   /**
-   * Mark \p output as dereferenceable with size \p sizeInBytes.
+   * What is known about the memory an address points to.
+   */
+  struct Dereferenceability
+  {
+    size_t sizeInBytes = 0;
+    size_t alignment = 0;
+  };
+
+  /**
+   * Mark \p output as dereferenceable with size \p sizeInBytes and alignment \p alignment.
    *
    * @return True, if the output was not already marked as dereferenceable, otherwise false.
    */
   bool
-  markDereferenceable(const rvsdg::Output & output, const size_t sizeInBytes)
+  markDereferenceable(
+      const rvsdg::Output & output,
+      const size_t sizeInBytes,
+      const size_t alignment)
   {
-    const auto it = dereferenceableOutputs_.find(&output);
-    if (it == dereferenceableOutputs_.end())
-    {
-      dereferenceableOutputs_[&output] = sizeInBytes;
-      return true;
-    }
-
-    if (it->second < sizeInBytes)
-      dereferenceableOutputs_[&output] = sizeInBytes;
-
-    return false;
+    const auto [it, inserted] = dereferenceableOutputs_.try_emplace(&output);
+    it->second.sizeInBytes = std::max(it->second.sizeInBytes, sizeInBytes);
+    it->second.alignment = std::max(it->second.alignment, alignment);
+    return inserted;
   }
 
   /**
-   * @return The size in bytes, if \p output is marked as dereferenceable, otherwise std::nullopt.
+   * @return The size in bytes and the alignment, if \p output is marked as dereferenceable,
+   * otherwise std::nullopt.
    */
-  std::optional<size_t>
+  std::optional<Dereferenceability>
   isDereferenceable(const rvsdg::Output & output) const
   {
     const auto it = dereferenceableOutputs_.find(&output);
@@ -103,7 +109,7 @@ public:
   }
 
 private:
-  std::unordered_map<const rvsdg::Output *, size_t> dereferenceableOutputs_{};
+  std::unordered_map<const rvsdg::Output *, Dereferenceability> dereferenceableOutputs_{};
 };
 
 IOBarrierElimination::~IOBarrierElimination() = default;
@@ -164,6 +170,7 @@ IOBarrierElimination::markNode(const rvsdg::Node & node)
       {
         const auto & addressOperand = *LoadOperation::AddressInput(node).origin();
         const auto sizeInBytes = GetTypeStoreSize(*loadOperation.GetLoadedType());
+        const auto alignment = loadOperation.GetAlignment();
 
         auto [ioBarrierNode, ioBarrierOp] =
             rvsdg::TryGetSimpleNodeAndOptionalOp<IOBarrierOperation>(addressOperand);
@@ -177,14 +184,14 @@ IOBarrierElimination::markNode(const rvsdg::Node & node)
             // If the IO state is directly connected to a function argument, we can eliminate the
             // IOBarrierOperation node as function inlining should reinsert a new IOBarrierOperation
             // node when inlining is performed.
-            context_->markDereferenceable(barredAddressOperand, sizeInBytes);
+            context_->markDereferenceable(barredAddressOperand, sizeInBytes, alignment);
           }
         }
         else
         {
           // The load node is not connected to a IOBarrierOperation node. Mark its address operand
           // as dereferenceable.
-          context_->markDereferenceable(addressOperand, sizeInBytes);
+          context_->markDereferenceable(addressOperand, sizeInBytes, alignment);
         }
       });
 }
@@ -215,9 +222,10 @@ IOBarrierElimination::sweepRegion(rvsdg::Region & region)
             return;
 
           auto & barredAddressOperand = *IOBarrierOperation::BarredInput(*ioBarrierNode).origin();
-          const auto sizeOpt = context_->isDereferenceable(barredAddressOperand);
+          const auto known = context_->isDereferenceable(barredAddressOperand);
           const auto sizeInBytes = GetTypeStoreSize(*loadOperation.GetLoadedType());
-          if (!sizeOpt.has_value() || sizeOpt.value() < sizeInBytes)
+          if (!known.has_value() || known->sizeInBytes < sizeInBytes
+              || known->alignment < loadOperation.GetAlignment())
             return;
 
           loadAddress.divert_to(&barredAddressOperand);
-- 
2.43.0


From 1ee06c3a2767f306d992dbf3b524ebb099d8767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 15/75] fix: keep memory states ordered across inlined calls
 whose memory nodes differ from the caller's

---
 jlm/llvm/opt/inlining.cpp | 101 ++++++++++++++++++++++++++++----------
 1 file changed, 74 insertions(+), 27 deletions(-)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index a4eebf7..4daf838 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -11,6 +11,7 @@
 #include <jlm/llvm/ir/operators/operators.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/ir/Trace.hpp>
+#include <jlm/llvm/opt/alias-analyses/PointsToGraph.hpp>
 #include <jlm/llvm/opt/inlining.hpp>
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/MatchType.hpp>
@@ -154,6 +155,11 @@ routeContextVariablesToRegion(rvsdg::Region & region, const rvsdg::LambdaNode &
  * states into the function body directly. Memory state IDs that are unused within the function,
  * such as [9] in the example above, are instead routed around from the call merge.
  * Memory states IDs that only exist inside the function body are given undef nodes.
+ *
+ * The memory state of the external memory node can represent other memory nodes as well, and which
+ * ones it represents is decided separately for each function. A memory state ID that only exists on
+ * one of the sides can therefore be represented by the external memory state on the other side, in
+ * which case the accesses made through the two memory states must remain ordered.
  * @param callEntryMerge the call entry merge node in the diagram above
  * @param callExitSplit the call exit split node in the diagram above
  */
@@ -186,46 +192,87 @@ tryRerouteMemoryStateMergeAndSplit(
   if (!lambdaExitSplitOp)
     return;
 
+  constexpr MemoryNodeId externalId = aa::PointsToGraph::externalMemoryNode;
+  const auto callEntryIds = callEntryMergeOp->getMemoryNodeIds();
+  const auto lambdaExitIds = lambdaExitSplitOp->getMemoryNodeIds();
+
+  const auto getCallEntryOrigin = [&callEntryMerge](MemoryNodeId id) -> rvsdg::Output *
+  {
+    auto input = CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(callEntryMerge, id);
+    return input ? input->origin() : nullptr;
+  };
+
+  const auto getLambdaExitOrigin = [&exitMerge = *lambdaExitSplit](MemoryNodeId id) -> rvsdg::Output *
+  {
+    auto input = LambdaExitMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(exitMerge, id);
+    return input ? input->origin() : nullptr;
+  };
+
+  const auto joinStates = [](const std::vector<rvsdg::Output *> & states) -> rvsdg::Output *
+  {
+    if (states.size() == 1)
+      return states.front();
+    return MemoryStateJoinOperation::CreateNode(states).output(0);
+  };
+
+  util::HashSet<MemoryNodeId> lambdaEntryIds;
+  for (auto & output : lambdaEntrySplit->Outputs())
+    lambdaEntryIds.insert(LambdaEntryMemoryStateSplitOperation::mapOutputToMemoryNodeId(output));
+
   // For each memory state output of the lambdaEntrySplit, move its users or create undef nodes
   for (auto & output : lambdaEntrySplit->Outputs())
   {
-    auto memoryStateId = LambdaEntryMemoryStateSplitOperation::mapOutputToMemoryNodeId(output);
-    auto mergeInput = CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
-        callEntryMerge,
-        memoryStateId);
-    if (mergeInput)
-    {
-      output.divert_users(mergeInput->origin());
-    }
-    else
+    const auto memoryStateId =
+        LambdaEntryMemoryStateSplitOperation::mapOutputToMemoryNodeId(output);
+
+    std::vector<rvsdg::Output *> states;
+    if (auto origin = getCallEntryOrigin(memoryStateId))
+      states.push_back(origin);
+    else if (auto externalOrigin = getCallEntryOrigin(externalId))
+      states.push_back(externalOrigin);
+
+    if (memoryStateId == externalId)
     {
-      // The call has no matching memory state going into it, so we create an undef node
-      const auto undef = UndefValueOperation::Create(*output.region(), output.Type());
-      output.divert_users(undef);
+      for (auto callEntryId : callEntryIds)
+      {
+        if (!lambdaEntryIds.Contains(callEntryId))
+          states.push_back(getCallEntryOrigin(callEntryId));
+      }
     }
+
+    // The call has no matching memory state going into it, so we create an undef node
+    if (states.empty())
+      states.push_back(UndefValueOperation::Create(*output.region(), output.Type()));
+
+    output.divert_users(joinStates(states));
   }
 
   // For each memory state output of the callExitSplit, move its users
   for (auto & output : callExitSplit.Outputs())
   {
-    auto memoryStateId = CallExitMemoryStateSplitOperation::mapOutputToMemoryNodeId(output);
-    auto exitMergeInput = LambdaExitMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
-        *lambdaExitSplit,
-        memoryStateId);
-    if (exitMergeInput)
-    {
-      output.divert_users(exitMergeInput->origin());
-    }
+    const auto memoryStateId = CallExitMemoryStateSplitOperation::mapOutputToMemoryNodeId(output);
+
+    std::vector<rvsdg::Output *> states;
+    if (auto origin = getLambdaExitOrigin(memoryStateId))
+      states.push_back(origin);
+    else if (auto externalOrigin = getLambdaExitOrigin(externalId))
+      states.push_back(externalOrigin);
+    // the memory state id was never routed through the inside of the lambda, so route it around
+    else if (auto entryOrigin = getCallEntryOrigin(memoryStateId))
+      states.push_back(entryOrigin);
     else
+      throw std::runtime_error("MemoryStateId in call exit split not found in call entry merge");
+
+    if (memoryStateId == externalId)
     {
-      // the memory state id was never routed through the inside of the lambda, so route it around
-      auto entryMergeInput = CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
-          callEntryMerge,
-          memoryStateId);
-      if (!entryMergeInput)
-        throw std::runtime_error("MemoryStateId in call exit split not found in call entry merge");
-      output.divert_users(entryMergeInput->origin());
+      for (auto lambdaExitId : lambdaExitIds)
+      {
+        if (!getCallEntryOrigin(lambdaExitId))
+          states.push_back(getLambdaExitOrigin(lambdaExitId));
+      }
     }
+
+    output.divert_users(joinStates(states));
   }
 }
 
-- 
2.43.0


From ca3cf15c8af3e73d4ce0cc988032b7dff5bc9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 16/75] fix: inline functions that refer to other members of
 the phi they are defined in

---
 jlm/llvm/opt/inlining.cpp | 61 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index 4daf838..00ea6b3 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -15,6 +15,7 @@
 #include <jlm/llvm/opt/inlining.hpp>
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/MatchType.hpp>
+#include <jlm/rvsdg/Phi.hpp>
 #include <jlm/rvsdg/theta.hpp>
 #include <jlm/rvsdg/Trace.hpp>
 #include <jlm/rvsdg/traverser.hpp>
@@ -95,6 +96,47 @@ FunctionInlining::FunctionInlining()
     : Transformation("FunctionInlining")
 {}
 
+/**
+ * Finds an output that provides the value of a callee's context variable, and that can be routed to
+ * the given \p region.
+ * @param region the region the context variable is needed in
+ * @param contextVar the context variable of the callee
+ * @return an output in the region or one of its ancestors, or nullptr if there is none.
+ */
+static rvsdg::Output *
+findContextVariableOrigin(
+    const rvsdg::Region & region,
+    const rvsdg::LambdaNode::ContextVar & contextVar)
+{
+  constexpr bool enableCaching = false;
+  llvm::OutputTracer tracer(enableCaching);
+  // We avoid entering phi nodes, as we can not route from a sibling region
+  tracer.setEnterPhiNodes(false);
+
+  auto origin = &tracer.trace(*contextVar.input->origin());
+  while (origin->region() != &region && !rvsdg::Region::isAncestor(region, *origin->region()))
+  {
+    // The only thing that can be left is a phi node the callee is defined in, but not the caller.
+    // Inside, its functions and data are known by other names than outside.
+    const auto phiNode = dynamic_cast<rvsdg::PhiNode *>(origin->region()->node());
+    if (!phiNode)
+      return nullptr;
+
+    rvsdg::Output * outside = nullptr;
+    for (const auto & fixVar : phiNode->GetFixVars())
+    {
+      if (fixVar.recref == origin || fixVar.result->origin() == origin)
+        outside = fixVar.output;
+    }
+    if (!outside)
+      return nullptr;
+
+    origin = outside;
+  }
+
+  return origin;
+}
+
 /**
  * A function body has access to the function's context variables,
  * so inlining requires these context variables to be routed into the call's region.
@@ -105,17 +147,13 @@ FunctionInlining::FunctionInlining()
 static std::vector<rvsdg::Output *>
 routeContextVariablesToRegion(rvsdg::Region & region, const rvsdg::LambdaNode & callee)
 {
-  constexpr bool enableCaching = false;
-  llvm::OutputTracer tracer(enableCaching);
-  // We avoid entering phi nodes, as we can not route from a sibling region
-  tracer.setEnterPhiNodes(false);
-
   std::vector<rvsdg::Output *> deps;
   for (auto & ctxvar : callee.GetContextVars())
   {
-    auto & traced = tracer.trace(*ctxvar.input->origin());
-    auto & routed = rvsdg::RouteToRegion(traced, region);
-    deps.push_back(&routed);
+    auto origin = findContextVariableOrigin(region, ctxvar);
+    if (!origin)
+      throw std::logic_error("Context variable cannot be made available in region.");
+    deps.push_back(&rvsdg::RouteToRegion(*origin, region));
   }
 
   return deps;
@@ -494,6 +532,13 @@ FunctionInlining::considerCallForInlining(
   if (!context_->inlineableFunctions.Contains(callee))
     return;
 
+  // Everything the function body depends on must be available at the call
+  for (const auto & contextVar : callee->GetContextVars())
+  {
+    if (!findContextVariableOrigin(*callNode.region(), contextVar))
+      return;
+  }
+
   // At this point we know that it is technically possible to do inlining
   context_->numInlineableCalls++;
   if (shouldInline(callNode, callerLambda, *callee))
-- 
2.43.0


From 58b6f8643d02b22f646fb8642885c029db80bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 17/75] fix: recognise loop variables that merely repeat
 another invariant loop variable

---
 jlm/llvm/opt/InvariantValueRedirection.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jlm/llvm/opt/InvariantValueRedirection.cpp b/jlm/llvm/opt/InvariantValueRedirection.cpp
index bb526ed..ebbd66d 100644
--- a/jlm/llvm/opt/InvariantValueRedirection.cpp
+++ b/jlm/llvm/opt/InvariantValueRedirection.cpp
@@ -15,6 +15,7 @@
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/MatchType.hpp>
 #include <jlm/rvsdg/theta.hpp>
+#include <jlm/rvsdg/Trace.hpp>
 #include <jlm/rvsdg/traverser.hpp>
 #include <jlm/util/Statistics.hpp>
 
@@ -208,6 +209,18 @@ InvariantValueRedirection::redirectThetaOutputs(rvsdg::ThetaNode & thetaNode)
     if (rvsdg::is<IOStateType>(loopVar.input->Type()))
       continue;
 
+    // A loop variable that takes on the value of another, invariant, loop variable is invariant as
+    // well if both start out with the same value.
+    if (!rvsdg::ThetaLoopVarIsInvariant(loopVar)
+        && rvsdg::TryGetRegionParentNode<rvsdg::ThetaNode>(*loopVar.post->origin()) == &thetaNode)
+    {
+      const auto otherLoopVar = thetaNode.MapPreLoopVar(*loopVar.post->origin());
+      if (rvsdg::ThetaLoopVarIsInvariant(otherLoopVar)
+          && &rvsdg::traceOutput(*otherLoopVar.input->origin())
+                 == &rvsdg::traceOutput(*loopVar.input->origin()))
+        loopVar.post->divert_to(loopVar.pre);
+    }
+
     if (rvsdg::ThetaLoopVarIsInvariant(loopVar))
       loopVar.output->divert_users(loopVar.input->origin());
   }
-- 
2.43.0


From e832f05ef67398f09a92cbf5601e06b47c0dfddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 18/75] fix: materialize the alternative of match operations
 that are not only used by a branch

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 45 +++++++++++++++++++--
 jlm/llvm/backend/IpGraphToLlvmConverter.hpp |  3 ++
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index 41efb39..fd25ff1 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -329,8 +329,32 @@ IpGraphToLlvmConverter::convert_match(
     return builder.CreateSelect(value, t, f);
   }
 
-  /* FIXME: This is not working if the match is not directly connected to a gamma node. */
-  return Context_->value(args[0]);
+  // Materialize the chosen alternative. A branch that is directly connected to the match operation
+  // switches over the operand of the match operation instead, in which case the instructions
+  // created here are removed again by convert_cfg().
+  auto & typeConverter = Context_->GetTypeConverter();
+  auto & llvmContext = builder.getContext();
+  const auto value = Context_->value(args[0]);
+  const auto controlType = typeConverter.ConvertJlmType(*mop->result(0), llvmContext);
+
+  ::llvm::Value * alternative =
+      ::llvm::ConstantInt::get(controlType, mop->default_alternative());
+  for (const auto & [caseValue, caseAlternative] : *mop)
+  {
+    const auto isCase =
+        builder.CreateICmpEQ(value, ::llvm::ConstantInt::get(value->getType(), caseValue));
+    alternative = builder.CreateSelect(
+        isCase,
+        ::llvm::ConstantInt::get(controlType, caseAlternative),
+        alternative);
+    for (const auto created : { isCase, alternative })
+    {
+      if (const auto instruction = ::llvm::dyn_cast<::llvm::Instruction>(created))
+        matchInstructions_.push_back(instruction);
+    }
+  }
+
+  return alternative;
 }
 
 ::llvm::Value *
@@ -1847,12 +1871,12 @@ IpGraphToLlvmConverter::create_switch(const ControlFlowGraphNode * node)
 
   auto branch = bb->tacs().last();
   JLM_ASSERT(branch && is<BranchOperation>(branch));
-  auto condition = Context_->value(branch->operand(0));
   auto match = get_match(branch);
 
   if (is<rvsdg::MatchOperation>(match))
   {
     JLM_ASSERT(match->result(0) == branch->operand(0));
+    auto condition = Context_->value(match->operand(0));
     auto mop = static_cast<const rvsdg::MatchOperation *>(&match->operation());
 
     auto defbb = Context_->basic_block(node->OutEdge(mop->default_alternative())->sink());
@@ -1867,6 +1891,7 @@ IpGraphToLlvmConverter::create_switch(const ControlFlowGraphNode * node)
   }
   else
   {
+    auto condition = Context_->value(branch->operand(0));
     auto defbb = Context_->basic_block(node->OutEdge(node->NumOutEdges() - 1)->sink());
     auto sw = builder.CreateSwitch(condition, defbb);
     for (size_t n = 0; n < node->NumOutEdges() - 1; n++)
@@ -1898,7 +1923,11 @@ IpGraphToLlvmConverter::create_terminator_instruction(const llvm::ControlFlowGra
   JLM_ASSERT(branch && is<BranchOperation>(branch));
 
   // conditional branch
-  if (node->NumOutEdges() == 2 && Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
+  const auto match = get_match(branch);
+  const auto isMultiBitMatch =
+      is<rvsdg::MatchOperation>(match) && !Context_->value(match->operand(0))->getType()->isIntegerTy(1);
+  if (node->NumOutEdges() == 2 && !isMultiBitMatch
+      && Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
     return create_conditional_branch(node);
 
   // switch
@@ -2214,6 +2243,14 @@ IpGraphToLlvmConverter::convert_cfg(ControlFlowGraph & cfg, ::llvm::Function & f
       }
     }
   }
+
+  // remove the instructions of all match operations for which only the operand is needed
+  for (auto it = matchInstructions_.rbegin(); it != matchInstructions_.rend(); ++it)
+  {
+    if ((*it)->use_empty())
+      (*it)->eraseFromParent();
+  }
+  matchInstructions_.clear();
 }
 
 void
diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.hpp b/jlm/llvm/backend/IpGraphToLlvmConverter.hpp
index ee96731..3a4836b 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.hpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.hpp
@@ -542,6 +542,9 @@ private:
       ::llvm::IRBuilder<> &);
 
   std::unique_ptr<Context> Context_;
+
+  // The instructions created for the match operations of the currently converted function
+  std::vector<::llvm::Instruction *> matchInstructions_{};
 };
 
 }
-- 
2.43.0


From 93359fa2c67e4cb57c3c3cef90eb5524738900ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 19/75] fix: keep dead volatile loads ordered before later
 accesses in invariant value redirection

---
 jlm/llvm/opt/InvariantValueRedirection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jlm/llvm/opt/InvariantValueRedirection.cpp b/jlm/llvm/opt/InvariantValueRedirection.cpp
index ebbd66d..c9b12da 100644
--- a/jlm/llvm/opt/InvariantValueRedirection.cpp
+++ b/jlm/llvm/opt/InvariantValueRedirection.cpp
@@ -414,6 +414,11 @@ InvariantValueRedirection::redirectCallOutputs(rvsdg::SimpleNode & callNode)
 void
 InvariantValueRedirection::redirectLoadMemoryStates(rvsdg::SimpleNode & loadNode)
 {
+  // The memory access of a volatile load is observable, even if its value is unused. It must remain
+  // ordered with respect to succeeding memory operations.
+  if (is<LoadVolatileOperation>(&loadNode))
+    return;
+
   if (LoadOperation::LoadedValueOutput(loadNode).IsDead())
   {
     for (auto & memoryStateOutput : LoadOperation::MemoryStateOutputs(loadNode))
-- 
2.43.0


From 2ff2e425e07ea0867f162cacd11d59b1f95499ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 20/75] fix: only treat loads from the alloca itself as
 uninitialized in store value forwarding

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 34 +++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index 28a317c..ab70357 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -547,6 +547,32 @@ private:
     return response;
   }
 
+  /**
+   * Determines if the \ref loadNode is guaranteed to load from the given memory.
+   * @param allocationOutput the output of the node that allocates the memory
+   * @return true if all possible origins of the loaded address are the given output
+   */
+  bool
+  loadsOnlyFrom(const rvsdg::Output & allocationOutput) const
+  {
+    constexpr size_t maxTraceCollectionSize = 100;
+
+    TraceCollection traceCollection;
+    if (!TraceAllPointerOrigins(
+            TracePointerOriginPrecise(*loadedAddress),
+            traceCollection,
+            maxTraceCollectionSize))
+      return false;
+
+    for (const auto & [origin, _] : traceCollection.TopOrigins)
+    {
+      if (origin != &allocationOutput)
+        return false;
+    }
+
+    return true;
+  }
+
   /**
    * Performs a simple alias analysis query between the LoadTracingInfo's \ref loadNode,
    * and the other load node given as a parameter, to determine if they read from the same address.
@@ -763,12 +789,16 @@ private:
       return sharedLastValueOrigin->second;
     }
 
-    // if tracing reaches an alloca, the value is uninitialized, so we can pick our own value
+    // If tracing reaches the alloca that is loaded from, the value is uninitialized, so we can pick
+    // our own value. If the load may also read from other memory, its value can not be determined.
     if (auto [allocaNode, allocaOp] =
             rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(tracedOutput);
         allocaNode && allocaOp)
     {
-      return ValueOrigin::createUninitialized();
+      if (loadsOnlyFrom(AllocaOperation::getPointerOutput(*allocaNode)))
+        return ValueOrigin::createUninitialized();
+
+      return ValueOrigin::createUnknown();
     }
 
     // If we found an exit variable of a gamma node, trace each of its subregions
-- 
2.43.0


From a5f391a800b441f74a31a180973f3468e5e5d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 21/75] fix: treat calls as modifying memory in load chain
 separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 850b233..6dd1758 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -446,6 +446,7 @@ LoadChainSeparation::traceModRefChains(rvsdg::Output & startOutput, ModRefChainS
               {
                 // FIXME: I really would like that state edges through calls would be recognized as
                 // either modifying or just referencing.
+                hasModRefChainLinkAboveInRegion = true;
                 traceModRefChains(*CallOperation::GetMemoryStateInput(node).origin(), summary);
                 doneTracing = true;
               },
-- 
2.43.0


From 9ac8c59f609dd7f6cdefc0241f8303c2a3515cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 22/75] fix: do not describe loop variables that are replaced
 in every iteration as chain recurrences

---
 jlm/llvm/opt/ScalarEvolution.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index 2a89ee2..5d64946 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -1931,6 +1931,12 @@ ScalarEvolution::CanCreateChainRecurrence(rvsdg::Output & output, DependencyGrap
       return false;
     }
   }
+  else if (rvsdg::TryGetRegionParentNode<rvsdg::ThetaNode>(output))
+  {
+    // A loop variable that does not depend on itself is replaced in every iteration. Its value in
+    // the first iteration is unrelated to the values in all other iterations.
+    return false;
+  }
 
   // Then check for cycles through other variables
   std::unordered_set<const rvsdg::Output *> visited{};
@@ -1987,7 +1993,7 @@ ScalarEvolution::IsUnknown(const SCEV & scev)
 
   if (auto * binaryExpr = dynamic_cast<const SCEVBinaryExpr *>(&scev))
   {
-    return IsUnknown(*binaryExpr->GetLeftOperand()) || IsUnknown(*binaryExpr->GetLeftOperand());
+    return IsUnknown(*binaryExpr->GetLeftOperand()) || IsUnknown(*binaryExpr->GetRightOperand());
   }
 
   if (auto * nAryExpr = dynamic_cast<const SCEVNAryExpr *>(&scev))
-- 
2.43.0


From e981ab383c8aade49f45f00a74f2e59042d5b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 23/75] fix: wrap the constants created by loop strength
 reduction to the width of the operation

---
 jlm/llvm/opt/LoopStrengthReduction.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/LoopStrengthReduction.cpp b/jlm/llvm/opt/LoopStrengthReduction.cpp
index 26b4e3b..244e8b7 100644
--- a/jlm/llvm/opt/LoopStrengthReduction.cpp
+++ b/jlm/llvm/opt/LoopStrengthReduction.cpp
@@ -306,6 +306,20 @@ LoopStrengthReduction::ReplaceCandidateOperation(
   Context_->IncrementOperationsReducedCount(thetaNode);
 }
 
+/**
+ * The constants of SCEV expressions are the result of 64-bit arithmetic. This function wraps them to
+ * the number of bits of the operation that is replaced.
+ */
+static int64_t
+WrapToBits(const int64_t value, const size_t numBits)
+{
+  if (numBits >= 64)
+    return value;
+
+  const auto shift = 64 - numBits;
+  return static_cast<int64_t>(static_cast<uint64_t>(value) << shift) >> shift;
+}
+
 std::optional<rvsdg::Output *>
 LoopStrengthReduction::HoistChrec(
     const SCEVChainRecurrence & chrec,
@@ -367,7 +381,7 @@ LoopStrengthReduction::HoistSCEVExpresssion(
   {
     const auto value = constant->GetValue();
     const auto & constantNode =
-        IntegerConstantOperation::Create(*thetaNode.region(), numBits, value);
+        IntegerConstantOperation::Create(*thetaNode.region(), numBits, WrapToBits(value, numBits));
 
     return constantNode.output(0);
   }
@@ -546,7 +560,10 @@ LoopStrengthReduction::CreateNewArithmeticInductionVariable(
     {
       const auto stepValue = stepConstant->GetValue();
       const auto & stepValueNode =
-          IntegerConstantOperation::Create(*thetaNode.subregion(), numBits, stepValue);
+          IntegerConstantOperation::Create(
+              *thetaNode.subregion(),
+              numBits,
+              WrapToBits(stepValue, numBits));
       stepOutput = stepValueNode.output(0);
     }
     else if (const auto stepInit = dynamic_cast<const SCEVInit *>(stepSCEV.get()))
-- 
2.43.0


From 858121e6a36a6d0877cd437c7bd9ba832bfb9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 24/75] fix: do not treat zero extensions as transparent in
 scalar evolution

---
 jlm/llvm/opt/ScalarEvolution.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index 5d64946..f2f42ed 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -964,9 +964,10 @@ ScalarEvolution::GetOrCreateSCEVForOutput(rvsdg::Output & output)
       const auto barredInputOrigin = IOBarrierOperation::BarredInput(*simpleNode).origin();
       result = GetOrCreateSCEVForOutput(*barredInputOrigin);
     }
-    else if (
-        rvsdg::is<SExtOperation>(*simpleOperation) || rvsdg::is<ZExtOperation>(*simpleOperation))
+    else if (rvsdg::is<SExtOperation>(*simpleOperation))
     {
+      // FIXME: This assumes that the extended value never overflows. We cannot make the same
+      // assumption for zero extensions, as all values are treated as signed.
       JLM_ASSERT(simpleNode->ninputs() == 1);
       result = GetOrCreateSCEVForOutput(*simpleNode->input(0)->origin());
     }
-- 
2.43.0


From 897736181b8240ccb78259a1947d971eb8e61e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 25/75] fix: loops that exchange memory states are
 modifications in load chain separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 60 +++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 6dd1758..78f240f 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -218,6 +218,57 @@ LoadChainSeparation::separateRefenceChainsInGamma(rvsdg::GammaNode & gammaNode)
   }
 }
 
+/**
+ * Checks whether a memory state chain without any modifications originates from a region argument
+ * other than the expected one.
+ *
+ * @param startOutput The memory state from which to start tracing.
+ * @param expectedArgument The argument the memory state is expected to originate from.
+ * @return True, if the chain reaches another region argument, otherwise false.
+ */
+static bool
+reachesOtherRegionArgument(
+    const rvsdg::Output & startOutput,
+    const rvsdg::Output & expectedArgument)
+{
+  util::HashSet<const rvsdg::Output *> visited;
+  std::vector<const rvsdg::Output *> worklist{ &startOutput };
+  while (!worklist.empty())
+  {
+    const auto output = worklist.back();
+    worklist.pop_back();
+    if (!visited.insert(output))
+      continue;
+
+    if (rvsdg::TryGetOwnerRegion(*output))
+    {
+      if (output != &expectedArgument)
+        return true;
+      continue;
+    }
+
+    if (rvsdg::TryGetSimpleNodeAndOptionalOp<LoadOperation>(*output).second)
+    {
+      worklist.push_back(LoadOperation::MapMemoryStateOutputToInput(*output).origin());
+      continue;
+    }
+
+    if (const auto thetaNode = rvsdg::TryGetOwnerNode<rvsdg::ThetaNode>(*output))
+    {
+      worklist.push_back(thetaNode->MapOutputLoopVar(*output).input->origin());
+      continue;
+    }
+
+    for (auto & input : rvsdg::AssertGetOwnerNode<rvsdg::Node>(*output).Inputs())
+    {
+      if (is<MemoryStateType>(input.Type()))
+        worklist.push_back(input.origin());
+    }
+  }
+
+  return false;
+}
+
 void
 LoadChainSeparation::separateRefenceChainsInTheta(rvsdg::ThetaNode & thetaNode)
 {
@@ -233,10 +284,15 @@ LoadChainSeparation::separateRefenceChainsInTheta(rvsdg::ThetaNode & thetaNode)
     // Separate reference chains in theta subregion
     const auto hasModificationChainLinkAboveInRegion =
         separateReferenceChains(*loopVar.post->origin());
+
+    // The loop variable only references memory if its state is also not replaced by the state of
+    // another loop variable
+    const auto isModification =
+        hasModificationChainLinkAboveInRegion
+        || reachesOtherRegionArgument(*loopVar.post->origin(), *loopVar.pre);
     Context_->add(
         *loopVar.output,
-        hasModificationChainLinkAboveInRegion ? ModRefChainLink::Type::Modification
-                                              : ModRefChainLink::Type::Reference);
+        isModification ? ModRefChainLink::Type::Modification : ModRefChainLink::Type::Reference);
 
     // Handle dead theta outputs
     if (loopVar.output->IsDead())
-- 
2.43.0


From 1c7bbba97861ce2156c334cc25d925eaa43f890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 26/75] fix: only treat the state of simple nodes as loop
 invariant in node hoisting

---
 jlm/llvm/opt/push.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index 6f9fc19..829da86 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -106,7 +106,7 @@ NodeHoisting::isInvariantMemoryStateLoopVar(const rvsdg::ThetaNode::LoopVar & lo
   const auto userNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*loopVar.pre->Users().begin());
   const auto originNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*loopVar.post->origin());
 
-  if (userNode != originNode)
+  if (userNode == nullptr || userNode != originNode)
     return false;
 
   return true;
-- 
2.43.0


From d16c7ee9b038ed63b19766709ba6b972530d7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 27/75] fix: do not hoist memory moves out of loops

---
 jlm/llvm/opt/push.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index 829da86..fb9d4ec 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -4,6 +4,7 @@
  */
 
 #include <jlm/llvm/ir/operators/delta.hpp>
+#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/opt/push.hpp>
 #include <jlm/rvsdg/control.hpp>
@@ -109,6 +110,11 @@ NodeHoisting::isInvariantMemoryStateLoopVar(const rvsdg::ThetaNode::LoopVar & lo
   if (userNode == nullptr || userNode != originNode)
     return false;
 
+  // The source and destination of a memory move can overlap, in which case repeating the operation
+  // is not the same as performing it once
+  if (is<MemMoveOperation>(userNode))
+    return false;
+
   return true;
 }
 
-- 
2.43.0


From 0254ec86c5bbf98b7dbbe600d39824bd340590b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 28/75] fix: keep a store that other memory state users still
 depend on when forwarding states in store normalization

---
 jlm/llvm/ir/operators/Store.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index 26e4fb1..566f1cd 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -15,6 +15,8 @@
 #include <jlm/rvsdg/simple-node.hpp>
 #include <jlm/util/HashSet.hpp>
 
+#include <algorithm>
+
 namespace jlm::llvm
 {
 
@@ -217,6 +219,15 @@ StoreNonVolatileOperation::normalizeStoreStore(
     }
   }
 
+  // Check that store1 has no memory states with users that are not ordered after store2, as store1
+  // would otherwise be kept alive without being ordered before store2
+  for (auto & memoryState : MemoryStateOutputs(*store1Node))
+  {
+    if (!memoryState.IsDead()
+        && std::find(operands.begin() + 2, operands.end(), &memoryState) == operands.end())
+      return std::nullopt;
+  }
+
   // Check that store2 fully overwrites store1
   const auto & store1Type = store1Op->GetStoredType();
   const auto & store2Type = store2Op.GetStoredType();
-- 
2.43.0


From cdccda594699dd8931a591258fa118b7ec4e30c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 29/75] Add a hook that chooses which ready node a traverser
 visits next

---
 jlm/rvsdg/traverser.cpp | 9 +++++++++
 jlm/rvsdg/traverser.hpp | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/jlm/rvsdg/traverser.cpp b/jlm/rvsdg/traverser.cpp
index 13c12eb..ddfe33b 100644
--- a/jlm/rvsdg/traverser.cpp
+++ b/jlm/rvsdg/traverser.cpp
@@ -27,6 +27,10 @@ namespace jlm::rvsdg
 namespace detail
 {
 
+#ifdef JLM_VERIFICATION
+std::size_t (*frontierChoice)(std::size_t) = nullptr;
+#endif
+
 template<typename Traverser>
 ForwardingObserver<Traverser>::~ForwardingObserver() noexcept = default;
 
@@ -493,6 +497,11 @@ template<typename NodeType>
 NodeType *
 TraversalTracker<NodeType>::peek()
 {
+#ifdef JLM_VERIFICATION
+  if (frontierChoice != nullptr && frontier_.size() > 1)
+    return *std::next(frontier_.begin(), frontierChoice(frontier_.size()));
+#endif
+
   return frontier_.empty() ? nullptr : frontier_.front();
 }
 
diff --git a/jlm/rvsdg/traverser.hpp b/jlm/rvsdg/traverser.hpp
index 5e8ad0e..363175f 100644
--- a/jlm/rvsdg/traverser.hpp
+++ b/jlm/rvsdg/traverser.hpp
@@ -24,6 +24,13 @@ class Region;
 namespace detail
 {
 
+#ifdef JLM_VERIFICATION
+/**
+ * If set, chooses which one of the given number of nodes that are ready to be visited is visited next.
+ */
+extern std::size_t (*frontierChoice)(std::size_t frontierSize);
+#endif
+
 enum class TraversalNodeState : uint8_t
 {
   // Nodes that are not ready to be visited
-- 
2.43.0


From d0d737851496551e49566cc38ed5fb641a24141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 30/75] Add hooks that report which values represent which
 outputs

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp  |  8 ++++++++
 jlm/llvm/backend/IpGraphToLlvmConverter.hpp  |  7 +++++++
 jlm/llvm/backend/RvsdgToIpGraphConverter.cpp |  8 ++++++++
 jlm/llvm/backend/RvsdgToIpGraphConverter.hpp | 10 ++++++++++
 4 files changed, 33 insertions(+)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index fd25ff1..5b21a73 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -39,6 +39,10 @@
 namespace jlm::llvm
 {
 
+#ifdef JLM_VERIFICATION
+void (*variableConverted)(const Variable &, ::llvm::Value &) = nullptr;
+#endif
+
 class IpGraphToLlvmConverter::Context final
 {
   using const_iterator =
@@ -96,6 +100,10 @@ public:
   insert(const llvm::Variable * variable, ::llvm::Value * value)
   {
     variables_[variable] = value;
+#ifdef JLM_VERIFICATION
+    if (variableConverted != nullptr)
+      variableConverted(*variable, *value);
+#endif
   }
 
   ::llvm::BasicBlock *
diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.hpp b/jlm/llvm/backend/IpGraphToLlvmConverter.hpp
index 3a4836b..98b0e3a 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.hpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.hpp
@@ -68,6 +68,13 @@ class PointerToFunctionOperation;
 class ThreeAddressCode;
 class Variable;
 
+#ifdef JLM_VERIFICATION
+/**
+ * If set, gets called with every variable and the value that represents it.
+ */
+extern void (*variableConverted)(const Variable &, ::llvm::Value &);
+#endif
+
 class IpGraphToLlvmConverter final
 {
   class Context;
diff --git a/jlm/llvm/backend/RvsdgToIpGraphConverter.cpp b/jlm/llvm/backend/RvsdgToIpGraphConverter.cpp
index 02faa38..424f93e 100644
--- a/jlm/llvm/backend/RvsdgToIpGraphConverter.cpp
+++ b/jlm/llvm/backend/RvsdgToIpGraphConverter.cpp
@@ -25,6 +25,10 @@
 namespace jlm::llvm
 {
 
+#ifdef JLM_VERIFICATION
+void (*outputConverted)(const rvsdg::Output &, const Variable &) = nullptr;
+#endif
+
 class RvsdgToIpGraphConverter::Context final
 {
 public:
@@ -56,6 +60,10 @@ public:
     JLM_ASSERT(VariableMap_.find(output) == VariableMap_.end());
     JLM_ASSERT(*output->Type() == *variable->Type());
     VariableMap_[output] = variable;
+#ifdef JLM_VERIFICATION
+    if (outputConverted != nullptr)
+      outputConverted(*output, *variable);
+#endif
   }
 
   const llvm::Variable *
diff --git a/jlm/llvm/backend/RvsdgToIpGraphConverter.hpp b/jlm/llvm/backend/RvsdgToIpGraphConverter.hpp
index f967790..398b3b4 100644
--- a/jlm/llvm/backend/RvsdgToIpGraphConverter.hpp
+++ b/jlm/llvm/backend/RvsdgToIpGraphConverter.hpp
@@ -23,6 +23,9 @@ class GammaNode;
 class Input;
 class LambdaNode;
 class Node;
+#ifdef JLM_VERIFICATION
+class Output;
+#endif
 class PhiNode;
 class Region;
 }
@@ -37,6 +40,13 @@ class InterProceduralGraphNode;
 class LlvmRvsdgModule;
 class Variable;
 
+#ifdef JLM_VERIFICATION
+/**
+ * If set, gets called with every output and the variable that represents it.
+ */
+extern void (*outputConverted)(const rvsdg::Output &, const Variable &);
+#endif
+
 class RvsdgToIpGraphConverter final
 {
   class Context;
-- 
2.43.0


From d5aad01bcd9af58424ce9593f1c18bc9710b6713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:54 +0000
Subject: [PATCH 31/75] fix: handle vectors of pointers in the Andersen
 points-to analysis

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 77 ++++++++++++++++++++++++
 jlm/llvm/opt/alias-analyses/Andersen.hpp | 11 ++++
 2 files changed, 88 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index 331c939..f6ddaea 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -734,6 +734,37 @@ Andersen::AnalyzeSimpleNode(const rvsdg::SimpleNode & node)
       {
         AnalyzeIOBarrier(node);
       },
+      [&](const InsertElementOperation &)
+      {
+        AnalyzeElementMove(node);
+      },
+      [&](const ExtractElementOperation &)
+      {
+        AnalyzeElementMove(node);
+      },
+      [&](const ShuffleVectorOperation &)
+      {
+        AnalyzeElementMove(node);
+      },
+      [&](const VectorSelectOperation &)
+      {
+        AnalyzeElementMove(node);
+      },
+      [&](const ConstantVectorOperation &)
+      {
+        AnalyzeElementMove(node);
+      },
+      [&](const VectorUnaryOperation & operation)
+      {
+        AnalyzeVectorUnary(node, operation);
+      },
+      [&](const VectorBinaryOperation & operation)
+      {
+        // Comparing pointers does not affect any points-to sets
+        JLM_ASSERT(
+            is<PtrCmpOperation>(operation.operation())
+            || !IsOrContainsPointerType(*node.input(0)->Type()));
+      },
       [&](const FreeOperation &)
       {
         // Takes pointers as input, but does not affect any points-to sets
@@ -1223,6 +1254,52 @@ Andersen::AnalyzeIOBarrier(const rvsdg::SimpleNode & node)
   Set_->MapRegisterToExistingPointerObject(outputRegister, inputRegisterPO);
 }
 
+void
+Andersen::AnalyzeElementMove(const rvsdg::SimpleNode & node)
+{
+  const auto & output = *node.output(0);
+  if (!IsOrContainsPointerType(*output.Type()))
+    return;
+
+  // The elements of the output are picked among the inputs and their elements
+  const auto outputPO = Set_->CreateRegisterPointerObject(output);
+  for (size_t n = 0; n < node.ninputs(); n++)
+  {
+    const auto & inputRegister = *node.input(n)->origin();
+    if (!IsOrContainsPointerType(*inputRegister.Type()))
+      continue;
+
+    const auto inputPO = Set_->GetRegisterPointerObject(inputRegister);
+    Constraints_->AddConstraint(SupersetConstraint(outputPO, inputPO));
+  }
+}
+
+void
+Andersen::AnalyzeVectorUnary(
+    const rvsdg::SimpleNode & node,
+    const VectorUnaryOperation & operation)
+{
+  const auto & inputRegister = *node.input(0)->origin();
+  const auto & output = *node.output(0);
+
+  if (is<IntToPtrOperation>(operation.operation()))
+  {
+    const auto outputPO = Set_->CreateRegisterPointerObject(output);
+    Constraints_->AddPointsToExternalConstraint(outputPO);
+    return;
+  }
+
+  if (is<PtrToIntOperation>(operation.operation()))
+  {
+    const auto inputPO = Set_->GetRegisterPointerObject(inputRegister);
+    Constraints_->AddRegisterContentEscapedConstraint(inputPO);
+    return;
+  }
+
+  JLM_ASSERT(!IsOrContainsPointerType(*inputRegister.Type()));
+  JLM_ASSERT(!IsOrContainsPointerType(*output.Type()));
+}
+
 void
 Andersen::AnalyzeStructuralNode(const rvsdg::StructuralNode & node)
 {
diff --git a/jlm/llvm/opt/alias-analyses/Andersen.hpp b/jlm/llvm/opt/alias-analyses/Andersen.hpp
index e9e9133..bbea63a 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.hpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.hpp
@@ -12,6 +12,11 @@
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/theta.hpp>
 
+namespace jlm::llvm
+{
+class VectorUnaryOperation;
+}
+
 namespace jlm::llvm::aa
 {
 
@@ -430,6 +435,12 @@ private:
   void
   AnalyzeIOBarrier(const rvsdg::SimpleNode & node);
 
+  void
+  AnalyzeElementMove(const rvsdg::SimpleNode & node);
+
+  void
+  AnalyzeVectorUnary(const rvsdg::SimpleNode & node, const VectorUnaryOperation & operation);
+
   void
   AnalyzeStructuralNode(const rvsdg::StructuralNode & node);
 
-- 
2.43.0


From 6090a47e3905841cdab2b0515739fa178e1c0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 32/75] fix: check the items of the set itself in
 HashSet::IsSubsetOf

---
 jlm/util/HashSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/util/HashSet.hpp b/jlm/util/HashSet.hpp
index de020cb..b317854 100644
--- a/jlm/util/HashSet.hpp
+++ b/jlm/util/HashSet.hpp
@@ -167,7 +167,7 @@ public:
       return false;
     }
 
-    for (auto & item : other.Items())
+    for (auto & item : Items())
     {
       if (!other.Contains(item))
       {
-- 
2.43.0


From 840b1150b0a93ff37aafd06cb98f4c1bd66e5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 33/75] fix: report whether HashSet::UnionWithAndClear added
 items when it swaps the sets

---
 jlm/util/HashSet.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jlm/util/HashSet.hpp b/jlm/util/HashSet.hpp
index b317854..29f9f7f 100644
--- a/jlm/util/HashSet.hpp
+++ b/jlm/util/HashSet.hpp
@@ -251,13 +251,15 @@ public:
   bool
   UnionWithAndClear(HashSet<ItemType> & other)
   {
+    const size_t sizeBefore = Size();
+
     // Make *this the largest of the two sets, to make the union cheaper
     if (Size() < other.Size())
       std::swap(*this, other);
 
-    bool result = UnionWith(other);
+    UnionWith(other);
     other.Clear();
-    return result;
+    return sizeBefore != Size();
   }
 
   /**
-- 
2.43.0


From 046c95cdc5f31d448c044526e39935a45f8ab8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 34/75] fix: handle repeated slashes in FilePath::Dirname

---
 jlm/util/file.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/jlm/util/file.hpp b/jlm/util/file.hpp
index e4b2f95..14da6ea 100644
--- a/jlm/util/file.hpp
+++ b/jlm/util/file.hpp
@@ -149,24 +149,23 @@ public:
   {
     if (path_.empty())
       return FilePath(".");
-    if (path_ == "/")
-      return FilePath("/");
 
-    // Find the last '/' char, ignoring a trailing '/'
-    size_t lastSlash = std::string::npos;
-    if (path_.size() >= 1)
-      lastSlash = path_.find_last_of('/', path_.size() - 2);
+    // Ignore any trailing '/'
+    const auto lastNonSlash = path_.find_last_not_of('/');
+    if (lastNonSlash == std::string::npos)
+      return FilePath("/");
 
     // If no '/' was found, path_ is a file in the current working directory, or is "." itself
+    const auto lastSlash = path_.find_last_of('/', lastNonSlash);
     if (lastSlash == std::string::npos)
       return FilePath(".");
 
-    // The only '/' was at the very beginning of the path. We must keep it.
-    if (lastSlash == 0)
+    // If only '/' chars precede the last component, one of them must be kept
+    const auto parentEnd = path_.find_last_not_of('/', lastSlash);
+    if (parentEnd == std::string::npos)
       return FilePath("/");
 
-    // Return the path of the parent directory, without a trailing '/'
-    return FilePath(path_.substr(0, lastSlash));
+    return FilePath(path_.substr(0, parentEnd + 1));
   }
 
   /**
-- 
2.43.0


From 4ab5b4af7df8ba14bebd6ffb9429762be78e12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 35/75] fix: return 0 when truncating an integer to 0 bits

---
 jlm/util/Math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jlm/util/Math.hpp b/jlm/util/Math.hpp
index df9d96f..a4b05aa 100644
--- a/jlm/util/Math.hpp
+++ b/jlm/util/Math.hpp
@@ -136,6 +136,10 @@ truncateAndSignExtend(int64_t value, uint64_t keepBits)
   JLM_ASSERT(keepBits <= 64);
   const auto extendBits = 64 - keepBits;
 
+  // Shifting by the full width is undefined
+  if (keepBits == 0)
+    return 0;
+
   // Shift signed value left and right again to sign extend
   return (value << extendBits) >> extendBits;
 }
@@ -158,6 +162,10 @@ truncateAndZeroExtend(int64_t value, uint64_t keepBits)
   JLM_ASSERT(keepBits <= 64);
   const auto extendBits = 64 - keepBits;
 
+  // Shifting by the full width is undefined
+  if (keepBits == 0)
+    return 0;
+
   // Shift unsigned value left and right again to zero extend
   return (static_cast<uint64_t>(value) << extendBits) >> extendBits;
 }
-- 
2.43.0


From 30ae53f14148e8d537f7cdbeec99c91a97c23bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 36/75] fix: let Andersen track pointers in memory whose
 declared type has no pointers

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 50 +++++++++++++++++++++---
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index f6ddaea..d4c1b8f 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -12,6 +12,7 @@
 #include <jlm/llvm/ir/operators/operators.hpp>
 #include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
 #include <jlm/llvm/ir/operators/Store.hpp>
+#include <jlm/llvm/ir/types.hpp>
 #include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
 #include <jlm/llvm/opt/alias-analyses/PointsToGraph.hpp>
 #include <jlm/rvsdg/MatchType.hpp>
@@ -32,6 +33,45 @@ IsOrContainsPointerType(const rvsdg::Type & type)
   return IsOrContains<PointerType>(type) || is<rvsdg::FunctionType>(type);
 }
 
+/**
+ * Memory may hold pointers even if the type it was declared with does not contain any.
+ * Clang declares a union as a struct with its most strictly aligned member,
+ * while buffers of bytes may hold values of any type.
+ * @param type the type of the values the memory is declared with
+ * @return true if memory declared with the given type may contain pointers
+ */
+static bool
+CanMemoryContainPointers(const rvsdg::Type & type)
+{
+  constexpr size_t pointerSize = 8;
+
+  if (IsOrContainsPointerType(type))
+    return true;
+
+  if (const auto arrayType = dynamic_cast<const ArrayType *>(&type))
+  {
+    const auto bitType = dynamic_cast<const rvsdg::BitType *>(arrayType->GetElementType().get());
+    if (bitType && bitType->nbits() == 8)
+      return arrayType->nelements() >= pointerSize;
+
+    return arrayType->nelements() != 0 && CanMemoryContainPointers(*arrayType->GetElementType());
+  }
+
+  if (const auto structType = dynamic_cast<const StructType *>(&type))
+  {
+    for (size_t n = 0; n < structType->numElements(); n++)
+    {
+      if (CanMemoryContainPointers(*structType->getElementType(n)))
+        return true;
+    }
+    return false;
+  }
+
+  const bool isScalarOrVector = rvsdg::is<rvsdg::BitType>(type)
+      || rvsdg::is<FloatingPointType>(type) || rvsdg::is<VectorType>(type);
+  return isScalarOrVector && GetTypeStoreSize(type) >= pointerSize;
+}
+
 std::string
 Andersen::Configuration::ToString() const
 {
@@ -789,7 +829,7 @@ Andersen::AnalyzeAlloca(const rvsdg::SimpleNode & node)
   const auto & outputRegister = *node.output(0);
   const auto outputRegisterPO = Set_->CreateRegisterPointerObject(outputRegister);
 
-  const bool canPoint = IsOrContainsPointerType(*allocaOp->allocatedType());
+  const bool canPoint = CanMemoryContainPointers(*allocaOp->allocatedType());
   const auto allocaPO = Set_->CreateAllocaMemoryObject(node, canPoint);
   Constraints_->AddPointerPointeeConstraint(outputRegisterPO, allocaPO);
 }
@@ -1380,14 +1420,14 @@ Andersen::AnalyzeDelta(const rvsdg::DeltaNode & delta)
   // Get the result register from the subregion
   auto & resultRegister = *delta.result().origin();
 
-  // If the type of the delta can point, the analysis should track its set of possible pointees
-  bool canPoint = IsOrContainsPointerType(*delta.Type());
+  // If the delta can hold pointers, the analysis should track its set of possible pointees
+  bool canPoint = CanMemoryContainPointers(*delta.Type());
 
   // Create a global memory object representing the global variable
   const auto globalPO = Set_->CreateGlobalMemoryObject(delta, canPoint);
 
   // If the initializer subregion result is a pointer, make the global point to what it points to
-  if (canPoint)
+  if (IsOrContainsPointerType(*delta.Type()))
   {
     const auto resultRegisterPO = Set_->GetRegisterPointerObject(resultRegister);
     Constraints_->AddConstraint(SupersetConstraint(globalPO, resultRegisterPO));
@@ -1576,7 +1616,7 @@ Andersen::AnalyzeRvsdg(const rvsdg::Graph & graph)
 
     // Imported symbols are always externally available, so all pointees can be implicit.
     // The value of CanPoint thus has no effect on the solver, only the final PointsToGraph node.
-    const bool canPoint = IsOrContainsPointerType(*argument.ValueType());
+    const bool canPoint = CanMemoryContainPointers(*argument.ValueType());
 
     // Create a memory PointerObject representing the target of the external symbol
     // We can assume that two external symbols don't alias. This is the assumption clang makes.
-- 
2.43.0


From 5c8e7356e239fc70178d1eaac0cfc9a9e76a07d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:44 +0000
Subject: [PATCH 37/75] fix: do not take values of earlier loop iterations for
 those of the current one in alias queries

---
 jlm/llvm/ir/Trace.cpp                            | 15 +++++++++++++++
 jlm/llvm/ir/Trace.hpp                            | 16 ++++++++++++++++
 jlm/llvm/opt/StoreValueForwarding.cpp            |  2 +-
 .../opt/alias-analyses/LocalAliasAnalysis.cpp    |  6 ++++--
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/ir/Trace.cpp b/jlm/llvm/ir/Trace.cpp
index 17f3aff..bd0b4f6 100644
--- a/jlm/llvm/ir/Trace.cpp
+++ b/jlm/llvm/ir/Trace.cpp
@@ -180,6 +180,20 @@ TracePointerOriginPrecise(const rvsdg::Output & p)
   return TracedPointerOrigin{ base, gepConstants };
 }
 
+bool
+TraceCollection::mayBeFromEarlierIteration(const rvsdg::Output & origin) const
+{
+  const auto region = origin.region();
+
+  for (const auto iteratedRegion : IteratedRegions)
+  {
+    if (region == iteratedRegion || rvsdg::Region::isAncestor(*region, *iteratedRegion))
+      return true;
+  }
+
+  return false;
+}
+
 static bool
 traceAllPointerOriginsInternal(
     const rvsdg::Output * basePointer,
@@ -305,6 +319,7 @@ traceAllPointerOriginsInternal(
     JLM_ASSERT(!rvsdg::ThetaLoopVarIsInvariant(loopVar));
 
     // Trace both from the post and the loop variable input
+    traceCollection.IteratedRegions.insert(theta->subregion());
     return traceAllPointerOriginsInternal(
                loopVar.post->origin(),
                offsetInBytes,
diff --git a/jlm/llvm/ir/Trace.hpp b/jlm/llvm/ir/Trace.hpp
index 2b504d7..497e04e 100644
--- a/jlm/llvm/ir/Trace.hpp
+++ b/jlm/llvm/ir/Trace.hpp
@@ -11,6 +11,8 @@
 #include <jlm/rvsdg/Trace.hpp>
 
 #include <optional>
+#include <unordered_map>
+#include <unordered_set>
 
 namespace jlm::llvm
 {
@@ -133,6 +135,20 @@ struct TraceCollection
    * LoadNonVolatileOperation, or the return value of a \ref CallOperation.
    */
   std::unordered_map<const rvsdg::Output *, std::optional<int64_t>> TopOrigins{};
+
+  /**
+   * Contains the loop bodies in which tracing went from the start of an iteration to the end of the
+   * previous iteration. An output in such a region may have been reached as it was in an earlier
+   * iteration.
+   */
+  std::unordered_set<const rvsdg::Region *> IteratedRegions{};
+
+  /**
+   * @return true if the traced pointer may be based on the value that \p origin had in an earlier
+   * iteration of a loop, instead of its current value.
+   */
+  [[nodiscard]] bool
+  mayBeFromEarlierIteration(const rvsdg::Output & origin) const;
 };
 
 /**
diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index ab70357..b5d7574 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -566,7 +566,7 @@ private:
 
     for (const auto & [origin, _] : traceCollection.TopOrigins)
     {
-      if (origin != &allocationOutput)
+      if (origin != &allocationOutput || traceCollection.mayBeFromEarlierIteration(*origin))
         return false;
     }
 
diff --git a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
index 4d06444..4a286d5 100644
--- a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
+++ b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
@@ -102,12 +102,14 @@ LocalAliasAnalysis::Query(const rvsdg::Output & p1, size_t s1, const rvsdg::Outp
   RemoveTopOriginsWithRemainingSizeBelow(p1TraceCollection, s1);
   RemoveTopOriginsWithRemainingSizeBelow(p2TraceCollection, s2);
 
-  // If each trace collection has only one top origin, check if they have the same base pointer
+  // If each trace collection has only one top origin, check if they have the same base pointer.
+  // Pointers based on the same output in different loop iterations do not share a base address.
   if (p1TraceCollection.TopOrigins.size() == 1 && p2TraceCollection.TopOrigins.size() == 1)
   {
     const auto & [p1Base, p1Offset] = *p1TraceCollection.TopOrigins.begin();
     const auto & [p2Base, p2Offset] = *p2TraceCollection.TopOrigins.begin();
-    if (p1Base == p2Base)
+    if (p1Base == p2Base && !p1TraceCollection.mayBeFromEarlierIteration(*p1Base)
+        && !p2TraceCollection.mayBeFromEarlierIteration(*p2Base))
       return QueryOffsets(p1Offset, s1, p2Offset, s2);
   }
 
-- 
2.43.0


From c533d8e9ae3bbbd750d7a0a45a6e5e6fb83b7afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:25 +0000
Subject: [PATCH 38/75] fix: account for the scalars in loaded and stored
 aggregates in Andersen

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 34 +++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index d4c1b8f..7ceaa7f 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -33,6 +33,32 @@ IsOrContainsPointerType(const rvsdg::Type & type)
   return IsOrContains<PointerType>(type) || is<rvsdg::FunctionType>(type);
 }
 
+/**
+ * @param type the type of a value
+ * @return true if the value consists of, or contains, anything that is not a pointer
+ */
+static bool
+IsOrContainsScalarType(const rvsdg::Type & type)
+{
+  if (const auto arrayType = dynamic_cast<const ArrayType *>(&type))
+    return IsOrContainsScalarType(arrayType->element_type());
+
+  if (const auto vectorType = dynamic_cast<const VectorType *>(&type))
+    return IsOrContainsScalarType(*vectorType->Type());
+
+  if (const auto structType = dynamic_cast<const StructType *>(&type))
+  {
+    for (size_t n = 0; n < structType->numElements(); n++)
+    {
+      if (IsOrContainsScalarType(*structType->getElementType(n)))
+        return true;
+    }
+    return false;
+  }
+
+  return !IsOrContainsPointerType(type);
+}
+
 /**
  * Memory may hold pointers even if the type it was declared with does not contain any.
  * Clang declares a union as a struct with its most strictly aligned member,
@@ -862,7 +888,8 @@ Andersen::AnalyzeLoad(const rvsdg::SimpleNode & node)
     const auto outputRegisterPO = Set_->CreateRegisterPointerObject(outputRegister);
     Constraints_->AddConstraint(LoadConstraint(outputRegisterPO, addressRegisterPO));
   }
-  else
+
+  if (IsOrContainsScalarType(*outputRegister.Type()))
   {
     Set_->MarkAsLoadingAsScalar(addressRegisterPO);
   }
@@ -876,13 +903,14 @@ Andersen::AnalyzeStore(const rvsdg::SimpleNode & node)
 
   const auto addressRegisterPO = Set_->GetRegisterPointerObject(addressRegister);
 
-  // If the written value is not a pointer, be conservative and mark the address
   if (IsOrContainsPointerType(*valueRegister.Type()))
   {
     const auto valueRegisterPO = Set_->GetRegisterPointerObject(valueRegister);
     Constraints_->AddConstraint(StoreConstraint(addressRegisterPO, valueRegisterPO));
   }
-  else
+
+  // If the written value is not, or not only, pointers, be conservative and mark the address
+  if (IsOrContainsScalarType(*valueRegister.Type()))
   {
     Set_->MarkAsStoringAsScalar(addressRegisterPO);
   }
-- 
2.43.0


From 3127aa4cb2ece916cf32a629dc5d9eb8b8cf9745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 39/75] fix: do not unify all pointees of a pointer in hybrid
 cycle detection when only some form a cycle

---
 .../opt/alias-analyses/PointerObjectSet.cpp   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp b/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
index 819e794..d7cc254 100644
--- a/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
+++ b/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
@@ -1462,8 +1462,29 @@ PointerObjectConstraintSet::PerformOfflineVariableSubstitution(bool storeRefCycl
     // The idea: Any pointee of p should be unified with a, if *p and a are in the same SCC
     // NOTE: We do not use equivalence set labels here, as they represent more than just cycles
 
+    // An edge *p -> *q only says that the pointees of p are among the pointees of q.
+    // A cycle that uses it is not a cycle for the other pointees of q, so leave such edges out.
+    const size_t derefNodeOffset = Set_.NumPointerObjects();
+    for (size_t node = derefNodeOffset; node < totalNodeCount; node++)
+    {
+      util::HashSet<PointerObjectIndex> regularSuccessors;
+      for (auto successor : successors[node].Items())
+      {
+        if (successor < derefNodeOffset)
+          regularSuccessors.insert(successor);
+      }
+      successors[node] = std::move(regularSuccessors);
+    }
+    const auto numCycleSccs = util::FindStronglyConnectedComponents<size_t>(
+        totalNodeCount,
+        GetSuccessors,
+        sccIndex,
+        reverseTopologicalOrder);
+
     // First find one unification root representing each SCC
-    std::vector<std::optional<PointerObjectIndex>> unificationRootPerSCC(numSccs, std::nullopt);
+    std::vector<std::optional<PointerObjectIndex>> unificationRootPerSCC(
+        numCycleSccs,
+        std::nullopt);
     for (PointerObjectIndex i = 0; i < Set_.NumPointerObjects(); i++)
     {
       if (!unificationRootPerSCC[sccIndex[i]])
@@ -1471,7 +1492,6 @@ PointerObjectConstraintSet::PerformOfflineVariableSubstitution(bool storeRefCycl
     }
 
     // Assign unification roots to ref nodes that belong to SCCs with at least one regular node
-    const size_t derefNodeOffset = Set_.NumPointerObjects();
     for (PointerObjectIndex i = 0; i < Set_.NumPointerObjects(); i++)
     {
       if (auto optRoot = unificationRootPerSCC[sccIndex[i + derefNodeOffset]])
-- 
2.43.0


From d05168a9de2e8eb31cfbfcc63dac6ab5b7eba5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:06 +0000
Subject: [PATCH 40/75] fix: do not register a node twice as top node when
 removing inputs it does not have

---
 jlm/rvsdg/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/rvsdg/node.cpp b/jlm/rvsdg/node.cpp
index f58d797..04462cf 100644
--- a/jlm/rvsdg/node.cpp
+++ b/jlm/rvsdg/node.cpp
@@ -330,7 +330,7 @@ Node::RemoveInputs(const util::HashSet<size_t> & indices)
   inputs_.resize(numLiveInputs);
 
   // If we no longer have any inputs we are now a top node
-  if (numLiveInputs == 0)
+  if (numRemovedInputs != 0 && numLiveInputs == 0)
   {
     region()->onTopNodeAdded(*this);
   }
-- 
2.43.0


From 2a95087c693578811d22a51bd02168c294fd3065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:01 +0000
Subject: [PATCH 41/75] fix: extract exactly the nodes without dependent nodes
 as tail nodes

---
 jlm/rvsdg/graph.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/jlm/rvsdg/graph.cpp b/jlm/rvsdg/graph.cpp
index ded99a8..72c310e 100644
--- a/jlm/rvsdg/graph.cpp
+++ b/jlm/rvsdg/graph.cpp
@@ -132,21 +132,15 @@ Graph::ExtractTailNodes(const Graph & rvsdg)
     return true;
   };
 
-  auto & rootRegion = rvsdg.GetRootRegion();
-
   std::vector<Node *> nodes;
-  for (auto & bottomNode : rootRegion.BottomNodes())
+  for (auto & node : rvsdg.GetRootRegion().Nodes())
   {
-    nodes.push_back(&bottomNode);
-  }
+    bool isTailNode = true;
+    for (auto & output : node.Outputs())
+      isTailNode = isTailNode && IsOnlyExported(output);
 
-  for (size_t n = 0; n < rootRegion.nresults(); n++)
-  {
-    auto output = rootRegion.result(n)->origin();
-    if (IsOnlyExported(*output))
-    {
-      nodes.push_back(rvsdg::TryGetOwnerNode<Node>(*output));
-    }
+    if (isTailNode)
+      nodes.push_back(&node);
   }
 
   return nodes;
-- 
2.43.0


From 7376a50767494f1066eeeddf448f52fea5dc219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 42/75] fix: let observers see how many inputs remain while
 inputs are removed from a node

---
 jlm/rvsdg/node.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/jlm/rvsdg/node.cpp b/jlm/rvsdg/node.cpp
index 04462cf..2819d66 100644
--- a/jlm/rvsdg/node.cpp
+++ b/jlm/rvsdg/node.cpp
@@ -310,27 +310,28 @@ Node::RemoveInputs(const util::HashSet<size_t> & indices)
     return 0;
   }
 
-  size_t numLiveInputs = 0;
+  // Inputs are removed one after the other, such that observers always see how many are still there
   size_t numRemovedInputs = 0;
-  for (size_t n = 0; n < ninputs(); n++)
+  for (size_t n = 0; n < ninputs();)
   {
     auto & input = inputs_[n];
     if (indices.Contains(input->index()))
     {
       region()->notifyInputDestroy(input.get());
-      input.reset();
+      inputs_.erase(inputs_.begin() + n);
       numRemovedInputs++;
     }
     else
     {
-      input->index_ = numLiveInputs;
-      inputs_[numLiveInputs++] = std::move(input);
+      n++;
     }
   }
-  inputs_.resize(numLiveInputs);
+
+  for (size_t n = 0; n < ninputs(); n++)
+    inputs_[n]->index_ = n;
 
   // If we no longer have any inputs we are now a top node
-  if (numRemovedInputs != 0 && numLiveInputs == 0)
+  if (numRemovedInputs != 0 && ninputs() == 0)
   {
     region()->onTopNodeAdded(*this);
   }
-- 
2.43.0


From d23227fcb35c0291401a63abf4b10d89fd94fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 43/75] fix: never visit nodes created during a bottom-up
 traversal, nor count them twice

---
 jlm/rvsdg/traverser.cpp | 16 ++++++++++++++++
 jlm/rvsdg/traverser.hpp |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/jlm/rvsdg/traverser.cpp b/jlm/rvsdg/traverser.cpp
index ddfe33b..86adbe4 100644
--- a/jlm/rvsdg/traverser.cpp
+++ b/jlm/rvsdg/traverser.cpp
@@ -318,6 +318,7 @@ void
 BottomUpTraverserGeneric<IsConst>::onNodeCreate(NodeType * node)
 {
   // The new node should never be visited, so activate all its predecessors immediately
+  tracker_.markNodeVisited(node);
   markAsVisited(*node);
 }
 
@@ -341,6 +342,8 @@ BottomUpTraverserGeneric<IsConst>::onNodeDestroy(NodeType * node)
       tracker_.decActivationCount(pred, 0);
     }
   }
+
+  tracker_.removeNode(node);
 }
 
 template<bool IsConst>
@@ -463,6 +466,19 @@ TraversalTracker<NodeType>::checkMarkNodeVisitedIfFrontier(NodeType * node)
   }
 }
 
+template<typename NodeType>
+void
+TraversalTracker<NodeType>::markNodeVisited(NodeType * node)
+{
+  auto i = states_.emplace(node, State{ TraversalNodeState::ahead }).first;
+  if (i->second.state == TraversalNodeState::frontier)
+  {
+    frontier_.erase(i->second.pos);
+    i->second.pos = frontier_.end();
+  }
+  i->second.state = TraversalNodeState::behind;
+}
+
 template<typename NodeType>
 void
 TraversalTracker<NodeType>::incActivationCount(NodeType * node, std::size_t threshold)
diff --git a/jlm/rvsdg/traverser.hpp b/jlm/rvsdg/traverser.hpp
index 363175f..4664260 100644
--- a/jlm/rvsdg/traverser.hpp
+++ b/jlm/rvsdg/traverser.hpp
@@ -65,6 +65,10 @@ public:
   void
   checkMarkNodeVisitedIfFrontier(NodeType * node);
 
+  /** \brief Marks a node visited, whether or not it is ready for visiting. */
+  void
+  markNodeVisited(NodeType * node);
+
   /** \brief Increments activation count; adds to frontier if threshold is met. */
   void
   incActivationCount(NodeType * node, std::size_t threshold);
-- 
2.43.0


From 6305aaf5258f8aae157114fb4fe0240572991189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 44/75] fix: copy the body of a delta node from the original

---
 jlm/rvsdg/delta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/rvsdg/delta.cpp b/jlm/rvsdg/delta.cpp
index 4d9a9b9..bbbfe6f 100644
--- a/jlm/rvsdg/delta.cpp
+++ b/jlm/rvsdg/delta.cpp
@@ -99,8 +99,8 @@ DeltaNode::copy(rvsdg::Region * region, rvsdg::SubstitutionMap & smap) const
   subregion()->copy(delta->subregion(), subregionmap);
 
   // finalize delta
-  auto result = &subregionmap.lookup(*delta->result().origin());
-  auto o = &delta->finalize(result);
+  auto newResultOrigin = &subregionmap.lookup(*result().origin());
+  auto o = &delta->finalize(newResultOrigin);
   smap.insert(&output(), o);
 
   return delta;
-- 
2.43.0


From 671167170fbd2aa01a78d295d120e427f39898ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 45/75] fix: leave the original phi node alone when copying it

---
 jlm/rvsdg/Phi.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jlm/rvsdg/Phi.cpp b/jlm/rvsdg/Phi.cpp
index f859aba..408a0d8 100644
--- a/jlm/rvsdg/Phi.cpp
+++ b/jlm/rvsdg/Phi.cpp
@@ -203,9 +203,12 @@ PhiNode::copy(rvsdg::Region * region, rvsdg::SubstitutionMap & smap) const
   }
 
   // add recursion variables
-  for (auto var : GetFixVars())
+  const auto oldFixVars = GetFixVars();
+  std::vector<FixVar> newFixVars;
+  for (const auto & var : oldFixVars)
   {
     auto newrv = pb.AddFixVar(var.recref->Type());
+    newFixVars.push_back(newrv);
     subregionmap.insert(var.recref, newrv.recref);
   }
 
@@ -213,10 +216,11 @@ PhiNode::copy(rvsdg::Region * region, rvsdg::SubstitutionMap & smap) const
   subregion()->copy(pb.subregion(), subregionmap);
 
   // finalize phi
-  for (auto var : GetFixVars())
+  for (size_t n = 0; n < oldFixVars.size(); n++)
   {
-    auto neworigin = &subregionmap.lookup(*var.result->origin());
-    var.result->divert_to(neworigin);
+    auto neworigin = &subregionmap.lookup(*oldFixVars[n].result->origin());
+    newFixVars[n].result->divert_to(neworigin);
+    smap.insert(oldFixVars[n].output, newFixVars[n].output);
   }
 
   return pb.end();
-- 
2.43.0


From 87c13514204b8a50618a809997f102b1e8969afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 46/75] fix: copy the match content of gamma nodes

---
 jlm/rvsdg/gamma.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jlm/rvsdg/gamma.cpp b/jlm/rvsdg/gamma.cpp
index 41b1620..9b1a780 100644
--- a/jlm/rvsdg/gamma.cpp
+++ b/jlm/rvsdg/gamma.cpp
@@ -477,10 +477,17 @@ GammaNode::RemoveEntryVars(const std::vector<EntryVar> & entryVars)
 GammaNode *
 GammaNode::copy(rvsdg::Region *, SubstitutionMap & smap) const
 {
-  auto gamma = create(&smap.lookup(*predicate()->origin()), nsubregions());
+  auto gamma = new GammaNode(
+      smap.lookup(*predicate()->origin()),
+      std::make_unique<GammaOperation>(GetOperation()));
 
-  /* add entry variables to new gamma */
   std::vector<SubstitutionMap> rmap(nsubregions());
+  const auto oldMatchVar = GetMatchVar();
+  const auto newMatchVar = gamma->GetMatchVar();
+  for (size_t n = 0; n < nsubregions(); n++)
+    rmap[n].insert(oldMatchVar.matchContent[n], newMatchVar.matchContent[n]);
+
+  /* add entry variables to new gamma */
   for (const auto & oev : GetEntryVars())
   {
     auto nev = gamma->AddEntryVar(&smap.lookup(*oev.input->origin()));
-- 
2.43.0


From 53d170a3f62814bfcbb1626780ea3aa72408085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 47/75] fix: use all operands when copying a node with several
 inputs of the same origin

---
 jlm/rvsdg/node.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jlm/rvsdg/node.cpp b/jlm/rvsdg/node.cpp
index 2819d66..3e71a1c 100644
--- a/jlm/rvsdg/node.cpp
+++ b/jlm/rvsdg/node.cpp
@@ -375,7 +375,13 @@ Node::copy(rvsdg::Region * region, const std::vector<jlm::rvsdg::Output *> & ope
   for (size_t n = 0; n < noperands; n++)
     smap.insert(input(n)->origin(), operands[n]);
 
-  return copy(region, smap);
+  const auto node = copy(region, smap);
+
+  // Inputs with the same origin can have different operands, which the map cannot tell apart
+  for (size_t n = 0; n < noperands; n++)
+    node->input(n)->divert_to(operands[n]);
+
+  return node;
 }
 
 Output &
-- 
2.43.0


From b387be815ce505c7fe4c74210d574e4d48d91ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:14 +0000
Subject: [PATCH 48/75] fix: only reduce gamma exit variables whose results all
 map to the same origin

---
 jlm/rvsdg/gamma.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/jlm/rvsdg/gamma.cpp b/jlm/rvsdg/gamma.cpp
index 9b1a780..5e2f567 100644
--- a/jlm/rvsdg/gamma.cpp
+++ b/jlm/rvsdg/gamma.cpp
@@ -49,23 +49,9 @@ perform_invariant_reduction(GammaNode * gamma)
   bool was_normalized = true;
   for (auto exitvar : gamma->GetExitVars())
   {
-    auto argument = dynamic_cast<const rvsdg::RegionArgument *>(exitvar.branchResult[0]->origin());
-    if (!argument)
-      continue;
-
-    size_t n = 0;
-    auto input = argument->input();
-    for (n = 1; n < exitvar.branchResult.size(); n++)
-    {
-      auto argument =
-          dynamic_cast<const rvsdg::RegionArgument *>(exitvar.branchResult[n]->origin());
-      if (!argument && argument->input() != input)
-        break;
-    }
-
-    if (n == exitvar.branchResult.size())
+    if (const auto origin = GetGammaInvariantOrigin(*gamma, exitvar))
     {
-      exitvar.output->divert_users(argument->input()->origin());
+      exitvar.output->divert_users(*origin);
       was_normalized = false;
     }
   }
-- 
2.43.0


From 7f2242002cf238f2ac2db82415eacfca7a65e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:17 +0000
Subject: [PATCH 49/75] fix: stop tracing at the match content of gamma nodes

---
 jlm/rvsdg/Trace.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/jlm/rvsdg/Trace.cpp b/jlm/rvsdg/Trace.cpp
index dab3551..0100a9c 100644
--- a/jlm/rvsdg/Trace.cpp
+++ b/jlm/rvsdg/Trace.cpp
@@ -53,6 +53,19 @@ mapGammaArgumentToOrigin(GammaNode & gammaNode, Output & output)
   return *gammaNode.mapBranchArgumentToInput(output).origin();
 }
 
+/**
+ * Checks if the given gamma subregion argument is the match content of the gamma node
+ * @param gammaNode the gamma node
+ * @param output an argument in one of \p gammaNode's subregions
+ * @return true if \p output is the match content of \p gammaNode
+ */
+static bool
+isMatchContent(const GammaNode & gammaNode, const Output & output)
+{
+  // The match content is the argument that corresponds to the predicate input of the gamma node
+  return output.index() == gammaNode.predicate()->index();
+}
+
 Output *
 OutputTracer::tryTraceThroughGamma(GammaNode & gammaNode, Output & output)
 {
@@ -82,6 +95,10 @@ OutputTracer::tryTraceThroughGamma(GammaNode & gammaNode, Output & output)
     if (TryGetRegionParentNode<GammaNode>(*tracedInner) != &gammaNode)
       return insertInCache(output, nullptr);
 
+    // The match content of the gamma node has no equivalent output outside the gamma
+    if (isMatchContent(gammaNode, *tracedInner))
+      return insertInCache(output, nullptr);
+
     // Get the origin of the region argument outside the gamma
     gammaInput = &gammaNode.mapBranchArgumentToInput(*tracedInner);
     Output & outerOrigin = *gammaInput->origin();
@@ -162,6 +179,10 @@ OutputTracer::traceStep(Output & output, const rvsdg::Region * withinRegion)
   // Handle gamma node arguments
   if (const auto gammaNode = TryGetRegionParentNode<GammaNode>(output))
   {
+    // The match content of the gamma node has no equivalent output outside the gamma
+    if (isMatchContent(*gammaNode, output))
+      return output;
+
     return mapGammaArgumentToOrigin(*gammaNode, output);
   }
 
-- 
2.43.0


From e25fbb6df16f619cfe63797f6ac03bbbf1066034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:42 +0000
Subject: [PATCH 50/75] fix: only reduce control constants if every alternative
 has a single value

---
 jlm/rvsdg/gamma.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jlm/rvsdg/gamma.cpp b/jlm/rvsdg/gamma.cpp
index 5e2f567..758984f 100644
--- a/jlm/rvsdg/gamma.cpp
+++ b/jlm/rvsdg/gamma.cpp
@@ -76,6 +76,11 @@ is_control_constant_reducible(GammaNode * gamma)
   if (set.size() != gamma->nsubregions())
     return {};
 
+  /* check that every alternative is selected by exactly one value, or by default */
+  const auto nvalues = static_cast<size_t>(std::distance(match_op->begin(), match_op->end()));
+  if (nvalues + 1 != gamma->nsubregions())
+    return {};
+
   /* check for constants */
   std::unordered_set<jlm::rvsdg::Output *> outputs;
   for (const auto & exitvar : gamma->GetExitVars())
-- 
2.43.0


From 8a090557edd47e5bcf9ad8b3f9e1a68369cb8f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:54 +0000
Subject: [PATCH 51/75] fix: only correlate predicates of gamma nodes that
 determine the repetition of a theta node

---
 jlm/llvm/opt/LoopUnswitching.cpp      |  2 +-
 jlm/llvm/opt/PredicateCorrelation.cpp | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/LoopUnswitching.cpp b/jlm/llvm/opt/LoopUnswitching.cpp
index 33e848a..e573d42 100644
--- a/jlm/llvm/opt/LoopUnswitching.cpp
+++ b/jlm/llvm/opt/LoopUnswitching.cpp
@@ -99,7 +99,7 @@ LoopUnswitching::IsUnswitchable(const rvsdg::ThetaNode & theta)
       continue;
 
     gammaNode = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user);
-    if (!gammaNode)
+    if (!gammaNode || &user != gammaNode->predicate())
       return nullptr;
   }
 
diff --git a/jlm/llvm/opt/PredicateCorrelation.cpp b/jlm/llvm/opt/PredicateCorrelation.cpp
index edb42ac..4392c37 100644
--- a/jlm/llvm/opt/PredicateCorrelation.cpp
+++ b/jlm/llvm/opt/PredicateCorrelation.cpp
@@ -139,7 +139,8 @@ computeMatchCorrelation(rvsdg::ThetaNode & thetaNode)
 
   for (auto & user : matchNode->output(0)->Users())
   {
-    if (const auto gammaNode = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user))
+    if (const auto gammaNode = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user);
+        gammaNode && &user == gammaNode->predicate())
     {
       return ThetaGammaPredicateCorrelation::CreateMatchCorrelation(
           thetaNode,
@@ -185,7 +186,7 @@ computeMatchCorrelation(rvsdg::GammaNode & gammaNode1)
   for (auto & user : matchNode->output(0)->Users())
   {
     if (const auto gammaNode2 = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(user);
-        gammaNode2 != &gammaNode1)
+        gammaNode2 && gammaNode2 != &gammaNode1 && &user == gammaNode2->predicate())
     {
       return GammaGammaPredicateCorrelation::CreateMatchCorrelation(
           gammaNode1,
@@ -223,6 +224,12 @@ determineGammaSubregionRoles(const ThetaGammaPredicateCorrelation & correlation)
       return std::nullopt;
     }
 
+    // Both subregions have the same role
+    if (controlAlternatives[0] == controlAlternatives[1])
+    {
+      return std::nullopt;
+    }
+
     GammaSubregionRoles roles;
     if (controlAlternatives[0] == 0)
     {
@@ -250,6 +257,14 @@ determineGammaSubregionRoles(const ThetaGammaPredicateCorrelation & correlation)
     GammaSubregionRoles roles;
     const auto matchOperation =
         util::assertedCast<const rvsdg::MatchOperation>(&matchNode->GetOperation());
+
+    // Both subregions have the same role
+    if (matchOperation->alternative(alternatives[0])
+        == matchOperation->alternative(alternatives[1]))
+    {
+      return std::nullopt;
+    }
+
     if (matchOperation->alternative(alternatives[0]) == 0)
     {
       roles.exitSubregion = correlation.gammaNode().subregion(0);
-- 
2.43.0


From 439545a0deaa5ba344c8201d9dd90e1de6ad9632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:16 +0000
Subject: [PATCH 52/75] fix: unswitch loops with dead nodes that depend on the
 gamma node

---
 jlm/llvm/opt/LoopUnswitching.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/LoopUnswitching.cpp b/jlm/llvm/opt/LoopUnswitching.cpp
index e573d42..58137bb 100644
--- a/jlm/llvm/opt/LoopUnswitching.cpp
+++ b/jlm/llvm/opt/LoopUnswitching.cpp
@@ -15,6 +15,8 @@
 #include <jlm/util/Statistics.hpp>
 #include <jlm/util/time.hpp>
 
+#include <unordered_set>
+
 namespace jlm::llvm
 {
 
@@ -155,10 +157,22 @@ LoopUnswitching::CollectPredicateNodes(
 
   auto depthMap = rvsdg::computeDepthMap(*thetaNode.subregion());
 
+  // Nodes that depend on the gamma node can neither contribute to the predicate nor to the post
+  // values of the loop variables, i.e., they are dead.
+  std::unordered_set<const rvsdg::Node *> gammaDependents({ &gammaNode });
+  for (const auto node : rvsdg::TopDownConstTraverser(thetaNode.subregion()))
+  {
+    for (const auto & input : node->Inputs())
+    {
+      if (gammaDependents.count(rvsdg::TryGetOwnerNode<rvsdg::Node>(*input.origin())))
+        gammaDependents.insert(node);
+    }
+  }
+
   std::vector<std::vector<rvsdg::Node *>> nodes;
   for (auto & node : thetaNode.subregion()->Nodes())
   {
-    if (&node == &gammaNode)
+    if (gammaDependents.count(&node))
       continue;
 
     const auto depth = depthMap[&node];
@@ -219,6 +233,10 @@ LoopUnswitching::UnswitchLoop(rvsdg::ThetaNode & oldThetaNode)
   JLM_ASSERT(correlationOpt.has_value());
   auto & correlation = correlationOpt.value();
 
+  // The theta node's predicate might also correlate with another gamma node
+  if (&correlation->gammaNode() != oldGammaNode)
+    return false;
+
   if (!heuristic_->shouldUnswitchLoop(*correlation))
     return false;
 
-- 
2.43.0


From 649f2e4e40608d6399dac32f5795d6e84fae901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:52 +0000
Subject: [PATCH 53/75] fix: do not move references past the other users of a
 memory state in load chain separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 78f240f..1e1badb 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -377,21 +377,20 @@ LoadChainSeparation::extractReferenceSubchains(const ModRefChain & modRefChain)
       continue;
     }
 
-    auto nextLinkIt = std::next(linkIt);
-    if (nextLinkIt == modRefChain.links.end()
-        || nextLinkIt->type != ModRefChainLink::Type::Reference)
+    // Let's grab all the links of the reference subchain. A link with more than one user starts a new
+    // subchain, as all its users depend on the references further up in the chain.
+    ModRefChain refSubchain;
+    do
     {
-      // We only want to separate reference chains with at least two links
+      refSubchain.links.push_back(*linkIt);
       ++linkIt;
-      continue;
-    }
+    } while (linkIt != modRefChain.links.end() && linkIt->type == ModRefChainLink::Type::Reference
+             && linkIt->output->nusers() == 1);
 
-    // We found a new reference subchain. Let's grab all the links
-    refSubchains.push_back({});
-    while (linkIt != modRefChain.links.end() && linkIt->type == ModRefChainLink::Type::Reference)
+    // We only want to separate reference chains with at least two links
+    if (refSubchain.links.size() >= 2)
     {
-      refSubchains.back().links.push_back(*linkIt);
-      ++linkIt;
+      refSubchains.push_back(std::move(refSubchain));
     }
   }
 
-- 
2.43.0


From f40436d415c8dce8cc150abca016a11a68ce3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 54/75] fix: a memory state split after a store outside of
 loops belongs to a subsequent loop

---
 jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp b/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp
index ee428ae..82487da 100644
--- a/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp
@@ -420,7 +420,9 @@ follow_state_edge(
       JLM_ASSERT(sn->output(0)->nusers() == 1);
       state_edge = get_mem_state_user(sn->output(0));
       // handle case of store that has one edge going off to deq
-      if (rvsdg::IsOwnerNodeOperation<llvm::MemoryStateSplitOperation>(*state_edge))
+      // these only exist within loops, a split outside of loops belongs to a subsequent loop
+      if (rvsdg::IsOwnerNodeOperation<llvm::MemoryStateSplitOperation>(*state_edge)
+          && dynamic_cast<const LoopNode *>(sn->region()->node()))
       {
         // output 0 is the normal edge
         state_edge =
-- 
2.43.0


From 0c73daddeacd5e9bc01e391aba05d811b28e5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 55/75] fix: use constant forks for branches that are only fed
 by constants

---
 jlm/hls/backend/rvsdg2rhls/add-forks.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/add-forks.cpp b/jlm/hls/backend/rvsdg2rhls/add-forks.cpp
index 4464abd..20ee944 100644
--- a/jlm/hls/backend/rvsdg2rhls/add-forks.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/add-forks.cpp
@@ -89,7 +89,29 @@ bool
 ForkInsertion::IsConstantFork(const rvsdg::Output & output)
 {
   const auto node = rvsdg::TryGetOwnerNode<rvsdg::Node>(output);
-  return node != nullptr ? node->ninputs() == 0 : false;
+  if (node == nullptr)
+    return false;
+
+  if (node->ninputs() == 0)
+    return true;
+
+  // The branches and constant forks that are only fed by constants always provide a token as well.
+  // Such branches are not gated by the predicates of enclosing gamma nodes, i.e., some of their users
+  // might never consume a token.
+  const auto [forkNode, forkOperation] =
+      rvsdg::TryGetSimpleNodeAndOptionalOp<ForkOperation>(output);
+  if (rvsdg::IsOwnerNodeOperation<BranchOperation>(output)
+      || (forkOperation && forkOperation->IsConstant()))
+  {
+    for (auto & input : node->Inputs())
+    {
+      if (!IsConstantFork(*input.origin()))
+        return false;
+    }
+    return true;
+  }
+
+  return false;
 }
 
 }
-- 
2.43.0


From 9a6af8772d7446914626f3d12e17658febf93b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 56/75] fix: keep loop variables whose next value is shared
 with another loop variable

---
 jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
index 11b1619..1d6337a 100644
--- a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
@@ -228,6 +228,11 @@ dead_loop(rvsdg::Node * ndmux_node)
     // no connection back up
     return false;
   }
+  if (buf_out->nusers() != 1)
+  {
+    // the value is also the next value of another loop variable
+    return false;
+  }
   // depend on same control
   auto branch_cond_origin = branch_in_node->input(0)->origin();
   auto pred_buf_out_node =
-- 
2.43.0


From bd9ce08b3bfd0ad877a80e334854db96aa6d9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 57/75] fix: convert memory state splits before node reduction
 forwards merge operands through them

---
 jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp b/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
index 535d81d..d99c3bc 100644
--- a/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
@@ -438,8 +438,10 @@ createTransformationSequence(rvsdg::DotWriter & dotWriter, const bool dumpRvsdgG
       memoryStateDecoupling,
       unusedStateRemoval,
       memoryConverter,
-      nodeReduction,
+      // The address queues rely on a MemoryStateSplit of a MemoryStateMerge waiting for all operands
+      // of the merge. The splits must be converted before node reduction forwards these operands.
       memoryStateSplitConversion,
+      nodeReduction,
       redundantBufferElimination,
       sinkInsertion,
       forkInsertion,
-- 
2.43.0


From 4a5c7be52df8d95ba09f66e73fb5ddecf9aaf1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 58/75] fix: never decrease the latency of loop muxes during
 buffer insertion

---
 jlm/hls/backend/rvsdg2rhls/add-buffers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
index c233ba0..4790a6b 100644
--- a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
@@ -509,7 +509,9 @@ PushCycleFrontier(
                       << " input latency: " << input_latency
                       << " backedge latency: " << backedge_latency
                       << " out latency: " << out_latency << std::endl;
-            output_cycles[simpleNode->output(0)] = out_latency;
+            // never decrease the latency - users have already been calculated with the larger one
+            auto & muxCycles = output_cycles[simpleNode->output(0)];
+            muxCycles = std::max(muxCycles, out_latency);
           }
           else
           {
-- 
2.43.0


From 60bbc0c6731f847d26719b7368eaee80f14d6135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 59/75] fix: buffer all loop exit values of outer loops

---
 jlm/hls/backend/rvsdg2rhls/add-buffers.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
index 4790a6b..00bd16e 100644
--- a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
@@ -10,6 +10,8 @@
 #include <jlm/hls/util/view.hpp>
 #include <jlm/rvsdg/traverser.hpp>
 
+#include <unordered_set>
+
 namespace jlm::hls
 {
 
@@ -128,24 +130,38 @@ OptimizeLoop(LoopNode * loopNode)
   if (outerLoop)
   {
     // push buffers above branches, so they also act as output buffers
+    std::unordered_set<const rvsdg::Node *> visitedBranches;
     for (size_t i = 0; i < loopNode->noutputs(); ++i)
     {
       auto out = loopNode->output(i);
-      auto res = out->results.begin().ptr();
+      auto origin = out->results.begin()->origin();
+      // a branch can be the exit of multiple loop outputs
+      if (auto [forkNode, forkOperation] =
+              rvsdg::TryGetSimpleNodeAndOptionalOp<ForkOperation>(*origin);
+          forkOperation)
+      {
+        origin = forkNode->input(0)->origin();
+      }
       auto [branchNode, branchOperation] =
-          rvsdg::TryGetSimpleNodeAndOptionalOp<BranchOperation>(*res->origin());
+          rvsdg::TryGetSimpleNodeAndOptionalOp<BranchOperation>(*origin);
       if (!branchOperation)
       {
         // this is a memory operation or stream
         continue;
       }
       JLM_ASSERT(branchOperation->loop);
+      if (!visitedBranches.insert(branchNode).second)
+      {
+        continue;
+      }
       auto oldBufInput = &branchNode->output(1)->SingleUser();
       auto [oldBufferNode, oldBufferOperation] =
           rvsdg::TryGetSimpleNodeAndOptionalOp<BufferOperation>(*oldBufInput);
       if (rvsdg::IsOwnerNodeOperation<SinkOperation>(*oldBufInput))
       {
-        // no backedge
+        // no backedge - still needs an output buffer. The buffers of the other loop variables also
+        // hold their backedge values, which are only consumed once this value is accepted.
+        PlaceBuffer(branchNode->output(0), 2, true);
         continue;
       }
       JLM_ASSERT(oldBufferOperation);
-- 
2.43.0


From df408e39f84bd24bfb5d4af87e20cd98ec37a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:51 +0000
Subject: [PATCH 60/75] fix: keep the predicate buffers of loops in RHLS dead
 node elimination

---
 jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
index 1d6337a..13e2256 100644
--- a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
@@ -454,6 +454,12 @@ RhlsDeadNodeElimination::Run(
           // TODO: fix - this scenario has only stores and should just be optimized away completely
           continue;
         }
+        if (const auto loopNode = dynamic_cast<const LoopNode *>(region.node());
+            loopNode && rvsdg::TryGetOwnerNode<rvsdg::Node>(loopNode->GetPredicateBuffer()) == node)
+        {
+          // The predicate buffer is still required for copying the loop or adding loop variables
+          continue;
+        }
         remove(node);
         changed = true;
       }
-- 
2.43.0


From c656db968c7b580d7b8f09813baee061d3c23fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:36 +0000
Subject: [PATCH 61/75] fix: support inner loops without inputs in buffer
 insertion

---
 jlm/hls/backend/rvsdg2rhls/add-buffers.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
index 00bd16e..d16959f 100644
--- a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
@@ -404,6 +404,12 @@ NodeCapacity(rvsdg::SimpleNode * node, std::vector<size_t> & input_capacities)
   return std::vector<size_t>(node->noutputs(), min_capacity);
 }
 
+static void
+CalculateLoopCycleDepth(
+    LoopNode * loop,
+    std::unordered_map<rvsdg::Output *, size_t> & output_cycles,
+    bool analyze_inner_loop = false);
+
 static void
 CreateLoopFrontier(
     const LoopNode * loop,
@@ -435,6 +441,16 @@ CreateLoopFrontier(
   }
   for (auto & tn : loop->subregion()->TopNodes())
   {
+    if (const auto innerLoop = dynamic_cast<LoopNode *>(&tn))
+    {
+      // inner loop without any inputs
+      CalculateLoopCycleDepth(innerLoop, output_cycles, true);
+      for (size_t i = 0; i < innerLoop->noutputs(); ++i)
+      {
+        frontier.insert(&innerLoop->output(i)->SingleUser());
+      }
+      continue;
+    }
     JLM_ASSERT(is_constant(&tn));
     auto out = tn.output(0);
     output_cycles[out] = 0;
@@ -469,12 +485,6 @@ CreateLoopFrontier(
   }
 }
 
-static void
-CalculateLoopCycleDepth(
-    LoopNode * loop,
-    std::unordered_map<rvsdg::Output *, size_t> & output_cycles,
-    bool analyze_inner_loop = false);
-
 static void
 PushCycleFrontier(
     std::unordered_map<rvsdg::Output *, size_t> & output_cycles,
-- 
2.43.0


From 7a2cc819c1e7cafa721895dd1b343973cdcbdb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 62/75] fix: make local data of the remaining module accessible
 for the extracted HLS function

---
 jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp b/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
index d99c3bc..c2c2803 100644
--- a/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
@@ -314,8 +314,9 @@ split_hls_function(llvm::LlvmRvsdgModule & rm, const std::string & function_name
         else if (auto odn = dynamic_cast<rvsdg::DeltaNode *>(orig_node))
         {
           auto op = util::assertedCast<const llvm::LlvmDeltaOperation>(&odn->GetOperation());
-          // modify name to not contain .
-          if (op->name().find('.') != std::string::npos)
+          // modify name to not contain . and make local data accessible for the extracted function
+          if (op->name().find('.') != std::string::npos
+              || llvm::isPrivateOrInternal(op->linkage()))
           {
             odn = rename_delta(odn);
             op = util::assertedCast<const llvm::LlvmDeltaOperation>(&odn->GetOperation());
-- 
2.43.0


From 0f1068d848e4acb1a2e886ffc18678098596e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:57 +0000
Subject: [PATCH 63/75] fix: run commands of a command graph only after all
 their predecessors

---
 jlm/tooling/CommandGraph.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jlm/tooling/CommandGraph.cpp b/jlm/tooling/CommandGraph.cpp
index a531348..9040099 100644
--- a/jlm/tooling/CommandGraph.cpp
+++ b/jlm/tooling/CommandGraph.cpp
@@ -7,6 +7,7 @@
 
 #include <deque>
 #include <functional>
+#include <unordered_map>
 
 namespace jlm::tooling
 {
@@ -56,23 +57,22 @@ CommandGraph::CommandGraph()
 std::vector<CommandGraph::Node *>
 CommandGraph::SortNodesTopological(const CommandGraph & commandGraph)
 {
-  std::vector<CommandGraph::Node *> nodes({ &commandGraph.GetEntryNode() });
+  std::vector<CommandGraph::Node *> nodes;
   std::deque<CommandGraph::Node *> to_visit({ &commandGraph.GetEntryNode() });
-  std::unordered_set<CommandGraph::Node *> visited({ &commandGraph.GetEntryNode() });
+  std::unordered_map<CommandGraph::Node *, size_t> numVisitedEdges;
 
+  // A node can only be visited after all its predecessors were visited
   while (!to_visit.empty())
   {
     auto node = to_visit.front();
     to_visit.pop_front();
+    nodes.push_back(node);
 
     for (auto & edge : node->OutgoingEdges())
     {
-      if (visited.find(&edge.GetSink()) == visited.end())
-      {
-        to_visit.push_back(&edge.GetSink());
-        visited.insert(&edge.GetSink());
-        nodes.push_back(&edge.GetSink());
-      }
+      auto & sink = edge.GetSink();
+      if (++numVisitedEdges[&sink] == sink.NumIncomingEdges())
+        to_visit.push_back(&sink);
     }
   }
 
-- 
2.43.0


From 1dd20e9d70641f04d73e5fb78fa31e964c8a0b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:18 +0000
Subject: [PATCH 64/75] fix: -std=c90 is another name of -std=c89

---
 jlm/tooling/CommandLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/tooling/CommandLine.cpp b/jlm/tooling/CommandLine.cpp
index df3821a..c6421a7 100644
--- a/jlm/tooling/CommandLine.cpp
+++ b/jlm/tooling/CommandLine.cpp
@@ -558,7 +558,7 @@ JlcCommandLineParser::ParseCommandLineArguments(int argc, const char * const * a
       languageStandardMap({ { "gnu89", JlcCommandLineOptions::LanguageStandard::Gnu89 },
                             { "gnu99", JlcCommandLineOptions::LanguageStandard::Gnu99 },
                             { "c89", JlcCommandLineOptions::LanguageStandard::C89 },
-                            { "c90", JlcCommandLineOptions::LanguageStandard::C99 },
+                            { "c90", JlcCommandLineOptions::LanguageStandard::C89 },
                             { "c99", JlcCommandLineOptions::LanguageStandard::C99 },
                             { "c11", JlcCommandLineOptions::LanguageStandard::C11 },
                             { "c++98", JlcCommandLineOptions::LanguageStandard::Cpp98 },
-- 
2.43.0


From 341dc6047007fbe80a13bbd9290ec956ffb82cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:46 +0000
Subject: [PATCH 65/75] fix: jlc gave sources that differ after the first dot
 the same object file

---
 jlm/tooling/CommandLine.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jlm/tooling/CommandLine.hpp b/jlm/tooling/CommandLine.hpp
index 7586932..6d5333b 100644
--- a/jlm/tooling/CommandLine.hpp
+++ b/jlm/tooling/CommandLine.hpp
@@ -625,13 +625,23 @@ private:
   static util::FilePath
   ToObjectFile(const util::FilePath & file)
   {
-    return file.Dirname().Join(file.base() + ".o");
+    return ReplaceSuffix(file, "o");
   }
 
   static util::FilePath
   ToDependencyFile(const util::FilePath & file)
   {
-    return file.Dirname().Join(file.base() + ".d");
+    return ReplaceSuffix(file, "d");
+  }
+
+  /**
+   * Replaces the last suffix of \p file, i.e., the files "a.1.c" and "a.2.c" stay distinct.
+   */
+  static util::FilePath
+  ReplaceSuffix(const util::FilePath & file, const std::string & suffix)
+  {
+    const auto name = file.name();
+    return file.Dirname().Join(name.substr(0, name.find_last_of('.')) + "." + suffix);
   }
 
   JlcCommandLineOptions CommandLineOptions_;
-- 
2.43.0


From ef43434338748b5f438ec1c5e63a1fe4f584fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:07 +0000
Subject: [PATCH 66/75] fix: jlm-opt did not accept the --input-format=llvm
 option that JlmOptCommand prints

---
 jlm/tooling/CommandLine.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jlm/tooling/CommandLine.cpp b/jlm/tooling/CommandLine.cpp
index c6421a7..d16229f 100644
--- a/jlm/tooling/CommandLine.cpp
+++ b/jlm/tooling/CommandLine.cpp
@@ -787,9 +787,10 @@ JlmOptCommandLineParser::ParseCommandLineArguments(int argc, const char * const
               "Write store value forwarding statistics to file.")),
       cl::desc("Write statistics"));
 
-#ifdef ENABLE_MLIR
   auto llvmInputFormat = JlmOptCommandLineOptions::InputFormat::Llvm;
+#ifdef ENABLE_MLIR
   auto mlirInputFormat = JlmOptCommandLineOptions::InputFormat::Mlir;
+#endif
 
   cl::opt<JlmOptCommandLineOptions::InputFormat> inputFormat(
       "input-format",
@@ -798,15 +799,16 @@ JlmOptCommandLineParser::ParseCommandLineArguments(int argc, const char * const
           ::clEnumValN(
               llvmInputFormat,
               JlmOptCommandLineOptions::ToCommandLineArgument(llvmInputFormat),
-              "Input LLVM IR [default]"),
+              "Input LLVM IR [default]")
+#ifdef ENABLE_MLIR
+              ,
           ::clEnumValN(
               mlirInputFormat,
               JlmOptCommandLineOptions::ToCommandLineArgument(mlirInputFormat),
-              "Input MLIR")),
-      cl::init(llvmInputFormat));
-#else
-  auto inputFormat = JlmOptCommandLineOptions::InputFormat::Llvm;
+              "Input MLIR")
 #endif
+              ),
+      cl::init(llvmInputFormat));
 
   cl::opt<JlmOptCommandLineOptions::OutputFormat> outputFormat(
       "output-format",
-- 
2.43.0


From 439d2f35533c2261d82029706f04812dba79ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:26 +0000
Subject: [PATCH 67/75] fix: jhls did not accept the names of language
 standards that clang uses

---
 jlm/tooling/CommandLine.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jlm/tooling/CommandLine.cpp b/jlm/tooling/CommandLine.cpp
index d16229f..5593175 100644
--- a/jlm/tooling/CommandLine.cpp
+++ b/jlm/tooling/CommandLine.cpp
@@ -1247,7 +1247,18 @@ JhlsCommandLineParser::ParseCommandLineArguments(int argc, const char * const *
         { "3", JhlsCommandLineOptions::OptimizationLevel::O3 } });
 
   static std::unordered_map<std::string, JhlsCommandLineOptions::LanguageStandard> stdmap(
-      { { "Gnu89", JhlsCommandLineOptions::LanguageStandard::Gnu89 },
+      { { "gnu89", JhlsCommandLineOptions::LanguageStandard::Gnu89 },
+        { "gnu99", JhlsCommandLineOptions::LanguageStandard::Gnu99 },
+        { "c89", JhlsCommandLineOptions::LanguageStandard::C89 },
+        { "c90", JhlsCommandLineOptions::LanguageStandard::C89 },
+        { "c99", JhlsCommandLineOptions::LanguageStandard::C99 },
+        { "c11", JhlsCommandLineOptions::LanguageStandard::C11 },
+        { "c++98", JhlsCommandLineOptions::LanguageStandard::Cpp98 },
+        { "c++03", JhlsCommandLineOptions::LanguageStandard::Cpp03 },
+        { "c++11", JhlsCommandLineOptions::LanguageStandard::Cpp11 },
+        { "c++14", JhlsCommandLineOptions::LanguageStandard::Cpp14 },
+        // Former spellings
+        { "Gnu89", JhlsCommandLineOptions::LanguageStandard::Gnu89 },
         { "Gnu99", JhlsCommandLineOptions::LanguageStandard::Gnu99 },
         { "C89", JhlsCommandLineOptions::LanguageStandard::C89 },
         { "C99", JhlsCommandLineOptions::LanguageStandard::C99 },
-- 
2.43.0


From 3a6a242f91b98642f58c59bd17b66de84ee2082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 68/75] fix: jlm-opt could not be asked for the
 IOBarrierElimination statistics

---
 jlm/tooling/CommandLine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jlm/tooling/CommandLine.cpp b/jlm/tooling/CommandLine.cpp
index 5593175..2244366 100644
--- a/jlm/tooling/CommandLine.cpp
+++ b/jlm/tooling/CommandLine.cpp
@@ -743,6 +743,9 @@ JlmOptCommandLineParser::ParseCommandLineArguments(int argc, const char * const
           CreateStatisticsOption(
               util::Statistics::Id::InvariantValueRedirection,
               "Write invariant value redirection statistics to file."),
+          CreateStatisticsOption(
+              util::Statistics::Id::IOBarrierElimination,
+              "Write IOBarrier elimination statistics to file."),
           CreateStatisticsOption(
               util::Statistics::Id::JlmToRvsdgConversion,
               "Write Jlm to RVSDG conversion statistics to file."),
-- 
2.43.0


From 7c002325aae9e48244fa00f8020e73589c41d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:34 +0000
Subject: [PATCH 69/75] fix: jlc could not be asked for the statistics of some
 jlm-opt passes

---
 jlm/tooling/CommandLine.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/jlm/tooling/CommandLine.cpp b/jlm/tooling/CommandLine.cpp
index 2244366..758d31d 100644
--- a/jlm/tooling/CommandLine.cpp
+++ b/jlm/tooling/CommandLine.cpp
@@ -470,12 +470,18 @@ JlcCommandLineParser::ParseCommandLineArguments(int argc, const char * const * a
   cl::list<util::Statistics::Id> jlmOptPassStatistics(
       "JlmOptPassStatistics",
       cl::values(
+          CreateStatisticsOption(
+              util::Statistics::Id::AggregateAllocaSplitting,
+              "Collect aggregate alloca splitting pass statistics."),
           CreateStatisticsOption(
               util::Statistics::Id::Aggregation,
               "Collect control flow graph aggregation pass statistics."),
           CreateStatisticsOption(
               util::Statistics::Id::AgnosticModRefSummarizer,
               "Collect agnostic mod/ref summarizer pass statistics."),
+          CreateStatisticsOption(
+              util::Statistics::Id::AliasAnalysisPrecisionEvaluation,
+              "Collect alias analysis precision evaluation statistics."),
           CreateStatisticsOption(
               util::Statistics::Id::AndersenAnalysis,
               "Collect Andersen alias analysis pass statistics."),
@@ -500,9 +506,15 @@ JlcCommandLineParser::ParseCommandLineArguments(int argc, const char * const * a
           CreateStatisticsOption(
               util::Statistics::Id::FunctionInlining,
               "Collect function inlining pass statistics."),
+          CreateStatisticsOption(
+              util::Statistics::Id::IfConversion,
+              "Collect if-conversion pass statistics."),
           CreateStatisticsOption(
               util::Statistics::Id::InvariantValueRedirection,
               "Collect invariant value redirection pass statistics."),
+          CreateStatisticsOption(
+              util::Statistics::Id::IOBarrierElimination,
+              "Collect IOBarrier elimination pass statistics."),
           CreateStatisticsOption(
               util::Statistics::Id::JlmToRvsdgConversion,
               "Collect Jlm to RVSDG conversion pass statistics."),
@@ -541,7 +553,10 @@ JlcCommandLineParser::ParseCommandLineArguments(int argc, const char * const * a
               "Collect RVSDG tree printer pass statistics."),
           CreateStatisticsOption(
               util::Statistics::Id::ScalarEvolution,
-              "Collect scalar evolution analysis pass statistics.")),
+              "Collect scalar evolution analysis pass statistics."),
+          CreateStatisticsOption(
+              util::Statistics::Id::StoreValueForwarding,
+              "Collect store value forwarding pass statistics.")),
       cl::desc("Collect jlm-opt pass statistics"));
 
   cl::ParseCommandLineOptions(argc, argv);
-- 
2.43.0


From ff0927755e93dcd61f82f710be88fc257ef98907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:31 +0000
Subject: [PATCH 70/75] fix: do not hoist allocas

An alloca only depends on its count, so that an alloca in a loop was hoisted out of the
loop, and all iterations shared a single object.
---
 jlm/llvm/opt/push.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index fb9d4ec..36d1b0f 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -3,6 +3,7 @@
  * See COPYING for terms of redistribution.
  */
 
+#include <jlm/llvm/ir/operators/alloca.hpp>
 #include <jlm/llvm/ir/operators/delta.hpp>
 #include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
@@ -188,6 +189,11 @@ NodeHoisting::computeTargetRegion(const rvsdg::Output & output) const
 rvsdg::Region &
 NodeHoisting::computeTargetRegion(const rvsdg::Node & node) const
 {
+  // Every execution of an alloca creates a new object. Hoisting it out of a loop would let all
+  // iterations share a single one.
+  if (is<AllocaOperation>(&node))
+    return *node.region();
+
   if (node.ninputs() == 0)
   {
     // All nullary operations to date have exactly one output
-- 
2.43.0


From 3b758987ba48b08818b40195b0858da0b08a0bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:25 +0000
Subject: [PATCH 71/75] fix: accept undefined memory states in the memory state
 encoding

Function inlining and the reduction of memory state merges create undef nodes for memory states.
Running the alias analyses after them hit an assertion.
---
 jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp    | 4 ++++
 jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp          | 4 ++++
 jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
index fc2e8c8..8497753 100644
--- a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
@@ -303,6 +303,10 @@ AgnosticModRefSummarizer::AnnotateSimpleNode(const rvsdg::SimpleNode & node)
       {
         // Memory state operations are only used to route memory state edges
       },
+      [&](const UndefValueOperation &)
+      {
+        // Undef memory states order nothing, and can be ignored
+      },
       [&]()
       {
         // Any remaining type of node should not involve any memory states
diff --git a/jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp b/jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp
index 64de0b9..c36fe29 100644
--- a/jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp
+++ b/jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp
@@ -790,6 +790,10 @@ MemoryStateEncoder::EncodeSimpleNode(const rvsdg::SimpleNode & simpleNode)
       {
         // Nothing needs to be done
       },
+      [&](const UndefValueOperation &)
+      {
+        // Undef memory states order nothing, and nothing needs to be done
+      },
       [&]()
       {
         // Ensure we took care of all memory state consuming/producing nodes
diff --git a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
index f06af58..24287a5 100644
--- a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
@@ -1472,6 +1472,11 @@ RegionAwareModRefSummarizer::AnnotateSimpleNode(
         // MemoryStateOperations are only used to route memory states, and can be ignored
         return std::nullopt;
       },
+      [&](const UndefValueOperation &) -> std::optional<ModRefSetIndex>
+      {
+        // Undef memory states order nothing, and can be ignored
+        return std::nullopt;
+      },
       [&]() -> std::optional<ModRefSetIndex>
       {
         // Any remaining type of node should not involve any memory states
-- 
2.43.0


From 057b1334336a261f85f328a8a31f5e3732c26e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:48 +0000
Subject: [PATCH 72/75] fix: folding a unary bit string operation may create
 the constant in the wrong region

---
 jlm/rvsdg/bitstring/bitoperation-classes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/rvsdg/bitstring/bitoperation-classes.cpp b/jlm/rvsdg/bitstring/bitoperation-classes.cpp
index 1dc2639..578b1bf 100644
--- a/jlm/rvsdg/bitstring/bitoperation-classes.cpp
+++ b/jlm/rvsdg/bitstring/bitoperation-classes.cpp
@@ -26,7 +26,7 @@ BitUnaryOperation::foldConstant(
   if (constantOperation)
   {
     return std::vector({ &BitConstantOperation::create(
-        *constantNode->region(),
+        *operands[0]->region(),
         operation.reduce_constant(constantOperation->value())) });
   }
 
-- 
2.43.0


From 2453ee23a4acc4041f92e6fea1174ffb19d8bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:48 +0000
Subject: [PATCH 73/75] fix: normalize flattened operations that keep more than
 two operands

---
 jlm/rvsdg/binary.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/jlm/rvsdg/binary.cpp b/jlm/rvsdg/binary.cpp
index 2f713c0..34dae32 100644
--- a/jlm/rvsdg/binary.cpp
+++ b/jlm/rvsdg/binary.cpp
@@ -254,7 +254,30 @@ NormalizeFlattenedBinaryOperation(
     const FlattenedBinaryOperation & operation,
     const std::vector<rvsdg::Output *> & operands)
 {
-  return NormalizeBinaryOperation(operation.bin_operation(), operands);
+  JLM_ASSERT(!operands.empty());
+  auto region = operands[0]->region();
+  auto & binaryOperation = operation.bin_operation();
+
+  auto newOperands = reduce_operands(binaryOperation, operands);
+
+  if (newOperands.size() == 1)
+  {
+    // The operands could be reduced to a single value by applying constant folding.
+    return newOperands;
+  }
+
+  if (newOperands == operands)
+  {
+    // The operands did not change, which means that none of the normalizations triggered.
+    return std::nullopt;
+  }
+
+  if (newOperands.size() == 2)
+    return outputs(&SimpleNode::Create(*region, binaryOperation.copy(), newOperands));
+
+  auto flattenedBinaryOperation =
+      std::make_unique<FlattenedBinaryOperation>(binaryOperation, newOperands.size());
+  return outputs(&SimpleNode::Create(*region, std::move(flattenedBinaryOperation), newOperands));
 }
 
 }
-- 
2.43.0


From dd3c7af480bef356513533d27b8c31cd15e67c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:03:47 +0000
Subject: [PATCH 74/75] fix: keep the order of memory states when a load drops
 the states of other allocas

---
 jlm/llvm/ir/operators/Load.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 2bc593b..bffec60 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -148,14 +148,14 @@ perform_load_alloca_reduction(
   const auto allocaNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[0]);
 
   std::vector<rvsdg::Output *> loadstates;
-  std::vector<rvsdg::Output *> otherstates;
+  std::vector<rvsdg::Output *> results(operands.size(), nullptr);
   for (size_t n = 1; n < operands.size(); n++)
   {
     const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[n]);
     if (!is<AllocaOperation>(node) || node == allocaNode)
       loadstates.push_back(operands[n]);
     else
-      otherstates.push_back(operands[n]);
+      results[n] = operands[n];
   }
 
   auto ld = LoadNonVolatileOperation::Create(
@@ -164,9 +164,13 @@ perform_load_alloca_reduction(
       op.GetLoadedType(),
       op.GetAlignment());
 
-  std::vector<rvsdg::Output *> results(1, ld[0]);
-  results.insert(results.end(), std::next(ld.begin()), ld.end());
-  results.insert(results.end(), otherstates.begin(), otherstates.end());
+  results[0] = ld[0];
+  for (size_t n = 1, s = 1; n < results.size(); n++)
+  {
+    if (results[n] == nullptr)
+      results[n] = ld[s++];
+  }
+
   return results;
 }
 
-- 
2.43.0


From de4be56753fca6dde55afe439d0e8b652cc8a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:03:50 +0000
Subject: [PATCH 75/75] fix: keep the order of memory states when a store only
 needs the state of its alloca

---
 jlm/llvm/ir/operators/Store.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index 566f1cd..8169c79 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -111,16 +111,16 @@ perform_store_alloca_reduction(
 {
   auto value = operands[1];
   auto address = operands[0];
-  auto alloca_state = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*address)->output(1);
-  std::unordered_set<jlm::rvsdg::Output *> states(
+  jlm::rvsdg::Output * alloca_state =
+      rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*address)->output(1);
+  std::vector<jlm::rvsdg::Output *> states(
       std::next(std::next(operands.begin())),
       operands.end());
 
   auto outputs =
       StoreNonVolatileOperation::Create(address, value, { alloca_state }, op.GetAlignment());
-  states.erase(alloca_state);
-  states.insert(outputs[0]);
-  return { states.begin(), states.end() };
+  std::replace(states.begin(), states.end(), alloca_state, outputs.at(0));
+  return states;
 }
 
 static std::vector<jlm::rvsdg::Output *>
-- 
2.43.0

