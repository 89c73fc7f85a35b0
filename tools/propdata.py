"""The properties, in one place: tools/gen.py derives properties.jsonl and MANIFEST.json from it."""
PROPS = []

TV = ("Differential testing with generated whole programs: an abstract-machine interpreter for LLVM IR that tracks "
      "undefined values, memory, and externally observable events decides whether the output refines the input on "
      "generated arguments and external-call behaviours. Trusts the interpreter (validated by running LLVM's own "
      "optimisers through the same oracle) and LLVM's parser and verifier; programs are small and runs bounded; "
      "absence of violations is evidence, not proof.")
TT = "property-based testing: generated programs, refinement oracle over an IR interpreter, choice-sequence shrinking"


def prop(id, title, statement, over, text, why, files, mech, technique=TT, note=TV, claimed=True, reason="", **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                      why_tests_cant=why, anchors=a, technique=technique, note=note, claimed=claimed, reason=reason))


L = "jlm/llvm/"
prop("R01", "Import followed by export preserves program behaviour",
     "Translating any supported LLVM module into the dataflow representation and back, with no optimisation in between, "
     "yields a valid module whose functions, for every argument and every behaviour of the outside world, return the "
     "same results, leave the same memory behind and perform the same externally visible actions in the same order, "
     "wherever the original is defined.",
     ["programs", "inputs"], "every module built from supported constructs, every argument, every environment response",
     "The tests translate a few dozen hand-written modules and mostly check the shape of the result; none runs a program, "
     "and combinations of instructions, types, loops and calls are unbounded.",
     [L + "frontend/LlvmModuleConversion.cpp", L + "frontend/InterProceduralGraphConversion.cpp",
      L + "backend/RvsdgToIpGraphConverter.cpp", L + "backend/IpGraphToLlvmConverter.cpp"],
     [("instruction by instruction conversion to three address code", L + "frontend/LlvmModuleConversion.cpp"),
      ("construction of the graph from annotated regions", L + "frontend/InterProceduralGraphConversion.cpp"),
      ("control flow recovery", L + "backend/RvsdgToIpGraphConverter.cpp"),
      ("emission of LLVM instructions", L + "backend/IpGraphToLlvmConverter.cpp")])

O = L + "opt/"
WHY = ("The tests run the transformation on a handful of hand-built graphs and check the shape of the result; they never "
       "execute a program, and the interplay of operations, nesting, states and calls is unbounded.")
prop("R02", "Arbitrary control flow survives restructuring and recovery",
     "A function with any reducible or irreducible control flow graph - nested, overlapping and endless loops, multi-way "
     "branches, several exits - behaves after translation into structured form and back exactly as before, for every "
     "path the inputs can select.",
     ["programs", "inputs"], "every control flow graph, every path through it",
     "A few dozen fixed graphs are tested structurally; the space of control flow graphs is unbounded and the tests do not "
     "follow paths.",
     [L + "frontend/ControlFlowRestructuring.cpp", L + "ir/aggregation.cpp", L + "ir/Annotation.cpp", L + "ir/cfg-structure.cpp",
      L + "ir/ssa.cpp", L + "backend/RvsdgToIpGraphConverter.cpp"],
     [("loop and branch restructuring", L + "frontend/ControlFlowRestructuring.cpp"),
      ("aggregation into a region tree", L + "ir/aggregation.cpp"),
      ("demand annotation", L + "ir/Annotation.cpp"),
      ("control flow recovery", L + "backend/RvsdgToIpGraphConverter.cpp")])
IFN = ("Metamorphic comparison of the generated module with the exported one through LLVM's own parser: names, kinds, types and "
       "every modelled annotation must be the same. The behaviour of the bodies is R01's business. Absence of violations is "
       "evidence, not proof.")
prop("R03", "Linkage, layout and annotations of a module survive import and export",
     "Every defined global variable and function comes back with its name, type, linkage, constness, alignment, section, "
     "calling convention, function attributes and parameter attributes; every used declaration with its name, type, linkage "
     "and calling convention; data layout and target triple are kept; and, without optimisation, the accesses to memory, "
     "stack allocations and calls of a body come back with the same types, alignments, volatility, conventions and "
     "attributes. Optimisation may remove only symbols that the linkage permits to drop, and adds no external ones.",
     ["programs"], "every module, every combination of linkages, attributes, alignments and conventions that LLVM accepts",
     "The tests check single attributes and linkages on single functions; tables of a hundred entries in both directions are "
     "exercised for a few.",
     [L + "frontend/LlvmModuleConversion.cpp", L + "backend/IpGraphToLlvmConverter.cpp", L + "ir/attribute.hpp",
      L + "ir/CallingConvention.cpp", L + "frontend/InterProceduralGraphConversion.cpp", L + "backend/RvsdgToIpGraphConverter.cpp"],
     [("attribute and linkage tables of the import", L + "frontend/LlvmModuleConversion.cpp"),
      ("attribute and linkage tables of the export", L + "backend/IpGraphToLlvmConverter.cpp"),
      ("calling conventions", L + "ir/CallingConvention.cpp")],
     technique="property-based testing: generated modules, round trip compared annotation by annotation, choice-sequence shrinking",
     note=IFN)
prop("O01", "The standard optimisation pipeline preserves program behaviour",
     "Running a module through the complete standard sequence of optimisations yields a valid module that refines it: for "
     "every input and environment on which the original is defined it returns the same results, leaves the same memory "
     "and performs the same external actions in the same order.",
     ["programs", "inputs"], "every supported module, every input and environment", WHY,
     ["tools/jlm-opt/jlm-opt.cpp", "jlm/tooling/Command.cpp", "jlm/rvsdg/Transformation.cpp", O + "inlining.cpp"],
     [("the sequence of optimisations", "jlm/tooling/Command.cpp"), ("sequencing of transformations", "jlm/rvsdg/Transformation.cpp")])
prop("O02", "Any sequence of transformations preserves program behaviour",
     "Every order and repetition of the available transformations terminates without failing, leaves a graph that can be "
     "exported to a valid module, and that module refines the input module.",
     ["programs", "inputs", "configurations"], "every supported module, every sequence of transformations, every input",
     "The tests run each transformation alone on fresh graphs; what one transformation leaves for the next is not tested.",
     ["jlm/tooling/Command.cpp", "jlm/rvsdg/Transformation.cpp", O + "NodeReduction.cpp", O + "push.cpp"],
     [("selection of transformations", "jlm/tooling/Command.cpp"), ("sequencing of transformations", "jlm/rvsdg/Transformation.cpp")])


def opt(id, what, files, mech, extra="", **kw):
    prop(id, what + " preserves program behaviour",
         what + " turns any module, also one already transformed by other optimisations, into a valid module that refines it: "
         "wherever the original is defined, results, final memory and the order of external actions are the same." + extra,
         ["programs", "inputs"], "every graph the other transformations can produce, every input and environment", WHY,
         files, mech, **kw)


opt("O03", "Common node elimination", [O + "CommonNodeElimination.cpp"],
    [("partitioning of outputs into congruence classes and diverting of users", O + "CommonNodeElimination.cpp")])
opt("O04", "Dead node elimination", [O + "DeadNodeElimination.cpp"], [("marking and sweeping", O + "DeadNodeElimination.cpp")])
opt("O05", "Function inlining", [O + "inlining.cpp"],
    [("copying of the callee, hoisting of allocas, routing of context variables", O + "inlining.cpp")])
opt("O06", "If-conversion", [O + "IfConversion.cpp"], [("replacement of branches by selects", O + "IfConversion.cpp")])
opt("O07", "Invariant value redirection", [O + "InvariantValueRedirection.cpp"],
    [("redirection around branches, loops, loads and calls", O + "InvariantValueRedirection.cpp")])
opt("O08", "IO barrier elimination", [O + "IOBarrierElimination.cpp"],
    [("proof that an address is dereferencable", O + "IOBarrierElimination.cpp")])
opt("O09", "Load chain separation", [O + "LoadChainSeparation.cpp"],
    [("classification of states as modified or only read", O + "LoadChainSeparation.cpp")])
opt("O10", "Loop strength reduction", [O + "LoopStrengthReduction.cpp", O + "ScalarEvolution.cpp"],
    [("replacement by induction variables", O + "LoopStrengthReduction.cpp"), ("chain recurrences", O + "ScalarEvolution.cpp")])
opt("O11", "Loop unrolling", [O + "unroll.cpp", O + "unroll.hpp"], [("trip counts and body copies", O + "unroll.cpp")],
    claimed=False, reason="The pass only recognises bit string operations, which no LLVM module is translated to; a check over graphs of bit string operations is being built.")
opt("O12", "Loop unswitching", [O + "LoopUnswitching.cpp"], [("conversion of tail-controlled into head-controlled loops", O + "LoopUnswitching.cpp")])
opt("O13", "Moving nodes into and out of branches and loops", [O + "pull.cpp", O + "push.cpp"],
    [("pulling nodes into branches", O + "pull.cpp"), ("pushing nodes out of branches and loops", O + "push.cpp")])
opt("O14", "Node reduction", [O + "NodeReduction.cpp", L + "ir/operators/Load.cpp", L + "ir/operators/Store.cpp",
                             L + "ir/operators/MemoryStateOperations.cpp"],
    [("driver", O + "NodeReduction.cpp"), ("load rewrites", L + "ir/operators/Load.cpp"), ("store rewrites", L + "ir/operators/Store.cpp"),
     ("state rewrites", L + "ir/operators/MemoryStateOperations.cpp")])
opt("O15", "Predicate correlation", [O + "PredicateCorrelation.cpp"], [("replacement of loop predicates by branch predicates", O + "PredicateCorrelation.cpp")])
opt("O16", "Store value forwarding", [O + "StoreValueForwarding.cpp"],
    [("tracing of memory states to the last store", O + "StoreValueForwarding.cpp")])
opt("O17", "Splitting of aggregate allocas", [O + "AggregateAllocaSplitting.cpp"], [("splitting and address rewriting", O + "AggregateAllocaSplitting.cpp")])
A = O + "alias-analyses/"
opt("O18", "Encoding of memory states from alias analysis",
    [A + "MemoryStateEncoder.cpp", A + "AgnosticModRefSummarizer.cpp", A + "RegionAwareModRefSummarizer.cpp", A + "Andersen.cpp"],
    [("state encoding", A + "MemoryStateEncoder.cpp"), ("mod/ref summaries", A + "RegionAwareModRefSummarizer.cpp"),
     ("points-to analysis", A + "Andersen.cpp")],
    " Memory operations that may touch the same memory stay ordered.")

ANOTE = ("Soundness is checked against concrete executions: the analysed graph is exported with hooks that tell which LLVM "
         "value represents which output, interpreted, and every runtime fact compared with the analysis result. Trusts the "
         "interpreter and the correspondence; only runs free of undefined behaviour count; programs are small and runs "
         "bounded; precision is not checked except where stated.")
AT = "property-based testing: generated pointer programs, analysis results compared with concrete executions"
AWHY = ("The tests compare results on a few hand-written graphs with hand-written sets; whether an answer is sound depends on "
        "every path pointers take through memory, calls, loops, aggregates and external code in arbitrary programs.")
prop("A01", "Points-to analysis covers every pointer that occurs at run time",
     "The points-to graph computed for a program covers reality: whatever object a pointer value points to in any "
     "execution is among the value's targets, whatever pointer a memory location holds is among that location's targets, "
     "and every object that external code can reach is marked as externally available.",
     ["programs", "inputs"], "every module, every execution without undefined behaviour, every behaviour of external code", AWHY,
     [A + "Andersen.cpp", A + "PointerObjectSet.cpp", A + "PointsToGraph.cpp"],
     [("constraint generation per operation", A + "Andersen.cpp"), ("constraint solving", A + "PointerObjectSet.cpp"),
      ("graph construction", A + "PointsToGraph.cpp")], technique=AT, note=ANOTE)
prop("A02", "All points-to solver configurations compute the same solution",
     "The points-to solution does not depend on how it is computed: every valid solver configuration - naive or worklist, "
     "any worklist policy, with or without offline normalisation, cycle detection, difference propagation and implicit "
     "pointees - yields the same points-to graph for the same program (a configuration may only add targets in programs "
     "that access memory through pointers that point nowhere).",
     ["programs", "configurations"], "every module and every valid solver configuration",
     "The tests solve a few dozen small graphs; the optimisations interact (unification, cycle elimination, difference "
     "tracking) in ways only particular constraint graphs and visiting orders expose.",
     [A + "Andersen.cpp", A + "PointerObjectSet.cpp", A + "DifferencePropagation.hpp", A + "LazyCycleDetection.hpp",
      A + "OnlineCycleDetection.hpp"],
     [("worklist solver", A + "PointerObjectSet.cpp"), ("configurations", A + "Andersen.cpp"),
      ("difference propagation", A + "DifferencePropagation.hpp")],
     technique="property-based testing: generated pointer programs, differential oracle between solver configurations",
     note="The naive solver is the reference for all others; its soundness is A01's subject. Eight random configurations per program.")
prop("A03", "Alias query answers are correct",
     "Whenever an alias analysis answers that two accesses never overlap or always coincide, this is what happens in every "
     "execution, for every pair of pointers and access sizes, whichever analysis or combination of analyses answers and "
     "whatever limits it is configured with.",
     ["programs", "inputs", "queries"], "every module, pair of addresses, access sizes and execution", AWHY,
     [A + "LocalAliasAnalysis.cpp", A + "PointsToGraphAliasAnalysis.cpp", A + "AliasAnalysis.cpp"],
     [("tracing and offsets", A + "LocalAliasAnalysis.cpp"), ("points-to based answers", A + "PointsToGraphAliasAnalysis.cpp"),
      ("combination", A + "AliasAnalysis.cpp")], technique=AT, note=ANOTE)
prop("A04", "Mod/ref summaries cover every memory access",
     "The set of memory a summary gives for an operation, call, branch, loop or function covers every location that is "
     "actually read or written while it executes, including through callees, recursion and external code, with writes "
     "covered by a modifying effect.",
     ["programs", "inputs"], "every module and every execution without undefined behaviour", AWHY,
     [A + "AgnosticModRefSummarizer.cpp", A + "RegionAwareModRefSummarizer.cpp"],
     [("per-operation sets", A + "AgnosticModRefSummarizer.cpp"), ("propagation and blocking", A + "RegionAwareModRefSummarizer.cpp")],
     technique=AT, note=ANOTE)

U = "jlm/util/"
UT = "property-based testing: random operation histories against reference models"
UN = ("The reference models are plain std:: containers and arithmetic on wider integers. Operations the documentation excludes "
      "(such as consuming a set with itself) are not generated.")
UWHY = ("The tests run a few fixed sequences on a handful of elements; a wrong link, size or bucket shows only after "
        "particular histories, and every analysis and transformation is built on these classes.")
prop("U01", "Collections behave as the mathematical objects they stand for",
     "After any history of operations, a hash set, bijective map, disjoint-set forest, intrusive list or intrusive hash holds "
     "exactly the elements, pairs, classes or sequence that the operations define, every operation returns the result defined "
     "for it (including whether it changed anything), iteration visits every element exactly once, and owning lists "
     "destroy each element exactly once.",
     ["histories"], "every history of operations on a few collections", UWHY,
     [U + "HashSet.hpp", U + "BijectiveMap.hpp", U + "disjointset.hpp", U + "intrusive-list.hpp", U + "intrusive-hash.hpp"],
     [("sets", U + "HashSet.hpp"), ("maps", U + "BijectiveMap.hpp"), ("union-find", U + "disjointset.hpp"),
      ("lists and hashes", U + "intrusive-list.hpp")], technique=UT, note=UN)
prop("U02", "Worklists and component search serve fixpoint algorithms correctly",
     "A worklist returns every pushed item exactly once per time it becomes pending, never an item that is not pending, in the "
     "order its policy documents (last in first out, first in first out, least recently fired, two-phase least recently "
     "fired). The search for strongly connected components gives two nodes the same index exactly if they reach each other, "
     "numbers components in reverse topological order and lists every root once, with and without unified nodes.",
     ["histories", "graphs"], "every push/pop history; every directed graph with every unification of its nodes", UWHY,
     [U + "Worklist.hpp", U + "TarjanScc.hpp"], [("worklists", U + "Worklist.hpp"), ("components", U + "TarjanScc.hpp")],
     technique=UT, note=UN)
prop("U03", "Number and path helpers agree with their definitions",
     "Integer logarithm, rounding to powers of two and multiples, bit counting, truncation with sign or zero extension, and "
     "the decomposition and joining of file paths give the documented result for every argument in their domain.",
     ["inputs"], "every integer of every width and every path string",
     "The tests sample a few values; the edges (extreme values, zero widths, repeated or trailing separators) are where such "
     "helpers fail.",
     [U + "Math.hpp", U + "file.hpp"], [("numbers", U + "Math.hpp"), ("paths", U + "file.hpp")], technique=UT,
     note="Reference results are computed on 128-bit integers and by hand-written path rules (those of dirname(1)).")

prop("U04", "Bit strings compute like integers of their width",
     "Every operation on constant bit strings (arithmetic, shifts, division, comparison, slicing, concatenation, extension, "
     "conversion to and from machine integers) gives the result of integer arithmetic modulo the width, for every width; with "
     "unknown bits, a bit or comparison result is only claimed known if it is the same for every value of these bits. "
     "Folding, normalising, flattening, slicing and reducing bit string operations in a graph never changes a value.",
     ["inputs", "graphs", "rewrites"], "every width and pair of bit strings; every graph of bit string operations and sequence of rewrites",
     "The tests evaluate a few fixed pairs of constants; wrong carries, signs, widths beyond 64 bits, unknown bits and "
     "combinations of rewrites show only for particular values and orders.",
     ["jlm/rvsdg/bitstring/value-representation.hpp", "jlm/rvsdg/bitstring/arithmetic.cpp", "jlm/rvsdg/bitstring/slice.cpp",
      "jlm/rvsdg/bitstring/concat.cpp", "jlm/rvsdg/binary.cpp"],
     [("values", "jlm/rvsdg/bitstring/value-representation.hpp"), ("folding", "jlm/rvsdg/bitstring/bitoperation-classes.cpp"),
      ("slices", "jlm/rvsdg/bitstring/slice.cpp"), ("flattening", "jlm/rvsdg/binary.cpp")],
     technique="property-based testing: random bit strings and expression graphs against multi-precision integers",
     note="Reference results come from boost::multiprecision. Division by zero, the overflowing signed division and division with "
          "unknown bits are excluded; normalisation of concatenations is only applied to at most two operands, as it demands.")

V = "jlm/rvsdg/"
L = "jlm/llvm/opt/"
GT = "property-based testing: random graphs and edit histories against a reference model"
GWHY = ("The tests build a few fixed graphs by hand; every transformation relies on the graph classes for any nesting, any "
        "order of edits and any combination of variables.")
MN = ("The meaning of a graph is computed by an independent interpreter under random meanings of its operations: an operation "
      "is a hash function of its name, types and operands, so any change of what is computed is seen.")
prop("G01", "The graph's bookkeeping is exact after any history of edits",
     "After any sequence of creating, removing and rewiring nodes, inputs, outputs, arguments, results and subregions (single "
     "or in bulk), users of every output, origins, indices, owners, node lists, top and tail nodes, counters and identifiers "
     "are exactly those the edits define, failed edits change nothing, and observers are told every change exactly once.",
     ["histories"], "every history of edits of graphs with nested regions", GWHY,
     [V + "node.cpp", V + "region.cpp", V + "graph.cpp", V + "structural-node.cpp"],
     [("nodes and values", V + "node.cpp"), ("regions", V + "region.cpp")], technique=GT,
     note="The mirror model is compared with the whole graph after every edit. Edits that the API documents as forbidden are only "
          "generated where it promises an error.")
prop("G02", "Traversals visit nodes in dependency order while the graph is edited",
     "A traversal visits every node of a region that exists when it starts exactly once, after all of its operands (or users, "
     "bottom-up), also when nodes are added, removed or rewired between the visits; nodes removed before their turn are not "
     "visited and those created on the way follow the documented rules, and it always ends.",
     ["histories", "schedules"], "every region and every interleaving of visits and edits", GWHY,
     [V + "traverser.cpp", V + "traverser.hpp"], [("traversal", V + "traverser.cpp")], technique=GT,
     note="The set of nodes a traversal may or must visit is tracked by a model that is updated with every edit.")
prop("G03", "Copies of graphs, regions and nodes are equal to the original",
     "The copy of a graph, of a region into another, or of a node with mapped or given operands has the same structure, "
     "operations, variables and meaning as the original, every value of the original is mapped to its counterpart, and the "
     "original is unchanged.",
     ["graphs"], "every graph and every substitution", GWHY,
     [V + "region.cpp", V + "lambda.cpp", V + "Phi.cpp", V + "delta.cpp", V + "gamma.cpp", V + "theta.cpp"],
     [("regions", V + "region.cpp"), ("functions", V + "lambda.cpp"), ("recursion", V + "Phi.cpp"), ("branches", V + "gamma.cpp")],
     technique=GT, note=MN)
prop("G04", "Variables of structural nodes stay matched up",
     "Whatever entry, exit, loop, context and fix variables are added to or removed from branches, loops, functions, globals "
     "and recursion environments, every way to look one up yields the same input, arguments, results and output, removal "
     "removes exactly the given or dead ones, routing a value into a nested region yields that value there, and what does "
     "not concern the edited variable keeps its meaning.",
     ["histories"], "every history of edits of the variables of every structural node", GWHY,
     [V + "gamma.cpp", V + "theta.cpp", V + "lambda.cpp", V + "delta.cpp", V + "Phi.cpp"],
     [("branches", V + "gamma.cpp"), ("loops", V + "theta.cpp"), ("functions", V + "lambda.cpp"), ("recursion", V + "Phi.cpp")],
     technique=GT, note=MN)
prop("G05", "Tracing a value leads to an equal value",
     "Following a value through branches, loops, functions and recursion environments, with or without cache and limits, "
     "ends at a value that is equal to it in every evaluation, in a region that is an ancestor (or inside an entered "
     "recursion environment), and within the given limits.",
     ["graphs", "evaluations"], "every value of every graph and every configuration of the tracer", GWHY,
     [V + "Trace.cpp"], [("tracing", V + "Trace.cpp")], technique=GT, note=MN)
prop("G06", "Structural transformations preserve meaning for every graph",
     "Common node elimination, dead node elimination, invariant value redirection, loop unswitching, predicate correlation, "
     "pulling nodes in, pushing nodes out, node reductions and the reductions of branches preserve the meaning of every well-formed "
     "graph, whatever its operations compute, and keep it well-formed; a reduction that reports no change makes none.",
     ["graphs", "pass sequences"], "every well-formed graph, every interpretation of its operations and every sequence of transformations",
     "The tests transform a few hand-made graphs; shapes that never come out of the frontend directly, but do come out of other "
     "transformations, are not covered by them.",
     [L + "CommonNodeElimination.cpp", L + "DeadNodeElimination.cpp", L + "InvariantValueRedirection.cpp", L + "LoopUnswitching.cpp",
      L + "PredicateCorrelation.cpp", L + "push.cpp", L + "pull.cpp", V + "gamma.cpp", L + "NodeReduction.cpp"],
     [("congruence", L + "CommonNodeElimination.cpp"), ("liveness", L + "DeadNodeElimination.cpp"),
      ("redirection", L + "InvariantValueRedirection.cpp"), ("unswitching", L + "LoopUnswitching.cpp"),
      ("predicates", L + "PredicateCorrelation.cpp"), ("motion", L + "push.cpp"), ("branches", V + "gamma.cpp")],
     technique=GT, note=MN + " Graphs on which a loop does not end within eight iterations are left out for that interpretation.")

H = "jlm/hls/"
prop("H02", "Synthesised circuits compute what the kernel computes",
     "For every kernel function, the circuit that high-level synthesis creates ends, returns the value and leaves the memory "
     "that the kernel leaves in a sequential execution, for any sequence of calls, any argument and any latency of the "
     "memory, without two drivers, lost or surplus tokens or memory operations that overtake dependent ones.",
     ["programs", "call sequences", "memory latencies"], "every synthesisable kernel, every argument and every memory timing",
     "The tests build single operations and check that passes create certain nodes; that the handshaking circuit neither "
     "deadlocks nor reorders dependent memory accesses depends on the interplay of loops, branches, buffers, queues and timing.",
     [H + "backend/rvsdg2rhls/rvsdg2rhls.cpp", H + "backend/rvsdg2rhls/ThetaConversion.cpp", H + "backend/rvsdg2rhls/GammaConversion.cpp",
      H + "backend/rvsdg2rhls/mem-queue.cpp", H + "backend/rvsdg2rhls/decouple-mem-state.cpp", H + "backend/rvsdg2rhls/mem-conv.cpp",
      H + "backend/rvsdg2rhls/add-buffers.cpp", H + "ir/hls.cpp"],
     [("loops", H + "backend/rvsdg2rhls/ThetaConversion.cpp"), ("branches", H + "backend/rvsdg2rhls/GammaConversion.cpp"),
      ("ordering", H + "backend/rvsdg2rhls/mem-queue.cpp"), ("requests", H + "backend/rvsdg2rhls/mem-conv.cpp"),
      ("buffers", H + "backend/rvsdg2rhls/add-buffers.cpp")],
     technique="property-based testing: generated kernels, cycle-accurate simulation of the circuit against an interpreter",
     note="The circuit is the graph the transformation sequence ends with; it is simulated cycle by cycle with the handshake that the "
          "FIRRTL backend gives each operation. The generation of FIRRTL itself needs CIRCT and is not covered. Local arrays are left out.")


prop("H03", "Extracting a kernel for synthesis preserves the program",
     "For every module and every function that can be synthesised, the module with the kernel that jlm-hls extracts and the "
     "module that remains, linked together again, behave like the original module: same calls, results and memory, whatever "
     "calls the kernel had inlined and whatever local data it shares with the rest.",
     ["programs", "choices of the kernel", "executions"], "every module and every choice of the kernel",
     "The tests extract no kernel that shares local functions and data with the rest of the module; what the two halves do "
     "after linking depends on all linkage and naming decisions together.",
     [H + "backend/rvsdg2rhls/rvsdg2rhls.cpp", "jlm/llvm/opt/inlining.cpp"],
     [("extraction", H + "backend/rvsdg2rhls/rvsdg2rhls.cpp")],
     technique="property-based testing: generated programs, extraction and linking, differential execution")

T = "jlm/tooling/"
TT = "property-based testing: random command lines against a model of the driver and a simulated file system"
prop("T01", "jlc compiles and links exactly what its command line asks for",
     "For every jlc command line, each source is parsed, optimised and assembled exactly once, each command runs only after "
     "all files it reads were made, no file is overwritten by another source's, all objects are linked in the given order "
     "into the requested output, and every option reaches the right tool; the resulting program behaves like its sources.",
     ["command lines"], "every command line, in any order of options and inputs, one after another in the same process",
     "The tests look at three fixed command lines with one or two sources; the order of the commands depends on the shape of "
     "the whole command graph.",
     [T + "CommandLine.cpp", T + "CommandGraphGenerator.cpp", T + "CommandGraph.cpp", T + "Command.cpp"],
     [("order of commands", T + "CommandGraph.cpp"), ("graph generation", T + "CommandGraphGenerator.cpp"),
      ("options", T + "CommandLine.cpp")], technique=TT,
     note="The printed commands are split into words as a shell does and executed on a file system of names; about 1 of 300 "
          "cases really compiles C sources in a scratch directory and runs the program.")
prop("T02", "jlm-opt, jlm-hls and jhls do what their command lines say",
     "Every option of jlm-opt and jlm-hls is recognised in any order and has exactly its documented effect on the parsed "
     "options, with optimizations in the given order; the command line jlm-opt prints for itself reads back as the same "
     "options; jhls runs its steps in dependency order on the right files with the right options.",
     ["command lines"], "every command line, in any order of options and inputs, one after another in the same process",
     "The tests parse a handful of command lines with one option each.",
     [T + "CommandLine.cpp", T + "Command.cpp", T + "CommandGraphGenerator.cpp"],
     [("options", T + "CommandLine.cpp"), ("commands", T + "Command.cpp")], technique=TT)
