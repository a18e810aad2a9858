#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the jsonl is committed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Clique and odd-hole cuts never remove an integer-feasible solution",
 "For every model, node bounds, LP solution and parameter setting, every row cut returned by the clique generator (star and row cliques, scanned or user-selected rows, declared set-packing or not) and by the odd-hole generator is satisfied by every point that satisfies the model's rows, its current column bounds and integrality.",
 ["inputs", "configurations"], "all mixed 0-1 models, all fractional points, all row selections and thresholds",
 "The unit tests look at one or two hand-made models each and compare a count or a single cut; validity quantifies over all models and all feasible integer points.",
 ["src/CglClique/CglClique.cpp", "src/CglClique/CglCliqueHelper.cpp", "src/CglOddHole/CglOddHole.cpp"],
 [("row selection and fractional graph construction", "CglClique.cpp, CglCliqueHelper.cpp"), ("clique enumeration and cut recording", "CglClique.cpp"), ("odd-cycle search and Chvatal lifting", "CglOddHole.cpp")],
 ["OsiCuts after generateCuts()"])
prop("C02", "Knapsack cover cuts never remove an integer-feasible solution",
 "For every model, node bounds, LP solution and parameter setting, every row or column cut returned by the knapsack cover generator is satisfied by every point that satisfies the model's rows, its current column bounds and integrality, whatever mix of signs, senses, complemented, fixed, general-integer and continuous variables the source row has.",
 ["inputs", "configurations"], "all models whose rows yield knapsacks, all fractional points, all cover-search and lifting paths",
 "The shipped knapsack test is disabled (if (0)); nothing checks lifted coefficients against the feasible set.",
 ["src/CglKnapsackCover/CglKnapsackCover.cpp"],
 [("derivation and complementation of a canonical knapsack", "deriveAKnapsack"), ("cover searches (greedy, exact, pseudo-John-Ellis) and lifting (sequential, up/down, superadditive, GUB)", "CglKnapsackCover.cpp")],
 ["OsiCuts after generateCuts()"])
prop("C03", "MIR and simple rounding cuts never remove a mixed-integer-feasible solution",
 "For every mixed-integer model, node bounds, LP solution and parameter setting, every cut returned by the mixed-integer-rounding generator (aggregation up to the configured depth, variable bound substitution, complementation, scaling) and by the simple-rounding generator is satisfied by every point that satisfies the model's rows, its current column bounds and integrality.",
 ["inputs", "configurations"], "all mixed-integer models including variable lower/upper bound rows, ranged, equality and free rows, all aggregation depths, criteria and multiply settings",
 "The MIR unit test runs one sample MPS and only checks the bound improves; validity of each cut over all feasible points is never examined.",
 ["src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp", "src/CglSimpleRounding/CglSimpleRounding.cpp"],
 [("row classification, aggregation, bound substitution, c-MIR separation", "CglMixedIntegerRounding.cpp"), ("netting out continuous variables, gcd division, rounding", "CglSimpleRounding.cpp")],
 ["OsiCuts after generateCuts()"])
prop("C04", "Reduce-and-split and lift-and-project cuts keep all feasible solutions",
 "For every mixed-integer model with an available optimal basis, every cut returned by the reduce-and-split generator, and for every mixed 0-1 model every cut returned by the lift-and-project generator, is satisfied (within the documented numerical tolerance) by every point that satisfies the model's rows, its current column bounds and integrality, for all parameter settings.",
 ["inputs", "configurations"], "all models, optimal bases (nonbasic at lower, upper, free), parameter settings",
 "The unit test runs reduce-and-split on one MPS; lift-and-project has no test at all.",
 ["src/CglRedSplit/CglRedSplit.cpp", "src/CglLiftAndProject/CglLiftAndProject.cpp"],
 [("tableau extraction, reduction of continuous coefficients, GMI formula, slack elimination, rhs relaxation", "CglRedSplit.cpp"), ("disjunctive cut-generating LP", "CglLiftAndProject.cpp")],
 ["OsiCuts after generateCuts()"])
prop("C05", "Zero-half cuts never remove an integer-feasible solution",
 "For every model handed to the zero-half generator, every later node with tighter or looser column bounds, every LP solution and every setting of its flags, sparse-graph threshold and row-size limits, each returned cut is satisfied by every integer point feasible for the model with the bounds the cut claims to be valid for.",
 ["inputs", "configurations", "histories"], "all models with integer rows (plus rows it must skip), all node-bound histories, both graph representations, tabu and cycle separation",
 "The unit test separates a handful of fixed fractional points; the generator caches the model and re-reads bounds per call, so validity depends on the history of calls.",
 ["src/CglZeroHalf/CglZeroHalf.cpp", "src/CglZeroHalf/Cgl012cut.cpp"],
 [("selection of integer rows", "CglZeroHalf::refreshSolver"), ("weakening by bounds, odd cycles, tabu search, rounding", "Cgl012cut.cpp")],
 ["OsiCuts after generateCuts()"])
prop("C06", "All-different tightening keeps every all-different assignment",
 "For every family of (possibly overlapping, arbitrarily ordered) all-different sets and every finite integer box, the column cuts returned never exclude an assignment that lies in the box and takes pairwise different values inside each set, and infeasibility is reported only when no such assignment exists.",
 ["inputs", "configurations"], "all set families, all bounds",
 "There is no test of this generator.",
 ["src/CglAllDifferent/CglAllDifferent.cpp"],
 [("translation of columns to set members, value elimination, matching enumeration per set", "CglAllDifferent::generateCuts and constructor")],
 ["OsiCuts after generateCuts()"])
prop("C07", "Duplicate-row reductions preserve the model's optimum",
 "For every model and for modes 1 to 3 (rows and columns) and 8 (cliques), the fixings and cuts produced by the duplicate-row generator, the rows it reports as duplicate or redundant, and the rows, bounds and stored cuts left after it removes duplicates from a solver, leave the optimal value over the integer-feasible points unchanged (and for the pure row mode leave the feasible set unchanged); infeasibility is reported only for infeasible models.",
 ["inputs", "configurations"], "all models with small integer rows, modes 1-3 and 8, all limits",
 "There is no test of this generator.",
 ["src/CglDuplicateRow/CglDuplicateRow.cpp"],
 [("effective right-hand sides, fixing, duplicate and dominated row marking", "generateCuts12"), ("dominated columns, cliques", "generateCuts4, generateCuts8"), ("deletion of rows", "outDuplicates")],
 ["OsiCuts, duplicate(), the solver after outDuplicates()"])
prop("C08", "The probing-implication store is faithful and its consequences are sound",
 "For every sequence of recorded implications, queries, copies and packings that respects the class's order of use (recording while collecting, deriving after packing, no variable implying itself), the store holds exactly the recorded implications whose antecedent is a 0-1 variable; and every cut, fixing, clique model or infeasibility verdict it derives is satisfied by every 0-1 point that satisfies the recorded implications, the model's rows and the current bounds.",
 ["histories", "inputs"], "all implication histories, all node bounds, before and after conversion, packing and copying",
 "No test touches this class; correctness depends on the order of record/convert/pack/copy operations.",
 ["src/CglCommon/CglTreeInfo.cpp", "src/CglCommon/CglTreeInfo.hpp", "src/CglCommon/CglStored.cpp"],
 [("fixes(), convert(), packDown()", "CglTreeInfo.cpp"), ("generateCuts(), fixColumns(), analyze()", "CglTreeInfo.cpp"), ("implication cuts", "CglStored::generateCuts")],
 ["fixEntries()/toZero()/toOne(), OsiCuts, solver bounds, analyzed solver"])
prop("C09", "Stored cuts come back exactly when violated, and survive copy and file",
 "For every history of adding cuts, the stored-cut generator returns exactly those stored cuts that the current solution violates by at least the required amount, with coefficients and bounds unchanged, added cuts marked to be kept when diving (effectiveness COIN_DBL_MAX), and earlier contents of the collection kept; saved best solution, objective and bounds are returned as saved, and reading a cut file yields exactly the cuts in it and terminates on any prefix of one.",
 ["histories", "inputs", "fault_sequences"], "all add/generate/copy histories, thresholds and cut files including truncated ones",
 "No test touches this class.",
 ["src/CglCommon/CglStored.cpp", "src/CglCommon/CglStored.hpp"],
 [("addCut overloads, generateCuts, saveStuff, file constructor", "CglStored.cpp")],
 ["OsiCuts after generateCuts(), accessors"])
prop("C10", "Returned cuts are well-formed and cut off the current LP solution",
 "Every row cut a separating generator returns is well-formed (column indices in range and distinct, finite coefficients and sides, lower side not above the upper except for the documented infeasibility marker) and is violated by the LP solution it was generated for by at least the generator's documented minimum; column cuts only tighten bounds of existing columns.",
 ["inputs", "configurations"], "all models, solutions and parameter settings of the clique, odd-hole, knapsack, MIR, simple-rounding, reduce-and-split, lift-and-project, zero-half, all-different, stored generators",
 "Tests compare a few expected cuts; they never check every returned cut on arbitrary models.",
 ["src/CglClique", "src/CglOddHole", "src/CglKnapsackCover", "src/CglMixedIntegerRounding", "src/CglRedSplit", "src/CglLiftAndProject", "src/CglZeroHalf", "src/CglSimpleRounding"],
 [("violation tests before inserting a cut", "each generator")],
 ["OsiCuts after generateCuts()"])
prop("C11", "User-set limits bind every returned cut",
 "Whatever values the user sets, returned cuts respect them: minimum violation (clique, odd hole, reduce-and-split, stored), maximum number of entries (odd hole, reduce-and-split support), coefficient-size and dynamic-range limits (reduce-and-split), and row restrictions (knapsack tested rows and size limit, odd-hole row list, in the tree the original rows of the formulation for a clique generator told to use just those): a cut that breaks a limit, or that is derived from a row the user excluded (other than the set-packing rows the knapsack generator uses for lifting), is never returned.",
 ["configurations", "inputs"], "all parameter values and models",
 "Tests use the default or one parameter value.",
 ["src/CglClique/CglClique.cpp", "src/CglOddHole/CglOddHole.cpp", "src/CglRedSplit/CglRedSplit.cpp", "src/CglKnapsackCover/CglKnapsackCover.cpp", "src/CglCommon/CglStored.cpp"],
 [("limit tests on the cut-acceptance paths", "each generator")],
 ["OsiCuts after generateCuts()"])
prop("C12", "Cut generation leaves the solver and earlier cuts untouched",
 "A call to generateCuts changes nothing the caller can observe in the solver it is given (matrix, bounds, objective, integrality, row sides, primal and dual solution, objective value, basis) and neither removes nor alters cuts already in the collection: it only appends.",
 ["inputs", "configurations", "histories"], "all generators, models, node states and pre-filled collections",
 "Tests never compare the solver before and after.",
 ["src/CglRedSplit/CglRedSplit.cpp", "src/CglLiftAndProject/CglLiftAndProject.cpp", "src/CglKnapsackCover/CglKnapsackCover.cpp", "src/CglCommon/CglCutGenerator.hpp"],
 [("const solver argument, factorization enable/disable pairing, work on private copies", "each generator")],
 ["solver state snapshot, OsiCuts prefix"])
prop("C13", "Copies of generators are complete and independent",
 "A generator obtained by clone, copy construction or, where the class offers it, assignment (including assignment over a used object and self-assignment), after the refresh the base class documents, produces the same cuts and reports the same settings as its source, and using, changing or destroying either one never affects the other.",
 ["histories", "configurations"], "all generators, parameter settings, orders of copy/use/modify/destroy",
 "Tests copy a default object and destroy it without comparing behaviour.",
 ["src/CglCommon/CglCutGenerator.cpp", "src/CglCommon/CglParam.cpp", "src/CglCommon/CglStored.cpp", "src/CglCommon/CglTreeInfo.cpp", "src/CglZeroHalf/CglZeroHalf.cpp", "src/CglKnapsackCover/CglKnapsackCover.cpp", "src/CglOddHole/CglOddHole.cpp", "src/CglDuplicateRow/CglDuplicateRow.cpp", "src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp", "src/CglRedSplit/CglRedSplitParam.cpp"],
 [("gutsOfCopy/gutsOfConstruct, copy constructors, assignment operators", "each generator")],
 ["OsiCuts and getters of source and copy"])
prop("C14", "A generator can be reused: results do not depend on its call history",
 "Calling generateCuts several times in a row on one object, on the same or on different models (with the refresh the base class documents where the generator caches a model), returns each time the cuts a fresh identically configured object returns; results depend only on model, solution, settings and tree information, never on earlier calls, uninitialised memory or address layout.",
 ["histories", "inputs"], "all generators, all sequences of models and calls",
 "Tests build a fresh object per call or never compare repeated calls.",
 ["README.md", "src/CglZeroHalf/CglZeroHalf.cpp", "src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp", "src/CglKnapsackCover/CglKnapsackCover.cpp", "src/CglRedSplit/CglRedSplit.cpp", "src/CglClique/CglClique.cpp", "src/CglOddHole/CglOddHole.cpp"],
 [("per-call reset of work areas", "each generator"), ("refreshSolver", "generators that cache a model")],
 ["OsiCuts of reused and fresh object"])
prop("C15", "No memory error, undefined behaviour or leak on any admissible model",
 "On every admissible model, including empty, all-fixed, all-continuous, infeasible-bound-free, ranged, free-row, unbounded-variable and degenerate ones, construction, copying, refreshing, cut generation and destruction of every generator perform no out-of-bounds or use-after-free access, no read of uninitialised memory that influences control flow, no undefined arithmetic, and release all memory they allocate.",
 ["inputs", "histories", "configurations"], "all generators, admissible models, call histories",
 "The tests run uninstrumented on a few benign models; memory errors there usually go unnoticed.",
 ["src/CglCommon", "src/CglAllDifferent", "src/CglClique", "src/CglDuplicateRow", "src/CglKnapsackCover", "src/CglLiftAndProject", "src/CglMixedIntegerRounding", "src/CglOddHole", "src/CglRedSplit", "src/CglSimpleRounding", "src/CglZeroHalf"],
 [("manual array management", "every generator")],
 ["AddressSanitizer, LeakSanitizer, UBSan, valgrind memcheck reports"])
prop("C16", "Separate generator objects can run concurrently",
 "Generator objects used by different threads, each with its own solver and cut collection, never race with each other and return the cuts they return when run alone.",
 ["schedules", "inputs"], "all interleavings of calls on distinct objects of the same or different generator classes",
 "Tests are single-threaded.",
 ["src/CglZeroHalf/Cgl012cut.cpp", "src/CglKnapsackCover/CglKnapsackCover.cpp", "src/CglCommon/CglMessage.cpp", "src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp"],
 [("no mutable state outside the objects", "all generators")],
 ["ThreadSanitizer reports, OsiCuts per thread"])
prop("C17", "Cuts flagged globally valid are valid at the root",
 "At every tree node, whatever bounds branching has tightened, a cut that a generator marks as globally valid is satisfied by every integer point feasible for the original (root) bounds, not only for the node; cuts not so marked are valid for the node.",
 ["inputs", "histories", "configurations"], "all nodes, tree-information options and generators that set the flag",
 "Tests only run at the root and never read the flag.",
 ["src/CglKnapsackCover/CglKnapsackCover.cpp", "src/CglZeroHalf/CglZeroHalf.cpp", "src/CglClique/CglClique.cpp", "src/CglCommon/CglTreeInfo.hpp", "src/CglRedSplit/CglRedSplit.cpp"],
 [("setGloballyValid guarded by tree information and bounds", "each generator")],
 ["OsiRowCut::globallyValid() on cuts generated at nodes"])
prop("C18", "Settings are stored exactly, bad values are rejected, code export agrees",
 "Every admissible setting of a generator or parameter class is returned by its getter, survives copying and use, and is the one the constructor was given; an inadmissible value (outside the range the setter tests) leaves all settings unchanged; and the C++ export of a generator consists of calls on the exported object that exist, emits as changed exactly those of its settings that differ from the defaults, and reproduces them (to the six digits it prints) when applied to a default object.",
 ["configurations", "histories"], "all setters, all values, all orders",
 "Tests set one or two values.",
 ["src/CglCommon/CglParam.cpp", "src/CglRedSplit/CglRedSplitParam.cpp", "src/CglCommon/CglCutGenerator.hpp", "src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp", "src/CglZeroHalf/CglZeroHalf.cpp", "src/CglDuplicateRow/CglDuplicateRow.cpp", "src/CglGMI/CglGMIParam.cpp", "src/CglRedSplit2/CglRedSplit2Param.cpp"],
 [("setters with range tests, generateCpp", "each generator and parameter class")],
 ["getters, generateCpp output"])
prop("C19", "Successful cut generation is silent by default",
 "With default settings (and the reporting options of the clique generator off), a successful call to generateCuts of any generator writes nothing to standard output or standard error.",
 ["inputs"], "all generators and admissible models",
 "Tests do not look at output; a stray debug print shows only on models that reach it.",
 ["README.md", "src/CglAllDifferent/CglAllDifferent.cpp", "src/CglDuplicateRow/CglDuplicateRow.cpp", "src/CglClique/CglClique.cpp", "src/CglLiftAndProject/CglLiftAndProject.cpp", "src/CglRedSplit/CglRedSplit.cpp"],
 [("log-level guards around printing", "each generator")],
 ["file descriptors 1 and 2 during generateCuts()"])
prop("C20", "Gomory-type cuts keep every mixed-integer-feasible solution",
 "For every mixed-integer model with an optimal basis, every cut returned by the Gomory, GMI, reduce-and-split-2 and two-step-MIR generators is satisfied (within the documented numerical tolerance) by every point that satisfies the model's rows, its current column bounds and integrality.",
 ["inputs", "configurations"], "all models, bases, parameter settings",
 "These generators are not even built by the test build here.",
 ["src/CglGomory/CglGomory.cpp", "src/CglGMI/CglGMI.cpp", "src/CglRedSplit2/CglRedSplit2.cpp", "src/CglTwomir/CglTwomir.cpp"],
 [("tableau row extraction, rounding functions, slack elimination, cut scaling and checking", "the four generators")],
 ["OsiCuts after generateCuts()"])
prop("C21", "Flow-cover, residual-capacity and MIR-2 cuts keep every feasible solution",
 "For every mixed-integer model, node bounds, LP solution and parameter setting, every cut returned by the flow-cover, residual-capacity and second mixed-integer-rounding generators is satisfied by every point that satisfies the model's rows, its current column bounds and integrality.",
 ["inputs", "configurations"], "all models, solutions, parameter settings",
 "These generators are not even built by the test build here.",
 ["src/CglFlowCover/CglFlowCover.cpp", "src/CglResidualCapacity/CglResidualCapacity.cpp", "src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp"],
 [("variable bound detection, flow-cover lifting, residual capacity separation, c-MIR", "the three generators")],
 ["OsiCuts after generateCuts()"])
prop("C22", "Probing keeps every wanted solution",
 "For every mixed-integer model and probing mode, the column cuts, row cuts, strengthened rows and infeasibility verdicts returned by probing are consistent with every point that satisfies the model's rows, its current column bounds and integrality (or, where an objective cutoff is in use, every such point better than the cutoff). Exception: with coefficient strengthening on, a column that lies in one row only may be moved to the end its objective prefers; an optimal solution is then still kept. Replacing rows by their strengthened versions admits no new solution.",
 ["inputs", "configurations"], "all models, probing modes, limits, row-cut options and cutoffs",
 "Probing is not even built by the test build here.",
 ["src/CglProbing/CglProbing.cpp"],
 [("tighten, probe, implication cuts, coefficient strengthening", "CglProbing.cpp")],
 ["OsiCuts after generateCuts(), CglTreeInfo::strengthenRow"])
prop("C23", "A call that runs out of time ends in good order",
 "A time limit (setMaxSeconds) may strike at any point of a zero-half separation: the call then ends instead of going on, every cut it returns is valid for the model, nothing is leaked or corrupted, and the object, a copy of it and an object assigned from it afterwards answer exactly as one that never met a limit. Without a limit, or with one that does not strike, the clock has no influence on the cuts.",
 ["fault points", "inputs", "histories"], "all points of a call at which the limit can strike, all models",
 "No test sets a time limit, and where it strikes depends on the machine.",
 ["src/CglZeroHalf/Cgl012cut.cpp", "src/CglZeroHalf/CglZeroHalf.cpp"],
 [("checkTimeLimit() and the early exits it triggers in every phase of the separation", "Cgl012Cut")],
 ["OsiCuts after generateCuts(), heap, number of looks at the clock"])
prop("C24", "Tableau, flow, rounding and probing generators depend on their input only",
 "For Gomory, GMI, RedSplit2, Twomir, FlowCover, ResidualCapacity, MixedIntegerRounding2 and Probing, on every model and in every history of calls: generateCuts leaves the solver and all cuts already in the collection as they were; clones, copies and assigned objects have the same settings, return the same cuts and share no state with their source; and the cuts of a call do not depend on earlier calls on other models or points (after refreshSolver), on the contents of freed memory, or on unrelated cuts in the collection. Exceptions by documented design: a limit that counts cuts over all calls (FlowCover), preprocessing kept on request (ResidualCapacity), Twomir's random choice of formulation rows and its private copy of an original model: there a copy still continues exactly as its source would.",
 ["histories", "inputs", "configurations"], "all call histories, models and settings of eight generators",
 "These generators are not built by the test build here, and a test uses an object once.",
 ["src/CglGomory/CglGomory.cpp", "src/CglGMI/CglGMI.cpp", "src/CglRedSplit2/CglRedSplit2.cpp", "src/CglTwomir/CglTwomir.cpp", "src/CglFlowCover/CglFlowCover.cpp", "src/CglResidualCapacity/CglResidualCapacity.cpp", "src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp", "src/CglProbing/CglProbing.cpp"],
 [("copy constructors, clone, operator=, refreshSolver, per-object work arrays", "the eight classes")],
 ["OsiSolverInterface and OsiCuts before and after a call, cuts of fresh, reused and copied objects"])
prop("C25", "The tableau, flow, rounding and probing generators are memory safe",
 "Whatever model they are given (empty, without rows or columns, all fixed, unbounded, huge numbers, free and repeated rows) and in whatever order objects of the eight generators of C24 are constructed, refreshed, used, cloned, assigned, exported and destroyed, nothing reads or writes outside its objects or after their end, nothing is leaked, no arithmetic is undefined, and no assertion or abort is reached.",
 ["inputs", "histories"], "all models and object histories of eight generators",
 "These generators are not built by the test build here; tests run without instrumentation on friendly models.",
 ["src/CglGomory/CglGomory.cpp", "src/CglGMI/CglGMI.cpp", "src/CglRedSplit2/CglRedSplit2.cpp", "src/CglTwomir/CglTwomir.cpp", "src/CglFlowCover/CglFlowCover.cpp", "src/CglResidualCapacity/CglResidualCapacity.cpp", "src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp", "src/CglProbing/CglProbing.cpp"],
 [("work arrays, early exits, copies", "the eight classes")],
 ["heap, undefined behaviour, leaks"])
prop("C26", "Tableau, flow, rounding and probing generators can be used in several threads",
 "Objects of the eight generators of C24, used in different threads at the same time, each with its own solver, cut collection and random numbers, do not race on memory and return what they return alone, whatever the interleaving.",
 ["schedules", "inputs"], "all interleavings of separate objects",
 "Tests are single-threaded and do not build these generators.",
 ["src/CglGomory/CglGomory.cpp", "src/CglGMI/CglGMI.cpp", "src/CglRedSplit2/CglRedSplit2.cpp", "src/CglTwomir/CglTwomir.cpp", "src/CglFlowCover/CglFlowCover.cpp", "src/CglResidualCapacity/CglResidualCapacity.cpp", "src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp", "src/CglProbing/CglProbing.cpp"],
 [("no static or shared mutable state behind generateCuts, clone, operator=, generateCpp", "the eight classes")],
 ["memory accesses of threads, cuts returned"])
prop("C27", "Tableau, flow, rounding and probing generators are silent",
 "generateCuts of the eight generators of C24 writes nothing to the standard output or error stream, whatever the model, tree position, options and settings, unless a log level was asked for.",
 ["inputs", "configurations"], "all models, tree positions and settings of eight generators",
 "Tests do not look at the output and do not build these generators.",
 ["src/CglGomory/CglGomory.cpp", "src/CglGMI/CglGMI.cpp", "src/CglRedSplit2/CglRedSplit2.cpp", "src/CglTwomir/CglTwomir.cpp", "src/CglFlowCover/CglFlowCover.cpp", "src/CglResidualCapacity/CglResidualCapacity.cpp", "src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp", "src/CglProbing/CglProbing.cpp"],
 [("diagnostics guarded by debug macros and log levels", "the eight classes")],
 ["bytes written to file descriptors 1 and 2"])
prop("C28", "Settings and exports of the shimmed generators are exact",
 "For the eight generators of C24 (Gomory, GMI, reduce-and-split 2, two-step MIR, flow cover, residual capacity, MIR 2, probing): every admissible setting is returned by its getter unchanged, whatever else is set, and survives copying, assignment and use; an inadmissible value (outside the range the setter tests) leaves all settings unchanged; and the C++ export consists of calls that exist on the exported object, emits as changed exactly those exported settings that differ from the defaults, and reproduces them (to the six digits it prints) when applied to a default object.",
 ["configurations", "histories"], "all setters, values and orders of eight generators",
 "Tests do not build these generators.",
 ["src/CglGomory/CglGomory.cpp", "src/CglGMI/CglGMI.cpp", "src/CglRedSplit2/CglRedSplit2.hpp", "src/CglTwomir/CglTwomir.cpp", "src/CglFlowCover/CglFlowCover.hpp", "src/CglResidualCapacity/CglResidualCapacity.cpp", "src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp", "src/CglProbing/CglProbing.cpp"],
 [("setters with range tests, copy constructors, generateCpp", "the eight classes")],
 ["getters, generateCpp output"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
