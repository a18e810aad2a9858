"""Workload sizes per property and tier: (flavour, number of cases, cases per process)."""
VALID_RULE = ("Case k draws a model from the generator's families (planted feasible point, then structure-preserving "
              "mutations), node bounds, a vertex or a convex combination of vertices, tree information and a random "
              "parameter setting; it is non-trivial when at least one cut was returned and checked. Distinct by "
              "hash of model, node bounds and settings.")
VALID_ASSUME = ["Clp's LP answers (used by the branch-and-bound oracle on mixed models) are correct to 1e-9; every "
                "reported witness is re-verified against rows, bounds and integrality before it counts",
                "cut tolerance 1e-6 + 2e-6*scale (enumerated sets) or 1e-6 + 1e-5*scale (mixed sets)"]
GEN_RULE = ("Case k draws a generator, a model of one of its families, node bounds, an LP point and a random "
            "configuration; non-trivial when the generator returned at least one cut; distinct by hash of model, "
            "node bounds and settings. ")


def P(rule, quick, thorough, assumptions=(), technique="", note=""):
    return dict(rule=rule, quick=quick, thorough=thorough, assumptions=list(assumptions), technique=technique, note=note)


def valid(n, t):
    return P(VALID_RULE, [("plain", n, 5000)], [("plain", t, 50000)], VALID_ASSUME,
             "runtime monitor on returned cuts, feasible-point oracle (enumeration or branch and bound)",
             "Every cut returned on the generated models was tested against the whole feasible set (enumerated, or "
             "minimised over with branch and bound); sampled models, no proof. Trusts Clp for mixed models.")


PLANS = {
    "C01": valid(1200000, 16000000),
    "C02": valid(1000000, 16000000),
    "C03": valid(1000000, 16000000),
    "C04": valid(600000, 8000000),
    "C05": valid(800000, 16000000),
    "C17": valid(800000, 16000000),
    "C06": P("Case k draws a family of all-different sets (overlapping, unordered, with other columns in between) and an "
             "integer box; non-trivial when the generator tightened a bound or reported infeasibility; the oracle "
             "enumerates all assignments.",
             [("plain", 400000, 5000), ("asan", 10000, 500)], [("plain", 6000000, 20000), ("asan", 200000, 2000)],
             ["sets of at most 7 columns, values spanning less than 30"],
             "runtime monitor on column cuts, exhaustive assignment oracle, ASan/UBSan",
             "All assignments of each sampled instance are enumerated, so an excluded one or a false verdict is seen; instances are sampled."),
    "C07": P("Case k draws a model with planted duplicate and dominated rows and a mode (1-3, 8); non-trivial when rows, "
             "bounds or cuts changed; the oracle compares the optimum (and in row mode the feasible set) before and "
             "after, by enumeration. Case 0 is the fixed probe of the recorded mode-4 finding.",
             [("plain", 400000, 5000), ("asan", 10000, 500)], [("plain", 10000000, 20000), ("asan", 200000, 2000)],
             ["modes 1-3 and 8 only (mode 4 is undocumented and unfinished, finding F01)"],
             "runtime monitor comparing solver before and after, enumeration oracle, ASan/UBSan",
             "The feasible set and optimum of every sampled model are enumerated before and after; models are sampled."),
    "C08": P("Case k draws a model and a history of record/convert/pack/copy/query operations on the implication store "
             "mirrored by a reference set; non-trivial when implications were stored; derived cuts, fixings and "
             "verdicts are tested on all 0-1 points.",
             [("plain", 200000, 2000), ("asan", 10000, 500)], [("plain", 4000000, 20000), ("asan", 200000, 2000)],
             ["class preconditions respected: fixes() while collecting, derivations after packing, no self-implications"],
             "runtime monitor mirroring the store with a reference set, 0-1 point oracle, ASan/UBSan",
             "Every operation of sampled histories is compared with a reference set and all 0-1 points; histories are sampled."),
    "C09": P("Case k draws a history of adding, thresholding, copying, saving and generating, or a cut file and one of "
             "its prefixes; non-trivial when a stored cut was violated or a file was read.",
             [("plain", 200000, 2000), ("asan", 10000, 500)], [("plain", 4000000, 20000), ("asan", 200000, 2000)],
             [], "runtime monitor with a reference list, truncated-file fault injection, ASan/UBSan",
             "Returned cuts are compared with a reference list at every step; histories and files are sampled."),
    "C10": P(GEN_RULE + "Every returned cut is examined.",
             [("plain", 1000000, 10000)], [("plain", 10000000, 50000)], [],
             "runtime monitor on every returned cut",
             "Shape and violation of every cut returned on sampled inputs."),
    "C11": P(GEN_RULE + "Limits are drawn across their range; every returned cut is tested against them, and results "
             "under a row restriction are compared with those on the model reduced to the allowed rows.",
             [("plain", 1000000, 10000)], [("plain", 10000000, 50000)], [],
             "runtime monitor of limits on every returned cut, differential run on the restricted model",
             "Every cut returned on sampled inputs is tested against the limits in force."),
    "C12": P(GEN_RULE + "Solver state and earlier cuts are snapshotted before and compared after each call.",
             [("plain", 800000, 10000)], [("plain", 10000000, 50000)],
             ["LP answers (solution, duals, reduced costs, objective value) compared to 1e-8, the rest bit by bit"],
             "runtime monitor comparing state snapshots around each call",
             "Snapshots of the whole public solver state on sampled inputs."),
    "C13": P(GEN_RULE + "A random order of clone/copy/assign/use/modify/destroy is executed and sources and copies are "
             "compared by settings and cuts, with freed and fresh heap memory filled with noise.",
             [("plain", 600000, 6000), ("asan", 12000, 500)], [("plain", 6000000, 50000), ("asan", 200000, 2000)], [],
             "runtime differential monitor of copies, heap noise, ASan/UBSan",
             "Cuts and settings of copies are compared on sampled histories."),
    "C14": P(GEN_RULE + "A reused object is compared call by call with fresh ones, on the same and on other models, "
             "under different heap fill patterns.",
             [("plain", 400000, 4000)], [("plain", 4000000, 40000)], [],
             "runtime differential monitor of reused against fresh objects, heap fill injection",
             "Cuts of reused and fresh objects are compared on sampled histories."),
    "C19": P(GEN_RULE + "File descriptors 1 and 2 are captured during the call.",
             [("plain", 800000, 10000)], [("plain", 8000000, 50000)], [],
             "runtime monitor of file descriptors 1 and 2 during each call",
             "Output bytes are counted at the descriptor level on sampled inputs."),
    "C15": P("Case k builds a hostile or ordinary model (empty, all fixed, all continuous, unbounded integers, huge numbers, "
             "free rows, repeated rows, long rows, blocks) and runs a history of construct/refresh/generate/clone/assign/export/"
             "destroy on one generator, or a history of one of the other monitors, under ASan+UBSan with a leak check "
             "after every case, and under memcheck; non-trivial when cuts were returned.",
             [("asan", 24000, 500), ("valgrind", 1600, 50)], [("asan", 600000, 5000), ("valgrind", 60000, 500)], [],
             "AddressSanitizer, UBSan, LeakSanitizer, valgrind memcheck over hostile workloads",
             "No report on the executions produced; says nothing about paths the workload does not drive."),
    "C16": P("Case k prepares 2 to 4 pieces of work (same class or different ones, same or different models; construct, clone, "
             "assign, refresh, generate, export), does each alone, then all at once in threads that start together with no "
             "ordering between them; non-trivial when cuts were returned. Races are watched by ThreadSanitizer, results are "
             "compared with those obtained alone.",
             [("tsan", 10000, 250), ("plain", 30000, 1000)], [("tsan", 300000, 2000), ("plain", 2000000, 10000)],
             ["CoinUtils, Osi and Clp are not instrumented; every thread has its own solver and random number generator"],
             "ThreadSanitizer and differential monitor on concurrent generators",
             "No race report and no different result on the schedules that occurred; happens-before detection covers more "
             "schedules than the ones seen."),
}
PLANS["C18"] = P(
    "Case k draws a class with settings and a history of set (admissible or not), copy, assign, construct, use and export; "
    "after every operation all getters of all objects are compared with a reference table, and the exported code is "
    "interpreted on a new object; non-trivial when a value was set. Distinct by hash of the history.",
    [("plain", 400000, 5000), ("asan", 10000, 500)], [("plain", 8000000, 50000), ("asan", 200000, 2000)],
    ["the documented or coded admissible range of each setting is written down in harness/d_settings.cpp",
     "exported numbers are compared to 6 significant digits, the precision of the export"],
    "runtime monitor comparing getters with a reference table and interpreting exported code",
    "Every getter is read after every operation of sampled histories.")
def valid_asan(n, t, a):
    p = valid(n, t)
    p["quick"].append(("asan", a, 250))
    p["thorough"].append(("asan", a * 20, 2000))
    p["technique"] += ", ASan/UBSan"
    return p


PLANS["C20"] = valid_asan(1000000, 12000000, 8000)
PLANS["C21"] = valid_asan(1500000, 16000000, 8000)
PLANS["C22"] = valid_asan(450000, 8000000, 8000)
PLANS["C22"]["assumptions"] += [
    "a column that lies in one row only may be moved to the end its objective prefers (coefficient strengthening on): then "
    "the optimum is compared instead of the feasible set",
    "cliques recorded by createCliques are not combined with setMaxElements (finding F02)"]

PLANS["C23"] = P(
    "Case k draws a model on which zero-half looks at the clock several times (the hook CGL_VERIF_HOOKS makes it look more often), "
    "counts the looks of a call whose limit never strikes, then lets the limit strike at a random look of a new call, checks the cuts "
    "against the feasible set and repeats the call on the same object, a copy or an assigned one; non-trivial when a limit struck. "
    "The clock is simulated (gettimeofday is wrapped at link time).",
    [("plain", 120000, 2000), ("asan", 8000, 250)], [("plain", 3000000, 20000), ("asan", 200000, 2000)],
    ["pure 0-1 and small integer models", "the limit strikes where the library looks at the clock"],
    "fault injection with a simulated clock, feasible-point oracle, differential run, ASan/UBSan/LSan",
    "Every strike point tried was one of those of a sampled model; strike points are sampled, not enumerated, for models with many.")

PLANS["C24"] = P(
    GEN_RULE + "Over the eight generators built through the shim: solver and earlier cuts snapshotted around a call (as C12), "
    "random orders of clone/copy/assign/use/modify/destroy (as C13), reused against fresh objects on the same and other models "
    "under heap noise (as C14).",
    [("plain", 500000, 5000), ("asan", 8000, 250)], [("plain", 6000000, 50000), ("asan", 160000, 2000)],
    ["configurations documented to carry state between calls are only compared with their copies"],
    "runtime differential monitor (fresh/reused/copied objects, state snapshots), heap noise, ASan/UBSan",
    "Sampled models, settings and histories.")
PLANS["C25"] = P(
    PLANS["C15"]["rule"] + " Here for the eight generators built through the shim, and the histories of C20, C21, C22 and C24.",
    [("asan", 20000, 500), ("valgrind", 1200, 50)], [("asan", 500000, 5000), ("valgrind", 50000, 500)], [],
    "AddressSanitizer, UBSan, LeakSanitizer, valgrind memcheck over hostile workloads",
    "No report on the executions produced; says nothing about paths the workload does not drive.")
PLANS["C26"] = P(
    PLANS["C16"]["rule"] + " Here with the eight generators built through the shim.",
    [("tsan", 8000, 250), ("plain", 30000, 1000)], [("tsan", 300000, 2000), ("plain", 2000000, 10000)], PLANS["C16"]["assumptions"],
    PLANS["C16"]["technique"], PLANS["C16"]["note"])
PLANS["C27"] = P(
    GEN_RULE + "File descriptors 1 and 2 point to a memory file during generateCuts; half of the objects have random settings.",
    [("plain", 800000, 10000)], [("plain", 8000000, 50000)], [],
    "runtime monitor of the output streams", "Bytes written during sampled calls.")
PLANS["C28"] = P(
    PLANS["C18"]["rule"] + " Here for the eight generators built through the shim.",
    [("plain", 800000, 10000), ("asan", 10000, 500)], [("plain", 8000000, 50000), ("asan", 200000, 2000)],
    ["the documented or coded admissible range of each setting is written down in harness/shim/g_*.cpp",
     "exported numbers are compared to 6 significant digits, the precision of the export"],
    PLANS["C18"]["technique"], PLANS["C18"]["note"])
