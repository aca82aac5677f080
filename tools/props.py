"""What each check runs, and what it says about itself."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SIM_LIB = ["all of src/*.cpp and include/** of /repo, compiled unmodified: QProblemB, QProblem, SQProblem, SQProblemSchur, Options, Bounds/Constraints, Matrices, Flipper, MessageHandling, Utils, SolutionAnalysis, OQPinterface, built-in BLAS/LAPACK replacements"]
STUBS = ["clock (gettimeofday and friends read a simulated clock)", "memory allocator (operator new/malloc of the solver: seeded contents, accounting, red zones, injected failures)", "file system and stdio streams used by the solver (in-memory files with injected faults)", "scheduler (cooperative fibers, switch points inside the solver's calls of the seams)"]
ASSUME = ["the sandbox's floating-point arithmetic is deterministic for one binary", "execution outside the listed seams is deterministic (single process, one operating-system thread per simulated run)",
          "QPs have at most about 40 variables and constraints; data are of moderate scale"]
GEN = ("One case = one seeded program of API calls (sessions of the problem classes, generated QPs with known truth, options, guesses, storage kinds) together with its fault schedule, executed in the simulator; "
       "a run is non-trivial if at least one injected fault fired or at least one solver call ended other than by success; distinct = different sequence of call outcomes, statuses and working sets (hash over the whole history). ")

def P(stages, rule, level="exploration", real=None, stub=None, assume=None, note=""):
    return dict(stages=stages, rule=GEN + rule, level=level, real=real or SIM_LIB, stub=stub or STUBS, assume=assume or ASSUME, note=note)
def S(variant, quick, thorough, **k):
    d = dict(variant=variant, quick=quick, thorough=thorough); d.update(k); return d

PROPS = {
 "C01": P([S("main", (100000, 150), (5000000, 3000))], "Every reported success is compared with the optimality conditions of the QP handed over and with its solution known by construction; well-conditioned solvable QPs must be solved. Histories include interrupted, failed, rejected calls, option changes, resets, guesses, files."),
 "C02": P([S("main", (120000, 150), (5000000, 3000))], "Calls are cut by budgets of zero and more, repeatedly, and continued with the same or other data; report, bound and final solution are checked."),
 "C03": P([S("main", (90000, 150), (5000000, 3000))], "Every call runs against a simulated clock with steps, stalls at calls out of the solver, jumps, backward steps and a constant clock; limits of zero up to generous; limit, overrun, report and time arithmetic are checked from the clock's own log of reads."),
 "C04": P([S("main", (100000, 150), (5000000, 3000))], "Infeasible and unbounded QPs (by construction) are placed anywhere in histories with interruptions; verdict, flags, return codes and the later solutions are checked."),
 "C05": P([S("main", (100000, 150), (5000000, 3000))], "After every call (finished, cut, failed) the working set objects, counts, multipliers and, after success, active limits are checked; the subproblem of the current working set is solved for other data and its conditions checked."),
 "C06": P([S("main", (30000, 120), (1500000, 3000))], "Every group of sessions is executed alone and all groups interleaved by a seeded scheduler that may switch at every allocation, clock read, callback and output call inside the solver; results, reported times and clock reads must be bit-identical."),
 "C07": P([S("main", (40000, 120), (2000000, 3000))], "Sessions are copied (constructor and assignment, also onto sessions of other dimensions, also onto themselves) at random moments, including after interrupted, failed and rejected calls; each life of a session is replayed without any copying and must be bit-identical, each copy must answer like its original."),
 "C08": P([S("main", (50000, 120), (2500000, 3000))], "A random history is cut by a reset or a re-initialisation; everything after the cut is compared bit for bit with a new session."),
 "C09": P([S("main", (50000, 120), (2500000, 3000))], "The same calls are executed twice with different contents of fresh memory, print level, output stream (missing, failing, full), clock; all results must be bit-identical."),
 "C10": P([S("main", (60000, 150), (3000000, 3000))], "Initialisations and hotstarts read their data from simulated files: faultless ones must act like the same data in memory, missing, truncated, corrupted, failing ones must be rejected; sessions go on afterwards."),
 "C11": P([S("main", (60000, 150), (3000000, 3000))], "Vectors, matrices, index lists, QP data and workspaces of sessions in any state are written to simulated files that cannot be opened, fail or fill up at seeded bytes, transfer short pieces or fail only when flushed; each file is parsed and compared with the data and with that of the run without faults, and so are all later calls of the session."),
 "C12": P([S("main", (9000, 150), (400000, 3000))], "For each program the failing allocation is enumerated (all of them if the program makes at most the cap, otherwise sampled), once or persistently; heap accounting, destruction, other sessions and a fresh session afterwards are checked.", level="fault_enumeration"),
 "C13": P([S("main", (50000, 120), (2500000, 3000))], "Every kind of query, print, dump, analysis and subproblem solve is inserted at random places of a history; the history without them must be bit-identical."),
 "C14": P([S("main", (100000, 150), (5000000, 3000))], "Sessions with changing matrices: histories of matrix and vector hotstarts with interruptions, infeasible and degenerate QPs, rejected calls, guesses, files; every success is compared with the optimality conditions of the QP handed over."),
 "C15": P([S("ma57", (100000, 120), (3000000, 1400)), S("ma27", (100000, 120), (3000000, 1400)), S("ma57asan", (8000, 120), (200000, 600))], "Sessions of the sparse Schur variant with any update-buffer size run on a stand-in for MA27 and MA57 whose analysis, factorisation and solution calls fail (with any error, or with a spurious singularity) at seeded invocations, once or persistently; a success must be optimal for the QP handed over, strictly convex well-conditioned QPs must be solved as long as no failure was injected, nothing may crash or leak, and after a reset everything must work again.", stub=STUBS + ["MA27 and MA57 (dense Bunch-Parlett factorisation behind their Fortran interfaces, with injectable failures) and the LAPACK routines dtrtrs, dtrcon that the library leaves to an external LAPACK"]),
 "C16": P([S("main", (100000, 150), (5000000, 3000))], "Sessions use an evaluator for constraint products that checks what it is asked and fails at seeded invocations (once or persistently, with any error value); success may not be reported then, and the session is reset and used again."),
 "C17": P([S("main", (90000, 150), (5000000, 3000))], "A session runs, its solution and working set are saved at seeded moments (also while a solve is cut short), the session is lost, another one (same or other class and options) starts from any combination of saved, exact, perturbed and random information for the same, a neighbouring or another QP, over several lives; every success is compared with the known solution, solvable QPs must be solved, contradictory information must be rejected."),
 "C18": P([S("capi", (80000, 120), (4000000, 3000))], "Calls on the three global sessions of the C interface in any order, sensible or not (before setup, after cleanup, repeated setup, invalid dimensions, missing outputs, missing data, all option presets with any field tweaked, budgets, jumping clocks, different contents of fresh memory) are repeated on objects of the classes and compared bit for bit; heap accounting after cleanup.", real=SIM_LIB + ["interfaces/c/qpOASES_wrapper.cpp, compiled unmodified"]),
 "C19": P([S("mex", (100000, 120), (4000000, 2000)), S("mexasan", (12000, 150), (300000, 1500))], "Several handles of the sequence interface and calls of the one-call interface (Octave and Matlab copies in turn) in any order; a fifth of the calls is malformed, some are cut by budgets and simulated time limits, some run out of memory. Every accepted call is compared bit for bit with the same call on objects of the classes, every malformed one must be refused; arrays lent to a call are compared afterwards, then overwritten and released; guard areas behind all arrays, heap accounting after all cleanups; second stage under AddressSanitizer/UBSan. After a call that ran out of memory the session concerned is not judged until it is created anew.",
   real=SIM_LIB + ["interfaces/octave/{qpOASES_sequence,qpOASES,qpOASES_octave_utils}.cpp and interfaces/matlab/{qpOASES_sequence,qpOASES,qpOASES_matlab_utils}.cpp, compiled unmodified"], stub=STUBS + ["the scripting engine: an executable mx/mex API (arrays, structs, sparse storage, errors as exceptions that unwind nothing but the call, release of arrays that are not returned)"]),
 "C20": P([S("main", (60000, 120), (3000000, 3000)), S("asan", (5000, 100), (200000, 1500))], "Benchmark sequences are written to simulated files, intact or with one of them missing, truncated, corrupted, failing while read or closed, or with dimensions that do not fit, and run or read; figures are compared bit for bit with the same data in memory, with a session driven by the simulator, and with residuals computed from its solutions."),
 "C21": P([S("main", (60000, 100), (2000000, 1500)), S("asan", (6000, 120), (200000, 1500))], "Histories of calls including interrupted, failed and rejected ones, copies, resets and destruction; red zones, double release, leaks and modified arguments are checked by the simulated heap (main build) and AddressSanitizer/UBSan (asan build)."),
 "C24": P([S("main", (60000, 120), (3000000, 2500)), S("ma57", (25000, 100), (1000000, 1000))], "Options are handed over in every way (direct, read-modify-write, through copies, presets on used objects), any field with any value; sessions of all classes go through histories with budgets, failing files, failing evaluators, failing allocations, copies, resets, observations; after each call all 35 options are compared with a model of what was handed over."),
 "C26": P([S("blk", (80000, 120), (3000000, 2000)), S("blkasan", (12000, 150), (300000, 1500))], "Several Simulink blocks and the sessions of the Scilab functions side by side, steps, calls, starts and terminations in any order; signals are scattered in memory or contiguous, limits are ports without elements, a sixth of the starts and calls is malformed, some run out of memory. Every output is compared bit for bit with the same step on an object of the class, and between two executions with different contents of fresh memory; Scilab's arguments are overwritten and released after each call.",
   real=SIM_LIB + ["interfaces/simulink/*.cpp and interfaces/scilab/{qpOASESinterface.c,qpOASESroutines.cpp}, compiled unmodified"], stub=STUBS + ["Simulink's S-function interface (ports, signals, work vectors, parameters) and Scilab's stack interface, as executable stand-ins; calloc/free of the blocks go through the simulated allocator"]),
}

NOT_APPLICABLE = {
 "C22": "a pure function of matrix, index set and operand: no schedule, clock, I/O, allocation failure or history it could depend on, so there is nothing for a simulator to decide",
 "C23": "formulas evaluated on one solved QP: no schedule, fault or history in the property (that such calls neither crash nor disturb a session is part of C13 and C21)",
 "C25": "a pure stand-alone function of a QP and a point, without schedule, fault or history",
}
PENDING = "planned, not claimed yet: the simulated surroundings it needs are not finished"

def known_findings(prop):
    r = []
    f = os.path.join(V, "known_findings.txt")
    if not os.path.exists(f): return r
    for line in open(f):
        line = line.strip()
        if not line.startswith("finding: "): continue
        d = {}; rest = line[len("finding: "):].split(" ", 4)
        for t in rest[:4]:
            k, v = t.split("=", 1); d[k] = v
        d["what"] = rest[4] if len(rest) > 4 else ""
        if d["property"] == prop: r.append(d)
    return r
