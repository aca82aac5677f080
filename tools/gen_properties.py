#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A reported success is an optimal solution of the QP last handed over",
  "Whenever an initialisation or a hotstart of a QP session reports success, the primal and dual solution and the objective value it then hands out satisfy the optimality conditions of exactly the QP data passed in that call, within solver tolerance, no matter what the session went through before. A well-conditioned feasible and bounded QP is in turn solved successfully from any such session state.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every sequence of initialisations, hotstarts, cut-short solves, failed solves (infeasible, unbounded, rejected data), option changes, resets and re-initialisations, over bound-only and constrained sessions, dense and sparse matrices, every Hessian kind, absent or infinite bounds and both factory and perturbed option sets",
  "The tests run single initialisations and straight hotstart sequences on fixed or randomly drawn data that always run to completion; they never follow a cut-short, failed or rejected call with further calls and then check optimality of the result.",
  ["src/QProblemB.cpp", "src/QProblem.cpp", "src/SQProblem.cpp", "src/Matrices.cpp"],
  [("homotopy from the last solved QP to the new one", "QProblem::solveQP / performStep / changeActiveSet"),
   ("ramping, far bounds and flipping bounds strategies", "QProblem::hotstart, performRamping, updateFarBounds"),
   ("drift correction and regularisation steps", "performDriftCorrection, solveRegularisedQP"),
   ("matrix factorisation updates", "addBound/addConstraint/removeBound/removeConstraint")],
  ["return value of init/hotstart", "getPrimalSolution, getDualSolution, getObjVal"])

p("C02", "A solve cut short by its iteration budget is reported, bounded and resumable",
  "A solve stopped by its working-set-recalculation budget, at whatever iteration that falls, says so, reports no more recalculations than it was granted and is not reported as solved. Continuing with the same QP data in one or several further calls reaches, within a bounded number of calls and recalculations, the same solution as a solve that was never cut short.",
  ["crash_points", "histories", "fault_sequences"],
  "every budget from zero up to the full iteration count, at every call of every sequence, repeated interruptions, continued with the same or with new data, all session classes and option sets",
  "Tests pass generous budgets; the few that hit a budget do not continue, and no test enumerates the interruption points.",
  ["src/QProblemB.cpp", "src/QProblem.cpp"],
  [("per-iteration budget test and early return with a consistent intermediate QP", "QProblem::solveQP, QProblemB::solveQP"),
   ("session status tracking", "status transitions in solveQP/hotstart"),
   ("budget split over ramping / far bound / regularisation rounds", "hotstart, solveRegularisedQP")],
  ["return value, in/out budget argument, isSolved, getCount", "solution after continuation"])

p("C03", "CPU-time limits are honoured and measured; no clock can corrupt a result",
  "With a CPU-time limit a solve stops once the clock shows the limit is used up (starting no iteration it already knows exceeds it), says that it was cut short, and reports the time elapsed on the clock; a limit that is never reached changes nothing about the result. Slow, stalled, stepping or backward-running clocks may only shorten or lengthen the solve: the session stays usable and continuing it reaches the right solution.",
  ["schedules", "fault_sequences", "histories"],
  "every clock behaviour (uniform, stalled, jumping forwards or backwards between any two reads), every limit, every call of a sequence, all session classes",
  "Tests run on the real clock with limits far from binding, so neither the stop, nor its position, nor clock anomalies ever occur deterministically.",
  ["src/QProblemB.cpp", "src/QProblem.cpp", "src/SQProblem.cpp", "src/Utils.cpp"],
  [("limit test before each iteration from the average time per iteration", "QProblemB::isCPUtimeLimitExceeded"),
   ("remaining-time bookkeeping through nested solve calls", "hotstart auxTime handling, solveInitialQP")],
  ["in/out cputime argument", "number of iterations started", "return value"],
  hook=None)

p("C04", "Infeasible and unbounded QPs are reported as such and the session survives them",
  "A QP with no feasible point or with objective unbounded below is never reported as solved and, if the solve runs to its end, is reported with the matching verdict; a QP that has a solution is never reported infeasible or unbounded. The return code, the simple status and the infeasible/unbounded/solved flags agree with each other, and after such a verdict the session can be used again for solvable QPs with correct results.",
  ["histories", "inputs", "fault_sequences"],
  "every placement of infeasible (contradictory bounds, bounds against constraints, constraints against constraints) and unbounded QPs in a sequence of otherwise solvable ones, with interruptions between, for every session class and option set",
  "Tests contain only a handful of isolated infeasible/unbounded cases and do not continue the same session afterwards under interruptions.",
  ["src/QProblemB.cpp", "src/QProblem.cpp"],
  [("blocking constraint that cannot be exchanged proves infeasibility", "addBound_ensureLI/addConstraint_ensureLI, setInfeasibilityFlag"),
   ("far bounds active at the end prove unboundedness/infeasibility", "hotstart far-bound loop"),
   ("bound consistency test", "areBoundsConsistent"),
   ("flag bookkeeping", "infeasible/unbounded members, getSimpleStatus")],
  ["return value, getSimpleStatus, isInfeasible, isUnbounded, isSolved"])

p("C05", "Working set, multipliers and iterate agree at every stop",
  "After every call, finished or cut short, the reported working set is a partition of all bounds and of all constraints whose sizes match the reported counts, objects outside it carry a zero multiplier, and those in it carry a multiplier of the right sign. After a successful call every bound or constraint in the working set holds with equality at the reported point, implicit equalities included. The equality-constrained QP of the current working set, solved on request for other data, gives a KKT point of exactly that subproblem.",
  ["histories", "crash_points"],
  "every stopping point of every solve in every sequence, all session classes, option sets and matrix storage formats",
  "Tests look at final solutions only; the intermediate bookkeeping after a cut-short call is never inspected.",
  ["src/QProblem.cpp", "src/QProblemB.cpp", "src/Bounds.cpp", "src/Constraints.cpp", "src/SubjectTo.cpp", "src/Indexlist.cpp"],
  [("index list updates when objects enter and leave the working set", "Bounds/Constraints move functions, Indexlist"),
   ("dual step and sign restoration", "performStep, setupAuxiliaryQPsolution"),
   ("implicitly fixed variables and equalities", "setupSubjectToType")],
  ["getBounds, getConstraints, getWorkingSet*, getNFR/getNFX/getNAC/getNIAC/getNEC, getDualSolution"])

p("C06", "Interleaved solver sessions do not influence each other",
  "Any number of sessions living in one process, created, solved, cut short, copied and destroyed in any interleaving, including switching between sessions in the middle of a solve, produce bit for bit the results each of them produces when run alone.",
  ["schedules", "histories"],
  "every interleaving of the calls of several sessions, and of the insides of their solves at clock reads, memory allocations and matrix-callback calls; sessions of different classes, sizes and options",
  "Tests use one session at a time per process, strictly sequentially.",
  ["src/QProblemB.cpp", "src/QProblem.cpp", "src/MessageHandling.cpp", "src/Utils.cpp", "src/Flipper.cpp"],
  [("all solver state is held per session object", "class members of QProblemB/QProblem/SQProblem"),
   ("the only process-global state is the message handler", "getGlobalMessageHandler")],
  ["solutions, return codes, iteration counts of every session"])

p("C07", "Copying a session yields an exact and independent snapshot",
  "A copy-constructed or assigned session, taken at any moment of the original's life including after a cut-short or failed solve, answers all queries like the original at that moment and reacts to any later calls bit for bit as the original would have. Later calls on, or destruction of, either one never affect the other (apart from matrix data the user lent to both).",
  ["histories", "crash_points"],
  "every point of every history at which a copy or assignment is made (also over an already used session of another size, and onto itself), followed by any continuation of both, in any order, for every session class",
  "Only one small test copies problem objects, freshly solved; no test copies interrupted sessions, runs both sides on, or destroys one of them.",
  ["src/QProblemB.cpp", "src/QProblem.cpp", "src/SQProblem.cpp", "src/Bounds.cpp", "src/Constraints.cpp", "src/Flipper.cpp", "src/Indexlist.cpp", "src/Matrices.cpp", "src/Options.cpp"],
  [("deep copy routines", "QProblemB::copy, QProblem::copy, SubjectTo/Indexlist/Flipper::copy"),
   ("matrix duplication and ownership flags", "Matrix::duplicate, freeHessian/freeConstraintMatrix")],
  ["all public getters", "later return codes and solutions"])

p("C08", "Resetting or re-initialising a session erases its past",
  "After an explicit reset, or when a session is initialised again while in use, the following calls give the same results as on a newly created session with the same dimensions, options and data, whatever happened before: solves, interruptions, failures, infeasibility or changed matrices.",
  ["histories", "crash_points"],
  "every history before the reset, including interrupted and failed solves, and every sequence after it",
  "Tests never reuse a session after a reset in a non-trivial state, and never compare with a fresh one.",
  ["src/QProblemB.cpp", "src/QProblem.cpp", "src/SQProblem.cpp", "src/SQProblemSchur.cpp"],
  [("reset clears working sets, factors, flags, ramping state", "QProblemB::reset, QProblem::reset"),
   ("init on an initialised object resets first", "QProblem::init, QProblemB::init")],
  ["return codes and solutions after the reset"])

p("C09", "Results depend only on the calls made, not on memory contents or output",
  "The same sequence of calls gives bit-identical results whatever garbage freshly allocated memory contains, whatever the print level and output stream are, whether writing messages to that stream fails, and whatever the clock shows when no time limit is set. Printing problems never stop or alter a solve.",
  ["fault_sequences", "configurations", "histories"],
  "every history, every fill pattern of fresh memory, every print level, broken or full message stream at every write, every clock",
  "Tests run each case once, with printing suppressed and with whatever memory contents the allocator happens to hand out.",
  ["src/QProblemB.cpp", "src/QProblem.cpp", "src/MessageHandling.cpp", "src/Utils.cpp", "src/Matrices.cpp"],
  [("all work arrays are written before use", "solver internals"),
   ("print functions are side-effect free", "printIteration, MessageHandling::throwMessage, myPrintf")],
  ["solutions, return codes, iteration counts"])

p("C10", "QP data read from files is used completely or the call fails cleanly",
  "Initialising or hotstarting from files gives exactly the result of passing the same numbers in memory, however the reads are split up. If a file is missing, unreadable, truncated before its last required number, interrupted by a read error or contains something that is not a number, the call reports the failure and never solves a QP made of stale or invented numbers; a failed file hotstart leaves the session as usable as before, and data loaded from files stays valid for all later calls.",
  ["fault_sequences", "crash_points", "histories"],
  "every file of every call, every fault position: missing file, truncation at any byte, read error at any byte, short reads of any size, corrupted token; at every point of a session's history",
  "Tests read intact files only.",
  ["src/Utils.cpp", "src/QProblemB.cpp", "src/QProblem.cpp", "src/SQProblem.cpp"],
  [("number-by-number reader with return-value checks", "readFromFile"),
   ("loading before touching the session", "setupQPdataFromFile, loadQPvectorsFromFile, file hotstarts")],
  ["return values", "solutions after file calls"])

p("C11", "A reported successful file write is complete on disk",
  "When writing a vector, matrix, index list or the QP data of a session to a file reports success, the file then contains all of the data and reading it back gives the same numbers (appended data following the old contents). If the disk is full or a write fails at any point, up to and including closing the file, the failure is reported; the session itself is never affected.",
  ["fault_sequences", "crash_points"],
  "every write fault position (full disk, I/O error, short writes, failure only when buffered data is flushed at close), every data size, append and overwrite",
  "Tests write to a healthy disk, if at all.",
  ["src/Utils.cpp", "src/QProblem.cpp"],
  [("writers checking stream errors", "writeIntoFile, writeIntoMatFile"),
   ("session dump", "writeQpDataIntoMatFile, writeQpWorkspaceIntoMatFile")],
  ["return values", "file contents"])

p("C12", "Running out of memory is survivable",
  "If a memory allocation fails at any point of creating, copying, initialising, hotstarting or resetting a session, the failure is visible to the caller and every object involved can still be destroyed without crash, double release or memory corruption. Other sessions are unaffected, and once memory is available again a newly created session solves the same QP correctly.",
  ["fault_sequences", "crash_points"],
  "every allocation of every call in every sequence failing, once or persistently",
  "No test makes an allocation fail.",
  ["src/QProblemB.cpp", "src/QProblem.cpp", "src/SQProblem.cpp", "src/Matrices.cpp", "src/Indexlist.cpp", "src/Flipper.cpp", "include/qpOASES/QProblemB.ipp", "include/qpOASES/QProblem.ipp"],
  [("owning members are never left pointing to released memory", "clear/copy routines, setH/setA")],
  ["exceptions, destructors, memory accounting"])

p("C13", "Observing a session never changes it",
  "Queries (solution, working set, counts, status flags), printing of properties, options and iterations, dumping of QP data, copying of working-set objects, post-optimality analyses and solving equality-constrained subproblems for the current working set can be inserted at any point of a sequence, between any calls, and the remaining calls still give bit-identical results.",
  ["histories", "schedules"],
  "every insertion point and combination of observations in every history, including before initialisation, after interruptions and after failures, for every session class",
  "Tests query only at the end and never compare a queried with an unqueried run.",
  ["src/QProblemB.cpp", "src/QProblem.cpp", "src/SolutionAnalysis.cpp", "src/Options.cpp"],
  [("getters copy out", "getPrimalSolution, getDualSolution, getBounds, getConstraints, getWorkingSet"),
   ("equality-constrained solve works on scratch data", "QProblem::solveCurrentEQP"),
   ("analysis class works from a const view", "SolutionAnalysis")],
  ["later return codes and solutions"])

p("C14", "Sequences with changing matrices stay correct across interruptions and failures",
  "In a session whose Hessian and constraint matrix change from call to call, every successful call yields an optimal solution for the new matrices and vectors, whatever preceded it: cut-short solves, infeasible problems, mixed vector-only hotstarts, rejected calls. A call rejected because its arguments are invalid leaves the session usable.",
  ["histories", "fault_sequences", "crash_points"],
  "every sequence mixing matrix-changing and vector-only hotstarts, interruption at every iteration, types of constraints changing between equality and inequality, Hessian kinds changing, dense, sparse and file-based data",
  "Tests run straight sequences that finish every solve and keep the problem structure fixed.",
  ["src/SQProblem.cpp", "src/QProblem.cpp"],
  [("auxiliary QP for new matrices keeping the old solution optimal", "SQProblem::setupNewAuxiliaryQP"),
   ("working set transfer and refactorisation", "setupAuxiliaryWorkingSet, computeProjectedCholesky")],
  ["return values and solutions"])

p("C15", "The sparse Schur variant is right and fails cleanly with its linear solver",
  "With a working sparse linear solver behind it, the sparse variant reports success only with optimal solutions and solves well-conditioned strictly convex QPs, for every size of its update buffer and across interruptions, copies and matrix changes. If the linear solver reports a failure at any call, the solve reports failure or recovers, never a wrong solution, and the session can be reset and used again.",
  ["fault_sequences", "histories", "configurations"],
  "every history, every update-buffer size, both supported linear-solver interfaces, linear-solver failure (symbolic, numeric, singular) at every call",
  "No sparse linear solver is available to the tests, so this code does not run at all in them.",
  ["src/SQProblemSchur.cpp", "src/SparseSolver.cpp"],
  [("Schur complement updates of the KKT factorisation", "addToSchurComplement, deleteFromSchurComplement, updateSchurQR"),
   ("refactorisation when the buffer is full or ill-conditioned", "resetSchurComplement"),
   ("singularity and inertia repair", "repairSingularWorkingSet, correctInertia")],
  ["return values and solutions"])

p("C16", "A user-supplied constraint evaluator is used faithfully, its failure reported",
  "Solving with a user-supplied routine for the constraint products gives the same solution as with the explicit matrix, in every kind of call sequence. If the routine reports an error at any of its invocations, the running call reports failure and no solution is claimed, the routine is told the correct constraint and the current point, and the session can be reset and used again afterwards.",
  ["fault_sequences", "histories"],
  "failure of every single invocation of the routine, at every point of every sequence, several sessions sharing or not sharing a routine",
  "One example uses such a routine; none makes it fail.",
  ["src/QProblem.cpp", "include/qpOASES/ConstraintProduct.hpp"],
  [("callback invoked for every inactive constraint per step, return code checked", "QProblem::performStep, setupAuxiliaryQPsolution, solveInitialQP")],
  ["callback arguments, return values, solutions"])

p("C17", "Restarting from saved or stale solver information reaches the same solution",
  "A session started after a crash from saved durable data - primal or dual solution, working set, Cholesky factor, in any combination, exact, outdated or belonging to a neighbouring QP - reaches the same solution as a cold start. Warm-start information can affect the number of iterations only, and contradictory information is rejected with an error.",
  ["crash_points", "histories", "inputs"],
  "every crash point of a running session at which its state is saved or already stale, every subset of the saved items handed to the new session or to a hotstart, every session class",
  "Tests warm-start with exact information from a finished solve only.",
  ["src/QProblemB.cpp", "src/QProblem.cpp"],
  [("auxiliary QP built from the guess is solved by construction", "solveInitialQP, obtainAuxiliaryWorkingSet, setupAuxiliaryQP*"),
   ("working set guess for hotstarts", "hotstart with guessed sets, setupAuxiliaryQP")],
  ["return values and solutions"])

p("C18", "C-interface sessions behave like the solver classes they wrap",
  "Through the C interface every sequence of setup, init, hotstart and cleanup calls on the three problem kinds, in any order and interleaving, gives bit for bit the results of the corresponding solver objects, for every option preset. The problem kinds do not disturb each other, calls without a preceding setup and invalid arguments are refused without effect, and setup or cleanup may be repeated at any time.",
  ["histories", "schedules"],
  "every interleaving of calls on the three global sessions, including misuse (before setup, after cleanup, repeated setup), interruptions by budgets and all option presets",
  "Tests run the three C examples once, in the documented order.",
  ["interfaces/c/qpOASES_wrapper.cpp", "interfaces/c/qpOASES_wrapper.h"],
  [("one global object per problem kind, guarded by null checks", "QProblem_setup/init/hotstart/cleanup and the bound-only and varying-matrix counterparts"),
   ("option translation", "qpOASES_Options_init, qpOASES_Options_copy")],
  ["return codes, status, solutions"])

p("C19", "Scripting-interface handles identify exactly one live session each",
  "In the MEX interfaces for Octave and Matlab (qpOASES_sequence and qpOASES) every handle refers to the session it was issued for until that session is cleaned up, under any interleaving of creations, hotstarts, matrix changes, equality solves and cleanups; calls on different handles never influence each other, and every accepted call returns exactly what the same call on an object of the class returns (dense and sparse matrices, empty limits, options structs with missing entries, auxiliary inputs, several QPs at once). Calls with stale or invalid handles or malformed arguments (number, kind, size, storage, NaN) are refused with an error and leave all sessions intact; no call reads or writes beyond the arrays it was given or has created, the caller's arrays are neither modified nor referenced after the call, and no memory is left once all handles are cleaned up.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of operations over many handles, stale handles, malformed arguments at any point, early error exits, exhausted memory",
  "The interface tests need Octave or Matlab, run each sequence with a single live handle in documented order, and are not part of the test suite that runs here.",
  ["interfaces/octave/qpOASES_sequence.cpp", "interfaces/octave/qpOASES.cpp", "interfaces/octave/qpOASES_octave_utils.cpp", "interfaces/matlab/qpOASES_sequence.cpp", "interfaces/matlab/qpOASES.cpp", "interfaces/matlab/qpOASES_matlab_utils.cpp"],
  [("handle table with unique increasing handles", "allocateQPInstance, getQPInstance, deleteQPInstance"),
   ("deep copies of user matrices per handle", "setupHessianMatrix, setupConstraintMatrix, keepPreviousQPMatrices"),
   ("argument checks before anything is touched", "smartDimensionCheck, containsNaNorInf, setupAuxiliaryInputs, setupOptions")],
  ["outputs and error messages per call"])

p("C20", "Benchmark runs from disk report honest results or a clean failure",
  "Running a QP sequence stored in the online-QP file format gives results identical to passing the same data in memory, with worst-case figures that bound the true residuals of every QP in the sequence. A missing, truncated, unreadable or inconsistent file yields an error - never figures computed from stale or invented data, a crash or a leak.",
  ["fault_sequences", "crash_points"],
  "every file of the benchmark set damaged in every way at every position, every combination of optional files, dense/sparse and hotstart/coldstart modes, any clock",
  "Tests need benchmark files that are absent here; none damages a file.",
  ["src/OQPinterface.cpp", "src/Utils.cpp"],
  [("dimension file and data loaders with error propagation", "readOqpDimensions, readOqpData"),
   ("sequence driver and residual maxima", "solveOqpBenchmark, runOqpBenchmark")],
  ["return values, reported maxima, memory accounting"])

p("C21", "No call history corrupts memory, leaks it, or touches data the caller owns",
  "No sequence of calls, including interrupted, failed and rejected ones, copies, assignments, resets and destruction at any point, reads or writes memory it must not, releases memory twice or leaves memory behind once all sessions are destroyed. Vectors, guesses and option objects passed in are never modified, and may be released right after the call; matrices passed in stay alive and owned by the caller.",
  ["histories", "fault_sequences", "crash_points"],
  "every history with interruptions, rejected arguments and failing solves at every point, caller buffers destroyed and overwritten immediately after each call",
  "A few fixed examples run under a memory checker; the histories, early exits and ownership hand-overs are not explored.",
  ["src/QProblemB.cpp", "src/QProblem.cpp", "src/SQProblem.cpp", "src/Matrices.cpp", "src/Indexlist.cpp", "src/SubjectTo.cpp"],
  [("ownership flags for matrices", "freeHessian, freeConstraintMatrix, needToFreeMemory"),
   ("local work arrays released on every return path", "solver internals")],
  ["instrumented allocator, address sanitizer, caller buffers"])

p("C22", "Matrix storage formats are interchangeable",
  "For every matrix, index subset and operand, products, sub-matrix extraction, norms and updates computed from dense, row-sparse and column-sparse storage agree.",
  ["inputs"], "every matrix, index list and scaling factor",
  "Tests compare a few shapes.",
  ["src/Matrices.cpp"], [("kernels per storage class", "DenseMatrix, SparseMatrix, SparseMatrixRow")])
p("C23", "Post-optimality analysis formulas are right",
  "Residuals, covariance propagation and curvature figures computed for a solved QP equal their definitions for every QP.",
  ["inputs"], "every solved QP and covariance input", "Tests check single values.",
  ["src/SolutionAnalysis.cpp"], [("formulas", "getKktViolation, getVarianceCovariance, checkCurvatureOnStronglyActiveConstraints")])
p("C24", "The options in force are those the user set, whatever happened since",
  "At every moment of every history a session's options are those last handed over (or those of the session it was copied from), with only inadmissible values replaced, by admissible ones, the replacement being reported by the consistency check and needing no repetition; choosing a preset sets every option. No call - finished, cut, failed, rejected, out of memory, stopped by a failing file or evaluator - changes an option, nor does copying, observing or resetting a session. The documented exceptions are that regularisation is switched on once a Hessian is found to be zero and its factor may grow once a Hessian is found not to be positive definite.",
  ["histories", "fault_sequences", "configurations"],
  "every history of option changes (direct, read-modify-write, through copies, presets on used objects; any field with admissible and inadmissible values), solver calls with all their ways to end, copies, resets, with failing files, evaluators and allocations",
  "Tests set options once before a call that succeeds; what is in force after failing calls, copies or repairs is not looked at.",
  ["src/Options.cpp", "src/QProblemB.cpp", "src/QProblem.cpp", "include/qpOASES/QProblemB.ipp"],
  [("range clamps", "Options::ensureConsistency"), ("member-wise copy", "Options::copy"), ("presets", "Options::setToDefault, setToReliable, setToMPC"), ("options switched temporarily during a call", "QProblem::setupAuxiliaryWorkingSet"), ("documented adjustments", "QProblemB::determineHessianType, computeProjectedCholesky")],
  ["getOptions after each call"])
p("C25", "Residual utility measures the true optimality violation",
  "The stand-alone residual routine returns, for every QP and every point, the exact violation of the optimality conditions.",
  ["inputs"], "every QP and point", "Tests rely on it as an oracle.",
  ["src/Utils.cpp"], [("formula", "getKktViolation")])
p("C26", "Simulink blocks and Scilab sessions behave like the solver classes",
  "Every step of a Simulink block (qpOASES_QProblemB, qpOASES_QProblem, qpOASES_SQProblem) returns what an object of its class returns for the signals of that step - first step initialised, later ones hotstarted, started anew if that fails - wherever the signals' elements are kept in memory and however many blocks a model has, and every Scilab function returns what the same call on an object returns although arguments only live during a call. Without a solution the outputs never show stale memory. Wrong widths, shapes and numbers of arguments, calls without a session and failing allocations end with an error that leaves other blocks and sessions alone, and termination and cleanup release everything.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of steps, starts and terminations over several blocks and of calls of the ten Scilab functions, with infeasible, degenerate and cut QPs, scattered signals, malformed calls and exhausted memory",
  "The blocks and the gateway need Simulink and Scilab; no test builds them.",
  ["interfaces/simulink/qpOASES_QProblemB.cpp", "interfaces/simulink/qpOASES_QProblem.cpp", "interfaces/simulink/qpOASES_SQProblem.cpp", "interfaces/simulink/qpOASES_simulink_utils.cpp", "interfaces/scilab/qpOASESinterface.c", "interfaces/scilab/qpOASESroutines.cpp"],
  [("work vectors of a block and dimension checks", "mdlStart"), ("signal copies, init/hotstart/restart, clamped outputs", "mdlOutputs"), ("release", "mdlTerminate"), ("global sessions with matrices of their own", "sci_QProblem_init, sci_QProblemB_init, sci_SQProblem_init and the hotstart/cleanup counterparts"), ("argument checks", "interface_*")],
  ["outputs and error messages per step and call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import re
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    n = len([s for s in re.split(r"(?<=[.!?])\s+(?=[A-Z])", x["statement"]) if s])
    assert n <= 3, (x["id"], n)
print(len(P), "properties")
