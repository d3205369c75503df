#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json; run after editing: python3 meta/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, claim=True, na=None, note=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, claim=claim, na=na, note=note, tech=tech))

prop("P01", "An external solver's verdict and model are reported faithfully or not at all",
 "Whatever a solver executable prints, however its output is cut into reads, in whatever order the processes and threads run, and whichever system call fails, solving through it returns satisfiable, unsatisfiable or unknown only if the solver ran on the given formula, printed that status, and ended normally with a customary exit code; every value reported for a literal is the one the solver printed. If the solver answered completely and nothing failed, that answer is returned, in every other case an error is. After solving, the solver object neither accepts clauses nor solves again, and gives values only after a satisfiable answer.",
 ["schedules", "fault_sequences", "inputs"], "all solver outputs, interleavings of library threads and solver process, and failures of file, pipe, process and thread calls",
 "the tests call one real solver that answers correctly on a few instances; no crash, truncation, full disk, interrupted call or unlucky interleaving occurs",
 ["src/solvers/external.rs", "src/instances/fio/mod.rs", "src/types/mod.rs"],
 [("solver process control and exit code check", "src/solvers/external.rs:call_external"), ("solver log parser", "src/instances/fio/mod.rs:parse_sat_solver_output"), ("v-line parser", "src/types/mod.rs:Assignment::extend_from_vline")])
prop("P02", "An external solver call always comes to an end and cleans up after itself",
 "A call to an external solver that itself ends (or that stops listening, closes its output early, prints more than a pipe holds, or dies) returns within a bounded number of steps for every interleaving and failing system call: there is no deadlock between writing the instance and reading the answer. After it returned, with success or with an error, no solver process is left running or unreaped, no thread and no file descriptor is left open, and no temporary file remains.",
 ["schedules", "fault_sequences"], "all interleavings of writer, reader and solver process, pipe capacities, and failures of system calls",
 "a deadlock needs a full pipe on both sides and a leak needs a failing call; the tests' instances and answers fit into one pipe buffer and nothing fails",
 ["src/solvers/external.rs"], [("separate reader thread, draining, child guard, temp file handling", "src/solvers/external.rs:call_external")])
prop("P03", "An external solver is started as configured on exactly the given formula",
 "The solver process is started with exactly the configured program, arguments, environment changes and working directory, with the instance path as first or last argument or the instance on standard input as chosen, and, unless an error is returned, what it can read there is a well-formed DIMACS file (compressed if the path says so) of exactly the clauses added, in order. A persistent input file holds the same instance afterwards, and the solver is started at most once and never after the instance could not be delivered.",
 ["schedules", "fault_sequences", "inputs", "configurations"], "all formulas, ways to pass input and output, command configurations, and failures while writing the instance",
 "tests use one command line with default settings and look only at the final answer",
 ["src/solvers/external.rs", "src/instances/fio/dimacs.rs", "src/instances/fio/mod.rs"], [("command construction", "src/solvers/external.rs:construct_command_path"), ("instance writer", "src/instances/fio/dimacs.rs:write_cnf_annotated")])
prop("P04", "Reading an instance ignores chunking and never loses data silently",
 "For every CNF, WCNF, MCNF or OPB file the instance read is the one the text denotes by the format's definition, however the input is cut into reads and wherever reads are interrupted, and whether the file is plain or gzip, bzip2 or xz compressed (in one or several streams). If a read fails or a compressed file is truncated or damaged, an error is returned, never an instance that lacks the rest; malformed text is an error, not a panic and not a different instance.",
 ["inputs", "fault_sequences"], "all instances, layouts of the text, ways the bytes are chunked, and read errors, truncations and corruptions at every position",
 "tests parse short strings from memory in a single read and fixture files from an intact disk",
 ["src/instances/fio/dimacs.rs", "src/instances/fio/opb.rs", "src/instances/fio/mod.rs", "src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"],
 [("line based DIMACS parsers", "src/instances/fio/dimacs.rs:Parser"), ("OPB parser", "src/instances/fio/opb.rs:Parser"), ("compressed readers", "src/instances/fio/mod.rs:open_compressed_uncompressed_read")])
prop("P05", "A write function that returns success has written everything",
 "If a function writing an instance or lines of an instance in CNF, WCNF, MCNF or OPB format, plain or compressed, to a path or to a writer, returns success, then the complete text is in the file or was accepted by the writer, in the right order and without gaps, also if the writer accepts only parts at a time or is interrupted. If the device refuses data or becomes full at any point, including when the last buffered bytes or the end of a compressed stream are written, an error is returned.",
 ["fault_sequences", "inputs"], "all instances, positions of write errors, full disks, short writes and interruptions",
 "tests write to memory or to a disk that never fails",
 ["src/instances/fio/dimacs.rs", "src/instances/fio/opb.rs", "src/instances/fio/mod.rs"], [("writers flushing at the end", "src/instances/fio/dimacs.rs:write_cnf_annotated"), ("compressed writers", "src/instances/fio/mod.rs:open_compressed_uncompressed_write")])
prop("P06", "Persisting an instance and reading it back preserves its meaning",
 "An instance written as CNF, WCNF, MCNF or OPB (any variable offset, with or without negated literals, any compression) and read back has the same satisfying assignments over its variables, and every such assignment has the same cost in every objective up to the constant offsets that the format cannot store (which for OPB are recorded as comments); all objectives are present in the same order (except that MCNF cannot hold objectives without soft clauses after the last one that has some). Text written with the iterator-based writers parses back to the same sequence of lines.",
 ["inputs", "histories"], "all instances built through the API and all format options, over several persist and reload cycles",
 "the tests round-trip a handful of fixed instances",
 ["src/instances/fio/dimacs.rs", "src/instances/fio/opb.rs", "src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"], [("writers and parsers of the formats", "src/instances/fio")])
prop("P07", "Solver logs are read as the competition formats define them",
 "From every solver log with one status line that status is taken, and the values on its value lines (SAT competition, PB competition or MaxSAT evaluation style, the first two spread over any number of lines, mixed with any other text) become exactly the assignment returned; literals not mentioned are unassigned. Logs without a valid status line, satisfiable logs without value lines, malformed value lines and contradictory values give an error, and so do read errors; neither the way the bytes arrive nor text that does not belong to status or value lines changes the result.",
 ["inputs", "fault_sequences"], "all logs, chunkings, interruptions and read errors",
 "tests use a few fixed logs read in one piece",
 ["src/instances/fio/mod.rs", "src/types/mod.rs"], [("log parser", "src/instances/fio/mod.rs:parse_sat_solver_output"), ("v-line parsers", "src/types/mod.rs:Assignment")])
prop("P08", "The incremental simulator behaves like a truly incremental solver",
 "For every sequence of adding clauses, reserving, solving with and without assumptions, querying values and cores, the simulated incremental solver gives the verdicts, models and cores of a solver holding exactly the clauses added so far, and assumptions of one call have no effect on later calls. If the inner solver fails or is interrupted, the failure is reported, nothing added before is lost, and later calls answer correctly.",
 ["histories", "fault_sequences"], "all call sequences and all points where the inner solver fails or is interrupted",
 "the tests run fixed incremental sequences on a solver that never fails",
 ["src/solvers/simulators.rs"], [("replaying stored clauses into a fresh solver", "src/solvers/simulators.rs:Incremental")])
prop("P09", "In-process solvers give correct verdicts and models over every call history",
 "After any sequence of adding clauses, reserving variables, solving, solving under assumptions, interrupting, propagating and changing options, each bundled solver answers satisfiable only with a model of all clauses added so far and the current assumptions, and unsatisfiable only if there is none, and an unconstrained solve ends with an answer. Every literal has the value opposite to its negation, variables the solver has never seen are unassigned, reported numbers of clauses and variables match the history, and value queries in a state without a model are errors.",
 ["histories", "inputs"], "all call histories over all bundled solvers", "tests run fixed sequences on a few instances",
 ["cadical/src/lib.rs", "kissat/src/lib.rs", "minisat/src/core.rs", "minisat/src/simp.rs", "glucose/src/core.rs", "glucose/src/simp.rs", "batsat/src/lib.rs"], [("state machine and FFI calls", "*/src")])
prop("P10", "Cores and propagation reported under assumptions are justified by the formula",
 "After an unsatisfiable answer under assumptions the reported core is a clause of negated assumptions that the formula implies, it is empty only if the formula alone is unsatisfiable, and assumptions never influence later calls. Propagating literals reports only consequences by unit propagation, reports a conflict only if the literals contradict the formula, and changes neither the formula nor later answers; temporary clauses or phases likewise only last as long as documented.",
 ["histories"], "all call histories mixing assumptions, propagation, phases and clause additions", "tests check one or two cores on fixed instances",
 ["cadical/src/lib.rs", "minisat/src/core.rs", "glucose/src/core.rs", "batsat/src/lib.rs", "src/solvers/mod.rs"], [("core extraction", "*/src"), ("propagation", "*/src")])
prop("P11", "Interrupts, limits and callbacks stop or observe a search without corrupting it",
 "However and whenever a search is interrupted, by a terminator callback, an interrupter used from another thread, or a limit, the call either returns the right answer or reports the interruption, and afterwards the solver still answers correctly and a limit that was lifted no longer applies. A terminator is only consulted while it is attached; learned clauses passed to an attached learner respect the length limit and follow from the formula, and neither callback is used after it was detached or dropped.",
 ["schedules", "histories"], "all moments of interruption and histories of attaching, detaching and solving", "tests attach one callback to one solve",
 ["cadical/src/lib.rs", "kissat/src/lib.rs", "minisat/src/core.rs", "glucose/src/core.rs"], [("callback trampolines and limits", "cadical/src/lib.rs")])
prop("P12", "An in-process solver that runs out of memory says so and stays memory safe",
 "If memory allocation fails while a solver is constructed, clauses are added, variables are reserved, a search runs or its result is read, the operation reports that memory ran out (the constructor panics with that message) or still gives a correct answer; it never reports a wrong verdict, model or core. The process survives, and the solver can be dropped safely after such a report.",
 ["fault_sequences"], "all points at which allocation in the solver's native code can fail", "allocations never fail in tests",
 ["cadical/src/lib.rs", "cadical/cpp-extension/ccadical_extension.cpp", "minisat/src/core.rs", "minisat/vendor/minisat/cminisat.cc", "glucose/src/core.rs", "glucose/vendor/cglucose4.cc"], [("exceptions translated into error codes", "cadical/cpp-extension"), ("exceptions translated into error codes", "minisat/vendor/minisat/cminisat.cc")])
prop("P13", "Cardinality encodings enforce exactly the requested bounds at all times",
 "For every cardinality encoding and every history of adding input literals, requesting encoding of ranges of upper and lower bounds, and reserving variables, the clauses produced so far together with the assumptions or units the encoding gives for a bound are satisfiable with an assignment of the inputs exactly if that assignment respects the bound, for every bound covered by a requested range; for any other bound the answer is either right or an error. Incrementally added inputs never invalidate clauses produced earlier, the produced clauses alone never exclude any input assignment, and only fresh variables of the given manager are used and counted.",
 ["histories", "inputs"], "all input sets, range sequences and interleavings of extending and encoding", "tests check fixed inputs and one or two ranges",
 ["src/encodings/card/mod.rs", "src/encodings/card/totalizer/mod.rs", "src/encodings/card/simulators.rs", "src/encodings/totdb/mod.rs", "src/encodings/nodedb.rs"], [("totalizers over a node database", "src/encodings/totdb/mod.rs"), ("bound enforcement", "src/encodings/card/totalizer/mod.rs"), ("encodings simulated by others", "src/encodings/card/simulators.rs")])
prop("P14", "Pseudo-Boolean encodings enforce exactly the requested bounds at all times",
 "For every pseudo-Boolean encoding and every history of adding weighted input literals and requesting encoding of ranges of upper and lower bounds, the clauses produced so far together with the assumptions or units the encoding gives for a bound are satisfiable with an assignment of the inputs exactly if its weighted sum respects the bound, for every bound covered by a requested range; for any other bound the answer is either right or an error. Constants such as the total weight and the next higher or lower distinguishable value are reported correctly, and the produced clauses alone never exclude any input assignment.",
 ["histories", "inputs"], "all weighted inputs, range sequences and interleavings of extending and encoding", "tests check fixed inputs and a few bounds",
 ["src/encodings/pb/mod.rs", "src/encodings/pb/gte/mod.rs", "src/encodings/pb/dpw/mod.rs", "src/encodings/pb/adder.rs", "src/encodings/pb/simulators.rs", "src/encodings/totdb/mod.rs", "src/encodings/nodedb.rs"], [("generalized totalizer", "src/encodings/pb/gte/mod.rs"), ("dynamic polynomial watchdog", "src/encodings/pb/dpw/mod.rs"), ("binary adder", "src/encodings/pb/adder.rs")])
prop("P15", "An encoding survives its clause collector running out of memory",
 "If collecting the clauses of an encoding fails at any point, the failure is reported, no clause outside the encoding was added, and repeating the request with a working collector yields clauses that, together with those already collected, encode the bound exactly.",
 ["fault_sequences", "histories"], "all positions at which the collector fails and all retries", "collectors never fail in tests",
 ["src/encodings/mod.rs", "src/encodings/card", "src/encodings/pb", "src/encodings/nodedb.rs"], [("fallible clause collection", "src/encodings/mod.rs:CollectClauses")])
prop("P16", "Certified encodings come with a proof that justifies every clause they emit",
 "Every clause that a certified encoding emits is derived in the proof it writes by steps that a checker following the VeriPB format accepts, starting from nothing but the constraint being encoded, and the emitted clauses are the ones of the uncertified encoding. If writing the proof fails, an error is returned, and a clause never reaches the collector with a wrong proof identifier.",
 ["inputs", "histories", "fault_sequences"], "all inputs, ranges, incremental extensions and positions of proof write errors", "tests run an external checker on a few instances if it is installed at all",
 ["src/encodings/card", "src/encodings/pb", "src/encodings/cert.rs", "src/encodings/totdb"], [("proof generating variants of the encodings", "src/encodings/totdb/cert.rs")])
prop("P17", "The proof writer writes what was requested and numbers constraints correctly",
 "Every call on the proof writer appends exactly one well-formed proof line for the requested step, and the constraint identifiers it returns are those a checker counting constraints from the input formula assigns, also after derivations that add several constraints, deletions, and relative and named identifiers. If the device fails, the failing call or the conclusion reports an error, nothing is lost silently, and a proof that was reported as concluded ends with its conclusion.",
 ["histories", "fault_sequences"], "all sequences of proof steps and all positions of write errors", "tests write short proofs into memory",
 ["pigeons/src/lib.rs", "pigeons/src/types.rs", "pigeons/src/ops.rs"], [("identifier counting and line formatting", "pigeons/src/lib.rs:Proof")])
prop("P18", "Proof tracers see exactly the derivation the solver performs",
 "A proof tracer connected to the solver is told every original and derived clause, deletion, assumption and conclusion with consistent identifiers and polarity, so that each derived clause follows from those told before, and a concluded unsatisfiability follows from the clauses named. A disconnected tracer is handed back unchanged and never called again.",
 ["histories"], "all solving histories with tracers connected at any time", "one test traces one instance",
 ["cadical/src/prooftracer.rs"], [("tracer trampolines", "cadical/src/prooftracer.rs")])
prop("P19", "The command line tools produce complete, equivalent output or fail",
 "If a conversion or generation tool ends successfully, its output is complete and has the meaning of its input: the same solutions, the same costs, for every supported format, compression and option. If its input is damaged or unreadable or its output cannot be written completely, it ends with a failure status.",
 ["inputs", "fault_sequences", "configurations"], "all inputs and options, and failing, short or interrupted reads and writes at any point", "the tools have next to no tests",
 ["tools/src/bin", "tools/src/encodings"], [("tool main functions", "tools/src/bin")])
prop("P21", "The C interface behaves like the Rust interface for every call sequence",
 "For every sequence of C API calls that respects the documented call order, the encodings and managers behind the C API produce, through the callbacks, clauses that encode exactly the requested bounds over the given variables, report success or the documented status code, update the caller's variable counter to the variables used, and neither leak nor touch freed memory.",
 ["histories", "inputs"], "all call sequences", "the tests compile a few fixed C programs",
 ["capi/src/lib.rs", "capi/src/encodings"], [("C wrappers", "capi/src/encodings")])
prop("P22", "Building, converting and reindexing instances preserves solutions and costs",
 "However an instance is built up from clauses, implications, cardinality and pseudo-Boolean constraints and soft clauses or literals, and whatever sequence of conversions to CNF, sanitising, normalising, shuffling, extending, composing, decomposing and reindexing is applied, its satisfying assignments over the original variables are those of the constraints added, and each keeps its cost in every objective including offsets.",
 ["histories", "inputs"], "all building histories and conversion sequences", "tests cover fixed small instances",
 ["src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs", "src/types/constraints.rs", "src/encodings"], [("instance types and conversions", "src/instances")])
prop("P23", "Variable managers never hand out the same variable twice",
 "For every history of creating, marking, looking up, combining, forgetting and swapping variables, a variable manager returns only variables that were neither handed out nor marked as used before (unless forgotten), numbers of used variables and the highest variable are consistent with that history, and equal objects are always mapped to the same variable and different objects to different ones.",
 ["histories"], "all operation histories", "tests call each operation once or twice",
 ["src/instances/mod.rs"], [("variable managers", "src/instances/mod.rs")])
prop("P24", "The MaxSAT search returns an optimal solution",
 "For every objective and formula the solution-improving search returns no solution exactly if the formula is unsatisfiable, and otherwise a solution that satisfies the formula together with its exact cost, and no solution of lower cost exists; if the underlying solver is interrupted or fails at any call, no non-optimal solution is returned as final.",
 ["inputs", "fault_sequences", "histories"], "all instances and all solver calls at which the search is interrupted or fails", "one test solves fixed instances with a solver that never stops early",
 ["src/algs/maxsat.rs"], [("bound tightening loop", "src/algs/maxsat.rs")])
prop("P25", "Constraints and their one-shot encodings mean exactly what they say",
 "For every cardinality and pseudo-Boolean constraint, with repeated, opposing and zero-weight literals and any bound, every conversion (normalising, inverting, splitting, to a cardinality constraint or a clause), every classification as tautology, unsatisfiable, assignment, clause or cardinality constraint, and every evaluation under a partial assignment agrees with the meaning of the constraint. The clauses of every one-shot encoding and implication are satisfiable with exactly the assignments that meaning allows, also if the collector fails first and the request is repeated.",
 ["inputs", "fault_sequences"], "all constraints, partial assignments and moments at which the collector fails", "tests check a few constraints of each kind",
 ["src/types/constraints.rs", "src/encodings/card/mod.rs", "src/encodings/pb/mod.rs", "src/encodings/atomics.rs"], [("constraint types and conversions", "src/types/constraints.rs"), ("one-shot encoders", "src/encodings/pb/mod.rs:encode_pb_constraint"), ("implications", "src/encodings/atomics.rs")])
prop("P26", "At-most-one encodings allow exactly the at-most-one assignments",
 "For every at-most-one encoding and every history of adding input literals and encoding, the clauses produced are satisfiable with an assignment of the inputs exactly if at most one of them is true, also when encoded repeatedly after adding further inputs.",
 ["histories", "inputs"], "all input sets and histories", "tests check a few sizes",
 ["src/encodings/am1"], [("at-most-one encodings", "src/encodings/am1")])
prop("P31", "State stored through serde survives crashes and restarts",
 "Every object offering serialisation (literals, clauses, constraints, assignments, instances, objectives, variable managers, at-most-one, cardinality and pseudo-Boolean encodings) that is written at any point of its history, to any data format and through writers and readers that fail, are interrupted or transfer few bytes, and read back after a restart is equal to the one written, and every continuation of the history behaves as if there had been no restart, also after a crash back to an earlier snapshot. A torn or overwritten snapshot is an error and never an object, and data with a variable index the types forbid is rejected. A failing write or read is reported.",
 ["histories", "crash_points", "fault_sequences"], "all histories of the serialisable types, all moments of a restart or crash and all points at which the storage fails or the data ends", "snapshot tests cover fixed values and no test continues after deserialising",
 ["src/types/mod.rs", "src/instances", "src/encodings"], [("variable index type", "src/types/mod.rs:Var"), ("instance types", "src/instances"), ("encodings", "src/encodings")])
# ---- not decidable by this technique
prop("P30", "Literal, variable and clause values convert and compare consistently",
 "Literals and variables convert losslessly between index, sign, IPASIR and text forms, out-of-range values are rejected, negation is an involution, and clause and cube values behave as sets of literals after normalisation and sanitising.",
 ["inputs"], "all literals, clauses and cubes", "tests sample a few values",
 ["src/types/mod.rs", "src/types/constraints.rs"], [("packed literal representation", "src/types/mod.rs:Lit")],
 claim=False, na="pure functions of one value: no schedule, clock, I/O, fault or multi-step state for a simulator to control; exhaustive or symbolic checking (the repository already has Kani harnesses) is the fitting family. Their use inside histories is exercised by P09, P13, P14 and P22.")
prop("P32", "The Python bindings behave like the Rust interface",
 "For every history of creating, reading, modifying, iterating, comparing and dropping literals, clauses, CNFs, variable managers and encodings from Python, every call has the result and effect of the corresponding Rust call, indexing and slicing follow Python's rules, and an iterator gives every element once or raises an error if its clause or CNF was modified since it was created. Wrong or out-of-range arguments, sequences that raise an error while they are read, and code that uses the same objects meanwhile raise a proper Python exception (never a panic or an abort) and then have no effect.",
 ["histories", "fault_sequences", "schedules"], "all histories of Python calls, all faults of the arguments and all moments at which other Python code runs", "there is no test of the Python bindings in the repository",
 ["pyapi/src", "pyapi/python"], [("PyO3 wrappers", "pyapi/src"), ("iterators", "pyapi/src/types.rs:ClauseIter")])
prop("P33", "The IPASIR wrapper is faithful to the linked IPASIR solver",
 "For every history of calls to one or several solvers behind the generic IPASIR interface, the linked solver gets exactly the clauses and assumptions passed in and is only called as the IPASIR rules allow, and the verdict, the values (also unassigned ones), the core and the statistics reported are those of its last answer: after an interruption, an addition or an error none is available. Any value outside of the interface (an unknown result, value or failed flag) is reported as an error and does not leave an earlier answer in place. Terminators and learners are called exactly when the solver calls them, with the clauses it passes and up to any maximum length, stay alive while attached, and are dropped exactly once when replaced, detached or dropped with the solver, without affecting each other.",
 ["histories", "fault_sequences"], "all call histories, all answers of the linked solver including invalid ones, and all points at which it polls, learns or gives up",
 "there are no tests of this crate in the repository because no IPASIR solver is linked",
 ["ipasir/src/lib.rs", "ipasir/src/ffi.rs"], [("state machine and FFI calls", "ipasir/src/lib.rs"), ("callbacks", "ipasir/src/ffi.rs")])

def main():
    built = set(json.load(open(os.path.join(V, "meta/claimed.json"))))
    pend = "machinery for this property is still under construction"
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["claim"] and p["id"] in built:
            checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick",
                "thorough_cmd": f"bash run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["tech"] or "deterministic simulation: seeded search over histories and fault schedules, reference model oracle",
                "level": "exploration",
                "level_note": p["note"] or "seeded random search, not exhaustive; every run is exactly repeatable from its seed and minimised to a replay file on failure"})
        else:
            na.append({"property": p["id"], "reason": p["na"] or pend})
    m = {"version": 1, "setup_cmd": "bash build.sh", "hooks": HOOKS, "checks": checks, "not_applicable": na,
         "notes": "Replay a violation with: target/debug/<binary> replay <file> (binary named in the replay file). See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
HOOKS = {"guard": "none needed: libc symbols are interposed by the harness binary at link time, everything else uses the library's own seams (readers, writers, collectors, solver traits) and its existing feature _internals",
         "enable": "cargo build in /verif/sim with path dependencies on /repo (features compression, multiopt, rand, serde, proof-logging, _internals)", "source_commits": []}
main()
