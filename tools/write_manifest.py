#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
D = {
 "C01": ("seeded single-thread histories with allocation/iterator/sink faults; spans compared with a reference locator", "Sampled histories over the real code; the reference locator recomputes every location from the source text. Trusts the harness's own text generator for where tokens are."),
 "C02": ("seeded interleavings of 2-4 real threads (switch points at operations, callbacks, allocations, single instructions); each thread compared with a solo reference model", "Sampled sequentially consistent interleavings; a failure counts only if every thread alone is fine."),
 "C03": ("seeded histories of parses, invalidations and stale uses, single- and multi-threaded, plus one run that parses more than 4 GiB in total", "Sampled histories; memory release measured by the simulator's allocator."),
 "C04": ("seeded programs over shared streams with panicking, re-entrant and lying iterators and failing allocations, against a vector model", "Sampled programs; model is a plain vector of tokens per holder."),
 "C05": ("seeded histories inside simulated expansions: real proc_macro client and bridge, simulated compiler with failing calls, against a token model", "Sampled histories; the compiler is a stub behind the real bridge protocol of the installed nightly."),
 "C06": ("seeded instruction-level schedules of force/unforce/use; recorded history checked for linearizability against a three-state model", "Sampled schedules, sequentially consistent; Wing-Gong search over each history; deadlock detection by the scheduler."),
 "C07": ("seeded mode switches and expansion boundaries between operations, simulated compiler with failing calls, against a tagged token model", "Sampled histories; stub compiler as in C05."),
 "C08": ("seeded valid, damaged and truncated texts inside simulated expansions, with compiler rejections and panics injected", "Sampled texts and faults; the stub compiler records every text it is asked to lex."),
 "C09": ("seeded output faults (error, panic, re-entry at the n-th write) while printing every kind of value, against fault-free text", "Sampled values and fault points."),
 "C10": ("seeded deep nests on simulated threads with small stacks, killed processes detected and attributed", "Sampled depths and sharing; stack sizes from 128 KiB."),
 "C11": ("seeded thread lifetimes: values in thread-local storage, kills at any operation, operations during destruction", "Sampled lifetimes; destructor orders of the platform's thread-local implementation."),
 "C12": ("seeded torn and corrupted reads interleaved with good parses, against the reference locator and repeated parses", "Sampled damage; the outcome of accepting damaged text is checked for consistency, not against rustc's grammar."),
 "C13": ("every workload and fault kind above under an allocator that tracks, guards and poisons blocks; leak confirmed by repeated passes", "Sampled histories; allocator-level conservation and guard checks, not a full memory-model interpreter."),
 "C14": ("the real build.rs compiled against a simulated standard library; seeded builds with 1-3 scripts interleaved at every system call, kills, failed calls and compilers, and cargo's rerun decisions; against a decision table", "Sampled histories of the real build.rs; files, processes, compiler and cargo are stubs."),
}
claimed = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in claimed:
    if p in D:
        t, n = D[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": T + t, "level": "exploration", "level_note": n})
NA = {
 "N01": "pure function of one value: no schedule, clock, fault or history; deciding it needs input generation or proof, not simulation",
 "N02": "pure function of the number or text given; nothing for a simulator to schedule or fail",
 "N03": "pure function of the text, and the oracle is rustc's lexer; input comparison, not simulation",
 "N04": "pure function of one token's text; no nondeterminism or fault surface",
 "N05": "pure functions of two strings; no nondeterminism or fault surface",
 "N06": "a compile-time fact about types; there is no execution to simulate",
}
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "none", "enable": "no hooks were needed: the allocator, the proc_macro bridge, iterators, writers, threads and the trap flag are seams outside the crate", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Replay: python3 check.py replay FILE. Determinism and history-checker self-test: python3 check.py self-test. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
