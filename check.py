#!/usr/bin/env python3
"""Build the simulator against /repo's working tree and decide one property.

  check.py PROPERTY quick|thorough     decide a property
  check.py replay FILE                 re-execute a replay file exactly
  check.py self-test                   determinism and history-checker self-test
"""
import concurrent.futures
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
BSIM = os.path.join(HERE, "bsim")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known-findings.txt")

# name: (toolchain, features, RUSTFLAGS, profile, extra env, description)
CONFIGS = {
    "A": ("nightly", "pm,spans,bridge", "", "release", {},
          "nightly, proc-macro + span-locations, simulated compiler"),
    "B": ("nightly", "pm,spans,bridge", "-Zallow-features=proc_macro_internals,alloc_error_hook", "release",
          {"SIM_NO_PMSPAN": "1"},
          "as A, but the crate may not use unstable compiler features (what a stable user gets)"),
    "C": ("nightly", "spans,nightly,exempt", "--cfg procmacro2_semver_exempt", "checked", {},
          "no proc-macro feature, semver-exempt API, span-locations, overflow checks on"),
    "D": ("nightly", "pm,bridge", "", "checked", {},
          "nightly, proc-macro without span-locations, simulated compiler, overflow checks on"),
    "E": ("stable", "pm,spans", "", "release", {},
          "stable toolchain, proc-macro + span-locations, no simulated compiler and no allocation faults"),
    "F": ("nightly", "pm,spans,bridge,exempt", "--cfg procmacro2_semver_exempt", "checked", {},
          "semver-exempt API, proc-macro + span-locations, simulated compiler, overflow checks on"),
    "H": ("nightly", "pm,spans,bridge", "--cfg no_literal_byte_character --cfg no_literal_c_string", "release", {},
          "as A, built as for compilers before 1.79 (byte and C string literals made from text)"),
    "I": ("nightly", "nightly", "", "checked", {},
          "neither proc-macro nor span-locations, overflow checks on"),
    "G": ("nightly", None, "", "release", {},
          "the real build script, with simulated files, processes, environment and compiler"),
}

# property: {tier: [(config, runs)]}
PLAN = {
    "C01": {"quick": [("A", 60000), ("C", 40000)], "thorough": [("A", 1500000), ("C", 1000000), ("E", 800000), ("B", 300000)]},
    "C02": {"quick": [("A", 30000), ("C", 15000)], "thorough": [("A", 1200000), ("C", 500000), ("D", 400000), ("E", 400000)]},
    "C03": {"quick": [("A", 40000), ("C", 30000)], "thorough": [("A", 1000000), ("C", 800000), ("E", 500000)]},
    "C04": {"quick": [("A", 60000), ("D", 40000), ("C", 20000), ("I", 15000)], "thorough": [("A", 1500000), ("D", 1000000), ("I", 300000), ("F", 500000), ("E", 500000), ("C", 500000)]},
    "C05": {"quick": [("A", 80000), ("B", 40000), ("D", 40000), ("H", 20000)], "thorough": [("A", 2500000), ("B", 1000000), ("D", 1000000), ("F", 500000), ("H", 500000)]},
    "C06": {"quick": [("A", 35000), ("D", 20000)], "thorough": [("A", 1500000), ("D", 800000), ("F", 400000)]},
    "C07": {"quick": [("A", 80000), ("B", 40000), ("D", 40000)], "thorough": [("A", 2500000), ("B", 1000000), ("D", 1000000), ("F", 500000)]},
    "C08": {"quick": [("A", 60000), ("D", 40000)], "thorough": [("A", 2000000), ("D", 1000000), ("B", 600000)]},
    "C09": {"quick": [("A", 40000), ("D", 30000), ("C", 15000), ("I", 10000)], "thorough": [("A", 800000), ("I", 200000), ("D", 600000), ("C", 300000)]},
    "C10": {"quick": [("A", 2500), ("D", 2000), ("C", 1000)], "thorough": [("A", 40000), ("D", 40000), ("C", 20000)]},
    "C11": {"quick": [("A", 50000), ("D", 30000), ("C", 10000), ("I", 8000)], "thorough": [("A", 1200000), ("D", 800000), ("C", 400000)]},
    "C12": {"quick": [("A", 60000), ("C", 30000), ("I", 15000)], "thorough": [("A", 1500000), ("C", 800000), ("D", 600000)]},
    "C13": {"quick": [("A", 30000), ("D", 15000), ("C", 12000), ("I", 8000)], "thorough": [("A", 600000), ("I", 150000), ("D", 400000), ("C", 300000), ("F", 200000)]},
    "C14": {"quick": [("G", 60000)], "thorough": [("G", 6000000)]},
}

TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences against a reference model"


def binary(cfg):
    return os.path.join(BUILD, cfg, CONFIGS[cfg][3], "bsim" if cfg == "G" else "sim")


def build(cfg):
    toolchain, features, flags, profile, extra, _ = CONFIGS[cfg]
    env = dict(os.environ)
    env.update(extra)
    env["RUSTFLAGS"] = flags
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTC_WRAPPER"] = ""
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTC_BOOTSTRAP", None)
    cmd = ["cargo", "+" + toolchain, "build", "--offline", "--locked", "-q", "--profile", profile,
           "--target-dir", os.path.join(BUILD, cfg)]
    where = BSIM
    if features is not None:
        cmd += ["--no-default-features", "--features", features]
        where = SIM
    p = subprocess.run(cmd, cwd=where, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        # Once more: a damaged cache or a full disk is not an answer.
        p = subprocess.run(cmd, cwd=where, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return cfg, p.returncode, p.stdout


def build_all(cfgs):
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        for cfg, rc, out in ex.map(build, cfgs):
            if rc != 0:
                sys.stderr.write(out)
                sys.stderr.write("check.py: building configuration %s failed\n" % cfg)
                sys.exit(2)


def replay(path):
    cfg = None
    with open(path) as f:
        for line in f:
            if line.startswith("calibration "):
                x = dict(kv.split("=", 1) for kv in line.split()[1:])
                wrong, _ = calibrate((int(x["how"]), x["probe"]))
                print(calibration_message(wrong[0]) if wrong else "held")
                return 1 if wrong else 0
            if line.startswith("plan "):
                cfg = dict(kv.split("=", 1) for kv in line.split()[1:])["cfg"]
    if cfg not in CONFIGS:
        sys.exit("check.py: %s is not a replay file" % path)
    build_all([cfg])
    return subprocess.call([binary(cfg), "replay", path])


def merge(into, d):
    for k, v in d.items():
        into[k] = into.get(k, 0) + v


def known(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line[len("finding: "):])
    return out


# How the installed compilers stand for the simulated one: (toolchain, extra environment, extra flags).
REAL = [("stable", {}, []), ("nightly", {}, []), ("stable", {"RUSTC_BOOTSTRAP": "1"}, []), ("nightly", {}, ["-Zallow-features="])]
PROBES = ["proc_macro_span", "proc_macro_span_location", "proc_macro_span_file"]


def compiles(how, path):
    """The answer of a real compiler about a probe file, asked as the build script asks."""
    toolchain, extra, flags = how
    env = dict(os.environ)
    env.pop("RUSTC_BOOTSTRAP", None)
    env.update(extra)
    with tempfile.TemporaryDirectory() as d:
        return subprocess.run(
            ["rustc", "+" + toolchain, "--cfg=procmacro2_build_probe", "--edition=2021", "--crate-name=proc_macro2",
             "--crate-type=lib", "--cap-lints=allow", "--emit=dep-info,metadata", "--out-dir", d, path] + flags,
            env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def calibrate(only=None):
    """Where the installed compilers answer a probe of /repo otherwise than they should.

    What they should answer is what they say about the probes in bsim/truth, which ask for the
    functions that the crate uses behind each cfg."""
    asked = [(h, p) for h in range(len(REAL)) for p in PROBES if os.path.exists("/repo/src/probe/%s.rs" % p)] if only is None else [only]
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        want = list(ex.map(lambda x: compiles(REAL[x[0]], os.path.join(BSIM, "truth", x[1] + ".rs")), asked))
        got = list(ex.map(lambda x: compiles(REAL[x[0]], os.path.join("/repo/src/probe", x[1] + ".rs")), asked))
    return [(h, p, w, g) for (h, p), w, g in zip(asked, want, got) if w != g], len(asked)


def calibration_message(x):
    h, p, w, g = x
    return "class probe: %s %s %s is %s src/probe/%s.rs but %s the interface the crate uses with it" % (
        REAL[h][0], REAL[h][1], REAL[h][2], "content with" if g else "refuses", p, "offers" if w else "does not offer")


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = PLAN[prop][tier]
    build_all([c for c, _ in work])
    built = time.time() - t0
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    jobs = os.cpu_count() or 4
    reports, violation = [], None
    calibrated = 0
    if prop == "C14":
        wrong, calibrated = calibrate()
        for x in wrong[:1]:
            path = os.path.join(REPLAYS, "C14-real-%s-%d.replay" % (x[1], x[0]))
            with open(path, "w") as f:
                f.write("calibration how=%d probe=%s\n" % (x[0], x[1]))
            print(calibration_message(x))
            violation = (path, calibration_message(x))
    budget = (540 if tier == "quick" else 6 * 3600)
    for cfg, runs in work:
        out = os.path.join(BUILD, "%s-%s-%s.json" % (prop, tier, cfg))
        if os.path.exists(out):
            os.remove(out)
        left = max(20, int((budget - (time.time() - t0)) / max(1, len(work) - len(reports))))
        p = subprocess.run(
            [binary(cfg), "check", "--prop", prop, "--cfg", cfg, "--seed", str(seed), "--runs", str(runs),
             "--jobs", str(jobs), "--wall", str(left), "--redo", "200", "--replays", REPLAYS, "--out", out],
            stdout=subprocess.PIPE, text=True)
        sys.stdout.write(p.stdout)
        if not os.path.exists(out):
            sys.stderr.write("check.py: the simulator gave no report for configuration %s\n" % cfg)
            sys.exit(2)
        r = json.load(open(out))
        r["config_description"] = CONFIGS[cfg][5]
        r["runs_planned"] = runs
        reports.append(r)
        if p.returncode == 1 and violation is None:
            for line in p.stdout.splitlines():
                if line.startswith("REPLAY "):
                    violation = (line.split(" ", 1)[1], r["violation"])
            break
    cov = {"ops": {}, "faults": {}, "fault_runs": {}, "probes": {}, "switches_by_kind": {}}
    tot = {}
    for r in reports:
        for k in cov:
            merge(cov[k], r[k])
        for k in ("runs", "evaluations", "distinct", "nontrivial_runs", "operations", "switch_points", "context_switches",
                  "allocations", "multi_threaded_runs", "runs_inside_macro", "search_s"):
            tot[k] = tot.get(k, 0) + r[k]
    states = max(r["states"] for r in reports)
    samples = []
    for r in reports:
        p = subprocess.run([binary(r["config"]), "one", "--prop", prop, "--cfg", r["config"], "--seed", str(seed),
                            "--run", "7", "--print"], stdout=subprocess.PIPE, text=True)
        samples.append({"config": r["config"], "seed": seed, "run": 7, "plan": p.stdout.splitlines()[:40]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "comparisons_with_model": tot["evaluations"],
            "distinct_nontrivial": tot["distinct"],
            "rule": "an evaluation is one simulated run (one seed, one exactly repeatable execution); a run is nontrivial if it "
                    "compared at least one answer of the crate with the reference model and either a fault was really delivered, or threads were interleaved, or it had "
                    "more than three operations; runs are distinct if the hash of their schedule and of their operation/outcome log "
                    "differs (counted in a 2^24-bit set, so a lower bound, summed over configurations)",
            "samples": samples,
            "runs_per_hour": round(tot["runs"] / max(tot["search_s"], 0.01) * 3600),
            "seed_rule": "run i of seed S is a pure function of (S, property, i, configuration): every run has its own seed, so seeds per "
                         "hour is runs per hour",
            "simulated_time": "the crate reads no clock and sets no timer; logical time is the operation and switch-point count",
            "simulated_operations": tot["operations"],
            "simulated_switch_points": tot["switch_points"],
            "context_switches": tot["context_switches"],
            "context_switches_by_kind": cov["switches_by_kind"],
            "multi_threaded_runs": tot["multi_threaded_runs"],
            "runs_inside_a_macro": tot["runs_inside_macro"],
            "allocations_in_calls": tot["allocations"],
            "distinct_abstract_states": states,
            "distinct_abstract_states_rule": "hash of (operation, previous operation, outcome, sharing, live iterators, "
                                             "invalidations, selected implementation, inside a macro, faults), 2^16-bit set",
            "operations": cov["ops"],
            "faults_delivered": cov["faults"],
            "runs_with_fault": cov["fault_runs"],
            "rare_events_reached": cov["probes"],
            "determinism": {r["config"]: r["determinism"] for r in reports},
            "real_components": ["every line of /repo/build.rs, compiled against a simulated standard library"] if prop == "C14" else ["every line of proc-macro2 built from /repo", "std", "the standard library's proc_macro client and "
                                "bridge protocol (configurations with a simulated compiler)", "unicode-ident"],
            "stub_components": ["rustc (version answer, verdict on the probe files, output files)", "file system", "processes and "
                                "their environment", "cargo (which builds run the script again, which output is in force)",
                                "process scheduler"] if prop == "C14" else ["the compiler behind the proc_macro bridge (lexer, spans, streams): sim/src/server.rs",
                                "global allocator", "thread scheduler"],
            "configurations": [{k: r[k] for k in ("config", "config_description", "runs", "runs_planned", "distinct", "states",
                                                  "search_s", "runs_per_hour", "violation")} for r in reports],
            "real_compiler_answers_compared": calibrated,
            "build_s": round(built, 1),
        },
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
        "assumptions": [
            "the simulated compiler answers probes from a table (version, channel, granted and restricted features); files and "
            "processes behave as on Linux; removing a directory tree tolerates entries that vanish meanwhile, as the standard "
            "library does",
            "a held property held on the runs explored, not on all runs",
        ] if prop == "C14" else [
            "the simulated compiler stands for rustc: it answers every bridge call from a small model and reads no text it was not "
            "given the meaning of",
            "threads interleave at sequentially consistent points (instructions, allocations, callbacks); weak-memory reorderings "
            "are not simulated",
            "a held property held on the runs explored, not on all runs",
        ],
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for k in known(prop):
        print("KNOWN-FINDING: " + k)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    print("%s held: %d runs, %d distinct, %d comparisons, %.0f s" % (prop, tot["runs"], tot["distinct"], tot["evaluations"], time.time() - t0))
    return 0


def self_test():
    build_all(["A"])
    return subprocess.call([binary("A"), "linear"])


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "replay":
        sys.exit(replay(a[1]))
    if a == ["setup"]:
        build_all(["A"])
        sys.exit(subprocess.call([binary("A"), "linear"]))
    if a == ["self-test"]:
        sys.exit(self_test())
    if len(a) == 2 and a[0] in PLAN and a[1] in ("quick", "thorough"):
        sys.exit(check(a[0], a[1]))
    sys.exit(__doc__)


if __name__ == "__main__":
    main()
