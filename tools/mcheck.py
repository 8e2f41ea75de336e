"""Runs the schedule explorer for one property."""
import os, re, subprocess, time
from common import *

TRIPLE = "x86_64-unknown-linux-gnu"
RF = "-Zsanitizer=thread -Zexternal-clangrt"

# property -> [(set, extra arguments)]
RUNS = {
    "C01": [("c01", []), ("globalrace", ["--ncpu", "3"])],
    "C02": [("c02", [])],
    "C03": [("c03", [])],
    "C04": [("c04", [])],
    "C05": [("c05", ["--no-oracle"]), ("globalrace", ["--no-oracle"])],
    "C06": [("c06", ["--no-oracle", "--track", "1"]), ("globalrace", ["--no-oracle", "--track", "1"])],
    "C08": [("c08", [])],
}
ASSUME = [
    "sequentially consistent values: an atomic load returns the latest store (weaker orderings are judged by the happens-before race detector of C06 only)",
    "a compare_exchange_weak does not fail spuriously; allocation does not fail",
    "programs of at most 4 threads and the operations listed by `mc --list`, preemptions per schedule up to the bound given per program",
]


def build():
    t = cargo("mc", None, ["+nightly", "build", "--release", "-Zbuild-std", "--target", TRIPLE], env={"RUSTFLAGS": RF})
    return os.path.join(t, TRIPLE, "release", "mc")


def run(prop, tier):
    binary = build()
    rd = replay_dir(prop)
    n = len(os.sched_getaffinity(0))
    deadline = 150.0 if tier == "quick" else float(os.environ.get("VERIF_DEADLINE", "780")) - (time.time() - T0)
    stats, viols, turns = [], [], []
    share = {}
    runs = RUNS[prop]
    for s, extra in runs:
        left = deadline if s == runs[0][0] else 60.0
        if len(runs) > 1 and s == runs[0][0] and tier != "quick":
            left -= 60
        procs = []
        for i in range(n):
            cmd = [binary, "--set", s, "--tier", tier, "--shard", "%d/%d" % (i, n), "--deadline", str(left),
                   "--time", "20" if tier == "quick" else "60", "--replay-dir", rd] + extra
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, MC_CPU=str(i)))))
        for cmd, p in procs:
            try:
                out, err = p.communicate(timeout=left + 120)
            except subprocess.TimeoutExpired:
                for _, q in procs:
                    q.kill()
                raise CheckError("%s did not finish" % cmd)
            for l in out.splitlines():
                if l.startswith("MCSTAT "):
                    stats.append(dict(x.split("=", 1) for x in l.split()[1:]))
                elif l.startswith("MCPER "):
                    turns.append(dict(x.split("=", 1) for x in l.split()[1:]))
                elif l.startswith("MCVIOL "):
                    m = re.match(r"MCVIOL kind=(\S+) harness=(\S+) execs=\d+ preemptions=\d+ msg=(.*)", l)
                    viols.append((s, extra, m.group(1), m.group(2), m.group(3)))
            if p.returncode not in (0, 1) or (p.returncode == 1) != any(l.startswith("MCVIOL") for l in out.splitlines()):
                raise CheckError("%s ended with %s\n%s\n%s" % (" ".join(cmd), p.returncode, out[-500:], err[-2000:]))
    # every violation is replayed on its own before it is believed
    final = []
    for s, extra, kind, harness, msg in viols:
        path = os.path.join(rd, harness + ".sched")
        cmd = [binary, "--set", s, "--tier", tier, "--program", harness, "--replay", path] + extra
        for _ in range(2):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            if r.returncode != 1 or "MCVIOL kind=%s " % kind not in r.stdout:
                raise CheckError("violation %s %s does not replay: %s %s" % (harness, msg, r.stdout, r.stderr))
        with open(path, "a") as f:
            f.write("replay_with %s\n" % " ".join(["tools/buildmc.sh &&"] + cmd))
        final.append(("%s:%s" % (harness, kind), "%s in program %s: %s" % (kind, harness, msg), path))
    # coverage
    progs = {}
    for d in stats:
        progs.setdefault(d["harness"], []).append(d)
    best = [max(v, key=lambda d: (d["capped"] == "0", int(d["bound"]))) for v in progs.values()]
    bounds = {}
    for d in best:
        k = "all schedules" if d["exhausted"] == "1" else "preemptions<=%s" % d["bound"] if d["capped"] == "0" else "time-capped at bound %s" % d["bound"]
        bounds[k] = bounds.get(k, 0) + 1
    last = {}
    for d in stats:
        last[d["harness"]] = d  # the deepest bound contains the shallower ones
    cov = {
        "states": sum(int(d["nodes"]) for d in last.values()),
        "transitions": sum(int(d["transitions"]) for d in last.values()),
        "traces_validated_against_impl": sum(int(d["execs"]) for d in last.values()),
        "programs": len(progs),
        "programs_by_completed_bound": bounds,
        "distinct_outcomes": sum(int(d["outcomes"]) for d in last.values()),
        "schedules_with_the_full_number_of_preemptions": sum(int(d["full"]) for d in last.values()),
        "longest_execution_steps": max([int(d["maxsteps"]) for d in stats] or [0]),
        "explanation": "every trace is an execution of the compiled crates themselves (states = scheduling decisions with more than one enabled thread, distinct within the deepest bound explored per program; transitions = atomic operations and blocking calls executed)",
        "samples": ["%s bound %s: %s schedules, thread order at decisions %s..." % (d["harness"], d["bound"], d["execs"], d["sample"]) for d in sorted(last.values(), key=lambda d: -int(d["execs"]))[:5]],
    }
    if turns:
        cov["periodic_schedules"] = {
            "programs": len(turns),
            "complete": sum(d["capped"] == "0" for d in turns),
            "schedules": sum(int(d["execs"]) for d in turns),
            "most_preemptions": max(int(d["maxpreempt"]) for d in turns),
            "longest_slice": max(int(d["period"]) for d in turns),
        }
        for k, f in (("states", "nodes"), ("transitions", "transitions"), ("traces_validated_against_impl", "execs"), ("distinct_outcomes", "outcomes")):
            cov[k] += sum(int(d[f]) for d in turns)
    return finish(prop, tier, "model_checking", cov, final, ASSUME)
