"""Runs the sequential enumerations (seq, derivex, procx, tokiox) for one property."""
import concurrent.futures as cf
import importlib, json, os, subprocess, time
import common
from common import *

TOOLCHAIN = "1.85.0"
NCPU = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 33, 64, 100, 128, 256, 500, 1024]

# property -> (crate, [extra argument lists; "@crate": of another crate], what a case is, assumptions)
RUNS = {
    "C09": ("seq", [[]], "one operation sequence on one constructor configuration", []),
    "C10": ("seq", [["--ncpu", str(n), "--threads", "1"] for n in NCPU], "one history on one representation under one CPU count", ["the number of CPUs reaches the library through std::thread::available_parallelism, which the harness answers by interposing sched_getaffinity"]),
    "C11": ("seq", [[]], "one threshold set with one observation sequence", []),
    "C12": ("seq", [[]], "one constructor call", ["equality of computed thresholds is bitwise against the documented formula"]),
    "C13": ("seq", [[]], "one string as label value or help", []),
    "C14": ("seq", [[]], "one history of encoder calls", []),
    "C15": ("seq", [[], ["@tokiox"]], "one history with one fault pattern", ["the writer fails at a byte offset or on a call; partial writes, interruptions and failing flushes are included"]),
    "C16": ("seq", [[]], "one history of encoder calls", []),
    "C17": ("seq", [[]], "one string or nesting of names", []),
    "C20": ("seq", [[]], "one timer history under a virtual clock", ["Instant::now reads CLOCK_MONOTONIC, which the harness interposes"]),
    "C23": ("seq", [[]], "one update sequence with one assignment of shared/exclusive access", []),
    "C24": ("seq", [[]], "one number in one position of one metric type", []),
    "C25": ("seq", [[], ["@tokiox"]], "one history with one fault pattern", []),
    "C27": ("seq", [[]], "one history and one operation in which user code panics at each of its calls in turn", []),
    "C28": ("seq", [[]], "one sequence of operations on one kind of vec, repeated", ["memory is counted by the global allocator of the harness"]),
    "C30": ("seq", [[]], "one sequence of operations on two instances, each on one of two threads, or one use of an instance from inside another", []),
}
FAULTS = {"C15", "C25", "C27"}
RUNS = {k: v for k, v in RUNS.items()}
for extra in ("derivex", "procx", "tokiox"):
    if os.path.exists(os.path.join(common.VERIF, "tools", extra + ".py")):
        RUNS.update(importlib.import_module(extra).RUNS)


def build(crate, prop=None, tier="quick"):
    if crate == "seq":
        t = cargo("seq", TOOLCHAIN, ["build", "--release"])
        return os.path.join(t, "release", "seq")
    return importlib.import_module(crate).build(prop, tier)


def build_all():
    for c in sorted({v[0] for v in RUNS.values()}):
        build(c)
    build("rejectx")


def execute(binary, prop, tier, extra, timeout):
    """-> (viols, stat, crash or None)"""
    cmd = [binary, prop, tier] + extra
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("%s did not finish in %d s" % (" ".join(cmd), timeout))
    viols, stat, crash = [], None, None
    for l in r.stdout.splitlines():
        if l.startswith("VIOL "):
            viols.append(json.loads(l[5:]))
        elif l.startswith("STAT "):
            stat = json.loads(l[5:])
        elif l.startswith("CRASH\t"):
            _, sig, idx = l.split("\t")
            crash = (sig, int(idx))
    if crash and r.returncode == 70 and 0 <= crash[1] < 2**64 - 1:
        return viols, stat, crash
    if r.returncode not in (0, 1) or stat is None or (r.returncode == 1) != bool(viols):
        raise CheckError("%s ended with %s\n%s\n%s" % (" ".join(cmd), r.returncode, r.stdout[-1500:], r.stderr[-1500:]))
    return viols, stat, None


TRIES = {"C22": 60, "C21": 3}


def execute_settled(binary, prop, tier, extra, limit):
    """as execute; a case reported as not ending that does end on its own is taken for a stall of the machine, once"""
    t = time.time()
    viols, stat, crash = execute(binary, prop, tier, extra, limit)
    if crash and crash[0] == "hang":
        _, st, again = execute(binary, prop, tier, extra + ["--index", str(crash[1])], 120)
        if again is None and st:
            return execute(binary, prop, tier, extra, limit - (time.time() - t))
    return viols, stat, crash


def split(binary, crate, extra):
    if extra and extra[0][0] == "@":
        return binary[extra[0][1:]], extra[1:]
    return binary[crate], extra


def run(prop, tier):
    crate, variants, what, assume = RUNS[prop]
    try:
        binary = {c: build(c, prop, tier) for c in [crate] + [v[0][1:] for v in variants if v and v[0][0] == "@"]}
    except Violation as v:
        cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [v.msg[:300]], "explanation": "the programs do not compile"}
        return finish(prop, tier, "model_checking", cov, [(v.key, v.msg, v.replay)])
    rd = replay_dir(prop)
    n = len(os.sched_getaffinity(0))
    limit = 840 - (time.time() - T0)
    with cf.ThreadPoolExecutor(n if len(variants) > 1 else 1) as ex:
        res = list(ex.map(lambda e: execute_settled(*[(b, prop, tier, a) for b, a in [split(binary, crate, e)]][0], limit), variants))
    stats = [s for _, s, _ in res if s]
    final, seen = [], set()
    for extra, (viols, _, crash) in zip(variants, res):
        cands = [(v["key"], v["idx"], "%s (case %d of the enumeration: %s; %d cases fail this way)" % (v["msg"], v["idx"], v["id"], v["count"])) for v in viols]
        if crash:
            cands.append(("crash", crash[1], "signal %s" % crash[0] if crash[0] != "hang" else "the case does not end"))
        for key, idx, msg in cands:
            if key in seen or len(final) >= 20:
                continue
            seen.add(key)
            b, args = split(binary, crate, extra)
            cmd = [b, prop, tier] + args + ["--index", str(idx)]
            # a violation is believed only if its case fails again on its own; where it takes a runtime's own
            # schedule, one of several tries is enough
            for _ in range(TRIES.get(prop, 1)):
                try:
                    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, errors="replace")
                except subprocess.TimeoutExpired:
                    raise CheckError("%s does not end" % " ".join(cmd))
                again = ("VIOL {" in r.stdout and r.returncode == 1) or "CRASH\t" in r.stdout
                if again:
                    break
            if not again and prop == "C22" and key != "crash":
                # compared while the runtime stood still: it was wrong then
                msg += "; the case does not fail in every schedule"
            elif not again:
                # what one case does may have been changed by those before it (they come in the same order in a
                # single thread), or by those run at the same time
                for more in (["--threads", "1", "--upto", str(idx)], []):
                    cmd = [b, prop, tier] + args + more
                    try:
                        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(10, 860 - (time.time() - T0)), errors="replace")
                    except subprocess.TimeoutExpired:
                        break
                    again = key in [json.loads(l[5:])["key"] for l in r.stdout.splitlines() if l.startswith("VIOL ")] or (key == "crash" and "CRASH\t" in r.stdout)
                    if again:
                        msg += "; the case does not fail by itself, but " + ("after the cases before it" if more else "while others run")
                        break
                else:
                    raise CheckError("violation of case %d does not replay: %s" % (idx, msg[:500]))
                if not again:
                    raise CheckError("violation of case %d does not replay: %s" % (idx, msg[:500]))
            if key == "crash":
                msg += ": " + r.stdout.strip()[:600]
            path = os.path.join(rd, "%s.txt" % "".join(c if c.isalnum() or c in "-_" else "_" for c in key)[:80])
            with open(path, "w") as f:
                f.write("%s\nreplay with: tools/setup.sh && %s\n\n%s\n" % (msg, " ".join(cmd), r.stdout))
            final.append((key, msg, path))
    notes = {}
    for s in stats:
        for k, v in s["notes"].items():
            notes[k] = max(v, notes.get(k, 0))
    cases = sum(s["cases"] for s in stats)
    steps = sum(s["steps"] for s in stats)
    distinct = sum(s["distinct"] for s in stats)
    samples = [x for s in stats for x in s["samples"]][:8]
    complete = bool(stats) and all(s["cases"] == s["total"] for s in stats) and len(stats) == len(variants)
    cov = {"samples": samples, "exhaustive": complete, "explanation":
           "a case is %s; all cases within the bounds (DESIGN.md) are executed on the real crates and compared with the reference model" % what}
    if prop in FAULTS:
        cov.update(evaluations=cases, distinct_nontrivial=distinct,
                   rule="%s: every fault point of every history; non-trivial = distinct by the observed result (output bytes and errors)" % what)
        level = "fault_enumeration"
    else:
        cov.update(states=distinct, transitions=steps, traces_validated_against_impl=cases)
        level = "model_checking"
    if len(variants) > 1:
        cov["configurations"] = len(stats)
    if notes:
        cov["notes"] = notes
    return finish(prop, tier, level, cov, final, assume + ["reference models and parsers of the harness; nothing is claimed beyond the enumerated bounds"])
