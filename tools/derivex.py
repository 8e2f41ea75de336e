"""Generated derive programs: C07, C18, C19, C26."""
import os, re, subprocess, sys, time
from common import *

TOOLCHAIN = "1.85.0"
BIN = {"C07": "groups", "C26": "groups", "C18": "enums", "C19": "mgroups"}
RUNS = {
    "C07": ("derivex", [[]], "one generated label set (or pair, or nesting of sets) with one order of encoding all its groups, or one string set", []),
    "C18": ("derivex", [[]], "one generated enum", ["expected names come from the generator's own word lists, not from the case conversion library"]),
    "C19": ("derivex", [[]], "one generated metric group", []),
    "C26": ("derivex", [[]], "one generated label group (or pair, or nesting)", []),
}


def generate():
    out = os.path.join(VERIF, "derivex", "src", "gen")
    r = subprocess.run([sys.executable, os.path.join(VERIF, "derivex", "gen.py"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("generator: " + r.stdout[-2000:])


def build(prop=None, tier="quick"):
    generate()
    bins = sorted(set(BIN.values())) if prop is None else [BIN[prop]]
    args = ["build"] + [x for b in bins for x in ("--bin", b)]
    env = {}
    target = "derivex"
    if tier == "thorough":
        args += ["--features", "thorough"]
        target = "derivex-thorough"
    try:
        t = cargo("derivex", TOOLCHAIN, args, env, target)
    except BuildFailed as e:
        # the generated programs are valid; if everything else compiles and one of them does not, the derive rejects or breaks it
        if prop is not None and "could not compile `derivex`" in e.output and not re.search(r"could not compile `(measured|lasso|syn)", e.output):
            rd = replay_dir(prop)
            path = os.path.join(rd, "does-not-compile.txt")
            open(path, "w").write(e.output)
            first = re.search(r"^error.*?(?=\n\n|\Z)", e.output, re.S | re.M)
            raise Violation("does-not-compile", "a generated program is rejected by the compiler: " + (first.group(0) if first else "")[:1200], path)
        raise
    return os.path.join(t, "debug", bins[0])
