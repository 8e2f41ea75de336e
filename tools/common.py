"""Shared by all checks: building from /repo's working tree, known findings, evidence, verdicts."""
import glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
KNOWN = os.path.join(VERIF, "known_findings.txt")
T0 = time.time()


class CheckError(Exception):
    """the check itself failed: neither held nor violated"""


class BuildFailed(CheckError):
    def __init__(self, what, output):
        super().__init__(what)
        self.output = output


class Violation(Exception):
    """a violation found before anything could run"""

    def __init__(self, key, msg, replay):
        super().__init__(msg)
        self.key, self.msg, self.replay = key, msg, replay


def repo_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith((".rs", ".toml", ".lock", ".proto")):
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def cargo(crate, toolchain, args, env=None, target=None, timeout=800):
    """build a crate of /verif; the build products of /repo's crates are dropped whenever /repo's contents changed"""
    tdir = os.path.join(TARGET, target or crate)
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, "repo.hash")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        for f in glob.glob(os.path.join(tdir, "**", ".fingerprint", "measured*"), recursive=True):
            shutil.rmtree(f, ignore_errors=True)
        open(stamp, "w").write(now)
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=tdir, CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true")
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    r = subprocess.run(["cargo"] + args + ["--offline"], cwd=os.path.join(VERIF, crate), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise BuildFailed("build of %s failed" % crate, r.stdout)
    return tdir


def known(prop):
    """[(key, text)] of the findings listed for a property; `fixed:` lines suppress nothing"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out.append((key.removeprefix("key="), text))
    return out


def finish(prop, tier, level, coverage, violations, assumptions=(), hits=()):
    """violations: [(key, message, replay path)]; hits: keys of known findings that were reproduced"""
    kn = dict(known(prop))
    fresh = [v for v in violations if v[0] not in kn]
    seen = {v[0] for v in violations} | set(hits)
    for k in kn:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
        "coverage": coverage, "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 2),
        "violations": len(fresh),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))
    for k, m, r in fresh[:10]:
        print("  " + m[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, r))
    print("%s %s: %s in %.1f s" % (prop, tier, "VIOLATED" if fresh else "held", time.time() - T0))
    return 1 if fresh else 0


def replay_dir(prop):
    d = os.path.join(VERIF, "replay", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d
