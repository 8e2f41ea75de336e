"""Programs that must not compile: C29."""
import concurrent.futures as cf
import importlib.util, itertools, json, os, re, subprocess, sys, time
from common import *

TOOLCHAIN = "1.85.0"
RUNS = {"C29": None}
EXTERN = {"measured": "measured", "measured_prometheus_protobuf": "measured_prometheus_protobuf", "lasso": "lasso"}


def generator():
    spec = importlib.util.spec_from_file_location("rejectx_gen", os.path.join(VERIF, "rejectx", "gen.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def build(prop=None, tier="quick"):
    """-> arguments for rustc"""
    t = cargo("rejectx", TOOLCHAIN, ["build"])
    e = dict(os.environ, CARGO_TARGET_DIR=t, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOLCHAIN)
    e.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=os.path.join(VERIF, "rejectx"), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    libs = {}
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib"):
                        libs[m["target"]["name"].replace("-", "_")] = f
    missing = set(EXTERN) - set(libs)
    if r.returncode != 0 or missing:
        raise CheckError("no library for %s: %s" % (missing, r.stderr[-1000:]))
    return ["-L", "dependency=" + os.path.join(t, "debug", "deps")] + [x for k in sorted(EXTERN) for x in ("--extern", "%s=%s" % (k, libs[k]))]


class Compiler:
    head, emit, edition = "", "obj", "2021"

    def __init__(self, args, dir):
        self.args, self.dir, self.count, self.n = args, dir, itertools.count(1), 0

    def rustc(self, src, emit="obj", out=None):
        """-> (ok, diagnostics, rest of the output)"""
        self.n = n = next(self.count)
        path = os.path.join(self.dir, "p%d.rs" % n)
        open(path, "w").write(src)
        out = out or os.path.join(self.dir, "p%d.out" % n)
        e = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN)
        e.pop("RUSTFLAGS", None)
        e["RUST_BACKTRACE"] = "0"
        cmd = ["rustc", "--edition", self.edition, "--crate-type", "bin", "--crate-name", "p", "--error-format=json", "--cap-lints=allow", "-C", "debuginfo=0", "--emit=" + emit, "-o", out] + self.args + [path]
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("rustc does not end on %s" % path)
        diags = []
        for l in r.stderr.splitlines():
            if l.startswith("{"):
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("level") in ("error", "error: internal compiler error"):
                    diags.append(m)
        if r.returncode not in (0, 1) or "internal compiler error" in r.stderr:
            raise CheckError("rustc ended with %s on %s: %s" % (r.returncode, path, r.stderr[-600:]))
        if r.returncode == 1 and not diags:
            raise CheckError("rustc failed without an error on %s: %s" % (path, r.stderr[-600:]))
        for f in (path, out) if emit == "obj" else (path,):
            try:
                os.unlink(f)
            except OSError:
                pass
        return r.returncode == 0, diags

    def main(self, progs):
        return "fn main() { %s }\n" % " ".join("p%d::run();" % i for i in range(len(progs)))

    def compiled(self, progs, exe):
        return {p[0]: None for p in progs}

    def batch(self, progs):
        """{id: error} of those that are rejected, None for the others"""
        src, at, line = [self.head], [], 1 + self.head.count("\n")
        for i, (_, p) in enumerate(progs):
            m = "mod p%d {\n%s\n}\n" % (i, p)
            src.append(m)
            at.append(line)
            line += m.count("\n")
        src.append(self.main(progs))
        at.append(line)
        out = {}
        exe = os.path.join(self.dir, "x%d" % next(self.count)) if self.emit == "link" else None
        ok, diags = self.rustc("".join(src), self.emit, exe)
        if ok:
            return self.compiled(progs, exe)
        for d in diags:
            lines = []
            def walk(s):
                while s is not None:
                    if re.search(r"(^|/)p\d+\.rs$", s["file_name"]):
                        lines.append(s["line_start"])
                    s = s["expansion"]["span"] if s.get("expansion") else None
            for s in d["spans"]:
                if s["is_primary"]:
                    walk(s)
            if not lines:
                for c in d["children"]:
                    for s in c["spans"]:
                        walk(s)
            hit = {max((i for i in range(len(at)) if at[i] <= l), default=len(progs)) for l in lines}
            if len(hit) == 1:
                i = hit.pop()
                if i < len(progs):
                    out.setdefault(progs[i][0], d["message"])
        return out

    def decide(self, progs, size=64):
        """[(id, text)] -> {id: first error, or None if it compiles}"""
        res = {}

        def go(ps):
            # errors of an early phase hide those of later ones: go on with what is left until it compiles
            done = {}
            todo = ps
            while todo:
                r = self.batch(todo)
                done.update(r)
                rest = [p for p in todo if p[0] not in done]
                if len(rest) == len(todo):
                    # no error could be attributed
                    if len(todo) == 1:
                        done[todo[0][0]] = "rejected"
                        break
                    h = len(todo) // 2
                    done.update(go(todo[:h]))
                    done.update(go(todo[h:]))
                    break
                todo = rest
            return done

        groups = [progs[i:i + size] for i in range(0, len(progs), size)]
        with cf.ThreadPoolExecutor(len(os.sched_getaffinity(0))) as ex:
            for r in ex.map(go, groups):
                res.update(r)
        return res


def as_mod(p):
    return p.replace("fn main()", "pub fn run()")


def run(prop, tier):
    rd = replay_dir(prop)
    args = build(prop, tier)
    progs = generator().programs(tier == "thorough")
    work = os.path.join(TARGET, "rejectx", "programs")
    os.makedirs(work, exist_ok=True)
    c = Compiler(args, work)
    rights = {}
    for id, bad, good, meaning in progs:
        rights.setdefault(good, id)
    right = c.decide([(id, as_mod(p)) for p, id in rights.items()], 16)
    wrong = c.decide([(id, as_mod(bad)) for id, bad, good, meaning in progs])
    final = []

    def report(key, msg, text):
        path = os.path.join(rd, "".join(ch if ch.isalnum() or ch in "-_" else "_" for ch in key)[:80] + ".rs")
        n = 0
        while os.path.exists(path):
            n += 1
            path = path.rsplit(".rs", 1)[0].rsplit("~", 1)[0] + "~%d.rs" % n
        open(path, "w").write("// %s\n// rustc +%s --edition 2021 %s\n%s" % (msg.replace("\n", "\n// "), TOOLCHAIN, " ".join(args), text))
        final.append((key, msg, path))

    for p, id in rights.items():
        if right[id] is not None:
            ok, diags = c.rustc(p)
            if ok:
                raise CheckError("the counterpart of %s compiles on its own but not with others: %s" % (id, right[id]))
            report("counterpart of " + id, "a program that is right is rejected: %s" % diags[0]["rendered"][:800], p)
    runs = 0
    for id, bad, good, meaning in progs:
        if wrong[id] is not None:
            continue
        if meaning == "run":
            runs += 1
            exe = os.path.join(work, "run")
            ok, diags = c.rustc(bad, "link", exe)
            if not ok:
                continue
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, errors="replace")
            if r.returncode != 0:
                report(id, "a program that is not rejected does not do what it says (%s): %s" % (id, r.stdout[-500:]), bad)
        elif c.rustc(bad)[0]:
            # on its own, too
            report(id, "a wrong program compiles: " + id, bad)
    kinds = {}
    for id, *_ in progs:
        kinds[id.split(":")[0]] = kinds.get(id.split(":")[0], 0) + 1
    cov = {"states": len(progs), "transitions": len(progs) + len(rights), "traces_validated_against_impl": len(progs), "exhaustive": True,
           "samples": ["%s -> %s" % (p[0], (wrong[p[0]] or "compiles")[:120]) for p in progs[::max(1, len(progs) // 7)]][:8],
           "explanation": "a state is one program that must be rejected; every one within the bounds (DESIGN.md) is given to the compiler with the real crates and derive macros, and so is every distinct right counterpart, which must compile; transitions count both",
           "notes": dict({"right counterparts": len(rights), "compiler runs": c.n}, **{"wrong programs, " + k: v for k, v in kinds.items()})}
    return finish(prop, tier, "model_checking", cov, final, ["the compiler's verdict; programs are put into modules of one crate, those that seem to compile are compiled again on their own", "nothing is claimed beyond the enumerated programs"])
