"""Names of user code and the derives: C31. Every program must compile and do what it says."""
import importlib.util, os, subprocess
import rejectx
from common import *

RUNS = {"C31": None}
EDITIONS = {"quick": ["2021"], "thorough": ["2021", "2018", "2024"]}


def generator():
    spec = importlib.util.spec_from_file_location("hygx_gen", os.path.join(VERIF, "hygx", "gen.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Runner(rejectx.Compiler):
    emit = "link"

    def main(self, progs):
        return """fn main() {
    ::std::panic::set_hook(::std::boxed::Box::new(|_| ()));
    let all: &[fn()] = &[%s];
    for (i, f) in all.iter().enumerate() {
        if let Err(e) = ::std::panic::catch_unwind(|| f()) {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("FAILED {i} {m:?}");
        }
    }
    println!("ran {}", all.len());
}
""" % ", ".join("p%d::run" % i for i in range(len(progs)))

    def compiled(self, progs, exe):
        """the programs are run: {id: what went wrong, or None}"""
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, errors="replace")
            out = r.stdout
        except subprocess.TimeoutExpired:
            r, out = None, ""
        finally:
            os.unlink(exe)
        if "ran %d\n" % len(progs) not in out or r.returncode != 0:
            if len(progs) > 1:
                return {}
            return {progs[0][0]: "does not end well: %s" % out[-500:]}
        res = {p[0]: None for p in progs}
        for l in out.splitlines():
            if l.startswith("FAILED "):
                _, i, m = l.split(" ", 2)
                res[progs[int(i)][0]] = "does something else: " + m
        return res


def words(g, args, work, head):
    """the names that occur in what the derives make of some samples"""
    out = set()
    e = dict(os.environ, RUSTUP_TOOLCHAIN=rejectx.TOOLCHAIN, RUSTC_BOOTSTRAP="1")
    e.pop("RUSTFLAGS", None)
    path = os.path.join(work, "sample.rs")
    for s in g.samples():
        open(path, "w").write(head + "mod zzs { mod zzbegin {} \n%s\n mod zzend {} }\nfn main() {}\n" % s)
        r = subprocess.run(["rustc", "--edition", "2021", "--cap-lints=allow", "-Zunpretty=expanded"] + args + [path], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
        a, b = r.stdout.find("mod zzbegin"), r.stdout.find("mod zzend")
        # what does not even expand is found by the programs
        out |= g.expanded_words(r.stdout[a:b]) if 0 <= a < b else g.source_words(REPO)
    return out


def run(prop, tier):
    rd = replay_dir(prop)
    g = generator()
    args = rejectx.build(prop, tier)
    work = os.path.join(TARGET, "rejectx", "names")
    os.makedirs(work, exist_ok=True)
    head = g.HEAD + "pub use ::measured as zw;\n" + g.SUPPORT
    progs = g.programs(tier == "thorough", REPO, words(g, args, work, head))
    final, n = [], 0
    other = [a.replace("measured=", "zq=") if a.startswith("measured=") else a for a in args]
    more = g.renamed_programs()
    for edition, args, head, ps in [(e,) + x for e in EDITIONS[tier] for x in ((args, head, progs), (other, g.renamed(head), more))]:
        c = Runner(args, work)
        c.edition, c.head = edition, head
        n += len(ps)
        res = c.decide(ps, 48)
        for id, p in ps:
            if res[id] is None or len(final) >= 12:
                continue
            # once more, on its own
            alone = c.decide([(id, p)])[id]
            if alone is None:
                raise CheckError("%s is right on its own but not with others: %s" % (id, res[id]))
            path = os.path.join(rd, "".join(ch if ch.isalnum() or ch in "-_" else "_" for ch in id)[:80] + "-%s.rs" % edition)
            open(path, "w").write("// %s: %s\n// rustc +%s --edition %s %s\n%s%s" % (id, alone.replace("\n", "\n// "), rejectx.TOOLCHAIN, edition, " ".join(args), c.head, "mod p0 {\n%s\n}\nfn main() { p0::run() }\n" % p))
            final.append((id, "%s (edition %s): %s" % (id, edition, alone), path))
    kinds = {}
    for id, _ in progs + more:
        k = id.split(":")[0]
        kinds[k] = kinds.get(k, 0) + 1
    cov = {"states": n, "transitions": n, "traces_validated_against_impl": n, "exhaustive": True,
           "samples": [id for id, _ in progs[::max(1, len(progs) // 7)]][:8],
           "explanation": "a state is one program: the derives used with one choice of names or surroundings; every one within the bounds (DESIGN.md) is compiled with the real crates and derive macros and run, and has to do exactly what it says",
           "notes": dict({"editions": " ".join(EDITIONS[tier])}, **{"programs, " + k: v for k, v in kinds.items()})}
    return finish(prop, tier, "model_checking", cov, final, ["the compiler's verdict and one run of each program; programs are compiled together as modules of one crate, failing ones again on their own", "names: the words of the derives' source, Rust's keywords, primitive types and prelude"])
