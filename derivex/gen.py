#!/usr/bin/env python3
"""Generates the programs of C07, C18, C19 and C26: derive inputs and the tables expected of them.
gen.py OUTDIR; deterministic."""
import itertools, os, sys

OUT = sys.argv[1]
os.makedirs(OUT, exist_ok=True)


def write(name, text):
    p = os.path.join(OUT, name)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


def rs(s):
    """a Rust string literal"""
    o = '"'
    for c in s:
        if c in '"\\':
            o += "\\" + c
        elif ord(c) < 32 or ord(c) > 126:
            o += "\\u{%x}" % ord(c)
        else:
            o += c
    return o + '"'


# ------------------------------------------------------------------ C18 enums
STYLES = {
    None: lambda w: "_".join(x.lower() for x in w),
    "UpperCamelCase": lambda w: "".join(cap(x) for x in w),
    "lowerCamelCase": lambda w: "".join(cap(x) if i else x.lower() for i, x in enumerate(w)),
    "snake_case": lambda w: "_".join(x.lower() for x in w),
    "kebab-case": lambda w: "-".join(x.lower() for x in w),
    "SHOUTY_SNAKE_CASE": lambda w: "_".join(x.upper() for x in w),
    "SHOUTY-KEBAB-CASE": lambda w: "-".join(x.upper() for x in w),
    "Title Case": lambda w: " ".join(cap(x) for x in w),
    "Train-Case": lambda w: "-".join(cap(x) for x in w),
}


def cap(x):
    return x[0].upper() + x[1:].lower()


# identifier, its words
IDENTS = [
    ("Create", ["Create"]), ("DeleteAll", ["Delete", "All"]), ("ImATeapot", ["Im", "A", "Teapot"]),
    ("InternalServerError", ["Internal", "Server", "Error"]), ("HTTPServer", ["HTTP", "Server"]), ("ServerHTTP", ["Server", "HTTP"]),
    ("A", ["A"]), ("AB", ["AB"]), ("X1", ["X1"]), ("V12", ["V12"]), ("Http2Server", ["Http2", "Server"]), ("Sha256", ["Sha256"]),
    ("Foo_Bar", ["Foo", "Bar"]), ("lower", ["lower"]), ("snake_name", ["snake", "name"]), ("SHOUTY_NAME", ["SHOUTY", "NAME"]),
    ("camelName", ["camel", "Name"]), ("_Private", ["Private"]), ("Trailing_", ["Trailing"]), ("Two__Under", ["Two", "Under"]),
    ("GetX", ["Get", "X"]), ("XGet", ["X", "Get"]), ("ABCDef", ["ABC", "Def"]), ("r#async", ["async"]), ("r#Type", ["Type"]), ("\u00c9t\u00e9Neige", ["\u00c9t\u00e9", "Neige"]),
]
RENAMES = ["renamed", "", "a-okay", "with space", "quo\"te", "back\\slash", "new\nline", "\u00e9t\u00e9 \u2603", "5xx", "CamelCase", "-200", "r#x", " padded ", "tab\tend\t", "007", "1.5", "NaN", "+Inf", "true", "UPPER_CASE", "kebab-Mixed_Case", "a.b.c", "L" * 300, "\u0000", "{}", "}\n", "{0}"]
INTS = ["200", "0", "0x1f", "1_000", "0b101", "0o17", "9223372036854775807", "418", "7i64", "4294967295", "4294967296", "2147483648", "0x7fff_ffff", "65536", "00012"]


def intval(s):
    s = s.replace("_", "").removesuffix("i64")
    return int(s) if s.isdigit() else int(s, 0)


def enum(n, style, single, variants, rep=None):
    """variants: (ident, words, rename or None, int or None)"""
    attrs = []
    if style:
        attrs.append("rename_all = %s" % rs(style))
    if single:
        attrs.append("singleton = %s" % rs(single))
    what = "enum %s {%s}" % (", ".join(attrs), ", ".join(v[0] + ("=" + v[3] if v[3] else "") + (" as " + repr(v[2]) if v[2] is not None else "") for v in variants[:6]) + (", .. %d" % len(variants) if len(variants) > 6 else ""))
    o = "pub mod e%d { use super::*;\n" % n
    o += "#[derive(measured::FixedCardinalityLabel, Clone, Copy, PartialEq, Debug)]\n"
    if rep:
        o += "#[repr(%s)]\n" % rep
    if n % 3 == 0 and len(attrs) > 1:  # the arguments may be spread over attributes
        o += "".join("#[label(%s)]\n" % a for a in attrs)
    elif attrs:
        o += "#[label(%s)]\n" % ", ".join(attrs)
    o += "pub enum T {"
    for i, v in enumerate(variants):
        if v[2] is not None:
            o += "#[label(rename = %s)] " % rs(v[2])
        o += v[0] + (" = " + v[3] if v[3] else "") + ", "
    o += "}\n"
    o += "pub fn run(cx: &mut Cx) {\nlet all = [%s];\n" % ", ".join("T::" + v[0] for v in variants)
    ex = []
    for v in variants:
        if v[2] is not None:
            ex.append("X::S(%s)" % rs(v[2]))
        elif v[3]:
            ex.append("X::I(%d)" % intval(v[3]))
        else:
            ex.append("X::S(%s)" % rs(STYLES[style](v[1])))
    o += "let x = [%s];\n" % ", ".join(ex)
    o += "plain(cx, %s, &all, &x);\n" % rs(what)
    if single:
        o += "single(cx, %s, %s, &all, &x);\n" % (rs(what), rs(single))
    return o + "} }\n"


def enums(thorough):
    out, n = [], 0

    def add(*a, **k):
        nonlocal n
        out.append(enum(n, *a, **k))
        n += 1
    styles = list(STYLES)
    # every style over every identifier shape, singleton or not
    for st in styles:
        for single in (None, "kind"):
            add(st, single, [(i, w, None, None) for i, w in IDENTS])
    # every identifier shape alone
    for i, w in IDENTS:
        for st in (styles if thorough else [None, "Title Case"]):
            add(st, None, [(i, w, None, None)])
    # every assignment of {plain, rename, integer, both} to up to 3 (4) variants
    k = 0
    for ln in (1, 2, 3) + ((4,) if thorough else ()):
        for kinds in itertools.product("prib", repeat=ln):
            vs, used = [], set()
            for j, kd in enumerate(kinds):
                i, w = IDENTS[(k + j) % 6]
                r = RENAMES[(k * 5 + j) % len(RENAMES)] if kd in "rb" else None
                v = None
                if kd in "ib":
                    for d in range(len(INTS)):
                        c = INTS[(k + j + d) % len(INTS)]
                        nxt = [intval(c) + s for s in range(4)]
                        if intval(c) == 2**63 - 1 and j + 1 < ln:
                            continue
                        if not used.intersection(nxt):
                            v = c
                            used.update(nxt)
                            break
                elif not used:
                    used.update(range(0, 0))
                vs.append((i, w, r, v))
            # implicit discriminants count from 0 or from the last explicit one: keep them distinct
            cur, ds = -1, []
            for v in vs:
                cur = intval(v[3]) if v[3] else cur + 1
                ds.append(cur)
            if len(set(ds)) != len(ds):
                vs = [(i, w, r, v and str(1000 * (j + 1))) for j, (i, w, r, v) in enumerate(vs)]
            add(styles[k % len(styles)], ["kind", None, "Kind_2", "_X", "HttpMethod"][k % 5], vs, rep="i64")
            k += 1
    # sizes
    for size in [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300] + ([511, 512, 513, 1000] if thorough else []):
        add(None, "kind", [("V%d" % i, ["V%d" % i], None, None) for i in range(size)])
    # singleton names
    for single in ("K", "kIND", "STATUS_CODE", "a1B2", "__Z__", "le", "n" * 300):
        add(None, single, [("A", ["A"], None, None), ("B", ["B"], "x", None), ("C", ["C"], None, "7")])
    # every rename text and every integer form
    add(None, "Kind", [("V%d" % i, ["V"], r, None) for i, r in enumerate(RENAMES)])
    add("Title Case", "kind", [("V%d" % i, ["V"], None, v) for i, v in enumerate(INTS)], rep="i64")
    # small representations
    add(None, None, [("A", ["A"], None, "1"), ("B", ["B"], None, "255"), ("C", ["C"], None, "3")], rep="u8")
    body = "\n".join(out) + "\npub fn all(cx: &mut Cx) {\n" + "".join("e%d::run(cx);\n" % i for i in range(n)) + "}\n"
    return "use super::*;\n" + body, n


for tier in ("quick", "thorough"):
    text, n = enums(tier == "thorough")
    write("enums_%s.rs" % tier, text)


# ------------------------------------------------------------------ C07 / C26 label groups
# kind -> (lifetime, field type, attribute, members, outsiders, values as Rust, values as labels, constructor type, constructor value)
def lfield(kind, i):
    """-> dict for the field at position i"""
    E = {"E1": ["Only"], "E2": ["A2", "B2"], "E3": ["A3", "B3", "C3"]}
    L = {"E1": ["S:only"], "E2": ["S:a2", "S:b2"], "E3": ["I:7", "S:b-3", "S:c3"]}
    if kind in ("E1", "E2", "E3", "X2"):
        e = kind.replace("X", "E")
        return dict(lt=False, ty=e, attr="fixed" if kind[0] == "X" else "", vals=["%s::%s" % (e, v) for v in E[e]], labels=L[e], out=0, ctor=None, dyn=False)
    s = ["f%d_%d" % (i, j) for j in range(2 + i % 2)]
    strs = dict(lt=True, ty="&'a str", vals=[rs(x) for x in s + ["zz"]], labels=["S:" + x for x in s + ["zz"]], out=1, dyn=False)
    lst = "[%s]" % ", ".join(map(rs, s))
    if kind == "F":
        return dict(strs, attr="fixed_with = RodeoReader", ctor="rodeo(&%s)" % lst)
    if kind == "A":
        return dict(strs, attr="fixed_with = Arc<RodeoReader>", ctor="Arc::new(rodeo(&%s))" % lst)
    if kind == "I":
        return dict(strs, lt=False, ty="&'static str", attr="fixed_with = indexmap::IndexSet<&'static str>", ctor="%s.into_iter().collect()" % lst)
    if kind == "P":
        return dict(strs, attr="fixed_with = phf::OrderedSet<&'static str>", ctor="phf::phf_ordered_set!{%s}" % ", ".join(map(rs, s)))
    if kind == "N":
        return dict(lt=False, ty="Num", attr="fixed_with = Big", vals=["Num(0)", "Num(1)", "Num(2)"], labels=["S:0", "S:1", "S:2"], out=1, ctor="Big(2)", dyn=False)
    if kind == "M":
        return dict(lt=False, ty="Sign", attr="fixed_with = Pm, default", vals=["Sign(-1)", "Sign(1)", "Sign(0)"], labels=["I:-1", "I:1", "I:0"], out=1, ctor=None, dyn=False)
    d = ["d%d" % i, "x", ""][: 1 if kind == "D1" else 2 + i % 2]
    strs = dict(lt=True, ty="&'a str", vals=[rs(x) for x in d], labels=["S:" + x for x in d], out=0, dyn=True)
    if kind in ("D", "D1"):
        return dict(strs, attr="dynamic_with = ThreadedRodeo", ctor="ThreadedRodeo::new()")
    if kind == "DD":
        return dict(strs, attr="dynamic_with = ThreadedRodeo, default", ctor=None)
    if kind == "DA":
        return dict(strs, attr="dynamic_with = Arc<ThreadedRodeo>", ctor="Arc::new(ThreadedRodeo::new())")
    raise Exception(kind)


NAMES = ["zeta_long_name", "b", "alpha", "r_2"]
LREN = ["renamed", "Beta", "_x", "KIND", "aB", "status_code", "B9", "A", "Z_", "HttpMethod", "le", "quantile", "x0", "METHOD_2", "__y", "Struct"]


def lgroup(n, kinds, ren, pre=""):
    fs = [lfield(k, i) for i, k in enumerate(kinds)]
    names = [pre + NAMES[i % 4] + ("" if i < 4 else str(i)) for i in range(len(kinds))]
    if ren == "type":
        names = ["r#type"] + names[1:]
    lab = [LREN[(i + n) % len(LREN)] + ("" if i < len(LREN) else "_%d" % i) if ren and ren != "type" and ren >> i & 1 else names[i] for i in range(len(kinds))]
    if ren == "type":
        lab[0] = "type"
    lt = "<'a>" if any(f["lt"] for f in fs) else ""
    o = "pub mod g%d { use super::*;\n#[derive(measured::LabelGroup, Clone, Copy, PartialEq, Debug)]\n#[label(set = TSet)]\npub struct T%s {\n" % (n, lt)
    for i, f in enumerate(fs):
        at = [a for a in [f["attr"]] if a]
        if lab[i] != names[i]:
            at.insert(i % 2 * len(at), "rename = %s" % rs(lab[i]))
        if at:
            o += "".join("#[label(%s)] " % a for a in at) if n % 5 == 0 else "#[label(%s)] " % ", ".join(at)
        o += "pub %s: %s,\n" % (names[i], f["ty"])
    o += "}\n"
    desc = "{%s}" % ", ".join("%s%s" % (k, " as " + l if l != m else "") for k, l, m in zip(kinds, lab, names))
    # the dynamic fields come first in the constructor
    order = [i for i, f in enumerate(fs) if f["dyn"]] + [i for i, f in enumerate(fs) if not f["dyn"]]
    args = ", ".join(fs[i]["ctor"] for i in order if fs[i]["ctor"])
    ctor = "TSet::new(%s)" % args
    if not args and n % 2 == 0:
        ctor = "TSet::default()"
    o += "pub struct S;\nimpl Shape for S { type Set = TSet;\nfn desc() -> String { %s.into() }\nfn set() -> TSet { %s }\n" % (rs(desc), ctor)
    o += "fn radix() -> Vec<(usize, usize)> { vec![%s] }\n" % ", ".join("(%d, %d)" % (len(f["vals"]), len(f["vals"]) - f["out"]) for f in fs)
    o += "fn group(v: &[usize]) -> T%s { T { %s } }\n" % ("<'static>" if lt else "", ", ".join("%s: [%s][v[%d]]" % (names[i], ", ".join(f["vals"]), i) for i, f in enumerate(fs)))
    o += "fn labels(v: &[usize]) -> Labels { vec![%s] }\n" % ", ".join(
        "(%s.to_string(), [%s][v[%d]].clone())" % (rs(lab[i]), ", ".join("ls(%s)" % rs(x[2:]) if x[0] == "S" else "Val::I(%s)" % x[2:] for x in f["labels"]), i) for i, f in enumerate(fs))
    if any(f["dyn"] for f in fs):
        card = "None"
    else:
        c = 1
        for f in fs:
            c *= len(f["vals"]) - f["out"]
        card = "Some(%d)" % c
    o += "fn card() -> Option<usize> { %s }\n} }\n" % card
    return o, lt


def groups(thorough):
    out, reg = [], {}
    n = 0

    def add(kinds, ren=0, pre=""):
        nonlocal n
        key = (tuple(kinds), ren, pre)
        if key in reg:
            return
        reg[key] = n
        out.append(lgroup(n, kinds, ren, pre)[0])
        n += 1
    base = ["E2", "E3", "F", "D"]
    allk = ["E1", "X2", "E3", "F", "A", "I", "P", "N", "M", "D", "DD", "DA"]
    for ln in range(0, 4):
        for ks in itertools.product(base, repeat=ln):
            add(ks)
    for ks in itertools.product(["E3", "F", "D"], repeat=4):
        if thorough or ks.count("F") <= 2:
            add(ks)
    for k in allk:
        add([k])
    for ks in itertools.product(allk, repeat=2):
        if thorough or hash_mix(ks) % 2 == 0:
            add(ks)
    # every subset of renamed fields
    for ln in (1, 2, 3):
        for ks in itertools.product(["E2", "F", "D"] if ln < 3 or thorough else ["E2", "D"], repeat=ln):
            for m in range(1, 2**ln):
                add(ks, m)
    # many fields (identifiers of more than eleven dynamic ones do not compile: tuples end there)
    wide = []
    for ln in (6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65, 100):
        wide.append(["E2" if i in (0, ln // 2, ln - 1) else "E1" for i in range(ln)])
        wide.append([("E2", "F", "X2", "P", "M", "A")[i // (ln // 4) % 6] if i % (ln // 4) == 1 else "E1" for i in range(ln)])
    for ln in (6, 7, 8, 9, 10, 11):
        wide.append(["D" if i in (0, ln // 2, ln - 1) else "D1" for i in range(ln)])
    for ks in wide:
        add(ks)
        add(ks, (1 << len(ks)) - 2)
        add(ks, 1 << len(ks) - 1)
    add(["E2"], "type")
    add(["F", "E2"], "type")
    add(["D", "F"], "type")
    if thorough:
        for ks in itertools.product(["E2", "A", "I", "P", "N", "M", "DD", "DA"], repeat=3):
            add(ks)
        for ks in itertools.product(["E2", "F", "D"], repeat=5):
            add(ks)
    calls = ["g%d::S" % i for i in range(n)] + ["SoloShape"]
    rep = [(), ("E2",), ("F",), ("D",), ("E3", "E2"), ("D", "F"), ("F", "E3"), ("E2", "D", "F")]
    if thorough:
        rep += [("E3", "F", "E2"), ("D", "D"), ("P", "N"), ("M", "DD")]
    for k in rep:
        for pre in ("p_", "q_"):
            add(k, 0, pre)

    def at(k, pos):
        return "SoloShape" if k == "solo" else "g%d::S" % reg[(k, 0, ["", "p_", "q_"][pos])]
    rep.append("solo")
    comp = ["Shared<SoloShape>", "Static<SoloShape>"]
    comp += ["%s<%s>" % (w, at(r, 0)) for w in ("Shared", "Static") for r in rep]
    comp += ["Pair<%s, %s>" % (at(p, 0), at(q, 1)) for p, q in itertools.product(rep, repeat=2) if (p, q) != ("solo", "solo")]
    for p in itertools.product(rep[1:5], repeat=3):
        a, b, c = (at(k, i) for i, k in enumerate(p))
        comp += ["Pair<%s, Pair<%s, %s>>" % (a, b, c), "Pair<Pair<%s, %s>, %s>" % (a, b, c)]
    comp += ["Shared<Pair<%s, Shared<%s>>>" % (at(p, 0), at(q, 1)) for p, q in itertools.product(rep[1:5], repeat=2)]
    body = "use super::*;\n" + "".join(out)
    for f in ("07", "26"):
        body += "pub fn all%s(cx: &mut Cx) {\n" % f + "".join("c%s::<%s>(cx);\n" % (f, c) for c in calls + comp) + "}\n"
    return body


def hash_mix(ks):
    x = 0
    for c in "".join(ks):
        x = (x * 31 + ord(c)) & 0xFFFF
    return x >> 3


for tier in ("quick", "thorough"):
    write("groups_%s.rs" % tier, groups(tier == "thorough"))


# ------------------------------------------------------------------ C19 metric groups
def num(x):
    """as Rust prints it with {:?}"""
    return repr(float(x))


class Field:
    """a field of a group: how it is declared, filled and what it is expected to expose"""

    def __init__(self, ty, attrs=(), setup=None, fams=None, pb=True, absent=(), default=True, args=()):
        self.ty, self.attrs, self.setup, self.fams, self.pb, self.absent, self.default, self.args = ty, list(attrs), setup, fams, pb, absent, default, list(args)
        self.docs, self.help, self.rename, self.name = None, None, None, None


def s1(x):
    return lambda n: [("{} {}".format(n + "{}", num(x)))]


COUNTER = 0


def val():
    """a number no other field has"""
    global COUNTER
    COUNTER += 1
    return COUNTER % 9000 + 1


def hist(n, labels, obs):
    """samples of a histogram over [1, 2] with these observations"""
    out, ex = [], ("," + labels if labels else "")
    for le in (1, 2, float("inf")):
        t = "le=inf" if le == float("inf") else "le=%s" % num(le)
        l = ",".join(sorted(x for x in [t] + ([labels] if labels else [])))
        out.append("%s_bucket{%s} %s" % (n, l, num(sum(o <= le for o in obs))))
    out.append("%s_sum{%s} %s" % (n, labels, num(sum(obs))))
    out.append("%s_count{%s} %s" % (n, labels, num(len(obs))))
    return out


TH = "Thresholds::with_buckets([1.0, 2.0])"


def metric(kind):
    """a fresh Field of the kind"""
    x = val()
    if kind == "c":
        return Field("Counter", setup=lambda p: "%s.inc_by(%d);" % (p, x), fams=lambda n: ("counter", s1(x)(n)))
    if kind == "g":
        return Field("Gauge", setup=lambda p: "%s.set(-%d);" % (p, x), fams=lambda n: ("gauge", s1(-x)(n)))
    if kind == "fg":
        return Field("FloatGauge", setup=lambda p: "%s.set(%d.25);" % (p, x), fams=lambda n: ("gauge", s1(x + 0.25)(n)))
    if kind == "c0":  # untouched
        return Field("Counter", setup=lambda p: "", fams=lambda n: ("counter", s1(0)(n)))
    if kind == "h":
        return Field("Histogram<2>", ["metadata = " + TH], lambda p: "%s.observe(0.5); %s.observe(%d.5);" % (p, p, x), lambda n: ("histogram", hist(n, "", [0.5, x + 0.5])), pb=False, default=False)
    if kind == "cv":
        return Field("CounterVec<KindSet>", ["label_set = KindSet::new()"], lambda p: "%s.inc_by(k(1), %d);" % (p, x), lambda n: ("counter", ["%s{kind=two} %s" % (n, num(x))]))
    if kind == "cvd":
        return Field("CounterVec<StaticLabelSet<Solo>>", [], lambda p: "%s.inc_by(Solo::One, %d); %s.inc(Solo::Two);" % (p, x, p), lambda n: ("counter", ["%s{solo=one} %s" % (n, num(x)), "%s{solo=two} 1.0" % n]))
    if kind == "cve":  # no series yet
        return Field("CounterVec<KindSet>", [], lambda p: "", lambda n: ("counter", []))
    if kind == "gv":
        return Field("GaugeVec<KindSet>", ["init = GaugeVec::sparse_with_label_set(KindSet::new())"], lambda p: "%s.set(k(0), -%d);" % (p, x), lambda n: ("gauge", ["%s{kind=one} %s" % (n, num(-x))]))
    if kind == "fgv":
        return Field("FloatGaugeVec<KindSet>", ["metadata = ()"], lambda p: "%s.set(k(0), %d.5);" % (p, x), lambda n: ("gauge", ["%s{kind=one} %s" % (n, num(x + 0.5))]))
    if kind == "hv":
        return Field("HistogramVec<KindSet, 2>", ["label_set = KindSet::new()", "metadata = " + TH], lambda p: "%s.observe(k(1), %d.0);" % (p, x), lambda n: ("histogram", hist(n, "kind=two", [x])), pb=False, default=False)
    if kind == "hvm":
        return Field("HistogramVec<KindSet, 2>", ["metadata = " + TH], lambda p: "%s.observe(k(0), %d.0);" % (p, x), lambda n: ("histogram", hist(n, "kind=one", [x])), pb=False, default=False)
    if kind == "oc":  # absent
        return Field("Option<Counter>", [], lambda p: "", None)
    if kind == "os":  # present
        return Field("Option<Counter>", ["init = Some(Counter::new())"], lambda p: "%s.as_ref().unwrap().inc_by(%d);" % (p, x), lambda n: ("counter", s1(x)(n)), default=False)
    if kind == "ov":
        return Field("Option<CounterVec<KindSet>>", ["init = Some(CounterVec::new())"], lambda p: "%s.as_ref().unwrap().inc_by(k(0), %d);" % (p, x), lambda n: ("counter", ["%s{kind=one} %s" % (n, num(x))]), default=False)
    if kind == "ar":  # label set from an argument
        return Field("CounterVec<RouteSet>", ["label_set = RouteSet::new(%ARG)"], lambda p: "%s.inc_by(Route { route: \"/b%d\", kind: Solo::Two }, %d);" % (p, x, x), lambda n: ("counter", ["%s{kind=two,route=/b%d} %s" % (n, x, num(x))]), default=False, args=[("RodeoReader", "routes(&[\"/a\", \"/b%d\"])" % x)])
    if kind == "at":  # metadata from an argument
        return Field("Histogram<2>", ["metadata = %ARG"], lambda p: "%s.observe(%d.0);" % (p, x), lambda n: ("histogram", hist(n, "", [x])), pb=False, default=False, args=[("Thresholds<2>", TH)])
    if kind == "ai":  # init from an argument
        return Field("Counter", ["init = { let c = Counter::new(); c.inc_by(%ARG); c }"], lambda p: "%s.inc_by(1);" % p, lambda n: ("counter", s1(x + 1)(n)), default=False, args=[("u64", "%d" % x)])
    raise Exception(kind)


DOCS = [
    None, (["/// help"], "help"), (["/// two", "/// lines"], "two lines"), (["/// a", "///", "/// b"], "a b"), (["/** block */"], "block"), (["///   spaced   "], "spaced"),
    (["/// back\\\\slash \"quoted\" \u00e9"], "back\\\\slash \"quoted\" \u00e9"), (["#[doc = \"line\\nfeed\"]"], "line\nfeed"), (["///"], ""),
    (["/// A sentence."], "A sentence."), (["/// To be continued..."], "To be continued..."), (["/// ends: "], "ends:"), (["/// # HELP m gauge"], "# HELP m gauge"), (["/// -1, (two); [three]?!"], "-1, (two); [three]?!"),
    (["/// ."], "."), (["#[doc = \"\\\\n ends with a backslash \\\\\"]"], "\\n ends with a backslash \\"), (["/// " + "long " * 1200 + "text."], "long " * 1200 + "text."),
    (["/// First line.", "///", "/// * a list", "/// * `code` <b>"], "First line. * a list * `code` <b>"), (["#[doc = \"tab\\there\"]"], "tab\there"), (["/// UPPER_lower UPPER"], "UPPER_lower UPPER"), (["/// \u2603"], "\u2603"),
]
MREN = ["renamed_total", "Cap", "x:y", "_under", "zz9"]
MNAMES = ["zulu", "b", "alpha_total", "q_7", "m"] + ["%s%d" % (["f", "fooBar", "__a", "LOUD_", "x_"][i % 5], i) for i in range(5, 120)]


class Group:
    count = 0

    def __init__(self, fields, derive_default=False, generic=None):
        """fields: Field or (how, Group, wrapper) with how None for flatten or a namespace"""
        self.id = Group.count
        Group.count += 1
        self.fields, self.dd, self.generic = fields, derive_default, generic
        self.name = "G%d" % self.id

    # declaration of this group and of those inside
    def decl(self, rename=0, docs=()):
        out, args = "", []
        body = ""
        for i, f in enumerate(self.fields):
            nm = MNAMES[i]
            if isinstance(f, Field):
                f.name = nm
                if rename >> i & 1:
                    f.rename = MREN[(i + self.id) % 5] + ("" if i < 5 else str(i))
                f.pub = f.rename or nm
                attrs = []
                a = ["arg%d_%d" % (i, j) for j in range(len(f.args))]
                for at in f.attrs:
                    for v in a:
                        at = at.replace("%ARG", v)
                    attrs.append(at)
                args += [(v, t, e) for v, (t, e) in zip(a, f.args)]
                if f.rename:
                    attrs.insert(self.id % 2 * len(attrs), "rename = %s" % rs(f.rename))
                d = docs[i] if i < len(docs) else None
                if d:
                    f.help = d[1]
                    body += "".join(l + "\n" for l in d[0])
                if attrs:
                    body += "".join("#[metric(%s)]\n" % x for x in attrs) if self.id % 3 == 0 else "#[metric(%s)]\n" % ", ".join(attrs)
                body += "pub %s: %s,\n" % (nm, "M%d" % i if self.generic == i else f.ty)
            else:
                how, g, wrap = f
                # every other one has help texts of its own
                out += g.decl(0, [DOCS[(g.id * 5 + j * 3) % len(DOCS)] for j in range(5)] if g.id % 2 == 0 else ())
                ty, ctor = g.wrapped(wrap)
                at = "flatten" if how is None else "namespace = %s" % rs(how)
                body += "#[metric(%s%s)]\npub %s: %s,\n" % (at, "" if self.dd else ", init = %s" % ctor, nm, ty)
        self.args = args
        gen = "<M%d>" % self.generic if self.generic is not None else ""
        o = "#[derive(measured::MetricGroup%s)]\n" % (", Default" if self.dd else "")
        if not self.dd:
            # a default needs the type itself when it is generic
            o += "#[metric(new(%s))]\n" % ", ".join("%s: %s" % (a, t) for a, t, _ in args)
        o += "pub struct %s%s%s {\n%s}\n" % (self.name, gen, "" if self.generic is None or self.dd else " where M%d: Default" % self.generic, body)
        return out + o

    def ty(self):
        return self.name + ("<%s>" % self.fields[self.generic].ty if self.generic is not None else "")

    def ctor(self):
        t = self.name + ("::<%s>" % self.fields[self.generic].ty if self.generic is not None else "")
        return t + "::default()" if self.dd else "%s::new(%s)" % (t, ", ".join(e for _, _, e in self.args))

    def wrapped(self, w):
        t, c = self.ty(), self.ctor()
        if w == "some":
            return "Option<%s>" % t, "Some(%s)" % c
        if w == "none":
            return "Option<%s>" % t, "None"
        if w == "arc":
            return "Arc<%s>" % t, "Arc::new(%s)" % c
        if w == "ref":
            return "&'static %s" % t, "Box::leak(Box::new(%s))" % c
        if w == "oarc":
            return "Option<Arc<%s>>" % t, "Some(Arc::new(%s))" % c
        if w == "aopt":
            return "Arc<Option<%s>>" % t, "Arc::new(Some(%s))" % c
        return t, c

    def setup(self, p):
        o = ""
        for i, f in enumerate(self.fields):
            q = "%s.%s" % (p, MNAMES[i])
            if isinstance(f, Field):
                o += f.setup(q)
            elif f[2] != "none":
                o += f[1].setup("%s.as_ref().unwrap()" % q if f[2] in ("some", "oarc") else "(*%s).as_ref().unwrap()" % q if f[2] == "aopt" else q)
        return o

    def fams(self, pre=""):
        """[(name, help, type, samples)], [absent names]"""
        out, absent = [], []
        for f in self.fields:
            if isinstance(f, Field):
                n = pre + f.pub
                if f.fams is None:
                    absent.append(n)
                else:
                    t, s = f.fams(n)
                    out.append((n, f.help, t, s))
            elif f[2] != "none":
                a, b = f[1].fams(pre if f[0] is None else pre + f[0] + "_")
                out += a
                absent += b
        return out, absent

    def pb(self):
        return all(f.pb if isinstance(f, Field) else f[1].pb() for f in self.fields)


def mcase(n, what, g, decl, ctor=None, fams=None, setup=None, ty=None):
    """one program: declaration, value, expected exposition"""
    o = "pub mod m%d { use super::*;\n%s" % (n, decl)
    fs, ab = fams or g.fams()
    o += "pub static WANT: &[Fam] = &[%s];\n" % ", ".join(
        "Fam { name: %s, help: %s, typ: %s, samples: &[%s] }" % (rs(a), "Some(%s)" % rs(h) if h is not None else "None", rs(t), ", ".join(map(rs, s))) for a, h, t, s in fs)
    o += "pub fn run(cx: &mut Cx) { %s(cx, %s, || { let g = %s; %s g }, WANT, &[%s]); } }\n" % (
        "check_pb" if g.pb() else "check", rs(what), ctor or g.ctor(), setup or g.setup("g"), ", ".join(map(rs, ab)))
    return o


def mgroups(thorough):
    out = []
    Group.count = 0
    global COUNTER
    COUNTER = 0
    wraps19 = ["", "some", "arc", "ref", "oarc", "aopt"]
    kinds = ["c", "g", "fg", "c0", "h", "cv", "cvd", "cve", "gv", "fgv", "hv", "hvm", "oc", "os", "ov", "ar", "at", "ai"]

    def add(what, g, rename=0, docs=(), **kw):
        decl = g.decl(rename, docs)
        out.append(mcase(len(out), what, g, decl, **kw))

    def dname(d):
        return "doc" + repr(d[1]) if d else "no doc"
    # one field: every kind, renamed or not, every doc
    for kd in kinds:
        for ren in (0, 1):
            for d in (DOCS if thorough or kd in ("c", "cv", "oc") else DOCS[: 3 if ren else 2]):
                add("one field %s%s, %s" % (kd, " renamed" if ren else "", dname(d)), Group([metric(kd)]), ren, [d])
    # default instead of a constructor
    for kd in ("c", "g", "fg", "cvd", "cve", "oc"):
        add("defaulted field %s" % kd, Group([metric(kd)], derive_default=True))
        add("generic field %s" % kd, Group([metric(kd), metric("c")], derive_default=True, generic=0))
        add("generic field %s with a constructor" % kd, Group([metric("g"), metric(kd)], generic=1)) if kd not in ("cv",) else None
    # two fields: every ordered pair
    for i, (a, b) in enumerate(itertools.product(kinds, repeat=2)):
        if thorough or i % 2 == 0 or a == b:
            add("two fields %s, %s" % (a, b), Group([metric(a), metric(b)]), [0, 1, 2, 3][i % 4], [DOCS[i % len(DOCS)], DOCS[(i // 3) % len(DOCS)]])
    # three fields
    for i, ks in enumerate(itertools.product(["c", "cv", "oc", "ar", "h"] if thorough else ["c", "cv", "oc", "ar"], repeat=3)):
        add("three fields %s" % ", ".join(ks), Group([metric(x) for x in ks]), i % 8, [DOCS[i % 3], None, DOCS[(i + 1) % 4]])
    if thorough:
        for i, ks in enumerate(itertools.product(["c", "g", "ar"], repeat=5)):
            add("five fields %s" % ", ".join(ks), Group([metric(x) for x in ks]), i % 32, [DOCS[i % 3]])
    # many fields
    for ln in (6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65, 100):
        for off in range(3):
            ks = [(kinds if off == 2 else ["c", "g", "fg", "cv", "oc", "cvd", "os"])[(i * (off + 1) + off) % (len(kinds) if off == 2 else 7)] for i in range(ln)]
            add("%d fields from %s on" % (ln, ks[0]), Group([metric(x) for x in ks]), [0, (1 << ln) - 1, 0x5555555 | 1 << ln - 1][off], [DOCS[(i + off) % len(DOCS)] for i in range(ln)] if ln <= 16 or off == 2 else [None] * (ln - 1) + [DOCS[1]])
            if ln > 16:
                break
    add("40 defaulted fields", Group([metric(["c", "g", "cvd", "oc"][i % 4]) for i in range(40)], derive_default=True))
    # deep nesting
    for depth in (5, 6, 7, 8, 12):
        for off in range(3):
            g = Group([metric("c"), metric("cv")])
            for lvl in reversed(range(depth)):
                x = (None, ("ns", "Ns_9", "a:b", "x_", "_")[lvl % 5])[(off or lvl) % 2] if off < 2 else "level_%d" % lvl
                g = Group([metric("g"), (x, g, wraps19[(lvl * (off + 1)) % 6])])
            uniq(g, [0])
            add("nesting %d deep, %d" % (depth, off), g)
    # every namespace text
    for ns in ("n", "N", "_", "__", "x_", "a:b", "ns9", "nsUPPER", "le", "namespace_" * 30):
        g = Group([metric("c"), (ns, Group([metric("c"), metric("cv"), metric("oc")]), "")])
        uniq(g, [0])
        add("namespace %s" % ns[:20], g, 0, [None, DOCS[1]])
    # nesting: every sequence of namespaces and flattening, every wrapper, with fields before and after
    hows = [None, "ns", "other_ns"]
    wraps = ["", "some", "none", "arc", "ref", "oarc"]
    for depth in (1, 2, 3) + ((4,) if thorough else ()):
        for j, path in enumerate(itertools.product(hows, repeat=depth)):
            ws = itertools.product(wraps, repeat=depth) if depth == 1 or (depth == 2 and thorough) else [[wraps[(j + s + 2 * i) % 6] for i in range(depth)] for s in range(6 if depth == 2 or thorough else 2)]
            for w in ws:
                g = Group([metric("c"), metric("cv")])
                g.fields[0].deep = True
                for lvl in reversed(range(depth)):
                    f = [metric("g"), (path[lvl], g, w[lvl])]
                    if lvl % 2 == 0:
                        f.append(metric("fg"))
                    if (j + lvl) % 3 == 0:
                        f = f[1:2] + f[:1] + f[2:]
                    g = Group(f)
                uniq(g, [0])
                add("nesting %s of %s" % ("/".join(x or "(flat)" for x in path), "/".join(x or "plain" for x in w)), g, 0, [DOCS[1], DOCS[2], DOCS[1]])
    # two groups inside one
    for i, (h1, h2, w1, w2) in enumerate(itertools.product(hows, hows, wraps, wraps)):
        if not thorough and i % 4:
            continue
        g = Group([(h1, Group([metric("c"), metric("oc")]), w1), metric("h"), (h2, Group([metric("c"), metric("cvd")]), w2)])
        uniq(g, [0])
        add("two groups: %s %s, %s %s" % (h1 or "(flat)", w1 or "plain", h2 or "(flat)", w2 or "plain"), g)
    # composed groups, alone and with a namespace around them
    for a, b in itertools.product(["c", "g", "cv", "oc", "ai"], repeat=2):
        ga, gb = Group([metric(a)]), Group([metric(b)])
        ga.pre, gb.pre = "l_", "r_"
        uniq(ga, [0])
        uniq(gb, [10])
        decl = ga.decl(0, [DOCS[1]]) + gb.decl(0, [DOCS[2]])
        for ns in (None, "outer"):
            p = "" if ns is None else ns + "_"
            fa, fb = ga.fams(p), gb.fams(p)
            ctor = "ComposedGroup(%s, %s)" % (ga.ctor(), gb.ctor())
            setup = ga.setup("g.0") + gb.setup("g.1")
            if ns:
                ctor = "{ let g = %s; %s WithNamespace::new(%s, g) }" % (ctor, setup, rs(ns))
                setup = ""
            w = Group([])
            w.pb = lambda ga=ga, gb=gb: ga.pb() and gb.pb()
            out.append(mcase(len(out), "composed %s + %s in %s" % (a, b, ns), w, decl, ctor=ctor, fams=(fa[0] + fb[0], fa[1] + fb[1]), setup=setup or " "))
    # composed, shared and optional groups as fields
    for i, (how, wrap) in enumerate(itertools.product(hows, ["%s", "Arc<%s>", "Option<%s>"])):
        ga, gb = Group([metric("c"), metric("cv")]), Group([metric("g")])
        uniq(ga, [0])
        uniq(gb, [10])
        decl = ga.decl(0, [DOCS[1]]) + gb.decl(0, [DOCS[2]])
        p = "" if how is None else how + "_"
        fa, fb = ga.fams(p), gb.fams(p)
        cg = "ComposedGroup<%s, %s>" % (ga.ty(), gb.ty())
        init = {"%s": "%s", "Arc<%s>": "Arc::new(%s)", "Option<%s>": "Some(%s)"}[wrap] % ("ComposedGroup(%s, %s)" % (ga.ctor(), gb.ctor()))
        decl += "#[derive(measured::MetricGroup)]\n#[metric(new())]\npub struct Top { #[metric(%s, init = %s)] f: %s }\n" % ("flatten" if how is None else "namespace = " + rs(how), init, wrap % cg)
        q = "g.f.as_ref().unwrap()" if wrap[0] == "O" else "g.f"
        w = Group([])
        out.append(mcase(len(out), "composed field %s in %s" % (wrap, how), w, decl, ctor="Top::new()", fams=(fa[0] + fb[0], fa[1] + fb[1]), setup=ga.setup(q + ".0") + gb.setup(q + ".1")))
    # borrowed groups
    for how in hows:
        ga = Group([metric("c"), metric("cv")])
        decl = ga.decl(0, [DOCS[2]])
        decl += "#[derive(measured::MetricGroup)]\n#[metric(new(inner: &'a %s))]\npub struct Top<'a> { #[metric(%s)] #[metric(init = inner)] f: &'a %s, #[metric(rename = \"own\")] g: Gauge }\n" % (ga.name, "flatten" if how is None else "namespace = " + rs(how), ga.name)
        fa = ga.fams("" if how is None else how + "_")
        w = Group([])
        out.append(mcase(len(out), "borrowed group in %s" % how, w, decl, ctor="Top::new(Box::leak(Box::new(%s)))" % ga.ctor(), fams=(fa[0] + [("own", None, "gauge", ["own{} -3.0"])], fa[1]), setup=ga.setup("g.f") + "g.g.set(-3);"))
    return "use super::*;\n" + "".join(out) + "pub fn all(cx: &mut Cx) {\n" + "".join("m%d::run(cx);\n" % i for i in range(len(out))) + "}\n"


def uniq(g, c):
    """gives the fields of nested groups names of their own through renames"""
    for f in g.fields:
        if isinstance(f, Field):
            f.rename = "u%d_%s" % (c[0], ["z", "a", "m"][c[0] % 3])
            c[0] += 1
        else:
            uniq(f[1], c)


for tier in ("quick", "thorough"):
    write("mgroups_%s.rs" % tier, mgroups(tier == "thorough"))
