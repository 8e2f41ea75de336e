"""Programs that must not compile, each next to one that must and differs from it only in what is wrong.

programs(thorough) -> [(id, wrong program or None, right program, meaning)]; `meaning` is given where a program
is not wrong by itself: if it compiles, it has to run successfully."""

import itertools

HEAD = """#![allow(dead_code, unused, non_camel_case_types, non_snake_case)]
use measured::{*, label::*, metric::name::MetricName, metric::histogram::Thresholds};
"""


def dedup(ps):
    seen, out = set(), []
    for p in ps:
        if p[0] not in seen:
            seen.add(p[0])
            out.append(p)
    return out


# strings that are no names; the characters next to those allowed, at every place
def bad_names(colon_ok, thorough):
    chars = ["/", "@", "[", "`", "{", "-", ".", " ", "^", "\\u{0}", "\\u{7f}", "é", "\\u{660}", "\\u{ff41}", "\\n", "\\\"", "$", "~"]
    if not colon_ok:
        chars += [":", ";"]
    else:
        chars += [";"]
    if thorough:
        seen = set(chars)
        for c in range(128):
            x = chr(c)
            if not (x.isalnum() or x == "_" or (colon_ok and x == ":")):
                e = "\\u{%x}" % c
                if e not in seen:
                    chars.append(e)
    out = ["", "0", "9", "1a", "0_", "9:"]
    for c in chars:
        out += [c, c + "a", "a" + c, "a" + c + "b"]
        if thorough:
            out += ["abcdefg" + c, "abcdefgh" + c, "abcdefghijklmno" + c + "p", c * 2]
    # at every place of longer names
    for n in range(3, 41 if thorough else 20):
        for i in range(n):
            if thorough or i in (0, n // 2, n - 1):
                out.append("a" * i + "-" + "b" * (n - i - 1))
    return out


def pairs(colon_ok):
    ok = lambda c: chr(c).isalnum() or chr(c) == "_" or (colon_ok and chr(c) == ":")
    return ["\\u{%x}\\u{%x}" % (a, b) for a in range(128) for b in range(128) if not (ok(a) and ok(b)) or chr(a).isdigit()]


def near(names):
    """misspellings of the names"""
    out = []
    for n in names:
        for i in range(len(n)):
            out += [n[:i], n[:i] + n[i + 1:], n[:i + 1] + n[i:], n[:i] + n[i].upper() + n[i + 1:]]
            if i:
                out.append(n[:i - 1] + n[i] + n[i - 1] + n[i + 1:])
        out += [n + "s", n + "_", "_" + n, n + "1", n.replace("_", "")]
    return sorted({x for x in out if x and x.isidentifier() and x not in ("_", "as", "in", "if", "fn", "do", "crate", "_crate")} - set(names))


LITS = ["1", "true", "'c'", "b\"x\"", "1.5", "name", "[\"a\"]", "(\"a\")", "-\"a\"", "\"a\" \"b\"", "\"a\" + \"b\"", "concat!(\"a\")"]


def near_cases():
    ok = ["snake_case", "kebab-case", "UpperCamelCase", "lowerCamelCase", "Title Case", "SHOUTY_SNAKE_CASE", "SHOUTY-KEBAB-CASE", "Train-Case"]
    out = []
    for n in ok:
        for i in range(len(n)):
            out += [n[:i], n[:i] + n[i + 1:], n[:i + 1] + n[i:], n[:i] + n[i].swapcase() + n[i + 1:]]
    return sorted(set(out) - set(ok))


def attr_shapes(attr, args, allow=(), more=()):
    """ways to get an attribute wrong, given its arguments {name: (right spelling, takes a string)}"""
    out = ["#[%s]" % attr, "#[%s = \"a\"]" % attr, "#[%s = 1]" % attr]
    unknown = ["unknown", "renam", "rename_", "Rename", "RENAME", "renames", "sets", "Set", "krate", "crates", "fixed_", "dynamic", "with", "defaults",
               "singletons", "rename_al", "renameall", "namespaces", "name", "help", "prefix", "flat", "flattened", "inits", "label_sets", "labelset",
               "meta", "skip", "doc", "r#rename", "measured", "self", "label", "metric", "new_", "news"]
    names = [a for a in args]
    out += ["#[%s(a::b)]" % attr, "#[%s(a::b = \"a\")]" % attr, "#[%s(::a)]" % attr]
    for u in unknown + list(more):
        if u in names or u in allow:
            continue
        for form in ["%s", "%s = \"a\"", "%s(a)", "%s()", "%s = 1"]:
            out.append("#[%s(%s)]" % (attr, form % u))
    for n, (right, string) in args.items():
        # given twice
        out.append("#[%s(%s, %s)]" % (attr, right, right))
        out.append("#[%s(%s)] #[%s(%s)]" % (attr, right, attr, right))
        for m, (other, _) in args.items():
            if m != n:
                out.append("#[%s(%s, %s, %s)]" % (attr, right, other, right))
                # no comma between
                out.append("#[%s(%s %s)]" % (attr, right, other))
                # an unknown one among the known
                out.append("#[%s(%s, unknown, %s)]" % (attr, right, other))
                out.append("#[%s(%s; %s)]" % (attr, right, other))
        out.append("#[%s(%s, unknown)]" % (attr, right))
        out.append("#[%s(unknown, %s)]" % (attr, right))
        out.append("#[%s(unknown = \"a\", %s)]" % (attr, right))
        out.append("#[%s(%s, unknown = \"a\")]" % (attr, right))
        out.append("#[%s(, %s)]" % (attr, right))
        out.append("#[%s(%s,,)]" % (attr, right))
        out.append("#[%s(a::%s)]" % (attr, right))
        if "=" in right:
            value = right.split("=", 1)[1].strip()
            out += ["#[%s(%s)]" % (attr, n), "#[%s(%s =)]" % (attr, n), "#[%s(%s())]" % (attr, n), "#[%s(%s(%s))]" % (attr, n, value), "#[%s(%s: %s)]" % (attr, n, value), "#[%s(%s == %s)]" % (attr, n, value)]
        else:
            out += ["#[%s(%s = \"a\")]" % (attr, right), "#[%s(%s = %s)]" % (attr, right, right)]
        if string:
            for l in LITS:
                out.append("#[%s(%s = %s)]" % (attr, n, l))
    return out


def enums(thorough):
    P = []
    def enum(attrs, variants, derive="FixedCardinalityLabel"):
        return HEAD + "#[derive(%s, Clone, Copy)]\n%s\nenum E { %s }\nfn main() { let _ = E::decode(0).encode(); }\n" % (derive, attrs, variants)
    base = enum("", "A, B, C")
    # things that are no enums
    for k, item in {"named struct": "struct E { a: u8 }", "tuple struct": "struct E(u8);", "unit struct": "struct E;", "empty struct": "struct E {}", "union": "union E { a: u8, b: i8 }"}.items():
        P.append(("enum: " + k, HEAD + "#[derive(FixedCardinalityLabel, Clone, Copy)]\n%s\nfn main() {}\n" % item, base, None))
    # variants with values
    for v in ["A(u8)", "A(&'static str)", "A { a: u8 }", "A(u8, u8)", "A(())", "A([u8; 0])", "A { a: (), b: () }"]:
        for pos in range(3):
            vs = ["X", "Y", "Z"]
            vs[pos] = v
            P.append(("enum: variant %s at %d" % (v, pos), enum("", ", ".join(vs)), base, None))
        P.append(("enum: only variant %s" % v, enum("", v), enum("", "A"), None))
    # container attributes
    args = {"rename_all": ('rename_all = "snake_case"', True), "singleton": ('singleton = "name"', True), "crate": ("crate = measured", False)}
    right = enum('#[label(rename_all = "snake_case", singleton = "name", crate = measured)]', "A, B, C")
    for a in attr_shapes("label", args, allow=("crate",), more=near(["rename_all", "singleton"]) if thorough else ()):
        P.append(("enum: " + a, enum(a, "A, B, C"), right, None))
    for c in ["", "crate", "\"measured\"", "1", "measured measured", "no_such_crate", "measured::label", "::"]:
        if c != "crate":
            P.append(("enum: crate = " + c, enum("#[label(crate = %s)]" % c, "A, B, C"), right, None))
    for s in ["", "snake", "Snake_case", "SNAKE_CASE", "snake_case ", " snake_case", "snake-case", "kebab_case", "Kebab-Case", "KEBAB-CASE-", "uppercamelcase", "upperCamelCase", "UpperCamel", "LowerCamelCase",
              "lowercamelcase", "SHOUTY_snake_CASE", "SHOUTYSNAKECASE", "SHOUTY-KEBAB_CASE", "title case", "TitleCase", "Title-Case", "Train_Case", "train-case", "Train Case", "none", "snake_case\\0", "snake_case,kebab-case"] + (near_cases() if thorough else []):
        P.append(("enum: rename_all %r" % s, enum('#[label(rename_all = "%s")]' % s, "A, B, C"), right, None))
    for s in bad_names(False, thorough):
        P.append(("enum: singleton %r" % s, enum('#[label(singleton = "%s")]' % s, "A, B, C"), right, None))
    # variant attributes
    for pos in range(3):
        right = enum("", ", ".join('#[label(rename = "x")] V%d' % i if i == pos else "V%d" % i for i in range(3)))
        for a in attr_shapes("label", {"rename": ('rename = "a"', True)}, more=near(["rename"]) if thorough and pos == 1 else ()):
            if pos == 0 or thorough or "unknown" in a or a.count("rename") == 2:
                P.append(("enum: variant %d %s" % (pos, a), enum("", ", ".join("%s V%d" % (a, i) if i == pos else "V%d" % i for i in range(3))), right, None))
    # values that are no numbers
    for pos in range(3):
        for v in ["'c'", "true", "\"a\"", "1.0", "b\"a\"", "\"1\""]:
            P.append(("enum: value %s at %d" % (v, pos), enum("", ", ".join("V%d = %s" % (i, v) if i == pos else "V%d" % i for i in range(3))), enum("", ", ".join("V%d = 7" % i if i == pos else "V%d" % i for i in range(3))), None))
    # values that could be meant: they may be refused, but if they are not, the label is the value
    for v, n in [("-1", -1), ("1 + 1", 2), ("(3)", 3), ("{ 4 }", 4), ("5 as isize", 5), ("-(6)", -6), ("N", 9), ("!0", -1), ("b'a'", 97), ("i8::MIN as isize", -128), ("-9223372036854775808", -2**63), ("9223372036854775807", 2**63 - 1)]:
        prog = HEAD + """const N: isize = 9;
#[derive(FixedCardinalityLabel, Clone, Copy)]
#[label(singleton = "v")]
enum E { A = %s }
fn main() {
    use measured::metric::MetricFamilyEncoding;
    let c: CounterVec<StaticLabelSet<E>> = CounterVec::new();
    c.inc(E::A);
    let mut e = measured::text::BufferedTextEncoder::new();
    c.collect_family_into(MetricName::from_str("m"), &mut e);
    let out = e.finish();
    let out = std::str::from_utf8(&out).unwrap();
    assert!(out.contains("m{v=\\"%d\\"} 1\\n"), "{out}");
}
""" % (v, n)
        P.append(("enum: value %s, if it is taken" % v, prog, base, "run"))
    return P


def groups(thorough):
    P = []
    TYPES = """
#[derive(FixedCardinalityLabel, Clone, Copy, PartialEq, Eq, Hash)]
enum F { A, B }
type Set = StaticLabelSet<F>;
type Dyn = lasso::ThreadedRodeo;
"""
    def group(attrs, fields, kind="struct G<'a> { %s }", extra="fn main() {}\n"):
        return HEAD + TYPES + "#[derive(LabelGroup, Clone, Copy)]\n%s\n%s\n%s" % (attrs, kind % fields, extra)
    SET = "#[label(set = S)]"
    ok = group(SET, "f: F, d: &'a str".replace("d:", "#[label(dynamic_with = Dyn)] d:"))
    for k, item in {"enum": "enum G<'a> { A(&'a str) }", "unit enum": "enum G { A, B }", "tuple struct": "struct G<'a>(F, &'a str);", "unit struct": "struct G;", "union": "union G { a: F, b: F }"}.items():
        P.append(("group: " + k, HEAD + TYPES + "#[derive(LabelGroup, Clone, Copy)]\n%s\n%s\nfn main() {}\n" % (SET, item), ok, None))
    for k, a in {"no attribute": "", "empty": "#[label()]", "only crate": "#[label(crate = measured)]"}.items():
        P.append(("group: set missing, " + k, group(a, "f: F", "struct G { %s }"), group(SET, "f: F", "struct G { %s }"), None))
    args = {"set": ("set = S", False), "crate": ("crate = measured", False)}
    for a in attr_shapes("label", args, allow=("crate", "set"), more=near(["set"]) if thorough else ()):
        P.append(("group: " + a, group(a, "f: F", "struct G { %s }"), group("#[label(set = S, crate = measured)]", "f: F", "struct G { %s }"), None))
        if "set" not in a:
            P.append(("group: with a set, " + a, group(SET + a, "f: F", "struct G { %s }"), group("#[label(set = S, crate = measured)]", "f: F", "struct G { %s }"), None))
    for s in ["", "\"S\"", "1", "a::S", "S S", "S<T>", "struct", "'a", "G"]:
        P.append(("group: set = " + s, group("#[label(set = %s)]" % s, "f: F", "struct G { %s }"), group(SET, "f: F", "struct G { %s }"), None))
    # fields
    FIELD = {"fixed": ("fixed", "F"), "fixed_with": ("fixed_with = Set", "F"), "dynamic_with": ("dynamic_with = Dyn", "&'a str")}
    fargs = {"fixed_with": ("fixed_with = Set", False), "default": ("default", False), "rename": ('rename = "x"', True)}
    okf = {p: group(SET, ", ".join(['#[label(fixed_with = Set, default, rename = "x")] f%d: F' % i if i == p else "f%d: F" % i for i in range(3)]), "struct G { %s }") for p in range(3)}
    shapes = attr_shapes("label", fargs, allow=("fixed",), more=[x for x in near(["fixed", "fixed_with", "dynamic_with", "default", "rename"]) if x != "fixed"] if thorough else ())
    for a, (ra, ta) in FIELD.items():
        for b, (rb, tb) in FIELD.items():
            # two kinds at once, the same one twice
            for t in sorted({ta, tb}):
                for s in ["#[label(%s, %s)]" % (ra, rb), "#[label(%s)] #[label(%s)]" % (ra, rb), "#[label(%s, default, %s)]" % (ra, rb), '#[label(%s, rename = "x", %s)]' % (ra, rb)]:
                    P.append(("group: %s of %s" % (s, t), group(SET, "%s f: %s, d: D" % (s, t), "struct G<'a> { %s }").replace("d: D", "#[label(dynamic_with = Dyn)] d: &'a str"), ok, None))
    for p in range(3):
        for a in shapes:
            if p == 1 or thorough or ("unknown" in a and "=" not in a):
                P.append(("group: field %d %s" % (p, a), group(SET, ", ".join("%s f%d: F" % (a, i) if i == p else "f%d: F" % i for i in range(3)), "struct G { %s }"), okf[p], None))
    # the same name twice: as names, as a rename and a name, as renames, at every two places
    for i, j in itertools.combinations(range(4), 2):
        for x, y in (('#[label(rename = "zz")] ', '#[label(rename = "zz")] '), ('#[label(rename = "f%d")] ' % j, ""), ("", '#[label(rename = "f%d")] ' % i)):
            at = {i: x, j: y}
            P.append(("group: duplicate name %d %d %s%s" % (i, j, x, y), group(SET, ", ".join("%sf%d: F" % (at.get(k, ""), k) for k in range(4)), "struct G { %s }"), group(SET, ", ".join("%sf%d: F" % (at.get(k, "").replace('"zz"', '"zz%d"' % k).replace('"f', '"g'), k) for k in range(4)), "struct G { %s }"), None))
    for w in ["fixed_with", "dynamic_with"]:
        for s in ["", "\"Set\"", "1", "Set Set", "NoSuchSet", "'a", "u8", "F"]:
            P.append(("group: %s = %s" % (w, s), group(SET, "#[label(%s = %s)] f: F" % (w, s), "struct G { %s }"), okf[0], None))
    for s in bad_names(False, thorough):
        for kind in ["", "fixed_with = Set, ", "dynamic_with = Dyn, "]:
            if kind and not thorough and len(s) > 2:
                continue
            t = "&'a str" if kind.startswith("dyn") else "F"
            mk = lambda n: group(SET, "#[label(%srename = \"%s\")] f: %s, %s" % (kind, n, t, "g: F"), "struct G%s { %%s }" % ("<'a>" if t[0] == "&" else ""))
            P.append(("group: %srename %r" % (kind, s), mk(s), mk("x"), None))
    # fields whose type does not fit
    for k, f, good in [("fixed &str", "f: &'a str", "#[label(dynamic_with = Dyn)] f: &'a str"), ("fixed u8", "f: u8, g: &'a str", None), ("fixed with strings", "#[label(fixed_with = Set)] f: &'a str", None),
                       ("dynamic enum", "#[label(dynamic_with = Dyn)] f: F, #[label(dynamic_with = Dyn)] d: &'a str", None), ("fixed with a dynamic set", "#[label(fixed_with = Dyn)] f: &'a str", None), ("dynamic of a fixed set", "#[label(dynamic_with = Set)] f: &'a str", None)]:
        P.append(("group: " + k, group(SET, f), ok, None))
    return P


def metrics(thorough):
    P = []
    TYPES = """
#[derive(FixedCardinalityLabel, Clone, Copy)]
#[label(singleton = "k")]
enum F { A, B }
#[derive(MetricGroup)]
#[metric(new())]
struct Inner { c: Counter }
fn set() -> StaticLabelSet<F> { StaticLabelSet::new() }
"""
    def m(attrs, fields, extra=""):
        return HEAD + TYPES + "#[derive(MetricGroup)]\n%s\nstruct M { %s }\n%s\nfn main() {}\n" % (attrs, fields, extra)
    ok = m("#[metric(new())]", 'a: Counter, #[metric(rename = "b")] c: Gauge, #[metric(namespace = "n", init = Inner::new())] n: Inner, #[metric(flatten, init = Inner::new())] f: Inner, #[metric(label_set = set())] v: CounterVec<StaticLabelSet<F>>, #[metric(metadata = Thresholds::with_buckets([1.0]))] h: Histogram<1>')
    for k, item in {"enum": "enum M { A(Counter) }", "unit enum": "enum M { A }", "tuple struct": "struct M(Counter);", "unit struct": "struct M;", "union": "union M { a: std::mem::ManuallyDrop<Counter> }"}.items():
        P.append(("metrics: " + k, HEAD + "#[derive(MetricGroup)]\n%s\nfn main() {}\n" % item, ok, None))
    args = {"new": ("new()", False), "crate": ("crate = measured", False)}
    for a in attr_shapes("metric", args, allow=("crate",), more=near(["new"]) if thorough else ()):
        P.append(("metrics: " + a, m(a, "a: Counter"), m("#[metric(new(), crate = measured)]", "a: Counter"), None))
    for s in ["new", "new =", "new = \"\"", "new[]", "new{}", "new() new()", "new(a)", "new(a:)", "new(a: )", "new(: u8)", "new(a: u8 b: u8)", "new(1)", "new(a: u8,, b: u8)", "new()()"]:
        P.append(("metrics: #[metric(%s)]" % s, m("#[metric(%s)]" % s, "a: Counter"), m("#[metric(new(a: u8, b: u8))]", "a: Counter"), None))
    # fields
    METRIC = {"rename": 'rename = "x"', "namespace": 'namespace = "x"', "flatten": "flatten"}
    for a, ra in METRIC.items():
        for b, rb in METRIC.items():
            for t in ["Counter", "Inner"]:
                for s in ["#[metric(%s, %s)]" % (ra, rb), "#[metric(%s)] #[metric(%s)]" % (ra, rb), "#[metric(%s)] /** doc */ #[metric(%s)]" % (ra, rb), "#[metric(%s, init = %s::new(), %s)]" % (ra, t, rb)]:
                    P.append(("metrics: %s of %s" % (s, t), m("#[metric(new())]", "x: Gauge, %s f: %s" % (s, t)), ok, None))
    INIT = {"init": "init = Default::default()", "metadata": "metadata = ()", "label_set": "label_set = set()"}
    for a, ra in INIT.items():
        for b, rb in INIT.items():
            if {a, b} == {"metadata", "label_set"}:
                continue
            for t in ["Counter", "CounterVec<StaticLabelSet<F>>"]:
                for new in ["#[metric(new())]", ""]:
                    for s in ["#[metric(%s, %s)]" % (ra, rb), "#[metric(%s)] #[metric(%s)]" % (ra, rb), '#[metric(%s, rename = "y", %s)]' % (ra, rb)]:
                        P.append(("metrics: %s %s of %s" % (new, s, t), m(new, "x: Gauge, %s f: %s" % (s, t)), ok, None))
    for a in attr_shapes("metric", {"rename": ('rename = "x"', True), "init": ("init = Counter::new()", False)}, allow=("new",), more=near(["rename", "namespace", "flatten", "init", "metadata", "label_set"]) if thorough else ()):
        for p in range(3):
            if p == 1 or thorough:
                P.append(("metrics: field %d %s" % (p, a), m("", ", ".join("%s f%d: Counter" % (a, i) if i == p else "f%d: Counter" % i for i in range(3))), m("", '#[metric(rename = "x", init = Counter::new())] f: Counter'), None))
    for a in attr_shapes("metric", {"namespace": ('namespace = "x"', True), "init": ("init = Inner::new()", False)}, allow=("new",)):
        if "namespace" in a or thorough:
            P.append(("metrics: group %s" % a, m("", "%s f: Inner, g: Counter" % a), m("", '#[metric(namespace = "x", init = Inner::new())] f: Inner, g: Counter'), None))
    for s in bad_names(True, thorough):
        for doc in ["", "/// doc\n"]:
            if doc and not thorough and len(s) > 2:
                continue
            P.append(("metrics: %srename %r" % (doc.strip(), s), m("", "%s#[metric(rename = \"%s\")] f: Counter" % (doc, s)), m("", "%s#[metric(rename = \"a:b\")] f: Counter" % doc), None))
    # the same name twice
    for i, j in itertools.combinations(range(4), 2):
        for x, y in (('#[metric(rename = "zz")] ', '#[metric(rename = "zz")] '), ('#[metric(rename = "f%d")] ' % j, ""), ("", '#[metric(rename = "f%d")] ' % i)):
            at = {i: x, j: y}
            P.append(("metrics: duplicate name %d %d %s%s" % (i, j, x, y), m("", ", ".join("%sf%d: Counter" % (at.get(k, ""), k) for k in range(4))), m("", ", ".join("%sf%d: Counter" % (at.get(k, "").replace('"zz"', '"zz%d"' % k).replace('"f', '"g'), k) for k in range(4))), None))
    # fields that are no metrics, groups or the other one
    for k, f in [("a number", "a: u8"), ("a string", "a: String"), ("a group as metric", "a: Inner"), ("a metric as group", "#[metric(flatten)] a: Counter"), ("a metric in a namespace", '#[metric(namespace = "x")] a: Counter'),
                 ("a number as group", "#[metric(flatten)] a: u8"), ("a metric state", "a: measured::metric::counter::CounterState")]:
        P.append(("metrics: " + k, m("", f, "fn c(m: &M, e: &mut measured::text::BufferedTextEncoder) { let _ = m.collect_group_into(e); }"), m("", "a: Counter, #[metric(flatten)] b: Inner", "fn c(m: &M, e: &mut measured::text::BufferedTextEncoder) { let _ = m.collect_group_into(e); }"), None))
    return P


def names(thorough):
    P = []
    def c(e, t):
        return HEAD + "const X: %s = %s;\nfn main() { let _ = X; }\n" % (t, e)
    for s in bad_names(False, thorough) + (pairs(False) if thorough else []):
        P.append(("names: label %r" % s, c('LabelName::from_str("%s")' % s, "&LabelName"), c('LabelName::from_str("a")', "&LabelName"), None))
    for s in bad_names(True, thorough):
        for e, t in [('MetricName::from_str("%s")', "&MetricName"), ('MetricName::from_str("a").in_namespace("%s")', "measured::metric::name::WithNamespace<&MetricName>"),
                     ('measured::metric::name::WithNamespace::new("%s", 1)', "measured::metric::name::WithNamespace<u8>")]:
            P.append(("names: " + e % s, c(e % s, t), c(e % "a:b", t), None))
    if thorough:
        for s in pairs(True):
            P.append(('names: metric %r' % s, c('MetricName::from_str("%s")' % s, "&MetricName"), c('MetricName::from_str("a:b")', "&MetricName"), None))
    return P


MISUSE = r'''
a reference outlives its vec | fn f() { let r; { let v: CounterVec<StaticLabelSet<F>> = CounterVec::new(); r = v.get_metric(v.with_labels(F::A)); } r.inc(); } | fn f() { let v: CounterVec<StaticLabelSet<F>> = CounterVec::new(); let r = v.get_metric(v.with_labels(F::A)); r.inc(); drop(r); }
a reference outlives its metric | fn f() { let r; { let v = Counter::new(); r = v.get_metric(); } r.inc(); } | fn f() { let v = Counter::new(); let r = v.get_metric(); r.inc(); }
a reference is returned without its vec | fn f() -> measured::metric::MetricLockGuard<'static, measured::metric::counter::CounterState> { let v: CounterVec<StaticLabelSet<F>> = CounterVec::new(); v.get_metric(v.with_labels(F::A)) } | fn f(v: &'static CounterVec<StaticLabelSet<F>>) -> measured::metric::MetricLockGuard<'static, measured::metric::counter::CounterState> { v.get_metric(v.with_labels(F::A)) }
the vec is dropped under a reference | fn f(v: CounterVec<StaticLabelSet<F>>) { let r = v.get_metric(v.with_labels(F::A)); drop(v); r.inc(); } | fn f(v: CounterVec<StaticLabelSet<F>>) { let r = v.get_metric(v.with_labels(F::A)); r.inc(); drop(r); drop(v); }
the vec moves under a reference | fn f(v: CounterVec<StaticLabelSet<F>>) { let r = v.get_metric(v.with_labels(F::A)); let w = v; r.inc(); } | fn f(v: CounterVec<StaticLabelSet<F>>) { let r = v.get_metric(v.with_labels(F::A)); r.inc(); drop(r); let w = v; }
exclusive access under a reference | fn f(mut v: CounterVec<StaticLabelSet<F>>) { let id = v.with_labels(F::A); let r = v.get_metric(id); v.get_metric_mut(id).inc(); r.inc(); } | fn f(mut v: CounterVec<StaticLabelSet<F>>) { let id = v.with_labels(F::A); let r = v.get_metric(id); r.inc(); drop(r); v.get_metric_mut(id).inc(); }
exclusive access twice | fn f(mut v: CounterVec<StaticLabelSet<F>>) { let id = v.with_labels(F::A); let a = v.get_metric_mut(id); let b = v.get_metric_mut(id); a.inc(); b.inc(); } | fn f(mut v: CounterVec<StaticLabelSet<F>>) { let id = v.with_labels(F::A); let a = v.get_metric_mut(id); a.inc(); let b = v.get_metric_mut(id); b.inc(); }
exclusive access through a shared vec | fn f(v: &CounterVec<StaticLabelSet<F>>) { let id = v.with_labels(F::A); v.get_metric_mut(id).inc(); } | fn f(v: &mut CounterVec<StaticLabelSet<F>>) { let id = v.with_labels(F::A); v.get_metric_mut(id).inc(); }
exclusive access to a shared metric | fn f(v: &Counter) { v.get_metric_mut().inc(); } | fn f(v: &mut Counter) { v.get_metric_mut().inc(); }
initialising a shared vec | fn f(v: &CounterVec<StaticLabelSet<F>>) { v.init_all_dense(); } | fn f(v: &mut CounterVec<StaticLabelSet<F>>) { v.init_all_dense(); }
removal while exclusively borrowed | fn f(mut v: CounterVec<StaticLabelSet<F>>) { let id = v.with_labels(F::A); let a = v.get_metric_mut(id); v.remove_metric(id); a.inc(); } | fn f(mut v: CounterVec<StaticLabelSet<F>>) { let id = v.with_labels(F::A); v.get_metric_mut(id).inc(); v.remove_metric(id); }
a timer outlives its vec | fn f() { let t; { let v: HistogramVec<StaticLabelSet<F>, 1> = HistogramVec::with_metadata(Thresholds::with_buckets([1.0])); t = v.start_timer(F::A); } t.observe(); } | fn f() { let v: HistogramVec<StaticLabelSet<F>, 1> = HistogramVec::with_metadata(Thresholds::with_buckets([1.0])); let t = v.start_timer(F::A); t.observe(); }
a timer is observed twice | fn f(v: &HistogramVec<StaticLabelSet<F>, 1>) { let t = v.start_timer(F::A); t.observe(); t.observe(); } | fn f(v: &HistogramVec<StaticLabelSet<F>, 1>) { let t = v.start_timer(F::A); t.observe(); }
a timer is observed and forgotten | fn f(v: &HistogramVec<StaticLabelSet<F>, 1>) { let t = v.start_timer(F::A); t.forget(); t.observe(); } | fn f(v: &HistogramVec<StaticLabelSet<F>, 1>) { let t = v.start_timer(F::A); t.forget(); }
labels of another enum | fn f(v: &CounterVec<StaticLabelSet<F>>) { v.inc(K::A); } | fn f(v: &CounterVec<StaticLabelSet<F>>) { v.inc(F::A); }
an identifier of another set | fn f(v: &CounterVec<StaticLabelSet<F>>, w: &CounterVec<StaticLabelSet<K>>) { v.get_metric(w.with_labels(K::A)); } | fn f(v: &CounterVec<StaticLabelSet<F>>, w: &CounterVec<StaticLabelSet<F>>) { v.get_metric(w.with_labels(F::A)); }
too many buckets | fn f() { let v: Histogram<1> = Histogram::with_metadata(Thresholds::with_buckets([1.0, 2.0])); } | fn f() { let v: Histogram<2> = Histogram::with_metadata(Thresholds::with_buckets([1.0, 2.0])); }
too few buckets | fn f() { let v: Histogram<3> = Histogram::with_metadata(Thresholds::with_buckets([1.0, 2.0])); } | fn f() { let v: Histogram<2> = Histogram::with_metadata(Thresholds::with_buckets([1.0, 2.0])); }
a gauge's method on a counter | fn f(v: &Counter) { v.get_metric().dec(); } | fn f(v: &Gauge) { v.get_metric().dec(); }
a counter set | fn f(v: &Counter) { v.get_metric().set(3); } | fn f(v: &Gauge) { v.get_metric().set(3); }
a counter counts backwards | fn f(v: &Counter) { v.inc_by(-1); } | fn f(v: &Counter) { v.inc_by(1); }
a metric that only one thread may use, shared | fn f(v: &'static measured::metric::Metric<Own<std::cell::Cell<u8>>>) { share(v); } | fn f(v: &'static measured::metric::Metric<Own<u8>>) { share(v); }
a vec of metrics that only one thread may use, shared | fn f(v: &'static measured::metric::MetricVec<Own<std::cell::Cell<u8>>, StaticLabelSet<F>>) { share(v); } | fn f(v: &'static measured::metric::MetricVec<Own<u8>, StaticLabelSet<F>>) { share(v); }
a vec of metrics that must not move, sent | fn f(v: measured::metric::MetricVec<Own<std::rc::Rc<u8>>, StaticLabelSet<F>>) { send(v); } | fn f(v: measured::metric::MetricVec<Own<u8>, StaticLabelSet<F>>) { send(v); }
a metric that must not move, sent | fn f(v: measured::metric::Metric<Own<std::rc::Rc<u8>>>) { send(v); } | fn f(v: measured::metric::Metric<Own<u8>>) { send(v); }
an encoder with its own writer, sent | fn f(v: measured::text::TextEncoder<Nosend>) { send(v); } | fn f(v: measured::text::TextEncoder<Vec<u8>>) { send(v); }
a protobuf encoder with its own writer, sent | fn f(v: measured_prometheus_protobuf::ProtoEncoder<Nosend>) { send(v); } | fn f(v: measured_prometheus_protobuf::ProtoEncoder<Vec<u8>>) { send(v); }
a name that does not last | fn f(s: String) -> &'static MetricName { MetricName::try_from_str(&s).unwrap() } | fn f(s: &'static String) -> &'static MetricName { MetricName::try_from_str(s).unwrap() }
a label name that does not last | fn f(s: String) -> &'static LabelName { LabelName::from_str(&s) } | fn f(s: &'static String) -> &'static LabelName { LabelName::from_str(s) }
a name changed behind its check | fn f(n: &mut MetricName) { n.0.make_ascii_lowercase(); } | fn f(n: &MetricName) { }
a name made without its check | fn f(n: &'static str) -> Box<MetricName> { MetricName(*n) } | fn f(n: &'static str) -> &'static MetricName { MetricName::from_str(n) }
thresholds changed behind their check | fn f(t: &mut Thresholds<1>) { t.get_mut()[0] = f64::NAN; } | fn f(t: &Thresholds<1>) -> f64 { t.get()[0] }
a metric type without a default | struct N; impl measured::metric::MetricType for N { type Metadata = (); } fn f() { let v = measured::metric::Metric::<N>::new(); } | #[derive(Default)] struct N; impl measured::metric::MetricType for N { type Metadata = (); } fn f() { let v = measured::metric::Metric::<N>::new(); }
a lock guard sent to another thread | fn f(v: &'static CounterVec<StaticLabelSet<F>>) { send(v.get_metric(v.with_labels(F::A))); } | fn f(v: &'static CounterVec<StaticLabelSet<F>>) { send(v.with_labels(F::A)); }
a histogram without thresholds | fn f() { let h: Histogram<1> = Histogram::new(); } | fn f() { let h: Counter = Counter::new(); }
a histogram vec without thresholds | fn f() { let h: HistogramVec<StaticLabelSet<F>, 1> = HistogramVec::new(); } | fn f() { let h: CounterVec<StaticLabelSet<F>> = CounterVec::new(); }
a vec without its label set | fn f() { let h: CounterVec<StringSet> = CounterVec::new(); } | fn f() { let h: CounterVec<StaticLabelSet<F>> = CounterVec::new(); }
an identifier made by hand | fn f() -> LabelId<StaticLabelSet<F>> { measured::metric::LabelId(measured::metric::LabelIdInner { id: 7, hash: 0 }) } use measured::metric::LabelId; | fn f(v: &CounterVec<StaticLabelSet<F>>) -> LabelId<StaticLabelSet<F>> { v.with_labels(F::A) } use measured::metric::LabelId;
thresholds made by hand | fn f() -> Thresholds<1> { Thresholds { le: [f64::NAN] } } | fn f() -> Thresholds<1> { Thresholds::with_buckets([1.0]) }
metadata that only one thread may use, shared | fn f(v: &'static measured::metric::Metric<Meta<std::cell::Cell<u8>>>) { share(v); } | fn f(v: &'static measured::metric::Metric<Meta<u8>>) { share(v); }
metadata that must not move, sent | fn f(v: measured::metric::MetricVec<Meta<std::rc::Rc<u8>>, StaticLabelSet<F>>) { send(v); } | fn f(v: measured::metric::MetricVec<Meta<u8>, StaticLabelSet<F>>) { send(v); }
a metric that only one thread may use, composed and shared | fn f(v: &'static ComposedGroup<Counter, measured::metric::Metric<Own<std::cell::Cell<u8>>>>) { share(v); } use measured::metric::group::ComposedGroup; | fn f(v: &'static ComposedGroup<Counter, measured::metric::Metric<Own<u8>>>) { share(v); } use measured::metric::group::ComposedGroup;
a metric that must not move, in a namespace, sent | fn f(v: measured::metric::name::WithNamespace<measured::metric::Metric<Own<std::rc::Rc<u8>>>>) { send(v); } | fn f(v: measured::metric::name::WithNamespace<measured::metric::Metric<Own<u8>>>) { send(v); }
a name of a namespace that does not last | fn f(s: String) -> measured::metric::name::WithNamespace<&'static MetricName> { MetricName::from_str("a").in_namespace(&s) } | fn f(s: &'static String) -> measured::metric::name::WithNamespace<&'static MetricName> { MetricName::from_str("a").in_namespace(s) }
a shared state leaves its lock | fn f(v: &'static CounterVec<StaticLabelSet<F>>) -> &'static measured::metric::counter::CounterState { &*v.get_metric(v.with_labels(F::A)) } | fn f(v: &'static CounterVec<StaticLabelSet<F>>) -> u64 { v.get_metric(v.with_labels(F::A)).count.load(std::sync::atomic::Ordering::Relaxed) }
a shared state changed through its lock | fn f(v: &CounterVec<StaticLabelSet<F>>) { *v.get_metric(v.with_labels(F::A)).count.get_mut() = 3; } | fn f(v: &mut CounterVec<StaticLabelSet<F>>) { let id = v.with_labels(F::A); *v.get_metric_mut(id).count.get_mut() = 3; }
a group decoded beyond its set | fn f<'a>(s: &'a StringSet) -> <StringSet as LabelSet>::Value<'static> { s.decode(0) } | fn f<'a>(s: &'a StringSet) -> <StringSet as LabelSet>::Value<'a> { s.decode(0) }
'''
MISUSE_HEAD = HEAD + """
#[derive(FixedCardinalityLabel, Clone, Copy)]
#[label(singleton = "f")]
enum F { A, B }
#[derive(FixedCardinalityLabel, Clone, Copy)]
#[label(singleton = "k")]
enum K { A, B }
#[derive(Default)]
struct Own<T>(T);
impl<T: Default> measured::metric::MetricType for Own<T> { type Metadata = (); }
#[derive(Default)]
struct Meta<T>(std::marker::PhantomData<fn() -> T>);
impl<T: Default> measured::metric::MetricType for Meta<T> { type Metadata = T; }
type StringSet = lasso::RodeoReader;
fn share<T: Sync>(_: &'static T) {}
fn send<T: Send>(_: T) {}
struct Nosend(*mut u8);
impl std::io::Write for Nosend {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
"""


def misuse(thorough):
    P = []
    for l in MISUSE.strip().split("\n"):
        name, bad, good = l.split(" | ")
        P.append(("misuse: " + name, MISUSE_HEAD + bad + "\nfn main() {}\n", MISUSE_HEAD + good + "\nfn main() {}\n", None))
    return P


def programs(thorough):
    return dedup(enums(thorough) + groups(thorough) + metrics(thorough) + names(thorough) + misuse(thorough))


if __name__ == "__main__":
    for t in (False, True):
        print(len(programs(t)))
