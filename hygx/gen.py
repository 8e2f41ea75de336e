"""Right programs that differ in the names of user code: each must compile and do what it says.

programs(thorough, repo) -> [(id, text)]; a text has a `pub fn run()` that panics if the derived code does something else."""
import glob, itertools, os, re

KEYWORDS = """as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while
async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen""".split()
NORAW = ("crate", "self", "super", "Self", "_")
PRIMITIVES = "bool char str i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64".split()
PRELUDE = "Copy Send Sized Sync Unpin Drop Fn FnMut FnOnce Box ToOwned Clone PartialEq PartialOrd Eq Ord AsRef AsMut Into From Default Iterator Extend IntoIterator DoubleEndedIterator ExactSizeIterator Option Result String ToString Vec TryFrom TryInto FromIterator".split()
TRAITS = "Copy Clone Fn FnMut FnOnce Sized Send Sync Iterator Into From Default Encoding Drop".split()
MACROS = "panic unreachable unimplemented todo assert assert_eq assert_ne debug_assert debug_assert_eq debug_assert_ne write writeln format vec matches".split()
VALUES = ("Some", "None", "Ok", "Err")


def is_ident(w):
    return re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", w) and w != "_"


def raw(n):
    return "r#" + n if n in KEYWORDS else n


def source_words(repo):
    """the words of the derives' source"""
    words = set()
    for f in sorted(glob.glob(os.path.join(repo, "derive", "src", "**", "*.rs"), recursive=True)):
        words |= set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", open(f).read()))
    return {w for w in words if is_ident(w)}


# what the derives make of these is read for the names they use
def samples():
    none = lambda p: p.split("pub fn run()")[0].replace(", " + CORE, "").replace(", ::core::default::Default", "")
    return [none(group_program("zza")), none(metric_program("zza")), none(enum_program("Zze")),
            "#[derive(::measured::LabelGroup)] #[label(set = ZzSet)] struct Zzg { zza: super::zz::Zz2, #[label(fixed_with = super::zz::ZzSet)] zzb: &'static str }"]


def expanded_words(text):
    text = re.sub(r'"(\\.|[^"\\])*"', '""', text)
    return {w for w in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", text) if is_ident(w) and not w.lower().startswith("zz")}


def camel(w):
    return bool(re.fullmatch(r"[A-Z]|[A-Z][A-Za-z0-9]*[a-z][A-Za-z0-9]*", w))


def shouty(w):
    return re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", w).upper().strip("_") or "X"


HEAD = "#![allow(dead_code, unused, non_camel_case_types, non_snake_case, non_upper_case_globals)]\n"
# what the derived code is looked at with; its names begin with `zz`, so that nothing of the program can hide them
SUPPORT = r"""
pub mod zz {
    pub use ::measured::label::{LabelGroup as ZzG, LabelGroupSet as ZzS, LabelSet as ZzL, LabelValue as ZzV, FixedCardinalityLabel as ZzF};
    pub struct ZzVisit(pub ::std::vec::Vec<(::std::string::String, ::std::string::String)>);
    pub struct ZzText;
    impl ::measured::label::LabelVisitor for ZzText {
        type Output = ::std::string::String;
        fn write_int(self, x: i64) -> ::std::string::String { ::std::format!("{x}") }
        fn write_float(self, x: f64) -> ::std::string::String { ::std::format!("{x}") }
        fn write_str(self, x: &str) -> ::std::string::String { ::std::string::ToString::to_string(x) }
    }
    impl ::measured::label::LabelGroupVisitor for ZzVisit {
        type Output = ();
        fn write_value(&mut self, name: &::measured::label::LabelName, x: &impl ::measured::label::LabelValue) {
            self.0.push((::std::string::ToString::to_string(name.as_str()), x.visit(ZzText)));
        }
    }
    pub fn zz_group(g: &impl ::measured::label::LabelGroup) -> ::std::string::String {
        let mut v = ZzVisit(::std::vec::Vec::new());
        g.visit_values(&mut v);
        ::std::iter::Iterator::collect::<::std::vec::Vec<_>>(::std::iter::Iterator::map(::std::iter::IntoIterator::into_iter(v.0), |(a, b)| ::std::format!("{a}={b}"))).join(",")
    }
    pub fn zz_value(x: &impl ::measured::label::LabelValue) -> ::std::string::String { x.visit(ZzText) }
    pub fn zz_metrics<G>(g: &G) -> ::std::string::String
    where G: for<'a> ::measured::metric::group::MetricGroup<::measured::text::BufferedTextEncoder> {
        let mut e = ::measured::text::BufferedTextEncoder::new();
        g.collect_group_into(&mut e).unwrap();
        // the lines, with numbers written in one way
        let mut out = ::std::string::String::new();
        for l in ::std::str::from_utf8(&e.finish()).unwrap().lines() {
            if l.is_empty() { continue; }
            if l.starts_with('#') { out.push_str(l); out.push('\n'); continue; }
            let (name, value) = l.rsplit_once(' ').unwrap();
            out.push_str(&match name.split_once("le=\"") {
                ::core::option::Option::Some((a, b)) => ::std::format!("{a}le=\"{}\"}}", b.strip_suffix("\"}").unwrap().parse::<f64>().unwrap()),
                ::core::option::Option::None => ::std::string::ToString::to_string(name),
            });
            out.push_str(&::std::format!(" {}\n", value.parse::<f64>().unwrap()));
        }
        out
    }
    pub fn zz_eq<T: ::std::cmp::PartialEq<U> + ::std::fmt::Debug, U: ::std::fmt::Debug>(a: T, b: U) {
        ::std::assert_eq!(a, b);
    }
    #[derive(::measured::FixedCardinalityLabel, Clone, Copy, PartialEq, Debug)]
    pub enum Zz2 { Xa, Xb }
    #[derive(::measured::FixedCardinalityLabel, Clone, Copy, PartialEq, Debug)]
    pub enum Zz3 { Ya, Yb, Yc }
    /// a set of the user's
    #[derive(Default)]
    pub struct ZzSet;
    pub const ZZW: [&str; 3] = ["wa", "wb", "wc"];
    impl ::measured::label::LabelSet for ZzSet {
        type Value<'a> = &'static str;
        fn dynamic_cardinality(&self) -> Option<usize> { Some(3) }
        fn encode(&self, x: &'static str) -> Option<usize> { ZZW.iter().position(|w| *w == x) }
        fn decode(&self, x: usize) -> &'static str { ZZW[x] }
    }
    impl ::measured::label::FixedCardinalitySet for ZzSet {}
    pub type ZzRodeo = ::lasso::ThreadedRodeo;
    pub type ZzHist<const ZZN: usize> = ::measured::Histogram<ZZN>;
    pub fn zz_thresholds<const ZZN: usize>() -> ::measured::metric::histogram::Thresholds<ZZN> { ::measured::metric::histogram::Thresholds::exponential_buckets(1.0, 2.0) }
}
"""
CORE = "::core::clone::Clone, ::core::marker::Copy, ::core::cmp::PartialEq, ::core::fmt::Debug"


def text_counter(*pairs):
    return "".join("# TYPE %s counter\\n%s %d\\n" % (n, n, v) for n, v in pairs)


def group_program(a, b=None, c=None, group="ZzGroup", set="ZzGroupSet", lifetime="'a", attrs=("", "", ""), names=None, pre="", order=(0, 1, 2)):
    """a label group of three kinds of fields and everything its derived code does"""
    b, c = b or a + "_zz", c or a + "_zy"
    names = names or [a, b, c]
    fs = ["%s%s: super::zz::Zz2" % (attrs[0], raw(a)),
          "#[label(fixed_with = super::zz::ZzSet, default)] %s%s: &%s str" % (attrs[1], raw(b), "'static"),
          "#[label(dynamic_with = super::zz::ZzRodeo, default)] %s%s: &%s str" % (attrs[2], raw(c), lifetime)]
    w = ["{}", "{}", "{}"]
    want = ",".join("%s={%s}" % (names[i], ("pa", "pb", "pc")[i]) for i in order)
    return """%s
#[derive(::measured::LabelGroup, %s)]
#[label(set = %s)]
struct %s<%s> { %s }
// fixed only
#[derive(::measured::LabelGroup, %s)]
#[label(set = ZzFixedSet)]
struct ZzFixed { %s }
pub fn run() {
    use super::zz::*;
    let set = %s::new();
    let fixed = ZzFixedSet::new();
    zz_eq(ZzS::cardinality(&set), ::core::option::Option::None);
    zz_eq(ZzS::cardinality(&fixed), ::core::option::Option::Some(6));
    let mut ids = ::std::vec::Vec::new();
    for (x, pa) in [(Zz2::Xa, "xa"), (Zz2::Xb, "xb")] { for pb in ZZW { for pc in ["p", "q"] {
        let g = %s { %s: x, %s: pb, %s: pc };
        zz_eq(zz_group(&g), ::std::format!("%s"));
        let id = ZzS::encode(&set, g).unwrap();
        zz_eq(<[_]>::contains(&ids, &id), false);
        ::std::vec::Vec::push(&mut ids, id);
        zz_eq(ZzS::decode(&set, &id), g);
        zz_eq(ZzS::encode_dense(&set, id), ::core::option::Option::None);
        let h = ZzFixed { %s: x, %s: pb };
        let id = ZzS::encode(&fixed, h).unwrap();
        zz_eq(id < 6, true);
        zz_eq(ZzS::encode_dense(&fixed, id), ::core::option::Option::Some(id));
        zz_eq(ZzS::decode(&fixed, &id), h);
        zz_eq(ZzS::decode_dense(&fixed, id), h);
    } } }
    let h = ZzFixed { %s: Zz2::Xa, %s: "none of them" };
    zz_eq(ZzS::encode(&fixed, h), ::core::option::Option::None);
}
""" % (pre, CORE, set, group, lifetime, ", ".join(fs[i] for i in order), CORE, ", ".join(fs[i] for i in order if i < 2), set, group, raw(a), raw(b), raw(c), want, raw(a), raw(b), raw(a), raw(b))


def metric_program(a, b=None, c=None, d=None, group="ZzMetrics", names=None, attrs=("", ""), pre="", field=("::measured::Counter",) * 2, generics=("", ""), impl=None):
    """a metric group with a documented metric, one from a histogram, a flattened group, and one in a namespace"""
    b, c, d = b or a + "_zz", c or a + "_zy", d or a + "_zx"
    na, nb = names or (a, b)
    return """%s
#[derive(::measured::MetricGroup, ::core::default::Default)]
struct ZzInner { inner: ::measured::Counter }
#[derive(::measured::MetricGroup, ::core::default::Default)]
struct ZzOther { other: ::measured::Counter }
#[derive(::measured::MetricGroup)]
#[metric(new(zz_start: u64))]
struct %s {
    /// what it is
    %s%s: %s,
    #[metric(metadata = super::zz::zz_thresholds())] %s%s: super::zz::ZzHist<2>,
    #[metric(flatten)] %s: ZzInner,
    #[metric(namespace = "ns", init = { let o = <ZzOther as ::core::default::Default>::default(); o.other.inc_by(zz_start); o })] %s: ZzOther,
}
pub fn run() {
    use super::zz::*;
    let g = %s::new(7);
    g.%s.inc_by(3);
    g.%s.observe(1.5);
    g.%s.inner.inc();
    zz_eq(zz_metrics(&g), "\\
# HELP %s what it is\\n# TYPE %s counter\\n%s 3\\n\\
# TYPE %s histogram\\n%s_bucket{le=\\"1\\"} 0\\n%s_bucket{le=\\"2\\"} 1\\n%s_bucket{le=\\"inf\\"} 1\\n%s_sum 1.5\\n%s_count 1\\n\\
# TYPE inner counter\\ninner 1\\n\\
# TYPE ns_other counter\\nns_other 7\\n");
}
""" % (pre, group, attrs[0], raw(a), field[0], attrs[1], raw(b), raw(c), raw(d), group, raw(a), raw(b), raw(c), na, na, na, nb, nb, nb, nb, nb, nb)


def enum_program(name="ZzEnum", variants=("Aa", "Bb", "Cc"), attrs=("", "", ""), values=("", "", ""), texts=None, pre="", singleton="kind"):
    texts = texts or [snake(v) for v in variants]
    return """%s
#[derive(::measured::FixedCardinalityLabel, %s)]
#[label(singleton = "%s")]
enum %s { %s }
pub fn run() {
    use super::zz::*;
    zz_eq(<%s as ZzF>::cardinality(), %d);
    %s
    zz_eq(::std::panic::catch_unwind(|| <%s as ZzF>::decode(%d)).is_err(), true);
}
""" % (pre, CORE, singleton, name, ", ".join("%s%s%s" % (a, raw(v), x) for a, v, x in zip(attrs, variants, values)), name, len(variants),
       "\n    ".join('zz_eq(zz_value(&%s::%s), "%s"); zz_eq(zz_group(&%s::%s), "%s=%s"); zz_eq(ZzF::encode(&%s::%s), %d); zz_eq(<%s as ZzF>::decode(%d), %s::%s);' % (
           name, raw(v), t, name, raw(v), singleton, t, name, raw(v), i, name, i, name, raw(v)) for i, (v, t) in enumerate(zip(variants, texts))), name, len(variants))


def snake(v):
    """only for plain names"""
    return re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", v).lower()


def same_scope(pre):
    """the three derives in one scope, with something else there"""
    bodies = [group_program("aa"), metric_program("bb"), enum_program()]
    return pre + "\n" + "\n".join(b.replace("pub fn run()", "fn zz_run%d()" % i) for i, b in enumerate(bodies)) + "\npub fn run() { zz_run0(); zz_run1(); zz_run2(); }\n"


def programs(thorough, repo, words):
    if thorough:
        words = words | source_words(repo)
    macros = set(MACROS) | ({w for w in words if re.match("[a-z]", w)} - set(NORAW) - set(KEYWORDS) - {"derive", "compile_error"} if thorough else set())
    lower = sorted({w for w in words if re.fullmatch(r"[a-z_][a-z0-9_]*", w)} | set(PRIMITIVES) | {
        "v", "x", "value", "index", "name", "_1", "_a", "a_", "a1", "__", "___", "__a", "main", "std", "core", "alloc", "measured", "default", "union", "raw", "auto", "macro_rules", "label", "metric", "le", "help", "r", "type", "match", "fn"})
    lower = [w for w in lower if w not in NORAW]
    keywords = [w for w in KEYWORDS if w not in NORAW and w not in lower]
    types = sorted({w for w in words if camel(w)} | set(PRELUDE) | {"V", "T", "E", "N", "A", "Err", "Output", "Error", "Enc"})
    types = [t for t in types if t not in KEYWORDS and not t.startswith("Zz")]
    out = []
    add = lambda id, p: out.append((id, p))
    # names of fields, at each place
    for n in lower:
        # no label name begins with two underscores? any legal one is fine here
        add("label field:%s" % n, group_program(n))
        add("set field:%s" % n, group_program("zz_" + n, n, "zy_" + n, order=(2, 1, 0)))
        add("dynamic field:%s" % n, group_program("zz_" + n, "zy_" + n, n, order=(1, 2, 0)))
        add("metric field:%s" % n, metric_program(n))
        add("histogram field:%s" % n, metric_program("zz_" + n, n, "zy_" + n, "zx_" + n))
        add("flattened field:%s" % n, metric_program("zz_" + n, "zy_" + n, n, "zx_" + n))
        add("namespace field:%s" % n, metric_program("zz_" + n, "zy_" + n, "zx_" + n, n))
        add("variant:%s" % n, enum_program(variants=("ZzFst", n, "ZzLst"), attrs=("", '#[label(rename = "t")] ', ""), texts=("zz_fst", "t", "zz_lst")))
        add("singleton:%s" % n, enum_program(singleton=n))
    for n in keywords:
        add("label field:%s" % n, group_program(n))
        add("metric field:%s" % n, metric_program(n))
        add("variant:%s" % n, enum_program(variants=("ZzFst", n, "ZzLst"), attrs=("", '#[label(rename = "t")] ', ""), texts=("zz_fst", "t", "zz_lst")))
    # names of types and variants
    for t in types:
        add("group named:%s" % t, group_program("aa", group=t))
        add("set named:%s" % t, group_program("aa", set=t))
        add("metrics named:%s" % t, metric_program("aa", group=t))
        add("enum named:%s" % t, enum_program(name=t))
        add("variant:%s" % t, enum_program(variants=("ZzFst", t, "ZzLst"), attrs=("", '#[label(rename = "t")] ', ""), texts=("zz_fst", "t", "zz_lst")))
        # something of this name in scope
        add("type in scope:%s" % t, same_scope("struct %s {}" % t))
        add("generic alias in scope:%s" % t, same_scope("type %s<X> = (X, X);" % t))
        add("trait in scope:%s" % t, same_scope("trait %s {}" % t))
        add("used type:%s" % t, metric_program("aa", field=(t, t), pre="type %s = ::measured::Counter;" % t))
        add("type parameter:%s" % t, """#[derive(::measured::MetricGroup)] struct ZzM<%s> { aa: %s, bb: ::measured::Counter }
pub fn run() { use super::zz::*; let g = ZzM { aa: ::measured::Counter::new(), bb: ::measured::Counter::new() }; g.aa.inc(); zz_eq(zz_metrics(&g), "%s"); }
""" % (t, t, text_counter(("aa", 1)) + text_counter(("bb", 0))))
    for m in sorted(macros):
        add("macro in scope:%s" % m, same_scope("macro_rules! %s { ($($x:tt)*) => { compile_error!(\"not this one\") } }" % m))
    # a trait of the user's for everything, with a method of this name
    for n in lower:
        if n in KEYWORDS or n.startswith("zz"):
            continue
        for form, sig in (("self", "&self"), ("two", "&self, _x: &usize")) if thorough else (("self", "&self"),):
            add("method in scope:%s:%s" % (form, n), same_scope("trait ZyExt { fn %s(%s) where Self: ::core::marker::Sized { ::core::panic!() } } impl<T> ZyExt for T {}" % (n, sig)))
        add("function in scope:%s" % n, same_scope("mod zy { pub fn %s() { ::core::panic!() } } use zy::*;" % n))
        add("module in scope:%s" % n, same_scope("mod %s {}" % n))
    # inherent methods of the user's own types with the names of those the derived code means
    for n in lower:
        if n in KEYWORDS or n.startswith("zz"):
            continue
        # (`new` and `default` are asked for, and called by the programs)
        imp = "".join("impl %s { pub fn %s(&self) -> ! { ::core::panic!() } }\n" % (t, n) for t in (("ZyEnum", "ZySet") if n == "new" else ("ZyEnum", "ZySet", "ZzGroup<'_>", "ZzGroupSet", "ZzFixed", "ZzFixedSet")))
        add("inherent:group:%s" % n, OWN_TYPES + imp + own(group_program("aa")))
        imp = "".join("impl %s { pub fn %s(&self) -> ! { ::core::panic!() } }\n" % (t, n) for t in ("ZzMetrics", "ZzInner", "ZzOther") if n != "new" or t != "ZzMetrics")
        add("inherent:metrics:%s" % n, imp + metric_program("aa"))
        add("inherent:enum:%s" % n, "impl ZzEnum { pub fn %s(&self) -> ! { ::core::panic!() } }\n" % n + enum_program())
    # constants and constant parameters in the type of a field with the same name
    for n in sorted({shouty(w) for w in lower + types if not w.startswith("_")}):
        if not is_ident(n) or n[0] == "_" or n.lower() in NORAW or n in types:
            continue
        f = n.lower()
        want = '# TYPE %s histogram\\n%s_bucket{le=\\"1\\"} 0\\n%s_bucket{le=\\"2\\"} 1\\n%s_bucket{le=\\"inf\\"} 1\\n%s_sum 1.5\\n%s_count 1\\n' % ((f,) * 6)
        body = """#[derive(::measured::MetricGroup)] #[metric(new())] struct ZzM%s { #[metric(metadata = super::zz::zz_thresholds())] %s: super::zz::ZzHist<%s> }
pub fn run() { use super::zz::*; let g = ZzM%s::new(); g.%s.observe(1.5); zz_eq(zz_metrics(&g), "%s"); }
"""
        add("constant:%s" % n, "const %s: usize = 2;\n" % n + body % ("", raw(f), n, "", raw(f), want))
        add("constant parameter:%s" % n, body % ("<const %s: usize>" % n, raw(f), n, "::<2>", raw(f), want))
    for l in ("a", "b", "static_", "v", "__a", "_a", "enc", "__enc_tmp", "self_", "measured"):
        add("lifetime:%s" % l, group_program("aa", lifetime="'" + l))
        add("metric lifetime:%s" % l, """#[derive(::measured::MetricGroup)] struct ZzM<'%s> { #[metric(flatten)] aa: &'%s ZzI, #[metric(namespace = "n")] bb: &'%s ZzI, cc: ::measured::Counter }
#[derive(::measured::MetricGroup)] struct ZzI { dd: ::measured::Counter }
pub fn run() { use super::zz::*; let i = ZzI { dd: ::measured::Counter::new() }; i.dd.inc(); let g = ZzM { aa: &i, bb: &i, cc: ::measured::Counter::new() }; zz_eq(zz_metrics(&g), "%s"); }
""" % ((l,) * 3 + (text_counter(("dd", 1), ("n_dd", 1), ("cc", 0)),)))
    # many names at once that differ in little
    alpha = "aB_1"
    near = [w for k in range(1, 5 if thorough else 4) for w in map("".join, itertools.product(alpha, repeat=k)) if is_ident(w)]
    add("near:labels", near_labels([(w, None) for w in near]))
    add("near:metrics", near_metrics([(w, None) for w in near]))
    ren = [w for k in range(1, 5 if thorough else 4) for w in map("".join, itertools.product(alpha + ":", repeat=k)) if not w[0].isdigit()]
    add("near:renamed labels", near_labels([("f%d" % i, w) for i, w in enumerate(w for w in ren if ":" not in w)]))
    add("near:renamed metrics", near_metrics([("f%d" % i, w) for i, w in enumerate(ren)]))
    add("near:swapped labels", near_labels([("aa", "bb"), ("bb", "aa"), ("cc", "dd"), ("dd", "Aa")]))
    add("near:swapped metrics", near_metrics([("aa", "bb"), ("bb", "aa"), ("cc", "dd"), ("dd", "Aa")]))
    out += surroundings() + by_macro() + forms()
    return out


OWN_TYPES = """
#[derive(Default)] pub struct ZySet;
impl ::measured::label::LabelSet for ZySet {
    type Value<'a> = &'static str;
    fn dynamic_cardinality(&self) -> Option<usize> { Some(3) }
    fn encode(&self, x: &'static str) -> Option<usize> { super::zz::ZZW.iter().position(|w| *w == x) }
    fn decode(&self, x: usize) -> &'static str { super::zz::ZZW[x] }
}
impl ::measured::label::FixedCardinalitySet for ZySet {}
#[derive(::measured::FixedCardinalityLabel, Clone, Copy, PartialEq, Debug)] pub enum ZyEnum { Xa, Xb }
"""


def own(p):
    return p.replace("super::zz::ZzSet", "ZySet").replace("super::zz::Zz2", "ZyEnum").replace("Zz2::", "ZyEnum::")


def forms():
    """shapes of items: parameters, bounds, where clauses, defaults, visibilities"""
    out = []
    for bits in itertools.product((0, 1), repeat=6):
        l, t, c, w, d, new = bits
        if d and not (t or c):
            continue
        ps = (["'x"] if l else []) + (["T%s%s" % ("" if w else ": ::core::marker::Send", " = ::measured::Counter" if d else "")] if t else []) + (["const C: usize%s" % (" = 2" if d else "")] if c else [])
        fs = ["aa: ::measured::Counter"] + (["#[metric(flatten%s)] bb: &'x ZzI" % (", init = zz_i" if new else "")] if l else []) + (["%scc: T" % ("#[metric(init = zz_t)] " if new else "")] if t else []) + (["#[metric(metadata = super::zz::zz_thresholds())] dd: super::zz::ZzHist<C>" if new else "dd: super::zz::ZzHist<C>"] if c else [])
        ins = (["zz_i: &'x ZzI"] if l else []) + (["zz_t: T"] if t else [])
        where = "where " + ", ".join((["T: ::core::marker::Send"] if t else []) + ["[u8; 3]: ::core::marker::Sized"]) if w else ""
        vals = (["&i"] if l else []) + (["::measured::Counter::new()"] if t else [])
        generic = "<%s>" % ", ".join((["'_"] if l else []) + (["::measured::Counter"] if t else []) + (["2"] if c else [])) if ps else ""
        make = "<ZzM%s>::new(%s)" % (generic, ", ".join(vals)) if new else "ZzM%s { aa: ::measured::Counter::new()%s%s%s }" % ("::" + generic if generic else "", ", bb: &i" if l else "", ", cc: ::measured::Counter::new()" if t else "", ", dd: super::zz::ZzHist::with_metadata(super::zz::zz_thresholds())" if c else "")
        want = text_counter(("aa", 1)) + (text_counter(("ii", 1)) if l else "") + (text_counter(("cc", 0)) if t else "") + ('# TYPE dd histogram\\ndd_bucket{le=\\"1\\"} 0\\ndd_bucket{le=\\"2\\"} 0\\ndd_bucket{le=\\"inf\\"} 0\\ndd_sum 0\\ndd_count 0\\n' if c else "")
        out.append(("form:metrics:%s" % "".join(map(str, bits)), """#[derive(::measured::MetricGroup, Default)] struct ZzI { ii: ::measured::Counter }
#[derive(::measured::MetricGroup)] %s struct ZzM%s %s { %s }
pub fn run() { use super::zz::*; let i = ZzI::default(); i.ii.inc(); let g = %s; g.aa.inc(); zz_eq(zz_metrics(&g), "%s"); }
""" % ("#[metric(new(%s))]" % ", ".join(ins) if new else "", "<%s>" % ", ".join(ps) if ps else "", where, ", ".join(fs), make, want)))
    vis = ["", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)"]
    for a, b in itertools.product(vis, repeat=2):
        k = "%s.%s" % (a, b)
        out.append(("form:visibility:group:" + k, group_program("aa", attrs=(b + " ",) * 3).replace("struct Zz", a + " struct Zz").replace("] %s aa" % b, "] %s aa" % b)))
        out.append(("form:visibility:metrics:" + k, metric_program("aa", attrs=("", "")).replace("struct ZzMetrics {", a + " struct ZzMetrics {").replace("    aa:", "    %s aa:" % b).replace("] bb_", "] %s bb_" % b)))
    # no fields, no variants
    out.append(("form:empty", """#[derive(::measured::LabelGroup, %s)] #[label(set = ZzGroupSet)] struct ZzGroup {}
#[derive(::measured::MetricGroup)] #[metric(new())] struct ZzM {}
pub fn run() { use super::zz::*; let s = ZzGroupSet::new(); zz_eq(ZzS::cardinality(&s), Some(1)); zz_eq(ZzS::encode(&s, ZzGroup {}), Some(0)); zz_eq(ZzS::decode(&s, &0), ZzGroup {}); zz_eq(zz_group(&ZzGroup {}), ""); zz_eq(zz_metrics(&ZzM::new()), ""); }
""" % CORE))
    return out


def near_labels(fs):
    attr = lambda r: '#[label(rename = "%s")] ' % r if r else ""
    return """#[derive(::measured::LabelGroup, %s)] #[label(set = ZzGroupSet)] struct ZzGroup { %s }
pub fn run() {
    use super::zz::*;
    let g = ZzGroup { %s };
    zz_eq(zz_group(&g), "%s");
}
""" % (CORE, ", ".join("%s%s: super::zz::%s" % (attr(r), raw(f), "Zz2") for f, r in fs), ", ".join("%s: Zz2::%s" % (raw(f), "Xb" if i % 3 else "Xa") for i, (f, _) in enumerate(fs)), ",".join("%s=%s" % (r or f, "xb" if i % 3 else "xa") for i, (f, r) in enumerate(fs)))


def near_metrics(fs):
    attr = lambda r: '#[metric(rename = "%s")] ' % r if r else ""
    return """#[derive(::measured::MetricGroup, ::core::default::Default)] struct ZzM { %s }
pub fn run() {
    use super::zz::*;
    let g = ZzM::default();
    %s
    zz_eq(zz_metrics(&g), "%s");
}
""" % (", ".join("%s%s: ::measured::Counter" % (attr(r), raw(f)) for f, r in fs), " ".join("g.%s.inc_by(%d);" % (raw(f), i) for i, (f, _) in enumerate(fs)), "".join(text_counter((r or f, i)) for i, (f, r) in enumerate(fs)))


def surroundings():
    out = []
    add = lambda id, p: out.append(("surroundings:" + id, p))
    g, m, e = group_program("aa"), metric_program("bb"), enum_program()
    for n, b in (("group", g), ("metrics", m), ("enum", e)):
        add("plain:" + n, b)
        add("no prelude:" + n, "#![no_implicit_prelude]\n" + b)
        items, run = b.split("pub fn run() {", 1)
        # items in a function, in a block of a constant, in a method
        sup = items.replace("super::zz", "crate::zz")
        body = run.replace("super::zz", "crate::zz")
        add("in a function:" + n, "pub fn run() {\n%s\n%s" % (sup, body))
        add("in a function of a generic function:" + n, "fn zz_f<T>(_t: T) {\n%s\n%s\npub fn run() { zz_f(1u8) }" % (sup, body))
        add("in a method:" + n, "struct ZzX; impl ZzX { fn zz_f(self) {\n%s\n%s }\npub fn run() { ZzX.zz_f() }" % (sup, body))
        add("in a constant:" + n, "const ZZF: fn() = {\n%s\nfn zz_f() {\n%s zz_f };\npub fn run() { ZZF() }" % (sup, body))
        add("in a closure:" + n, "pub fn run() { (|| {\n%s\n%s)() }" % (sup, body))
        add("in a module:" + n, "mod core {} mod std {} mod alloc {}\npub use super::zz; mod measured { pub use super::zz; pub mod label { pub use super::zz; %s } }\npub fn run() { measured::label::run() }" % b)
        add("nothing unsafe:" + n, "#![forbid(unsafe_code)]\n" + b)
    # the crate under another path
    for path, pre in (("measured", ""), ("::measured", ""), ("zy", "use ::measured as zy;"), ("self::zy::inner", "mod zy { pub use ::measured as inner; }"), ("super::zw", ""), ("crate::zw", "")):
        i = path.replace("::", ".")
        # nothing but the named path may be used: `measured` itself is something else here
        add("crate path:%s:group" % i, pre + g.replace("#[label(set = ", "#[label(crate = %s)] #[label(set = " % path))
        add("crate path:%s:metrics" % i, pre + m.replace("#[metric(new", "#[metric(crate = %s)] #[metric(new" % path))
        add("crate path:%s:enum" % i, pre + e.replace("#[label(singleton", "#[label(crate = %s)] #[label(singleton" % path))
    return out


def by_macro():
    """the derive in a macro_rules! macro, each part written there or given to it"""
    out = []
    # enums: name, variants, texts, numbers
    for bits in itertools.product((0, 1), repeat=5):
        n, v, t, d, lit = bits
        if lit and not d:
            continue
        frag = "literal" if lit else "expr"
        params = (["$n:ident"] if n else []) + (["$v:ident"] if v else []) + (["$t:literal"] if t else []) + (["$d:%s" % frag] if d else [])
        args = (["ZzEnum"] if n else []) + (["Bb"] if v else []) + (['"tt"'] if t else []) + (["200"] if d else [])
        name, var, txt, num = "$n" if n else "ZzEnum", "$v" if v else "Bb", "$t" if t else '"tt"', "$d" if d else "200"
        p = enum_program(texts=("tt", "200", "cc"))
        body = '#[derive(::measured::FixedCardinalityLabel, %s)] #[label(singleton = "kind")] enum %s { #[label(rename = %s)] Aa, %s = %s, Cc }' % (CORE, name, txt, var, num)
        out.append(("macro:enum:%s" % "".join(map(str, bits)), "macro_rules! zz_m { (%s) => { %s } }\nzz_m!(%s);\n" % (", ".join(params), body, ", ".join(args)) + "pub fn run()" + p.split("pub fn run()", 1)[1]))
    # groups: name, set, fields, type, set of the field, lifetime, visibility
    gp = group_program("aa", "bb", "cc", names=["aa", "tt", "cc"])
    run = "pub fn run()" + gp.split("pub fn run()", 1)[1]
    parts = [("$n:ident", "ZzGroup"), ("$s:ident", "ZzGroupSet"), ("$f:ident", "bb"), ("$t:ty", "super::zz::Zz2"), ("$p:path", "super::zz::ZzSet"), ("$l:lifetime", "'a"), ("$r:literal", '"tt"'), ("$vis:vis", "pub")]
    for bits in itertools.product((0, 1), repeat=len(parts)):
        x = [p[0].split(":")[0] if b else p[1] for p, b in zip(parts, bits)]
        params = " ; ".join(p[0] for p, b in zip(parts, bits) if b)
        args = " ; ".join(p[1] for p, b in zip(parts, bits) if b)
        body = """#[derive(::measured::LabelGroup, %s)] #[label(set = %s)] %s struct %s<%s> { %s aa: %s, #[label(fixed_with = %s, default, rename = %s)] %s: &'static str, #[label(dynamic_with = super::zz::ZzRodeo, default)] cc: &%s str }
#[derive(::measured::LabelGroup, %s)] #[label(set = ZzFixedSet)] struct ZzFixed { aa: %s, #[label(fixed_with = %s, default)] %s: &'static str }""" % (CORE, x[1], x[7], x[0], x[5], x[7], x[3], x[4], x[6], x[2], x[5], CORE, x[3], x[4], x[2])
        out.append(("macro:group:%s" % "".join(map(str, bits)), "macro_rules! zz_m { (%s) => { %s } }\nzz_m!(%s);\n" % (params, body, args) + run))
    # metric groups: name, field, type, name of the metric, documentation, start value, namespace
    mp = metric_program("aa", "bb", "cc", "dd", names=("tt", "bb"))
    items, run = mp.split("pub fn run()", 1)
    parts = [("$n:ident", "ZzMetrics"), ("$f:ident", "aa"), ("$t:ty", "::measured::Counter"), ("$r:literal", '"tt"'), ("$d:expr", '"what it is"'), ("$i:expr", "super::zz::zz_thresholds()"), ("$ns:literal", '"ns"'), ("$g:ident", "cc")]
    inner = items.split("#[derive(::measured::MetricGroup)]\n#[metric(new")[0]
    for bits in itertools.product((0, 1), repeat=len(parts)):
        x = [p[0].split(":")[0] if b else p[1] for p, b in zip(parts, bits)]
        params = " ; ".join(p[0] for p, b in zip(parts, bits) if b)
        args = " ; ".join(p[1] for p, b in zip(parts, bits) if b)
        body = """#[derive(::measured::MetricGroup)] #[metric(new(zz_start: u64))] struct %s { #[doc = %s] #[metric(rename = %s)] %s: %s, #[metric(metadata = %s)] bb: super::zz::ZzHist<2>, #[metric(flatten)] %s: ZzInner,
#[metric(namespace = %s, init = { let o = <ZzOther as ::core::default::Default>::default(); o.other.inc_by(zz_start); o })] dd: ZzOther }""" % (x[0], x[4], x[3], x[1], x[2], x[5], x[7], x[6])
        out.append(("macro:metrics:%s" % "".join(map(str, bits)), inner + "macro_rules! zz_m { (%s) => { %s } }\nzz_m!(%s);\n" % (params, body, args) + "pub fn run()" + run))
    # a whole item, its attributes, all of its tokens, a repetition
    for frag, pat, use in (("item", "$x:item", "$x"), ("tokens", "$($x:tt)*", "$($x)*"), ("meta", "$(#[$m:meta])* $k:ident $($x:tt)*", "$(#[$m])* $k $($x)*")):
        for n, b in (("group", group_program("aa")), ("metrics", metric_program("bb")), ("enum", enum_program())):
            items, run = b.split("pub fn run()", 1)
            # every item goes through the macro
            its = re.split(r"(?m)^(?=#\[derive)", "\n".join(l for l in items.splitlines() if not l.startswith("//")))
            out.append(("macro:%s:%s" % (frag, n), "macro_rules! zz_m { (%s) => { %s } }\n" % (pat, use) + "\n".join("zz_m! { %s }" % i for i in its if i.strip()) + "\npub fn run()" + run))
    out.append(("macro:repeated", """macro_rules! zz_m { ($n:ident { $($f:ident : $t:ty = $r:literal),* $(,)? }) => {
#[derive(::measured::MetricGroup, ::core::default::Default)] struct $n { $(#[metric(rename = $r)] $f: $t),* } } }
zz_m!(ZzM { aa: ::measured::Counter = "xx", bb: ::measured::Counter = "yy" });
pub fn run() { use super::zz::*; let g = ZzM::default(); g.aa.inc(); zz_eq(zz_metrics(&g), "%s"); }
""" % "".join(text_counter(p) for p in (("xx", 1), ("yy", 0)))))
    # a macro made by a macro, and one that is used twice with the same names
    out.append(("macro:nested", """macro_rules! zz_o { ($f:ident) => { macro_rules! zz_m { ($n:ident, $t:ty) => { #[derive(::measured::MetricGroup, ::core::default::Default)] struct $n { $f: $t } } } } }
zz_o!(aa); zz_m!(ZzM, ::measured::Counter); zz_m!(ZzN, ::measured::Counter);
pub fn run() { use super::zz::*; zz_eq(zz_metrics(&ZzM::default()), "%s"); zz_eq(zz_metrics(&ZzN::default()), "%s"); }
""" % ((text_counter(("aa", 0)),) * 2)))
    return out


def renamed(text, attr="::zq"):
    """a program for a crate that knows the library by another name only"""
    text = re.sub(r"#\[derive\(([^\]]*::measured::(LabelGroup|FixedCardinalityLabel)\b[^\]]*)\)\]", r"#[derive(\1)] #[label(crate = %s)]" % attr, text)
    text = re.sub(r"#\[derive\(([^\]]*::measured::MetricGroup\b[^\]]*)\)\]", r"#[derive(\1)] #[metric(crate = %s)]" % attr, text)
    return text.replace("::measured", "::zq")


def renamed_programs():
    ps = [("group", group_program("aa")), ("metrics", metric_program("aa")), ("enum", enum_program()),
          ("empty", dict(forms())["form:empty"])] + [p for p in by_macro() if p[0].startswith(("macro:item", "macro:meta", "macro:repeated", "macro:nested"))] + [p for p in forms() if p[0].startswith("form:metrics")]
    return [("renamed:%s:%s" % (a.replace("::", "."), id), renamed(p, a)) for id, p in ps for a in ("::zq", "zq", "crate::zw")]
