//! C13 (labels and help round-trip), C14 (documents over encoder histories), C15 (write failures)
use crate::fw::*;
use crate::prom;
use crate::world::*;
use crate::{collect_text, ensure};
use measured::label::{LabelGroup, NoLabels};
use measured::metric::counter::{write_counter, CounterState};
use measured::metric::gauge::{write_float_gauge, write_gauge, FloatGaugeState, GaugeState};
use measured::metric::group::{Encoding, MetricGroup};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::{MetricName, WithNamespace};
use measured::metric::MetricEncoding;
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::*;
use std::io::{self, Write};

const NAME: &MetricName = MetricName::from_str("m");
fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

// ------------------------------------------------------------------ C13

/// expose one counter series with these labels and this help, through both encoders
fn expose(l: &impl LabelGroup, help: Option<&str>) -> Result<Vec<u8>, Fail> {
    let mut e = BufferedTextEncoder::new();
    if let Some(h) = help {
        let Ok(()) = e.write_help(NAME, h);
    }
    let Ok(()) = <CounterState as MetricEncoding<BufferedTextEncoder>>::write_type(NAME, &mut e);
    let Ok(()) = write_counter(&mut e, NAME, l, 1);
    let a = e.finish().to_vec();
    let mut t = TextEncoder::new(vec![]);
    let r: io::Result<()> = (|| {
        if let Some(h) = help {
            t.write_help(NAME, h)?;
        }
        <CounterState as MetricEncoding<TextEncoder<Vec<u8>>>>::write_type(NAME, &mut t)?;
        write_counter(&mut t, NAME, l, 1)?;
        t.flush()
    })();
    ensure!(r.is_ok(), "error", "writing to memory failed: {r:?}");
    ensure!(t.writer == a, "streaming", "streaming encoder wrote {:?}, buffered {:?}", lossy(&t.writer), lossy(&a));
    Ok(a)
}
fn roundtrip(l: &Labels, help: Option<&str>, o: &mut Obs) -> Res {
    let b = expose(l, help)?;
    o.state(&b);
    o.show(|| lossy(&b));
    let d = prom::doc(&b).map_err(|e| fail("parse", format!("{e}; output {:?}", lossy(&b))))?;
    ensure!(d.len() == 1, "parse", "{} families in {:?}", d.len(), lossy(&b));
    ensure!(d[0].help.as_deref() == help, "help", "help {:?} reads back as {:?}", help, d[0].help);
    ensure!(d[0].samples.len() == 1, "samples", "{} samples in {:?}", d[0].samples.len(), lossy(&b));
    ensure!(d[0].samples[0].labels == lstr(l), "labels", "labels {:?} read back as {:?}", lstr(l), d[0].samples[0].labels);
    ensure!(d[0].samples[0].raw == "1", "value", "value {:?}", d[0].samples[0].raw);
    Ok(())
}
/// the same through a vec over an interner, so that every string is a series of its own
fn vec_roundtrip(strs: &[String], sparse: bool, o: &mut Obs) -> Res {
    let groups: Vec<Labels> = strs.iter().map(|x| labels(&[("a", s(x)), ("b", s("y"))])).collect();
    let (obj, exp) = Obj::vec(Kind::C, if sparse { Repr::Sparse } else { Repr::Dense }, groups, strs.len());
    let f = scrape(&obj).map_err(|e| fail("parse", e))?;
    o.step(strs.len());
    matches(&f, Kind::C, &exp).map_err(|e| fail("labels", e))
}
/// a borrowed label value
pub struct Lent<'a>(pub &'a str, pub &'a str);
impl LabelGroup for Lent<'_> {
    fn visit_values(&self, v: &mut impl measured::label::LabelGroupVisitor) {
        v.write_value(measured::label::LabelName::from_str(self.1), &self.0);
    }
}
pub const REUSED: &[&[&str]] = &[&["ab", "a\"", "\\b", "\n\n", "\u{e9}", ""], &["xxxxxxxxxxxx", "xxxx\"xxxxxxx", "xxxxxxxxxxx\\", "\nxxxxxxxxxxx"]];
pub fn c13(cx: &mut Cx) {
    let alpha: Vec<char> = "\\\"\nn#{},= \r\0aé\u{1F600}".chars().collect();
    let depth = if cx.thorough { 5 } else { 4 };
    Cx::seqs(alpha.len(), depth, |sq| {
        let st = || sq.iter().map(|&i| alpha[i]).collect::<String>();
        cx.case(
            || format!("string {:?} as the only, first, middle, last label and as help", st()),
            |o| {
                let x = st();
                o.step(5);
                roundtrip(&labels(&[("a", s(&x))]), Some(&x), o)?;
                roundtrip(&labels(&[("a", s(&x)), ("b", s("1"))]), None, o)?;
                roundtrip(&labels(&[("z", LV::I(-1)), ("a", s(&x)), ("b", s(&x))]), None, o)?;
                roundtrip(&labels(&[("b", LV::F(0.5)), ("a", s(&x))]), Some(&x), o)
            },
        );
    });
    // pairs of strings in neighbouring labels
    let mut two = vec![];
    Cx::seqs(alpha.len(), 2, |sq| two.push(sq.iter().map(|&i| alpha[i]).collect::<String>()));
    let short: Vec<String> = two.iter().filter(|x| x.chars().count() <= if cx.thorough { 2 } else { 1 }).cloned().collect();
    for x in &two {
        for y in &short {
            cx.case(
                || format!("neighbouring labels {x:?} {y:?}"),
                |o| {
                    roundtrip(&labels(&[("a", s(x)), ("b", s(y))]), Some(x), o)?;
                    roundtrip(&labels(&[("a", s(y)), ("b", s(x)), ("c", s(y))]), Some(y), o)
                },
            );
        }
    }
    // every Unicode scalar value by itself
    for block in 0..0x110u32 {
        cx.case(
            || format!("every character U+{:04X}..", block << 12),
            |o| {
                for c in (block << 12..(block + 1) << 12).filter_map(char::from_u32) {
                    let x = c.to_string();
                    o.step(1);
                    roundtrip(&labels(&[("a", s(&x))]), Some(&x), o).map_err(|e| fail(&e.key, format!("U+{:04X}: {}", c as u32, e.msg)))?;
                }
                Ok(())
            },
        );
    }
    // every length around the vector widths of the search, with special characters at every pair of places
    for len in 0..=70usize {
        for c in ['\\', '"', '\n'] {
            cx.case(
                || format!("{c:?} at every pair of places in strings of {len}"),
                |o| {
                    for i in 0..=len {
                        for j in i..=len {
                            let x: String = (0..len).map(|k| if k == i { c } else if k == j { '"' } else { 'x' }).collect();
                            o.step(1);
                            roundtrip(&labels(&[("a", s(&x))]), if j == i { Some(&x) } else { None }, o)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // long strings, around the sizes buffers have: special characters at every place near the ends and the
    // middle, behind each other, and everywhere
    let lens: &[usize] = if cx.thorough {
        &[126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65534, 65535, 65536, 65537, 131072]
    } else {
        &[127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537]
    };
    for &len in lens {
        for c in ['\\', '"', '\n', 'é', '\u{1F600}'] {
            cx.case(
                || format!("{c:?} in strings of {len}"),
                |o| {
                    let mut places: Vec<usize> = (0..len.min(20)).chain(len.saturating_sub(20)..len).chain(len / 2 - 2..len / 2 + 2).collect();
                    places.extend((1..).map(|k| 1usize << k).take_while(|p| *p < len).flat_map(|p| [p - 1, p, p + 1]).filter(|p| *p < len));
                    for p in places {
                        for q in ['x', '"', '\\', '\n'] {
                            // one place, and the place after it
                            let x: String = (0..len).map(|k| if k == p { c } else if k == p + 1 { q } else { 'x' }).collect();
                            o.step(1);
                            roundtrip(&labels(&[("a", s(&x)), ("b", s("y"))]), Some(&x), o).map_err(|e| fail(&e.key, format!("special character at {p} of {len}: {}", e.msg.chars().take(200).collect::<String>())))?;
                            if len > 5000 && p > 3 {
                                break;
                            }
                        }
                    }
                    for every in [1usize, 2, 3, 7, 64, 100] {
                        let x: String = (0..len).map(|k| if k % every == every - 1 { c } else { 'x' }).collect();
                        o.step(1);
                        roundtrip(&labels(&[("a", s(&x)), ("b", s("y"))]), Some(&x), o).map_err(|e| fail(&e.key, format!("special character at every {every}th of {len} places: {}", e.msg.chars().take(200).collect::<String>())))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // strings of one length that follow each other in one and the same buffer, through one encoder
    for set in REUSED {
        Cx::seqs(set.len(), if cx.thorough { 5 } else { 4 }, |sq| {
            cx.case(
                || format!("one buffer holding {:?} in turn", sq.iter().map(|&i| set[i]).collect::<Vec<_>>()),
                |o| {
                    let mut buf = String::with_capacity(16);
                    let mut name = String::with_capacity(16);
                    let mut e = BufferedTextEncoder::new();
                    let mut t = TextEncoder::new(vec![]);
                    for (i, &x) in sq.iter().enumerate() {
                        name.clear();
                        name.push_str(["m0", "m1", "m2", "m3", "m4"][i]);
                        let n = MetricName::try_from_str(&name).ok().unwrap();
                        buf.clear();
                        buf.push_str(set[x]);
                        let Ok(()) = e.write_help(n, &buf);
                        let Ok(()) = <CounterState as MetricEncoding<BufferedTextEncoder>>::write_type(n, &mut e);
                        t.write_help(n, &buf).map_err(|e| fail("error", format!("{e}")))?;
                        <CounterState as MetricEncoding<TextEncoder<Vec<u8>>>>::write_type(n, &mut t).map_err(|e| fail("error", format!("{e}")))?;
                        for k in 0..2 {
                            buf.clear();
                            buf.push_str(set[(x + k) % set.len()]);
                            let g = Lent(&buf, ["l0", "l1"][k]);
                            let Ok(()) = write_counter(&mut e, n, &g, 1);
                            write_counter(&mut t, n, &g, 1).map_err(|e| fail("error", format!("{e}")))?;
                        }
                    }
                    t.flush().map_err(|e| fail("error", format!("{e}")))?;
                    let b = e.finish();
                    ensure!(t.writer == b, "streaming", "streaming encoder wrote {:?}, buffered {:?}", lossy(&t.writer), lossy(&b));
                    o.state(&b);
                    let d = prom::doc(&b).map_err(|e| fail("parse", format!("{e}; output {:?}", lossy(&b))))?;
                    ensure!(d.len() == sq.len(), "parse", "{} families in {:?}", d.len(), lossy(&b));
                    for (i, &x) in sq.iter().enumerate() {
                        ensure!(d[i].name == format!("m{i}") && d[i].help.as_deref() == Some(set[x]), "help", "family {i} is {:?} {:?}", d[i].name, d[i].help);
                        for k in 0..2 {
                            let want = vec![(format!("l{k}"), set[(x + k) % set.len()].to_string())];
                            ensure!(d[i].samples.len() == 2 && d[i].samples[k].labels == want, "labels", "family {i} shows {:?}, expected {want:?}", d[i].samples);
                        }
                    }
                    Ok(())
                },
            );
        });
    }
    // many labels
    for n in [16usize, 17, 64, 100, 255, 256, 257] {
        cx.case(
            || format!("{n} labels"),
            |o| {
                let names: Vec<String> = (0..n).map(|i| format!("l{i}")).collect();
                let l = Labels(names.iter().enumerate().map(|(i, n)| (n.clone(), if i % 3 == 0 { LV::I(i as i64) } else { s(&format!("\\\"\n{i}")[..(i % 4).max(1)]) })).collect());
                roundtrip(&l, None, o)
            },
        );
    }
    // many strings as the series of one vec
    for n in 0..3usize {
        for sparse in [false, true] {
            cx.case(
                || format!("all strings of {n} characters as series of one {} vec", if sparse { "sparse" } else { "dense" }),
                |o| {
                    let mut v = vec![];
                    Cx::seqs(alpha.len(), n, |sq| {
                        if sq.len() == n {
                            v.push(sq.iter().map(|&i| alpha[i]).collect::<String>())
                        }
                    });
                    vec_roundtrip(&v, sparse, o)
                },
            );
        }
    }
    // the standard library's string types
    for x in &two {
        cx.case(
            || format!("label value types holding {x:?}"),
            |o| {
                struct G<'a>(&'a str, String, &'a String);
                impl LabelGroup for G<'_> {
                    fn visit_values(&self, v: &mut impl measured::label::LabelGroupVisitor) {
                        use measured::label::LabelName;
                        v.write_value(LabelName::from_str("a"), &self.0);
                        v.write_value(LabelName::from_str("b"), &self.1);
                        v.write_value(LabelName::from_str("c"), &self.2);
                    }
                }
                let b = expose(&G(x, x.clone(), x), None)?;
                o.state(&b);
                let d = prom::doc(&b).map_err(|e| fail("parse", format!("{e}; output {:?}", lossy(&b))))?;
                let want: Vec<(String, String)> = ["a", "b", "c"].iter().map(|n| (n.to_string(), x.clone())).collect();
                ensure!(d[0].samples[0].labels == want, "labels", "{:?}", d[0].samples[0].labels);
                Ok(())
            },
        );
    }
}

// ------------------------------------------------------------------ the menu of families

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Item {
    Single(Kind),
    Vec(Kind, Repr, usize),
    OptNone,
    OptSome,
    /// write_type and collect_into called by hand on the metric
    ByHand(Kind),
    /// a single value written by the helper function after its type
    Helper(Kind),
    /// a single value written by the helper function after its help, without a type
    Bare(Kind),
}
pub struct Built {
    pub item: Item,
    pub name: String,
    pub help: Option<String>,
    pub obj: Obj,
    pub exp: Vec<Series>,
}
fn groups(n: usize) -> Vec<Labels> {
    (0..n)
        .map(|i| match i % 3 {
            0 => labels(&[("s", s(&format!("q\"{i}"))), ("i", LV::I(i as i64))]),
            1 => labels(&[("s", s(&format!("\\{i}\n"))), ("i", LV::I(-(i as i64)))]),
            _ => labels(&[("s", s(&format!("é{i}"))), ("i", LV::I(i64::MAX))]),
        })
        .collect()
}
impl Built {
    pub fn new(item: Item, name: String, help: Option<String>) -> Built {
        let (obj, exp) = match item {
            Item::Single(k) | Item::ByHand(k) | Item::Helper(k) | Item::Bare(k) => Obj::single(k),
            Item::Vec(k, r, n) => Obj::vec(k, r, groups(n.max(1)), n),
            Item::OptNone => (Obj::NoC(None), vec![]),
            Item::OptSome => {
                let g = Gauge::new();
                g.set(3);
                (Obj::SomeG(Some(g)), vec![Series { labels: vec![], val: Val::I(3) }])
            }
        };
        Built { item, name, help, obj, exp }
    }
    pub fn mname(&self) -> &MetricName {
        MetricName::try_from_str(&self.name).unwrap()
    }
    pub fn write<W: Write>(&self, e: &mut TextEncoder<W>) -> io::Result<()> {
        let n = self.mname();
        if let Some(h) = &self.help {
            e.write_help(n, h)?;
        }
        match (self.item, &self.obj) {
            (Item::ByHand(_), Obj::C(x)) => {
                <CounterState as MetricEncoding<TextEncoder<W>>>::write_type(n, e)?;
                (*x.get_metric()).collect_into(&(), NoLabels, n, e)
            }
            (Item::ByHand(_), Obj::G(x)) => {
                <GaugeState as MetricEncoding<TextEncoder<W>>>::write_type(n, e)?;
                (*x.get_metric()).collect_into(&(), NoLabels, n, e)
            }
            (Item::ByHand(_), Obj::F(x)) => {
                <FloatGaugeState as MetricEncoding<TextEncoder<W>>>::write_type(n, e)?;
                (*x.get_metric()).collect_into(&(), NoLabels, n, e)
            }
            (Item::ByHand(_), Obj::H(x)) => {
                <HistogramState<2> as MetricEncoding<TextEncoder<W>>>::write_type(n, e)?;
                (*x.get_metric()).collect_into(&Thresholds::with_buckets(LE2), NoLabels, n, e)
            }
            (Item::Helper(Kind::C), _) => {
                <CounterState as MetricEncoding<TextEncoder<W>>>::write_type(n, e)?;
                write_counter(e, n, NoLabels, 42)
            }
            (Item::Helper(Kind::G), _) => {
                <GaugeState as MetricEncoding<TextEncoder<W>>>::write_type(n, e)?;
                write_gauge(e, n, NoLabels, -7)
            }
            (Item::Helper(_), _) => {
                <FloatGaugeState as MetricEncoding<TextEncoder<W>>>::write_type(n, e)?;
                write_float_gauge(e, n, NoLabels, 2.5)
            }
            (Item::Bare(Kind::C), _) => write_counter(e, n, NoLabels, 42),
            (Item::Bare(Kind::G), _) => write_gauge(e, n, NoLabels, -7),
            (Item::Bare(_), _) => write_float_gauge(e, n, NoLabels, 2.5),
            _ => collect_text!(&self.obj, n, e),
        }
    }
    pub fn write_buffered(&self, e: &mut BufferedTextEncoder) {
        let n = self.mname();
        if let Some(h) = &self.help {
            let Ok(()) = e.write_help(n, h);
        }
        let Ok(()) = match self.item {
            Item::Bare(Kind::C) => write_counter(e, n, NoLabels, 42),
            Item::Bare(Kind::G) => write_gauge(e, n, NoLabels, -7),
            Item::Bare(_) => write_float_gauge(e, n, NoLabels, 2.5),
            _ => collect_text!(&self.obj, n, e),
        };
    }
    pub fn check(&self, f: &prom::Family) -> Result<(), String> {
        if f.help != self.help {
            return Err(format!("family {:?} has help {:?}, expected {:?}", self.name, f.help, self.help));
        }
        if self.item == Item::OptNone {
            if f.typ.is_some() || !f.samples.is_empty() {
                return Err("an absent family was written".into());
            }
            return Ok(());
        }
        if let (Item::Bare(k), None) = (self.item, &f.typ) {
            let f = prom::Family { typ: Some(k.typ().into()), ..f.clone() };
            return matches(&f, k, &self.exp);
        }
        matches(f, self.obj.kind(), &self.exp)
    }
    fn present(&self) -> bool {
        self.item != Item::OptNone || self.help.is_some()
    }
}

// ------------------------------------------------------------------ C14

struct Two<'a>(&'a Built, &'a Built);
/// a group whose two families are written through whatever encoder the adapters pass
macro_rules! group {
    ($e:ty) => {
        impl MetricGroup<$e> for Two<'_> {
            fn collect_group_into(&self, enc: &mut $e) -> Result<(), <$e as Encoding>::Err> {
                for b in [self.0, self.1] {
                    if let Some(h) = &b.help {
                        enc.write_help(b.mname(), h)?;
                    }
                    collect_text!(&b.obj, b.mname(), enc)?;
                }
                Ok(())
            }
        }
    };
}
group!(BufferedTextEncoder);
group!(TextEncoder<Vec<u8>>);
group!(WithNamespace<&mut BufferedTextEncoder>);
group!(WithNamespace<&mut TextEncoder<Vec<u8>>>);
group!(WithNamespace<&mut WithNamespace<&mut BufferedTextEncoder>>);
group!(WithNamespace<&mut WithNamespace<&mut TextEncoder<Vec<u8>>>>);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Fam(Item, bool),
    /// a nested group of two families at namespace depth 0..2
    Group(usize),
    /// with a help of so many bytes
    Help(Item, usize),
    Finish,
}
fn check_doc(b: &[u8], want: &[(String, &Built)], o: &mut Obs) -> Res {
    o.state(b);
    let d = prom::doc(b).map_err(|e| fail("document", format!("{e}; output {:?}", lossy(b))))?;
    let want: Vec<_> = want.iter().filter(|w| w.1.present()).collect();
    ensure!(
        d.iter().map(|f| &f.name).eq(want.iter().map(|w| &w.0)),
        "families",
        "families {:?}, expected {:?}",
        d.iter().map(|f| &f.name).collect::<Vec<_>>(),
        want.iter().map(|w| &w.0).collect::<Vec<_>>()
    );
    for (f, w) in d.iter().zip(want) {
        w.1.check(f).map_err(|e| fail("family", format!("family {:?}: {e}; output {:?}", w.0, lossy(b))))?;
    }
    Ok(())
}
fn c14_run(ops: &[Op], o: &mut Obs) -> Res {
    let mut built: Vec<Vec<Built>> = vec![];
    for (i, op) in ops.iter().enumerate() {
        built.push(match op {
            Op::Fam(it, h) => vec![Built::new(*it, format!("f{i}"), h.then(|| format!("help {i}\\\nx")))],
            Op::Help(it, n) => vec![Built::new(*it, format!("f{i}"), Some((0..*n).map(|k| if k % 101 == 7 { '\n' } else { 'h' }).collect()))],
            Op::Group(_) => vec![
                Built::new(Item::Vec(Kind::C, Repr::Dense, 1), format!("g{i}a"), None),
                Built::new(Item::Single(Kind::H), format!("g{i}b"), Some("in group".into())),
            ],
            Op::Finish => vec![],
        });
    }
    let mut reused = BufferedTextEncoder::new();
    let mut stream = TextEncoder::new(Vec::<u8>::new());
    let mut done = 0;
    let mut from = 0;
    // what was handed out stays as it was, whatever the encoder does afterwards
    let mut kept = vec![];
    for end in 0..=ops.len() {
        if end < ops.len() && ops[end] != Op::Finish {
            continue;
        }
        // one collection: ops[from..end]
        let mut fresh = BufferedTextEncoder::new();
        let mut want: Vec<(String, &Built)> = vec![];
        for (op, b) in ops[from..end].iter().zip(&built[from..end]) {
            o.step(1);
            match op {
                Op::Fam(..) | Op::Help(..) => {
                    b[0].write(&mut stream).map_err(|e| fail("error", format!("{e}")))?;
                    b[0].write_buffered(&mut reused);
                    b[0].write_buffered(&mut fresh);
                    want.push((b[0].name.clone(), &b[0]));
                }
                Op::Group(depth) => {
                    let t = || Two(&b[0], &b[1]);
                    let pre = ["", "n1_", "n1_n2_"][*depth];
                    macro_rules! all {
                        ($g:expr) => {{
                            $g.collect_group_into(&mut stream).map_err(|e| fail("error", format!("{e}")))?;
                            let Ok(()) = $g.collect_group_into(&mut reused);
                            let Ok(()) = $g.collect_group_into(&mut fresh);
                        }};
                    }
                    match depth {
                        0 => all!(t()),
                        1 => all!(WithNamespace::new("n1", t())),
                        _ => all!(WithNamespace::new("n1", WithNamespace::new("n2", t()))),
                    }
                    want.push((format!("{pre}{}", b[0].name), &b[0]));
                    want.push((format!("{pre}{}", b[1].name), &b[1]));
                }
                Op::Finish => unreachable!(),
            }
        }
        let out = reused.finish();
        let a = out.to_vec();
        kept.push((out, a.clone()));
        let f = fresh.finish().to_vec();
        stream.flush().map_err(|e| fail("error", format!("{e}")))?;
        let st = stream.writer[done..].to_vec();
        done = stream.writer.len();
        ensure!(a == f, "reuse", "a reused encoder wrote {:?}, a fresh one {:?}", lossy(&a), lossy(&f));
        ensure!(a == st, "streaming", "the streaming encoder wrote {:?}, the buffered one {:?}", lossy(&st), lossy(&a));
        check_doc(&a, &want, o)?;
        o.show(|| lossy(&a));
        from = end + 1;
    }
    for (out, was) in &kept {
        ensure!(out[..] == was[..], "kept", "output {:?} became {:?} while the encoder was used again", lossy(was), lossy(out));
    }
    Ok(())
}
pub fn c14(cx: &mut Cx) {
    let items = [
        Item::Single(Kind::C),
        Item::Single(Kind::H),
        Item::Vec(Kind::C, Repr::Dense, 0),
        Item::Vec(Kind::G, Repr::Sparse, 2),
        Item::Vec(Kind::H, Repr::Dense, 0),
        Item::Vec(Kind::H, Repr::Sparse, 2),
        Item::OptNone,
        Item::Vec(Kind::F, Repr::Dense, 3),
    ];
    let more = [
        Item::Single(Kind::G),
        Item::Single(Kind::F),
        Item::OptSome,
        Item::ByHand(Kind::C),
        Item::ByHand(Kind::G),
        Item::ByHand(Kind::F),
        Item::ByHand(Kind::H),
        Item::Helper(Kind::C),
        Item::Helper(Kind::G),
        Item::Helper(Kind::F),
        Item::Vec(Kind::C, Repr::Default, 3),
    ];
    let mut a = vec![Op::Finish];
    for h in [false, true] {
        a.extend(items.iter().map(|i| Op::Fam(*i, h)));
    }
    a.extend((0..3).map(Op::Group));
    let depth = if cx.thorough { 5 } else { 4 };
    Cx::seqs(a.len(), depth, |sq| {
        let ops = || sq.iter().map(|&i| a[i]).collect::<Vec<_>>();
        cx.case(|| format!("{:?}", ops()), |o| c14_run(&ops(), o));
    });
    let mut b = a.clone();
    for h in [false, true] {
        b.extend(more.iter().map(|i| Op::Fam(*i, h)));
    }
    b.extend([Kind::C, Kind::G, Kind::F].map(|k| Op::Fam(Item::Bare(k), true)));
    // outputs beyond any initial buffer
    let big = [
        Op::Finish,
        Op::Fam(Item::Single(Kind::C), true),
        Op::Fam(Item::Vec(Kind::C, Repr::Dense, 300), false),
        Op::Fam(Item::Vec(Kind::H, Repr::Sparse, 200), true),
        Op::Fam(Item::Vec(Kind::G, Repr::Sparse, 2500), false),
        Op::Help(Item::Single(Kind::F), 5000),
        Op::Help(Item::Vec(Kind::C, Repr::Dense, 0), 70_000),
    ];
    Cx::seqs(big.len(), if cx.thorough { 4 } else { 3 }, |sq| {
        let ops = || sq.iter().map(|&i| big[i]).collect::<Vec<_>>();
        cx.case(|| format!("{:?}", ops()), |o| c14_run(&ops(), o).map_err(|f| fail(&f.key, f.msg.chars().take(3000).collect::<String>())));
    });
    Cx::seqs(b.len(), 3, |sq| {
        if sq.iter().any(|&i| i >= a.len()) {
            let ops = || sq.iter().map(|&i| b[i]).collect::<Vec<_>>();
            cx.case(|| format!("{:?}", ops()), |o| c14_run(&ops(), o));
        }
    });
}

// ------------------------------------------------------------------ C15

pub use crate::faulty::*;
/// one family of each kind, too big for any buffer of a usual size
pub fn big_families(proto: bool) -> Vec<Built> {
    let mut v = vec![
        Built::new(Item::Vec(Kind::C, Repr::Dense, 300), "big".into(), None),
        Built::new(Item::Vec(Kind::F, Repr::Sparse, 150), "big".into(), Some("h".into())),
        Built::new(Item::Single(Kind::C), "n".repeat(9000), Some("h".into())),
        Built::new(Item::Single(Kind::G), "big".into(), Some((0..20_000).map(|i| if i % 97 == 5 { '\n' } else { 'h' }).collect())),
    ];
    if !proto {
        v.push(Built::new(Item::Vec(Kind::H, Repr::Sparse, 40), "big".into(), None));
    }
    let x: String = (0..10_000).map(|i| if i % 89 == 5 { '"' } else { 'v' }).collect();
    let (obj, exp) = Obj::vec(Kind::G, Repr::Dense, vec![labels(&[("a", s(&x)), ("b", s("w"))]), labels(&[("a", s("w")), ("b", s(&x))])], 2);
    v.push(Built { item: Item::Vec(Kind::G, Repr::Dense, 2), name: "big".into(), help: None, obj, exp });
    v
}
/// one writing step of a history; each returns its own result
type Step<'a> = Box<dyn Fn(&mut TextEncoder<W>) -> io::Result<()> + 'a>;

fn steps(items: &[Built]) -> Vec<Step<'_>> {
    let mut v: Vec<Step> = vec![];
    for b in items {
        if let Some(h) = &b.help {
            v.push(Box::new(move |e| e.write_help(b.mname(), h)));
        }
        // Built::write without the help
        v.push(Box::new(move |e| match b.item {
            Item::ByHand(_) | Item::Helper(_) | Item::Bare(_) => Built { help: None, ..Built::new(b.item, b.name.clone(), None) }.write(e),
            _ => collect_text!(&b.obj, b.mname(), e),
        }));
    }
    v.push(Box::new(|e| e.flush()));
    v
}
fn c15_run(items: &[Built], fault: Fault, clean: &[u8], bounds: &[usize], o: &mut Obs) -> Res {
    let st = steps(items);
    let mut e = TextEncoder::new(W::new(fault));
    let mut seen_err = false;
    for (i, f) in st.iter().enumerate() {
        o.step(1);
        let before = e.writer.failed;
        let start = e.writer.out.len();
        let r = f(&mut e);
        let failed = e.writer.failed > before;
        ensure!(r.is_err() == failed, if failed { "swallowed" } else { "spurious" }, "step {i}: the writer {} but the step returned {r:?}", if failed { "failed" } else { "did not fail" });
        if let (Err(x), Some(k), false) = (&r, e.writer.kind, matches!(fault, Fault::Two(..))) {
            ensure!(x.kind() == k, "error", "step {i}: the writer failed with {k:?} but the step returned {x:?}");
        }
        if !failed && !seen_err {
            ensure!(e.writer.out.len() == bounds[i] && e.writer.out[start..] == clean[start..bounds[i]], "output", "step {i} returned success but wrote {:?}", lossy(&e.writer.out[start..]));
        }
        if failed {
            if !seen_err {
                let upto = e.writer.at_fail.unwrap_or(e.writer.out.len());
                ensure!(clean.starts_with(&e.writer.out[..upto]), "prefix", "{:?} is not a prefix of the fault-free output", lossy(&e.writer.out[..upto]));
            }
            seen_err = true;
            if matches!(fault, Fault::Two(..)) {
                continue; // the collection goes on with its next family
            }
            break;
        }
    }
    if !seen_err {
        ensure!(e.writer.out == clean, "output", "output {:?}, expected {:?}", lossy(&e.writer.out), lossy(clean));
    }
    o.state(&e.writer.out);
    o.state(&[seen_err as u8]);
    // the writer recovers
    e.writer = W::new(Fault::None);
    if matches!(fault, Fault::Call(k, _) if k % 2 == 0) {
        // without finishing first: it only has to work
        for f in &st {
            f(&mut e).map_err(|x| fail("recovery", format!("after recovery: {x}")))?;
        }
        let out = std::mem::take(&mut e.writer.out);
        ensure!(out == clean || out.strip_prefix(b"\n") == Some(clean), "recovery", "after recovery the encoder wrote {:?}, a fresh one {:?}", lossy(&out), lossy(clean));
    } else {
        e.flush().map_err(|x| fail("recovery", format!("{x}")))?;
    }
    for f in &st {
        f(&mut e).map_err(|x| fail("recovery", format!("after recovery: {x}")))?;
    }
    ensure!(e.writer.out == clean, "recovery", "after recovery and finishing, the encoder wrote {:?}, a fresh one {:?}", lossy(&e.writer.out), lossy(clean));
    Ok(())
}
pub fn c15(cx: &mut Cx) {
    crate::gfaults::c15(cx);
    let one = |it: Item, h: bool| Built::new(it, "fam".into(), h.then(|| "some \\ help\nx".into()));
    let mut hist: Vec<(String, Vec<Built>, bool)> = vec![];
    for (i, b) in big_families(false).into_iter().enumerate() {
        hist.push((format!("big family {i} and another"), vec![b, Built::new(Item::Single(Kind::C), "second".into(), Some("h".into()))], false));
    }
    let nbig = hist.len();
    let all: Vec<Item> = [
        KINDS.iter().map(|k| Item::Single(*k)).collect::<Vec<_>>(),
        KINDS.iter().map(|k| Item::ByHand(*k)).collect(),
        [Kind::C, Kind::G, Kind::F].iter().flat_map(|k| [Item::Helper(*k), Item::Bare(*k)]).collect(),
        KINDS.iter().flat_map(|k| [Item::Vec(*k, Repr::Dense, 1), Item::Vec(*k, Repr::Sparse, 1), Item::Vec(*k, Repr::Dense, 3), Item::Vec(*k, Repr::Sparse, 0)]).collect(),
        vec![Item::OptNone, Item::OptSome],
    ]
    .concat();
    for it in &all {
        for h in [false, true] {
            let pairs = true;
            hist.push((format!("{it:?} help {h}"), vec![one(*it, h)], pairs));
        }
    }
    // two families, so that the blank line between them is written (or not)
    for a in &all {
        for b in [Item::Single(Kind::C), Item::Vec(Kind::H, Repr::Sparse, 1), Item::Vec(Kind::G, Repr::Dense, 0)] {
            for h in [false, true] {
                let v = vec![one(*a, false), Built::new(b, "second".into(), h.then(|| "h".into()))];
                hist.push((format!("{a:?} then {b:?} help {h}"), v, cx.thorough || !matches!(a, Item::Vec(_, _, 3))));
            }
        }
    }
    if cx.thorough {
        // three families
        for a in &all {
            for b in &all {
                for c in [Item::Single(Kind::H), Item::Vec(Kind::C, Repr::Sparse, 0)] {
                    let v = vec![one(*a, true), Built::new(*b, "second".into(), None), Built::new(c, "third".into(), Some("h".into()))];
                    hist.push((format!("{a:?} then {b:?} then {c:?}"), v, !matches!(a, Item::Vec(_, _, 3)) && !matches!(b, Item::Vec(_, _, 3))));
                }
            }
        }
    }
    // all three label value kinds, through the label visitor
    let g = |i: i64| labels(&[("s", s("a\"b\\c\nd")), ("i", LV::I(i)), ("f", LV::F(f64::INFINITY)), ("g", LV::F(f64::NAN)), ("h", LV::F(-0.5))]);
    for k in KINDS {
        let (obj, exp) = Obj::vec(k, Repr::Dense, vec![g(1), g(2)], 2);
        hist.push((format!("{k:?} with every kind of label"), vec![Built { item: Item::Vec(k, Repr::Dense, 2), name: "l".into(), help: None, obj, exp }], true));
    }
    for (n, (name, items, pairs)) in hist.iter().enumerate() {
        // fault-free run: the output and where each step ends
        let mut e = TextEncoder::new(W::new(Fault::None));
        let mut bounds = vec![];
        let st = steps(items);
        let ok = guarded(|| {
            for f in &st {
                f(&mut e).unwrap();
                bounds.push(e.writer.out.len());
            }
        });
        if ok.is_err() {
            cx.case(|| format!("{name} without fault"), |_| Err(fail("panic", format!("fault-free run failed: {ok:?}"))));
            continue;
        }
        let clean = e.writer.out.clone();
        for fault in if n < nbig { sparse_faults(e.writer.calls, clean.len()) } else { faults(e.writer.calls, clean.len(), *pairs) } {
            cx.case(
                || format!("{name}, {fault:?}"),
                |o| c15_run(items, fault, &clean, &bounds, o).map_err(|f| fail(&f.key, f.msg.chars().take(2000).collect::<String>())),
            );
        }
    }
}
