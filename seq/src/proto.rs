//! C16 (protobuf output decodes to the families), C25 (protobuf write failures)
use crate::fw::*;
use crate::pb;
use crate::text::{big_families, faults, sparse_faults, Built, Fault, Item, Lent, REUSED, W};
use crate::world::*;
use crate::{collect_proto, ensure};
use measured::label::NoLabels;
use measured::metric::counter::{write_counter, CounterState};
use measured::metric::gauge::{write_float_gauge, write_gauge, FloatGaugeState, GaugeState};
use measured::metric::group::{Encoding, MetricGroup};
use measured::metric::name::{MetricName, WithNamespace};
use measured::metric::MetricEncoding;
use measured_prometheus_protobuf::ProtoEncoder;
use std::io::{self, Write};

impl Built {
    fn write_help_p<W: Write>(&self, e: &mut ProtoEncoder<W>) -> io::Result<()> {
        match &self.help {
            Some(h) => e.write_help(self.mname(), h),
            None => Ok(()),
        }
    }
    fn write_body_p<W: Write>(&self, e: &mut ProtoEncoder<W>) -> io::Result<()> {
        let n = self.mname();
        match (self.item, &self.obj) {
            (Item::ByHand(_), Obj::C(x)) => {
                <CounterState as MetricEncoding<ProtoEncoder<W>>>::write_type(n, e)?;
                (*x.get_metric()).collect_into(&(), NoLabels, n, e)
            }
            (Item::ByHand(_), Obj::G(x)) => {
                <GaugeState as MetricEncoding<ProtoEncoder<W>>>::write_type(n, e)?;
                (*x.get_metric()).collect_into(&(), NoLabels, n, e)
            }
            (Item::ByHand(_), Obj::F(x)) => {
                <FloatGaugeState as MetricEncoding<ProtoEncoder<W>>>::write_type(n, e)?;
                (*x.get_metric()).collect_into(&(), NoLabels, n, e)
            }
            (Item::Helper(Kind::C), _) => {
                <CounterState as MetricEncoding<ProtoEncoder<W>>>::write_type(n, e)?;
                write_counter(e, n, NoLabels, 42)
            }
            (Item::Helper(Kind::G), _) => {
                <GaugeState as MetricEncoding<ProtoEncoder<W>>>::write_type(n, e)?;
                write_gauge(e, n, NoLabels, -7)
            }
            (Item::Helper(_), _) => {
                <FloatGaugeState as MetricEncoding<ProtoEncoder<W>>>::write_type(n, e)?;
                write_float_gauge(e, n, NoLabels, 2.5)
            }
            (Item::Bare(Kind::C), _) => write_counter(e, n, NoLabels, 42),
            (Item::Bare(Kind::G), _) => write_gauge(e, n, NoLabels, -7),
            (Item::Bare(_), _) => write_float_gauge(e, n, NoLabels, 2.5),
            _ => collect_proto!(&self.obj, n, e),
        }
    }
    pub fn write_proto<W: Write>(&self, e: &mut ProtoEncoder<W>) -> io::Result<()> {
        self.write_p(e)
    }
    fn write_p<W: Write>(&self, e: &mut ProtoEncoder<W>) -> io::Result<()> {
        self.write_help_p(e)?;
        self.write_body_p(e)
    }
    /// is this message exactly this family (under the given full name)?
    pub fn is(&self, name: &str, f: &pb::Fam) -> Result<(), String> {
        if f.name.as_deref() != Some(name) {
            return Err(format!("name {:?}, expected {name:?}", f.name));
        }
        if f.help != self.help {
            return Err(format!("help {:?}, expected {:?}", f.help, self.help));
        }
        let k = self.obj.kind();
        // an absent type means COUNTER
        if f.typ.unwrap_or(0) != if k == Kind::C { 0 } else { 1 } {
            return Err(format!("type {:?} of a {}", f.typ, k.typ()));
        }
        if f.metrics.len() != self.exp.len() {
            return Err(format!("{} metrics, expected {}", f.metrics.len(), self.exp.len()));
        }
        for e in &self.exp {
            let m = f.metrics.iter().find(|m| m.labels == e.labels).ok_or_else(|| format!("no series {:?} in {:?}", e.labels, f.metrics))?;
            let want = match e.val {
                Val::U(v) => pb::Val::Counter(v as f64),
                Val::I(v) => pb::Val::Gauge(v as f64),
                Val::F(v) => pb::Val::Gauge(v),
                _ => unreachable!(),
            };
            if m.val != want {
                return Err(format!("series {:?} has {:?}, expected {want:?}", e.labels, m.val));
            }
        }
        Ok(())
    }
    /// an absent family may at most leave its name and help
    fn may_be_absent(&self, name: &str, f: &pb::Fam) -> bool {
        self.item == Item::OptNone && f.name.as_deref() == Some(name) && f.help == self.help && f.typ.is_none() && f.metrics.is_empty()
    }
}
struct Two<'a>(&'a Built, &'a Built);
macro_rules! group {
    ($e:ty) => {
        impl MetricGroup<$e> for Two<'_> {
            fn collect_group_into(&self, enc: &mut $e) -> Result<(), <$e as Encoding>::Err> {
                for b in [self.0, self.1] {
                    if let Some(h) = &b.help {
                        enc.write_help(b.mname(), h)?;
                    }
                    collect_proto!(&b.obj, b.mname(), enc)?;
                }
                Ok(())
            }
        }
    };
}
group!(ProtoEncoder<Vec<u8>>);
group!(WithNamespace<&mut ProtoEncoder<Vec<u8>>>);
group!(WithNamespace<&mut WithNamespace<&mut ProtoEncoder<Vec<u8>>>>);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Fam(Item, bool),
    Group(usize),
    Flush,
}
/// the decoded stream is exactly the wanted families, in order (absent ones may leave a bare name)
fn check_stream(b: &[u8], want: &[(String, &Built)]) -> Res {
    let d = pb::stream(b).map_err(|e| fail("decode", format!("{e}; output {b:?}")))?;
    let mut it = d.iter().peekable();
    for (n, w) in want {
        if w.item == Item::OptNone {
            it.next_if(|f| w.may_be_absent(n, f));
            continue;
        }
        let f = it.next().ok_or_else(|| fail("missing", format!("no message for family {n:?}; decoded {d:?}")))?;
        w.is(n, f).map_err(|e| fail("family", format!("family {n:?}: {e}; decoded {d:?}")))?;
    }
    ensure!(it.next().is_none(), "extra", "unexpected messages: {d:?}");
    Ok(())
}
fn c16_run(ops: &[Op], o: &mut Obs) -> Res {
    let mut built: Vec<Vec<Built>> = vec![];
    for (i, op) in ops.iter().enumerate() {
        built.push(match op {
            Op::Fam(it, h) => vec![Built::new(*it, format!("f{i}"), h.then(|| format!("help {i}")))],
            Op::Group(_) => vec![
                Built::new(Item::Vec(Kind::C, Repr::Dense, 1), format!("g{i}a"), None),
                Built::new(Item::Single(Kind::F), format!("g{i}b"), Some("in group".into())),
            ],
            Op::Flush => vec![],
        });
    }
    let mut e = ProtoEncoder::new(Vec::<u8>::new());
    let mut done = 0;
    let mut want: Vec<(String, &Built)> = vec![];
    for (op, b) in ops.iter().zip(&built).chain(std::iter::once((&Op::Flush, &vec![]))) {
        o.step(1);
        match op {
            Op::Fam(..) => {
                b[0].write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                want.push((b[0].name.clone(), &b[0]));
            }
            Op::Group(d) => {
                let t = Two(&b[0], &b[1]);
                match d {
                    0 => t.collect_group_into(&mut e),
                    1 => WithNamespace::new("n1", t).collect_group_into(&mut e),
                    _ => WithNamespace::new("n1", WithNamespace::new("n2", t)).collect_group_into(&mut e),
                }
                .map_err(|e| fail("error", format!("{e}")))?;
                let pre = ["", "n1_", "n1_n2_"][*d];
                for x in b {
                    want.push((format!("{pre}{}", x.name), x));
                }
            }
            Op::Flush => {
                e.flush().map_err(|e| fail("error", format!("{e}")))?;
                let out = &e.writer[done..];
                o.state(out);
                o.show(|| format!("{:?}", pb::stream(out)));
                check_stream(out, &want)?;
                done = e.writer.len();
                want.clear();
            }
        }
    }
    Ok(())
}
pub const MENU: [Item; 9] = [
    Item::Single(Kind::C),
    Item::Vec(Kind::C, Repr::Dense, 0),
    Item::Vec(Kind::G, Repr::Sparse, 0),
    Item::Vec(Kind::F, Repr::Dense, 2),
    Item::Vec(Kind::G, Repr::Sparse, 2),
    Item::OptNone,
    Item::Single(Kind::G),
    Item::Single(Kind::F),
    Item::Vec(Kind::F, Repr::Dense, 0),
];
pub fn c16(cx: &mut Cx) {
    let mut a = vec![Op::Flush];
    for h in [false, true] {
        a.extend(MENU[..6].iter().map(|i| Op::Fam(*i, h)));
    }
    a.push(Op::Group(2));
    let mut b = a.clone();
    for h in [false, true] {
        b.extend(MENU[6..].iter().map(|i| Op::Fam(*i, h)));
        b.extend([Kind::C, Kind::G, Kind::F].iter().flat_map(|k| [Op::Fam(Item::ByHand(*k), h), Op::Fam(Item::Helper(*k), h)]));
        b.push(Op::Fam(Item::OptSome, h));
    }
    b.extend([Op::Group(0), Op::Group(1)]);
    b.extend([Kind::C, Kind::G, Kind::F].map(|k| Op::Fam(Item::Bare(k), true)));
    // the first thing ever written
    for k in [Kind::C, Kind::G, Kind::F] {
        let first = [Op::Fam(Item::Bare(k), false), Op::Fam(Item::Bare(Kind::G), true), Op::Flush, Op::Fam(Item::Bare(k), false), Op::Fam(Item::Single(k), false)];
        for n in 1..=first.len() {
            cx.case(|| format!("{:?}", &first[..n]), |o| c16_run(&first[..n], o));
        }
    }
    Cx::seqs(b.len(), 3, |sq| {
        let ops = || sq.iter().map(|&i| b[i]).collect::<Vec<_>>();
        cx.case(|| format!("{:?}", ops()), |o| c16_run(&ops(), o));
    });
    let depth = if cx.thorough { 6 } else { 5 };
    Cx::seqs(a.len(), depth, |sq| {
        if sq.len() > 3 {
            let ops = || sq.iter().map(|&i| a[i]).collect::<Vec<_>>();
            cx.case(|| format!("{:?}", ops()), |o| c16_run(&ops(), o));
        }
    });
    // lengths around every varint boundary
    let mut lens: Vec<usize> = (0..=300).collect();
    lens.extend(16250..=16420);
    if cx.thorough {
        lens.extend(300..=2000);
        lens.extend(2_097_152 - 80..=2_097_152 + 3);
    } else {
        lens.extend([2_097_152 - 60, 2_097_152 - 30, 2_097_151, 2_097_152]);
    }
    for &n in &lens {
        for place in 0..6usize {
            for k in [Kind::C, Kind::G, Kind::F] {
                cx.case(
                    || format!("{n} bytes in {} of a {k:?} family", ["the help", "the name", "a label value", "the second label value", "label values of two series", "a label name"][place]),
                    |o| {
                        let x = "x".repeat(n);
                        let ls = match place {
                            2 => vec![labels(&[("a", s(&x))])],
                            3 => vec![labels(&[("a", s("v")), ("b", s(&x))])],
                            4 => vec![labels(&[("a", s(&x))]), labels(&[("a", s(&x)), ("b", LV::I(n as i64))])],
                            5 => vec![labels(&[(&format!("l{x}"), s("v"))])],
                            _ => vec![labels(&[("a", s("v"))])],
                        };
                        let c = ls.len();
                        let (obj, exp) = Obj::vec(k, Repr::Dense, ls, c);
                        let b = Built {
                            item: Item::Vec(k, Repr::Dense, c),
                            name: if place == 1 { format!("m{x}") } else { "m".into() },
                            help: (place == 0 || n % 2 == 0).then(|| if place == 0 { x.clone() } else { "h".into() }),
                            obj,
                            exp,
                        };
                        let small = Built::new(Item::Single(Kind::C), "small".into(), None);
                        let mut e = ProtoEncoder::new(Vec::<u8>::new());
                        // a small family follows: nothing of the long one may be left over
                        b.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                        small.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                        e.flush().map_err(|e| fail("error", format!("{e}")))?;
                        o.state(&e.writer);
                        check_stream(&e.writer, &[(b.name.clone(), &b), ("small".into(), &small)]).map_err(|f| fail(&f.key, f.msg.chars().take(600).collect::<String>()))
                    },
                );
            }
        }
    }
    // lengths that need five bytes: 2^28 and more
    for place in 0..3usize {
        for n in [(1usize << 28) - 1, 1 << 28] {
            cx.case(
                || format!("{n} bytes in {}", ["the help", "the name", "a label value"][place]),
                |o| {
                    let x = "x".repeat(n);
                    let one = LV::S(if place == 2 { x.clone() } else { "v".into() });
                    let (obj, exp) = Obj::vec(Kind::G, Repr::Dense, vec![labels(&[("a", one)])], 1);
                    let b = Built { item: Item::Vec(Kind::G, Repr::Dense, 1), name: if place == 1 { x.clone() } else { "m".into() }, help: (place == 0).then_some(x), obj, exp };
                    let small = Built::new(Item::Single(Kind::C), "small".into(), None);
                    let mut e = ProtoEncoder::new(Vec::<u8>::new());
                    b.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                    small.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                    e.flush().map_err(|e| fail("error", format!("{e}")))?;
                    o.state(&e.writer[..20]);
                    let d = pb::stream(&e.writer).map_err(|e| fail("decode", e.chars().take(200).collect::<String>()))?;
                    ensure!(d.len() == 2, "missing", "{} families", d.len());
                    b.is(&b.name, &d[0]).map_err(|m| fail("family", m.chars().take(200).collect::<String>()))?;
                    small.is("small", &d[1]).map_err(|m| fail("family", m.chars().take(200).collect::<String>()))
                },
            );
        }
    }
    // values of every size and sign
    for neg in [false, true] {
        for k in 0..66u32 {
            for kind in [Kind::C, Kind::G, Kind::F] {
                if neg && kind == Kind::C {
                    continue;
                }
                cx.case(
                    || format!("{kind:?} values around {}2^{k}", if neg { "-" } else { "" }),
                    |o| {
                        let p = if k >= 64 { u64::MAX - (k as u64 - 64) } else { 1u64 << k };
                        let fs = [0.0, f64::INFINITY, f64::NAN, 5e-324, f64::MAX, f64::MIN_POSITIVE, 0.1];
                        for d in 0..7u64 {
                            let u = p.wrapping_add(d).wrapping_sub(3);
                            let i = if neg { (u as i64).wrapping_neg() } else { u as i64 };
                            let f = if k >= 64 { fs[d as usize] } else { p as f64 * [1.0, 0.5, 1.5, 1e-12, 1e12, 1e-300, 1e200][d as usize] } * if neg { -1.0 } else { 1.0 };
                            let (obj, val) = match kind {
                                Kind::C => {
                                    let c = measured::Counter::new();
                                    c.inc_by(u);
                                    (Obj::C(c), Val::U(u))
                                }
                                Kind::G => {
                                    let c = measured::Gauge::new();
                                    c.set(i);
                                    (Obj::G(c), Val::I(i))
                                }
                                _ => {
                                    let c = measured::FloatGauge::new();
                                    c.set(f);
                                    (Obj::F(c), Val::F(f))
                                }
                            };
                            o.step(1);
                            let b = Built { item: Item::Single(kind), name: "m".into(), help: None, obj, exp: vec![Series { labels: vec![], val }] };
                            let mut e = ProtoEncoder::new(Vec::<u8>::new());
                            b.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                            b.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                            e.flush().map_err(|e| fail("error", format!("{e}")))?;
                            o.state(&e.writer);
                            check_stream(&e.writer, &[("m".into(), &b), ("m".into(), &b)])?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // label values of every kind in every position
    let vals: Vec<LV> = ["", "x", "\u{0}", "\n\r\t\"\\", "\u{e9}\u{2603}\u{1f600}", "+Inf", "-1", "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10ffff}"]
        .iter()
        .map(|x| s(x))
        .chain([0, 1, -1, 9, 10, -9, -10, 99, 100, -99, -100, i64::MAX, i64::MIN, i64::MIN + 1, 1 << 31, -(1 << 31), 999_999_999_999, -1_000_000_000_000].map(LV::I))
        .chain([0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN].map(LV::F))
        .collect();
    for a in 0..vals.len() {
        for b in 0..vals.len() {
            for k in [Kind::C, Kind::G, Kind::F] {
                for n in 1..=if cx.thorough { 3 } else { 2usize } {
                    if n == 1 && b > 0 {
                        continue;
                    }
                    let ls: Vec<Labels> = (0..n).map(|i| labels(&[[("a", vals[a].clone()), ("other_label", vals[b].clone()), ("a", s("third"))], [("x", vals[b].clone()), ("y", vals[a].clone()), ("z", vals[b].clone())]][i % 2][..(n + i).min(3)])).collect();
                    let name = || format!("{k:?} with labels {:?}", ls.iter().map(lstr).collect::<Vec<_>>());
                    cx.case(name, |o| {
                        let (obj, exp) = Obj::vec(k, Repr::Dense, ls.clone(), n);
                        let b = Built { item: Item::Vec(k, Repr::Dense, n), name: "m".into(), help: None, obj, exp };
                        let small = Built::new(Item::Single(Kind::C), "small".into(), None);
                        let mut e = ProtoEncoder::new(Vec::<u8>::new());
                        b.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                        small.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                        e.flush().map_err(|e| fail("error", format!("{e}")))?;
                        o.state(&e.writer);
                        check_stream(&e.writer, &[("m".into(), &b), ("small".into(), &small)])
                    });
                }
            }
        }
    }
    // many labels, of one name or of different ones
    for n in (0..=40).chain([63, 64, 65, 100, 126, 127, 128, 129, 130, 255, 256, 257, 300, 1000]) {
        for same in [false, true] {
            for k in [Kind::C, Kind::G, Kind::F] {
                cx.case(
                    || format!("{k:?} with {n} labels{}", if same { " of one name" } else { "" }),
                    |o| {
                        let name = |i: usize| if same { "l".to_string() } else { format!("l{i}") };
                        let lv = |i: usize| [LV::I(i as i64 - 5), s(&"v".repeat(i % 9)), LV::F(i as f64 * 0.5)][i % 3].clone();
                        let ls: Vec<Labels> = (0..3).map(|j| Labels((0..n + j).map(|i| (name(i + j), lv(i + 7 * j))).collect())).collect();
                        let (obj, exp) = Obj::vec(k, Repr::Dense, ls, 3);
                        let b = Built { item: Item::Vec(k, Repr::Dense, 3), name: "m".into(), help: None, obj, exp };
                        let small = Built::new(Item::Single(Kind::C), "small".into(), None);
                        let mut e = ProtoEncoder::new(Vec::<u8>::new());
                        b.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                        small.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                        e.flush().map_err(|e| fail("error", format!("{e}")))?;
                        o.state(&e.writer);
                        check_stream(&e.writer, &[("m".into(), &b), ("small".into(), &small)]).map_err(|f| fail(&f.key, f.msg.chars().take(600).collect::<String>()))
                    },
                );
            }
        }
    }
    // strings of one length that follow each other in one and the same buffer, through one encoder
    for set in REUSED {
        Cx::seqs(set.len(), if cx.thorough { 5 } else { 4 }, |sq| {
            cx.case(
                || format!("one buffer holding {:?} in turn", sq.iter().map(|&i| set[i]).collect::<Vec<_>>()),
                |o| {
                    let (mut buf, mut name) = (String::with_capacity(16), String::with_capacity(16));
                    let mut e = ProtoEncoder::new(Vec::<u8>::new());
                    let err = |e: io::Error| fail("error", format!("{e}"));
                    let mut want = vec![];
                    for (i, &x) in sq.iter().enumerate() {
                        name.clear();
                        name.push_str(["m0", "m1", "m2", "m3", "m4"][i]);
                        let n = MetricName::try_from_str(&name).ok().unwrap();
                        buf.clear();
                        buf.push_str(set[x]);
                        e.write_help(n, &buf).map_err(err)?;
                        <CounterState as MetricEncoding<ProtoEncoder<Vec<u8>>>>::write_type(n, &mut e).map_err(err)?;
                        let mut metrics = vec![];
                        for k in 0..2 {
                            buf.clear();
                            buf.push_str(set[(x + k) % set.len()]);
                            write_counter(&mut e, n, Lent(&buf, ["l0", "l1"][k]), k as u64).map_err(err)?;
                            metrics.push(pb::Metric { labels: vec![(format!("l{k}"), set[(x + k) % set.len()].to_string())], val: pb::Val::Counter(k as f64) });
                        }
                        want.push((name.clone(), set[x], metrics));
                    }
                    e.flush().map_err(err)?;
                    o.state(&e.writer);
                    let d = pb::stream(&e.writer).map_err(|m| fail("decode", m))?;
                    ensure!(d.len() == want.len(), "missing", "{} families of {}: {d:?}", d.len(), want.len());
                    for (f, (n, h, m)) in d.iter().zip(&want) {
                        // an empty help may be left away
                        ensure!(f.name.as_deref() == Some(n) && f.help.as_deref().unwrap_or("") == *h && f.metrics == *m, "family", "{f:?}, expected {n} {h:?} {m:?}");
                    }
                    Ok(())
                },
            );
        });
    }
    // many series: the message length crosses the boundaries with the number of metrics
    for n in (0..=130).chain(if cx.thorough { 130..=1200 } else { 1000..=1010 }) {
        for r in [Repr::Dense, Repr::Sparse] {
            cx.case(
                || format!("{n} series, {r:?}"),
                |o| {
                    let b = Built::new(Item::Vec(Kind::C, r, n), "m".into(), None);
                    let mut e = ProtoEncoder::new(Vec::<u8>::new());
                    for _ in 0..2 {
                        b.write_p(&mut e).map_err(|e| fail("error", format!("{e}")))?;
                    }
                    e.flush().map_err(|e| fail("error", format!("{e}")))?;
                    o.state(&e.writer);
                    check_stream(&e.writer, &[("m".into(), &b), ("m".into(), &b)]).map_err(|f| fail(&f.key, f.msg.chars().take(600).collect::<String>()))
                },
            );
        }
    }
}

// ------------------------------------------------------------------ C25

fn c25_run(items: &[Built], fault: Fault, clean: &[u8], replace: bool, o: &mut Obs) -> Res {
    let mut e = ProtoEncoder::new(W::new(fault));
    let mut seen_err = false;
    // families that were completely handed over before, and those after the first failure
    let mut later: Vec<(String, &Built)> = vec![];
    let mut kept_from = 0;
    let mut step = |e: &mut ProtoEncoder<W>, what: &str, seen: &mut bool, r: &mut dyn FnMut(&mut ProtoEncoder<W>) -> io::Result<()>| -> Result<bool, Fail> {
        o.steps += 1;
        let before = e.writer.failed;
        let r = r(e);
        let failed = e.writer.failed > before;
        ensure!(r.is_err() == failed, if failed { "swallowed" } else { "spurious" }, "{what}: the writer {} but the step returned {r:?}", if failed { "failed" } else { "did not fail" });
        if let (Err(x), Some(k), false) = (&r, e.writer.kind, matches!(fault, Fault::Two(..))) {
            ensure!(x.kind() == k, "error", "{what}: the writer failed with {k:?} but the step returned {x:?}");
        }
        if failed && !*seen {
            let upto = e.writer.at_fail.unwrap_or(e.writer.out.len());
            ensure!(clean.starts_with(&e.writer.out[..upto]), "prefix", "{:?} is not a prefix of the fault-free output {clean:?}", &e.writer.out[..upto]);
        }
        Ok(failed)
    };
    for b in items {
        let mut bad = step(&mut e, &format!("help of {}", b.name), &mut seen_err, &mut |e| b.write_help_p(e))?;
        if !bad {
            bad = step(&mut e, &format!("family {}", b.name), &mut seen_err, &mut |e| b.write_body_p(e))?;
        }
        if bad {
            seen_err = true;
            if replace {
                e.writer = W::new(Fault::None);
                kept_from = 0;
            } else if later.is_empty() {
                kept_from = e.writer.out.len();
            }
        } else if seen_err {
            later.push((b.name.clone(), b));
        }
    }
    let bad = step(&mut e, "flush", &mut seen_err, &mut |e| e.flush())?;
    if bad && !seen_err {
        kept_from = e.writer.out.len();
    }
    if !seen_err && !bad {
        ensure!(e.writer.out == clean, "output", "output {:?}, expected {clean:?}", e.writer.out);
    }
    o.state(&e.writer.out);
    o.state(&[seen_err as u8, bad as u8]);
    // then the encoder is used again with a working writer
    let more = Built::new(Item::Single(Kind::G), "after".into(), Some("after help".into()));
    let empty = Built::new(Item::Vec(Kind::C, Repr::Dense, 0), "emptyafter".into(), None);
    if bad {
        e.writer = W::new(Fault::None);
        kept_from = 0;
        later.clear();
    } else {
        e.writer.fault = Fault::None;
    }
    for b in [&empty, &more] {
        b.write_p(&mut e).map_err(|x| fail("recovery", format!("after recovery: {x}")))?;
        later.push((b.name.clone(), b));
    }
    e.flush().map_err(|x| fail("recovery", format!("after recovery: {x}")))?;
    if seen_err || bad {
        // whole families only, each one that was handed over after the failure, in order;
        // one that was being written when the failure came may be delivered again
        let out = &e.writer.out[kept_from..];
        let d = pb::stream(out).map_err(|x| fail("mixed", format!("after the failure: {x}; output {out:?}")))?;
        let second = matches!(fault, Fault::Two(..) | Fault::Call(_, true) | Fault::Byte(_, true)) && !replace;
        let (mut at, mut missing) = (0, vec![]);
        for f in &d {
            if let Some(k) = later[at..].iter().position(|(n, b)| b.is(n, f).is_ok() || b.may_be_absent(n, f)) {
                missing.extend(later[at..at + k].iter());
                at += k + 1;
                continue;
            }
            let again = items.iter().any(|b| b.is(&b.name, f).is_ok() || b.may_be_absent(&b.name, f));
            ensure!(again, "mixed", "after the failure a message that is no family: {f:?}");
        }
        missing.extend(later[at..].iter());
        // absent families and ones whose writing was interrupted by a second failure may be missing
        let missing: Vec<_> = missing.iter().filter(|(_, b)| b.item != Item::OptNone).map(|x| &x.0).collect();
        ensure!(missing.is_empty() || second, "lost", "families {missing:?} were written after the failure, without a further failure, but never delivered; decoded {d:?}");
    }
    Ok(())
}
fn c25_big(cx: &mut Cx) {
    for i in 0..big_families(true).len() {
        for at in 0..3usize {
            let small = |n: &str| Built::new(Item::Single(Kind::C), n.into(), Some("h".into()));
            let mut items = vec![small("s1"), small("s2")];
            items.insert(at, big_families(true).remove(i));
            let mut e = ProtoEncoder::new(W::new(Fault::None));
            let r = guarded(|| {
                for b in &items {
                    b.write_p(&mut e).unwrap();
                }
                e.flush().unwrap();
            });
            if let Err(m) = r {
                cx.case(|| format!("big family {i} without fault"), |_| Err(fail("panic", format!("fault-free run failed: {m}"))));
                continue;
            }
            let clean = e.writer.out.clone();
            for fault in sparse_faults(e.writer.calls, clean.len()) {
                for replace in [false, true] {
                    if !replace && matches!(fault, Fault::Byte(..)) {
                        continue;
                    }
                    cx.case(
                        || format!("big family {i} as number {at}, {fault:?}{}", if replace { ", new writer afterwards" } else { "" }),
                        |o| c25_run(&items, fault, &clean, replace, o).map_err(|f| fail(&f.key, f.msg.chars().take(2000).collect::<String>())),
                    );
                }
            }
        }
    }
}
pub fn c25(cx: &mut Cx) {
    crate::gfaults::c25(cx);
    c25_big(cx);
    let mut hist: Vec<Vec<(Item, bool)>> = vec![];
    let mut menu: Vec<(Item, bool)> = vec![];
    for it in MENU.iter().copied().chain([Item::ByHand(Kind::C), Item::Helper(Kind::G), Item::OptSome]) {
        menu.extend([(it, false), (it, true)]);
    }
    menu.extend([Kind::C, Kind::G, Kind::F].map(|k| (Item::Bare(k), true)));
    Cx::seqs(menu.len(), 2, |sq| hist.push(sq.iter().map(|&i| menu[i]).collect()));
    let few: Vec<_> = menu.iter().take(if cx.thorough { 16 } else { 14 }).cloned().collect();
    Cx::seqs(few.len(), if cx.thorough { 4 } else { 3 }, |sq| {
        if sq.len() >= 3 {
            hist.push(sq.iter().map(|&i| few[i]).collect())
        }
    });
    for h in &hist {
        let items: Vec<Built> = h.iter().enumerate().map(|(i, (it, help))| Built::new(*it, format!("f{i}"), help.then(|| format!("help {i}")))).collect();
        let mut e = ProtoEncoder::new(W::new(Fault::None));
        let r = guarded(|| {
            for b in &items {
                b.write_p(&mut e).unwrap();
            }
            e.flush().unwrap();
        });
        if let Err(m) = r {
            cx.case(|| format!("{h:?} without fault"), |_| Err(fail("panic", format!("fault-free run failed: {m}"))));
            continue;
        }
        let clean = e.writer.out.clone();
        // bytes: every one for short histories, a dense grid otherwise
        for fault in faults(e.writer.calls, clean.len(), true) {
            if let Fault::Byte(k, _) = fault {
                if h.len() > 3 && k % 5 != 0 && !cx.thorough {
                    continue;
                }
            }
            for replace in [false, true] {
                // bytes of a torn message stay with the writer: only a new writer can be decoded afterwards
                if !replace && matches!(fault, Fault::Byte(..)) {
                    continue;
                }
                cx.case(|| format!("{h:?}, {fault:?}{}", if replace { ", new writer afterwards" } else { "" }), |o| c25_run(&items, fault, &clean, replace, o));
            }
        }
    }
}
