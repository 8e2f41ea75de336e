//! C07 (identifiers) and C26 (labels) of derived label groups, their sets and compositions.
#![allow(non_camel_case_types, dead_code, unused)]
#[path = "../../seq/src/fw.rs"]
mod fw;
#[path = "../../seq/src/prom.rs"]
mod prom;
mod common;
use common::*;
use fw::{Cx, Obs, Res};
use lasso::{MicroSpur, Rodeo, RodeoReader, ThreadedRodeo};
use measured::label::{ComposedGroup, DynamicLabelSet, FixedCardinalitySet, LabelGroup, LabelGroupSet, LabelSet, LabelValue, LabelVisitor, StaticLabelSet};
use measured::metric::{name::MetricName, MetricFamilyEncoding};
use measured::{CounterVec, FixedCardinalityLabel};
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;
use std::sync::Arc;

// ---------------------------------------------------------------- building blocks of the generated groups
#[derive(FixedCardinalityLabel, Clone, Copy, PartialEq, Debug)]
pub enum E1 {
    Only,
}
#[derive(FixedCardinalityLabel, Clone, Copy, PartialEq, Debug)]
pub enum E2 {
    A2,
    B2,
}
#[derive(FixedCardinalityLabel, Clone, Copy, PartialEq, Debug)]
pub enum E3 {
    A3 = 7,
    #[label(rename = "b-3")]
    B3,
    C3,
}
#[derive(FixedCardinalityLabel, Clone, Copy, PartialEq, Debug)]
#[label(singleton = "solo")]
pub enum Solo {
    One,
    Two,
    Three,
}
pub fn rodeo(s: &[&'static str]) -> RodeoReader {
    s.iter().collect::<Rodeo>().into_reader()
}
/// a fixed set written by a user: numbers below a bound
#[derive(Clone)]
pub struct Big(pub u64);
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Num(pub u64);
impl LabelValue for Num {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_str(&self.0.to_string())
    }
}
impl LabelSet for Big {
    type Value<'a> = Num;
    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(self.0 as usize)
    }
    fn encode(&self, v: Num) -> Option<usize> {
        (v.0 < self.0).then_some(v.0 as usize)
    }
    fn decode(&self, v: usize) -> Num {
        assert!((v as u64) < self.0, "decoding {v} of {}", self.0);
        Num(v as u64)
    }
}
impl FixedCardinalitySet for Big {}
/// a defaultable fixed set of two integer labels
#[derive(Default)]
pub struct Pm;
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Sign(pub i64);
impl LabelValue for Sign {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_int(self.0)
    }
}
impl LabelSet for Pm {
    type Value<'a> = Sign;
    fn dynamic_cardinality(&self) -> Option<usize> {
        Some(2)
    }
    fn encode(&self, v: Sign) -> Option<usize> {
        match v.0 {
            -1 => Some(0),
            1 => Some(1),
            _ => None,
        }
    }
    fn decode(&self, v: usize) -> Sign {
        Sign([-1, 1][v])
    }
}
impl FixedCardinalitySet for Pm {}

pub type Labels = Vec<(String, Val)>;
pub fn ls(s: &str) -> Val {
    Val::S(s.to_string())
}
pub trait Shape: 'static {
    type Set: LabelGroupSet + 'static;
    fn desc() -> String;
    fn set() -> Self::Set;
    /// per field: how many values are tried, the first `members` of which belong to the set
    fn radix() -> Vec<(usize, usize)>;
    fn group(v: &[usize]) -> <Self::Set as LabelGroupSet>::Group<'static>;
    fn labels(v: &[usize]) -> Labels;
    fn card() -> Option<usize>;
}
pub struct Pair<A, B>(PhantomData<(A, B)>);
impl<A: Shape, B: Shape> Shape for Pair<A, B> {
    type Set = ComposedGroup<A::Set, B::Set>;
    fn desc() -> String {
        format!("({} + {})", A::desc(), B::desc())
    }
    fn set() -> Self::Set {
        ComposedGroup(A::set(), B::set())
    }
    fn radix() -> Vec<(usize, usize)> {
        let mut r = A::radix();
        r.extend(B::radix());
        r
    }
    fn group(v: &[usize]) -> <Self::Set as LabelGroupSet>::Group<'static> {
        let n = A::radix().len();
        A::group(&v[..n]).compose_with(B::group(&v[n..]))
    }
    fn labels(v: &[usize]) -> Labels {
        let n = A::radix().len();
        let mut l = A::labels(&v[..n]);
        l.extend(B::labels(&v[n..]));
        l
    }
    fn card() -> Option<usize> {
        A::card()?.checked_mul(B::card()?)
    }
}
pub struct Shared<A>(PhantomData<A>);
impl<A: Shape> Shape for Shared<A> {
    type Set = Arc<A::Set>;
    fn desc() -> String {
        format!("Arc {}", A::desc())
    }
    fn set() -> Self::Set {
        Arc::new(A::set())
    }
    fn radix() -> Vec<(usize, usize)> {
        A::radix()
    }
    fn group(v: &[usize]) -> <Self::Set as LabelGroupSet>::Group<'static> {
        A::group(v)
    }
    fn labels(v: &[usize]) -> Labels {
        A::labels(v)
    }
    fn card() -> Option<usize> {
        A::card()
    }
}
pub struct Static<A>(PhantomData<A>);
impl<A: Shape> Shape for Static<A> {
    type Set = &'static A::Set;
    fn desc() -> String {
        format!("&'static {}", A::desc())
    }
    fn set() -> Self::Set {
        Box::leak(Box::new(A::set()))
    }
    fn radix() -> Vec<(usize, usize)> {
        A::radix()
    }
    fn group(v: &[usize]) -> <Self::Set as LabelGroupSet>::Group<'static> {
        A::group(v)
    }
    fn labels(v: &[usize]) -> Labels {
        A::labels(v)
    }
    fn card() -> Option<usize> {
        A::card()
    }
}
pub struct SoloShape;
impl Shape for SoloShape {
    type Set = StaticLabelSet<Solo>;
    fn desc() -> String {
        "singleton".into()
    }
    fn set() -> Self::Set {
        StaticLabelSet::new()
    }
    fn radix() -> Vec<(usize, usize)> {
        vec![(3, 3)]
    }
    fn group(v: &[usize]) -> Solo {
        [Solo::One, Solo::Two, Solo::Three][v[0]]
    }
    fn labels(v: &[usize]) -> Labels {
        vec![("solo".into(), ls(["one", "two", "three"][v[0]]))]
    }
    fn card() -> Option<usize> {
        Some(3)
    }
}

// ---------------------------------------------------------------- the checks
fn tuples(r: &[(usize, usize)]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &(n, _) in r {
        out = out.iter().flat_map(|t: &Vec<usize>| (0..n).map(move |x| [t.as_slice(), &[x]].concat())).collect();
    }
    out
}
fn member(r: &[(usize, usize)], t: &[usize]) -> bool {
    r.iter().zip(t).all(|(r, x)| x < &r.1)
}
fn sorted(mut l: Labels) -> String {
    l.sort_by(|a, b| a.0.cmp(&b.0));
    format!("{l:?}")
}
fn orders(n: usize) -> Vec<Vec<usize>> {
    let f: Vec<usize> = (0..n).collect();
    let b: Vec<usize> = (0..n).rev().collect();
    // odd positions first
    let o: Vec<usize> = (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect();
    vec![f, b, o]
}

fn identifiers<S: Shape>(o: &mut Obs, order: &[usize], ts: &[Vec<usize>]) -> Res {
    let r = S::radix();
    let set = S::set();
    let mut ids: HashMap<<S::Set as LabelGroupSet>::Unique, usize> = HashMap::new();
    let mut enc: Vec<Option<<S::Set as LabelGroupSet>::Unique>> = vec![None; ts.len()];
    ensure!(set.cardinality() == S::card(), "cardinality", "cardinality {:?} instead of {:?}", set.cardinality(), S::card());
    for &i in order {
        let t = &ts[i];
        o.step(1);
        let e = set.encode(S::group(t));
        if !member(&r, t) {
            ensure!(e.is_none(), "outsider", "{:?} does not belong to the set but has an identifier", S::labels(t));
            continue;
        }
        let Some(u) = e else { return Err(fw::fail("rejected", format!("{:?} belongs to the set but has no identifier", S::labels(t)))) };
        enc[i] = Some(u);
        if let Some(j) = ids.insert(u, i) {
            return Err(fw::fail("collision", format!("{:?} and {:?} have the same identifier", S::labels(t), S::labels(&ts[j]))));
        }
        let d = sorted(labels(&set.decode(&u)));
        ensure!(d == sorted(S::labels(t)), "decode", "{:?} decodes to {}", S::labels(t), d);
    }
    // once more, in the other direction: nothing has changed
    for &i in order.iter().rev() {
        o.step(1);
        let e = set.encode(S::group(&ts[i]));
        ensure!(e == enc[i], "unstable", "the identifier of {:?} changed", S::labels(&ts[i]));
        if let Some(u) = e {
            let d = sorted(labels(&set.decode(&u)));
            ensure!(d == sorted(S::labels(&ts[i])), "decode-later", "{:?} decodes to {} later on", S::labels(&ts[i]), d);
        }
    }
    ensure!(set.cardinality() == S::card(), "cardinality-later", "cardinality changed to {:?}", set.cardinality());
    if let Some(c) = S::card() {
        let mut dense = vec![None; c];
        for (i, u) in enc.iter().enumerate() {
            let Some(u) = u else { continue };
            let Some(x) = set.encode_dense(*u) else { return Err(fw::fail("no-dense", format!("{:?} has no dense index in a set of cardinality {c}", S::labels(&ts[i])))) };
            ensure!(x < c, "dense-range", "dense index {} of {:?} in a set of cardinality {}", x, S::labels(&ts[i]), c);
            if let Some(j) = dense[x].replace(i) {
                return Err(fw::fail("dense-collision", format!("{:?} and {:?} have dense index {x}", S::labels(&ts[i]), S::labels(&ts[j]))));
            }
        }
        for (x, i) in dense.iter().enumerate() {
            let Some(i) = i else { return Err(fw::fail("dense-hole", format!("no group has dense index {x} of {c}"))) };
            let d = sorted(labels(&set.decode_dense(x)));
            ensure!(d == sorted(S::labels(&ts[*i])), "decode-dense", "dense index {} of {:?} decodes to {}", x, S::labels(&ts[*i]), d);
        }
    }
    Ok(())
}
fn vec_ids<S: Shape>(o: &mut Obs, order: &[usize], ts: &[Vec<usize>], kind: usize) -> Res {
    let r = S::radix();
    let v = match kind {
        0 => CounterVec::<S::Set>::with_label_set(S::set()),
        1 => CounterVec::<S::Set>::sparse_with_label_set(S::set()),
        _ => CounterVec::<S::Set>::dense_with_label_set(S::set()),
    };
    let mut n = 0;
    let mut ids = vec![None; ts.len()];
    for &i in order {
        o.step(1);
        let id = v.try_with_labels(S::group(&ts[i]));
        ensure!(id.is_some() == member(&r, &ts[i]), "vec-member", "try_with_labels({:?}) gives an identifier: {}", S::labels(&ts[i]), id.is_some());
        if let Some(id) = id {
            n += 1;
            v.get_metric(id).inc_by(i as u64 + 1);
            ids[i] = Some(id);
        }
        ensure!(v.get_cardinality().0 == n, "vec-series", "{} series after touching {} groups", v.get_cardinality().0, n);
    }
    for &i in order {
        let id = v.try_with_labels(S::group(&ts[i]));
        ensure!(id == ids[i], "vec-id", "the vec gives {:?} another identifier later on", S::labels(&ts[i]));
    }
    for (a, x) in ids.iter().enumerate() {
        for (b, y) in ids.iter().enumerate() {
            let (Some(x), Some(y)) = (x, y) else { continue };
            ensure!((x == y) == (a == b) && (x != y) == (a != b), "vec-id-equal", "the vec's identifiers of {:?} and {:?} compare {}", S::labels(&ts[a]), S::labels(&ts[b]), x == y);
        }
    }
    Ok(())
}
/// the exposition of a vec holding each member with its own value: label lists in the order written
fn vec_text<S: Shape>(ts: &[Vec<usize>], order: &[usize], kind: usize) -> Result<BTreeMap<u64, Vec<(String, String)>>, fw::Fail> {
    let r = S::radix();
    let v = match kind {
        0 => CounterVec::<S::Set>::with_label_set(S::set()),
        1 => CounterVec::<S::Set>::sparse_with_label_set(S::set()),
        _ => CounterVec::<S::Set>::dense_with_label_set(S::set()),
    };
    for &i in order {
        if member(&r, &ts[i]) {
            v.inc_by(S::group(&ts[i]), i as u64 + 1);
        }
    }
    let mut e = measured::text::BufferedTextEncoder::new();
    v.collect_family_into(MetricName::from_str("m"), &mut e).unwrap();
    let f = prom::doc(&e.finish()).map_err(|m| fw::fail("document", m))?;
    ensure!(f.len() == 1, "document", "{} families", f.len());
    let mut out = BTreeMap::new();
    for s in &f[0].samples {
        ensure!(out.insert(s.value() as u64, s.labels.clone()).is_none(), "vec-twice", "two samples with value {}", s.raw);
    }
    Ok(out)
}

pub fn c07<S: Shape>(cx: &mut Cx) {
    let ts = tuples(&S::radix());
    for (k, ord) in orders(ts.len()).iter().enumerate() {
        cx.case(
            || format!("{}: identifiers, order {k}", S::desc()),
            |o| {
                o.state(format!("{} {k}", S::desc()).as_bytes());
                o.show(|| format!("{} groups, cardinality {:?}", ts.len(), S::card()));
                identifiers::<S>(o, ord, &ts)
            },
        );
    }
    for kind in 0..if S::card().is_some() { 3 } else { 2 } {
        cx.case(
            || format!("{}: vec of kind {kind}", S::desc()),
            |o| {
                o.state(format!("{} vec {kind}", S::desc()).as_bytes());
                vec_ids::<S>(o, &orders(ts.len())[kind], &ts, kind)
            },
        );
    }
}
pub fn c26<S: Shape>(cx: &mut Cx) {
    let ts = tuples(&S::radix());
    cx.case(
        || format!("{}: labels", S::desc()),
        |o| {
            o.step(ts.len());
            for t in &ts {
                let g = S::group(t);
                let got = labels(&g);
                ensure!(got == S::labels(t), "labels", "labels {:?} instead of {:?}", got, S::labels(t));
                let got = labels(&&g);
                ensure!(got == S::labels(t), "labels-ref", "a borrowed group has labels {:?} instead of {:?}", got, S::labels(t));
                let got = labels(g.by_ref());
                ensure!(got == S::labels(t), "labels-ref", "a borrowed group has labels {:?} instead of {:?}", got, S::labels(t));
            }
            o.state(S::desc().as_bytes());
            o.show(|| format!("{:?}", ts.last().map(|t| S::labels(t))));
            Ok(())
        },
    );
    cx.case(
        || format!("{}: decoded labels", S::desc()),
        |o| {
            o.step(ts.len());
            let r = S::radix();
            let set = S::set();
            for t in &ts {
                if !member(&r, t) {
                    continue;
                }
                let Some(u) = set.encode(S::group(t)) else { return Err(fw::fail("rejected", format!("{:?} belongs to the set but has no identifier", S::labels(t)))) };
                let got = labels(&set.decode(&u));
                ensure!(got == S::labels(t), "decoded", "decoded labels {:?} instead of {:?}", got, S::labels(t));
                if S::card().is_some() {
                    let got = labels(&set.decode_dense(set.encode_dense(u).unwrap()));
                    ensure!(got == S::labels(t), "decoded-dense", "labels decoded from a dense index {:?} instead of {:?}", got, S::labels(t));
                }
            }
            o.state(format!("{} dec", S::desc()).as_bytes());
            Ok(())
        },
    );
    for kind in 0..if S::card().is_some() { 3 } else { 2 } {
        cx.case(
            || format!("{}: exposition of a vec of kind {kind}", S::desc()),
            |o| {
                o.step(ts.len());
                let got = vec_text::<S>(&ts, &orders(ts.len())[kind], kind)?;
                let r = S::radix();
                let want: BTreeMap<u64, Vec<(String, String)>> =
                    ts.iter().enumerate().filter(|(_, t)| member(&r, t)).map(|(i, t)| (i as u64 + 1, S::labels(t).into_iter().map(|(n, v)| (n, v.text())).collect())).collect();
                ensure!(got == want, "exposed", "exposed {:?} instead of {:?}", got, want);
                o.state(format!("{want:?}{kind}").as_bytes());
                o.show(|| format!("{:?}", want.last_key_value()));
                Ok(())
            },
        );
    }
}

#[cfg(not(feature = "thorough"))]
#[path = "gen/groups_quick.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "gen/groups_thorough.rs"]
mod gen;

// ---------------------------------------------------------------- sets that a program fills at run time
#[derive(measured::LabelGroup, Clone, Copy, PartialEq, Debug)]
#[label(set = B1Set)]
pub struct B1 {
    #[label(fixed_with = Big)]
    a: Num,
}
#[derive(measured::LabelGroup, Clone, Copy, PartialEq, Debug)]
#[label(set = B2Set)]
pub struct B2 {
    #[label(fixed_with = Big)]
    a: Num,
    #[label(fixed_with = Big)]
    b: Num,
}
#[derive(measured::LabelGroup, Clone, Copy, PartialEq, Debug)]
#[label(set = B3Set)]
pub struct B3 {
    #[label(fixed_with = Big)]
    a: Num,
    #[label(fixed_with = Big)]
    b: Num,
    #[label(fixed_with = Big)]
    c: Num,
}
#[derive(measured::LabelGroup, Clone, Copy, PartialEq, Debug)]
#[label(set = BaSet)]
pub struct Ba {
    #[label(fixed_with = Arc<Big>)]
    a: Num,
    #[label(fixed_with = Arc<Arc<Big>>)]
    b: Num,
}
#[derive(measured::LabelGroup, Clone, Copy, PartialEq, Debug)]
#[label(set = BmSet)]
pub struct Bm<'a> {
    e: E3,
    #[label(fixed_with = Big)]
    a: Num,
    #[label(dynamic_with = ThreadedRodeo, default)]
    d: &'a str,
    #[label(fixed_with = Big)]
    b: Num,
}
/// one runtime-sized set: G = f(numbers)
fn runtime<L: LabelGroupSet>(cx: &mut Cx, what: &str, cards: &[u64], dynamic: bool, full: bool, set: impl Fn(&[u64]) -> L, group: impl Fn(&[u64]) -> L::Group<'static>) {
    let vals: Vec<Vec<u64>> = cards
        .iter()
        .map(|&c| {
            let mut v: Vec<u64> = if full { (0..c + 1).collect() } else { vec![0, 1, c / 2, c.wrapping_sub(2), c.wrapping_sub(1), c] };
            v.retain(|x| *x <= c);
            v.sort();
            v.dedup();
            v
        })
        .collect();
    let fits = |cards: &[u64]| cards.iter().enumerate().try_fold(1usize, |a, (i, &c)| a.checked_mul(if dynamic && i == 0 { c / 2 } else { c } as usize));
    let fit = fits(cards).filter(|_| !dynamic);
    cx.case(
        || format!("{what} with parts of {cards:?}"),
        |o| {
            let s = set(cards);
            let zero = cards.contains(&0);
            if !zero {
                ensure!(s.cardinality() == fit, "cardinality", "cardinality {:?} instead of {:?}", s.cardinality(), fit);
            }
            let mut ids: HashMap<L::Unique, Vec<u64>> = HashMap::new();
            let mut dense: HashMap<usize, Vec<u64>> = HashMap::new();
            let idx: Vec<(usize, usize)> = vals.iter().map(|v| (v.len(), v.len())).collect();
            let all = tuples(&idx);
            for t in &all {
                o.step(1);
                let t: Vec<u64> = t.iter().zip(&vals).map(|(i, v)| v[*i]).collect();
                if dynamic && t[0] >= cards[0] {
                    continue;
                }
                let inside = t.iter().zip(cards).all(|(x, c)| x < c);
                let e = s.encode(group(&t));
                if !inside {
                    ensure!(e.is_none(), "outsider", "{:?} does not belong to the set but has an identifier", t);
                    continue;
                }
                let Some(u) = e else {
                    // where the product of the parts does not fit, a group may be refused
                    ensure!(fits(cards).is_none(), "rejected", "{:?} belongs to the set but has no identifier", t);
                    continue;
                };
                if let Some(p) = ids.insert(u, t.clone()) {
                    return Err(fw::fail("collision", format!("{t:?} and {p:?} have the same identifier")));
                }
                ensure!(s.encode(group(&t)) == Some(u), "unstable", "the identifier of {:?} changed", t);
                let (d, w) = (labels(&s.decode(&u)), labels(&group(&t)));
                ensure!(d == w, "decode", "{:?} decodes to {:?}", w, d);
                if let Some(c) = fit {
                    let Some(x) = s.encode_dense(u) else { return Err(fw::fail("no-dense", format!("{t:?} has no dense index"))) };
                    ensure!(x < c, "dense-range", "dense index {} of {:?}", x, t);
                    if let Some(p) = dense.insert(x, t.clone()) {
                        return Err(fw::fail("dense-collision", format!("{t:?} and {p:?} have dense index {x}")));
                    }
                    let d = labels(&s.decode_dense(x));
                    ensure!(d == w, "decode-dense", "{:?} decodes to {:?} from its dense index", w, d);
                }
            }
            if full {
                if let Some(c) = fit {
                    ensure!(dense.len() == c, "dense-hole", "{} dense indices used of {}", dense.len(), c);
                }
            }
            o.state(format!("{what}{cards:?}").as_bytes());
            o.show(|| format!("{} groups with identifiers", ids.len()));
            Ok(())
        },
    );
}
fn leaked<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
fn numbers(cx: &mut Cx) {
    let t = cx.thorough;
    let n = |x: u64| Num(x);
    // sets behind pointers, with more members than 8, 16 or 32 bits can tell apart
    let cards = [0u64, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 70000, 1 << 24, (1 << 24) + 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX];
    for &a in &cards {
        runtime(cx, "group of 1 part", &[a], false, false, |c| B1Set::new(Big(c[0])), move |v| B1 { a: n(v[0]) });
        runtime(cx, "Arc of a group of 1 part", &[a], false, false, |c| Arc::new(B1Set::new(Big(c[0]))), move |v| B1 { a: n(v[0]) });
        runtime(cx, "Arc of Arc of a group of 1 part", &[a], false, false, |c| Arc::new(Arc::new(B1Set::new(Big(c[0])))), move |v| B1 { a: n(v[0]) });
        runtime(cx, "&'static group of 1 part", &[a], false, false, |c| leaked(B1Set::new(Big(c[0]))), move |v| B1 { a: n(v[0]) });
        for &b in &cards {
            runtime(cx, "group of 2 parts", &[a, b], false, false, |c| B2Set::new(Big(c[0]), Big(c[1])), move |v| B2 { a: n(v[0]), b: n(v[1]) });
            runtime(cx, "group of 2 shared parts", &[a, b], false, false, |c| BaSet::new(Arc::new(Big(c[0])), Arc::new(Arc::new(Big(c[1])))), move |v| Ba { a: n(v[0]), b: n(v[1]) });
            runtime(cx, "Arc of a group of 2 parts", &[a, b], false, false, |c| Arc::new(B2Set::new(Big(c[0]), Big(c[1]))), move |v| B2 { a: n(v[0]), b: n(v[1]) });
            runtime(cx, "&'static group of 2 parts", &[a, b], false, false, |c| leaked(B2Set::new(Big(c[0]), Big(c[1]))), move |v| B2 { a: n(v[0]), b: n(v[1]) });
            runtime(cx, "Arc of a composed group", &[a, b], false, false, |c| Arc::new(ComposedGroup(B1Set::new(Big(c[0])), B1Set::new(Big(c[1])))), move |v| ComposedGroup(B1 { a: n(v[0]) }, B1 { a: n(v[1]) }));
            runtime(cx, "composed Arc and &'static groups", &[a, b], false, false, |c| ComposedGroup(Arc::new(B1Set::new(Big(c[0]))), leaked(B1Set::new(Big(c[1])))), move |v| ComposedGroup(B1 { a: n(v[0]) }, B1 { a: n(v[1]) }));
            runtime(cx, "composed &'static and Arc groups", &[a, b], false, false, |c| ComposedGroup(leaked(B1Set::new(Big(c[0]))), Arc::new(B1Set::new(Big(c[1])))), move |v| ComposedGroup(B1 { a: n(v[0]) }, B1 { a: n(v[1]) }));
        }
    }
    let edge: Vec<u64> = if t { vec![0, 1, 2, 3, 1 << 16, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 62, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX] } else { vec![0, 1, 2, 3, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 33, 1 << 63, u64::MAX] };
    for full in [true, false] {
        let cards: &[u64] = if full { &[0, 1, 2, 3, 5] } else { &edge };
        let three: &[u64] = if full || t { cards } else { &cards[1..] };
        for &a in cards {
            runtime(cx, "derived group of 1 part", &[a], false, full, |c| B1Set::new(Big(c[0])), move |v| B1 { a: n(v[0]) });
            for &b in cards {
                runtime(cx, "derived group of 2 parts", &[a, b], false, full, |c| B2Set::new(Big(c[0]), Big(c[1])), move |v| B2 { a: n(v[0]), b: n(v[1]) });
                runtime(cx, "composed group of 2 parts", &[a, b], false, full, |c| ComposedGroup(B1Set::new(Big(c[0])), B1Set::new(Big(c[1]))), move |v| ComposedGroup(B1 { a: n(v[0]) }, B1 { a: n(v[1]) }));
            }
        }
        for &a in three {
            for &b in three {
                for &c in three {
                    runtime(cx, "derived group of 3 parts", &[a, b, c], false, full, |c| B3Set::new(Big(c[0]), Big(c[1]), Big(c[2])), move |v| B3 { a: n(v[0]), b: n(v[1]), c: n(v[2]) });
                    runtime(
                        cx,
                        "composed group of 1 and 2 parts",
                        &[a, b, c],
                        false,
                        full,
                        |c| ComposedGroup(B1Set::new(Big(c[0])), B2Set::new(Big(c[1]), Big(c[2]))),
                        move |v| ComposedGroup(B1 { a: n(v[0]) }, B2 { a: n(v[1]), b: n(v[2]) }),
                    );
                    runtime(
                        cx,
                        "composed group of 2 and 1 parts",
                        &[a, b, c],
                        false,
                        full,
                        |c| ComposedGroup(B2Set::new(Big(c[0]), Big(c[1])), B1Set::new(Big(c[2]))),
                        move |v| ComposedGroup(B2 { a: n(v[0]), b: n(v[1]) }, B1 { a: n(v[2]) }),
                    );
                    // an enum, a dynamic field and two numbers: the first number picks the enum and the string
                    if c == 3 {
                        runtime(
                            cx,
                            "derived group of enum, number, dynamic, number",
                            &[6, a, b],
                            true,
                            full,
                            |c| BmSet::new(Big(c[1]), Big(c[2])),
                            move |v| Bm { e: E3::decode((v[0] / 2) as usize), a: n(v[1]), d: ["s", "\u{1}"][v[0] as usize % 2], b: n(v[2]) },
                        );
                    }
                }
            }
        }
    }
}
use measured::label::FixedCardinalityLabel as _;

/// a set of strings: members keep their identifiers, everything else is refused
fn strings<S: LabelSet>(o: &mut Obs, set: &S, members: &[String], outsiders: &[String], val: impl Fn(&String) -> S::Value<'static>) -> Res {
    ensure!(set.dynamic_cardinality() == Some(members.len()), "set-cardinality", "cardinality {:?} of a set of {}", set.dynamic_cardinality(), members.len());
    for _ in 0..2 {
        let mut used = vec![None; members.len()];
        for m in members {
            o.step(1);
            let Some(i) = set.encode(val(m)) else { return Err(fw::fail("set-rejected", format!("member {m:?} is refused"))) };
            ensure!(i < members.len(), "set-range", "member {:?} of a set of {} is encoded as {}", m, members.len(), i);
            if let Some(p) = used[i].replace(m) {
                return Err(fw::fail("set-collision", format!("{m:?} and {p:?} are both encoded as {i}")));
            }
            let d = set.decode(i).visit(V);
            ensure!(d == ls(m), "set-decode", "{:?} decodes to {:?}", m, d);
        }
        let inside: std::collections::HashSet<&String> = members.iter().collect();
        for x in outsiders {
            if !inside.contains(x) {
                let e = set.encode(val(x));
                ensure!(e.is_none(), "set-outsider", "{:?} is not in the set but encoded as {:?}", x, e);
            }
        }
    }
    Ok(())
}
fn leak(s: &String) -> &'static str {
    Box::leak(s.clone().into_boxed_str())
}
fn string_sets(cx: &mut Cx) {
    let abc = ["", "a", "b", "A", "ab", "ba", "aa", "/a/:id", "/a/:id/", "\u{e9}", "e\u{301}", "a ", " a", "\0"];
    // every subset of at most 4 of these strings, in order and reversed
    let k = if cx.thorough { 5 } else { 4 };
    let n = abc.len();
    for m in 0u32..1 << n {
        if m.count_ones() > k {
            continue;
        }
        for rev in [false, true] {
            if rev && m.count_ones() < 2 {
                continue;
            }
            cx.case(
                || format!("string sets of {m:b} reversed {rev}"),
                |o| {
                    let mut mem: Vec<String> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| abc[i].to_string()).collect();
                    if rev {
                        mem.reverse();
                    }
                    let out: Vec<String> = abc.iter().map(|s| s.to_string()).collect();
                    strings(o, &mem.iter().collect::<Rodeo>().into_reader(), &mem, &out, leak)?;
                    strings(o, &Arc::new(mem.iter().collect::<Rodeo>().into_reader()), &mem, &out, leak)?;
                    strings(o, &mem.iter().cloned().collect::<indexmap::IndexSet<String>>(), &mem, &out, |s| s.clone())?;
                    strings(o, &mem.iter().map(|s| leak(s)).collect::<indexmap::IndexSet<&'static str>>(), &mem, &out, leak)?;
                    o.state(&m.to_le_bytes());
                    o.show(|| format!("{mem:?}"));
                    Ok(())
                },
            );
        }
    }
    for size in if cx.thorough { &[16usize, 17, 100, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000, 140000][..] } else { &[16, 17, 100, 255, 256, 257, 1000, 65535, 65536, 65537, 70000] } {
        let size = *size;
        cx.case(
            || format!("string sets of {size}"),
            |o| {
                let mem: Vec<String> = (0..size).map(|i| format!("/r{i}")).collect();
                let out: Vec<String> = (0..size + 10).map(|i| format!("/r{i}")).chain((0..10).map(|i| format!("/r0{i}"))).collect();
                let reader = mem.iter().collect::<Rodeo>().into_reader();
                strings(o, &reader, &mem, &out, leak)?;
                strings(o, &Arc::new(reader), &mem, &out, leak)?;
                strings(o, &Arc::new(Arc::new(mem.iter().cloned().collect::<indexmap::IndexSet<String>>())), &mem, &out, |s| s.clone())?;
                strings(o, &mem.iter().cloned().collect::<indexmap::IndexSet<String>>(), &mem, &out, |s| s.clone())
            },
        );
        // a set that grows to this size, one that may be shared
        cx.case(
            || format!("dynamic set of {size}"),
            |o| {
                let mem: Vec<&'static str> = (0..size).map(|i| leak(&format!("/r{i}"))).collect();
                fn go<S: LabelSet>(o: &mut Obs, set: S, mem: &[&'static str], val: impl Fn(&'static str) -> S::Value<'static>) -> Res {
                    let mut ids = HashMap::new();
                    for round in 0..2 {
                        for m in mem {
                            o.step(1);
                            let Some(e) = set.encode(val(m)) else { return Err(fw::fail("dynamic-rejected", format!("{m:?} is refused"))) };
                            let old = ids.insert(e, *m);
                            ensure!(old.is_none() == (round == 0) && old.is_none_or(|x| x == *m), "dynamic-collision", "{:?} gets the identifier {} of {:?}", m, e, old);
                            let d = set.decode(e).visit(V);
                            ensure!(d == ls(m), "dynamic-decode", "{:?} decodes to {:?}", m, d);
                        }
                    }
                    Ok(())
                }
                go(o, ThreadedRodeo::default(), &mem, |s| s)?;
                go(o, Arc::new(ThreadedRodeo::default()), &mem, |s| s)
            },
        );
    }
    cx.case(
        || "phf string sets".into(),
        |o| {
            let out: Vec<String> = abc.iter().map(|s| s.to_string()).collect();
            let v = |s: &[&str]| s.iter().map(|s| s.to_string()).collect::<Vec<_>>();
            strings(o, &phf::phf_ordered_set! {"a"}, &v(&["a"]), &out, leak)?;
            strings(o, &phf::phf_ordered_set! {"b", "a", ""}, &v(&["b", "a", ""]), &out, leak)?;
            strings(o, &phf::phf_ordered_set! {"A", "a", "aa", "ab", "ba", "/a/:id"}, &v(&["A", "a", "aa", "ab", "ba", "/a/:id"]), &out, leak)
        },
    );
    // dynamic sets: every history of lookups of at most 5 of 4 strings
    let w = ["", "a", "A", "ab"];
    let mut hs = vec![];
    Cx::seqs(4, if cx.thorough { 7 } else { 5 }, |s| hs.push(s.to_vec()));
    for h in hs {
        cx.case(
            || format!("dynamic set, lookups {h:?}"),
            |o| {
                fn go<S: LabelSet>(o: &mut Obs, set: S, h: &[usize], w: &[&'static str], val: impl Fn(&'static str) -> S::Value<'static>) -> Res {
                    let mut seen: Vec<Option<usize>> = vec![None; w.len()];
                    ensure!(set.dynamic_cardinality().is_none(), "dynamic-cardinality", "a growing set has cardinality {:?}", set.dynamic_cardinality());
                    for &i in h {
                        o.step(1);
                        let Some(e) = set.encode(val(w[i])) else { return Err(fw::fail("dynamic-rejected", format!("{:?} is refused", w[i]))) };
                        if let Some(p) = seen[i] {
                            ensure!(p == e, "dynamic-unstable", "{:?} was {} and is {}", w[i], p, e);
                        } else {
                            ensure!(!seen.contains(&Some(e)), "dynamic-collision", "{:?} gets the identifier {} of another string", w[i], e);
                        }
                        seen[i] = Some(e);
                        for (j, s) in seen.iter().enumerate() {
                            if let Some(s) = s {
                                let d = set.decode(*s).visit(V);
                                ensure!(d == ls(w[j]), "dynamic-decode", "{:?} decodes to {:?}", w[j], d);
                            }
                        }
                    }
                    Ok(())
                }
                go(o, ThreadedRodeo::default(), &h, &w, |s| s)?;
                go(o, Arc::new(ThreadedRodeo::<lasso::MiniSpur>::new()), &h, &w, |s| s)?;
                o.state(format!("{h:?}").as_bytes());
                Ok(())
            },
        );
    }
    // a dynamic set whose identifiers run out refuses new strings and keeps the old ones
    cx.case(
        || "full dynamic set".into(),
        |o| {
            let set = ThreadedRodeo::<MicroSpur>::new();
            let mut got: Vec<Option<usize>> = vec![];
            let mut full = false;
            for i in 0..400 {
                o.step(1);
                let e = LabelSet::encode(&set, leak(&format!("s{i}")));
                if let Some(x) = e {
                    ensure!(!got.contains(&Some(x)), "full-collision", "string {} gets the identifier {} of another", i, x);
                    ensure!(!full, "full-again", "string {} is accepted after one was refused", i);
                } else {
                    full = true;
                }
                got.push(e);
            }
            ensure!(got.iter().flatten().count() >= 254, "full-early", "only {} strings accepted", got.iter().flatten().count());
            for (i, g) in got.iter().enumerate() {
                let e = LabelSet::encode(&set, leak(&format!("s{i}")));
                ensure!(e == *g, "full-unstable", "string {} was {:?} and is {:?}", i, g, e);
                if let Some(x) = g {
                    ensure!(LabelSet::decode(&set, *x) == format!("s{i}"), "full-decode", "string {} decodes to {:?}", i, LabelSet::decode(&set, *x));
                }
            }
            o.show(|| format!("{} accepted", got.iter().flatten().count()));
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- a set whose identifiers all hash alike
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Alike(u32);
impl std::hash::Hash for Alike {
    fn hash<H: std::hash::Hasher>(&self, st: &mut H) {
        st.write_u8(1)
    }
}
struct AlikeSet(Option<usize>);
impl LabelGroupSet for AlikeSet {
    type Group<'a> = B1;
    type Unique = Alike;
    fn cardinality(&self) -> Option<usize> {
        self.0
    }
    fn encode_dense(&self, v: Alike) -> Option<usize> {
        self.0.map(|_| v.0 as usize)
    }
    fn decode_dense(&self, v: usize) -> B1 {
        B1 { a: Num(v as u64) }
    }
    fn encode(&self, v: B1) -> Option<Alike> {
        self.0.map_or(true, |c| v.a.0 < c as u64).then_some(Alike(v.a.0 as u32))
    }
    fn decode(&self, v: &Alike) -> B1 {
        B1 { a: Num(v.0 as u64) }
    }
}
fn alike(cx: &mut Cx) {
    for n in 1..=9usize {
        for kind in 0..4 {
            cx.case(
                || format!("{n} groups whose identifiers hash alike, vec of kind {kind}"),
                |o| {
                    let v = match kind {
                        0 => CounterVec::with_label_set(AlikeSet(Some(n))),
                        1 => CounterVec::with_label_set(AlikeSet(None)),
                        2 => CounterVec::dense_with_label_set(AlikeSet(Some(n))),
                        _ => CounterVec::sparse_with_label_set(AlikeSet(Some(n))),
                    };
                    let ids: Vec<_> = (0..n).map(|i| v.with_labels(B1 { a: Num(i as u64) })).collect();
                    for (a, x) in ids.iter().enumerate() {
                        for (b, y) in ids.iter().enumerate() {
                            o.step(1);
                            ensure!((x == y) == (a == b) && (x != y) == (a != b), "alike-equal", "the identifiers of {} and {} compare {}", a, b, x == y);
                        }
                        ensure!(v.try_with_labels(B1 { a: Num(a as u64) }) == Some(*x), "alike-later", "the identifier of {} changed", a);
                        v.get_metric(*x).inc_by(a as u64 + 1);
                    }
                    for (a, x) in ids.iter().enumerate() {
                        let got = v.get_metric(*x).count.load(std::sync::atomic::Ordering::Relaxed);
                        ensure!(got == a as u64 + 1, "alike-series", "series {} holds {}", a, got);
                    }
                    o.state(&[n as u8, kind]);
                    o.show(|| format!("{n} identifiers"));
                    Ok(())
                },
            );
        }
    }
}

fn run07(cx: &mut Cx) {
    gen::all07(cx);
    alike(cx);
    numbers(cx);
    string_sets(cx);
}
fn run26(cx: &mut Cx) {
    gen::all26(cx);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let only = a.iter().position(|x| x == "--index").map(|i| a[i + 1].parse().unwrap());
    std::process::exit(fw::main(if a[1] == "C07" { run07 } else { run26 }, a[2] == "thorough", 8, only, 60))
}
