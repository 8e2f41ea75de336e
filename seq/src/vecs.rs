//! C09 (metric vec = map), C10 (representation and CPU count invisible)
use crate::fw::*;
use crate::world::*;
use crate::{ensure, prom};
use measured::label::{DynamicLabelSet, LabelGroupSet, LabelGroupVisitor, LabelName, LabelSet, StaticLabelSet};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::MetricName;
use measured::metric::{LabelId, MetricEncoding, MetricFamilyEncoding, MetricType, MetricVec};
use measured::text::BufferedTextEncoder;
use measured::{FixedCardinalityLabel, LabelGroup};
use std::sync::atomic::Ordering::Relaxed;

/// label sets whose i-th group is labelled l="i"
pub trait Indexed: LabelGroupSet {
    fn group(&self, i: usize) -> Self::Group<'_>;
}
impl<const H: u8> Indexed for ListSet<H> {
    fn group(&self, i: usize) -> &Labels {
        &self.groups[i]
    }
}
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(singleton = "l")]
pub enum E3 {
    A = 0,
    B = 1,
    C = 2,
}
impl Indexed for StaticLabelSet<E3> {
    fn group(&self, i: usize) -> E3 {
        [E3::A, E3::B, E3::C][i]
    }
}
/// unbounded set over an interner
pub struct DynSet(pub lasso::ThreadedRodeo);
#[derive(Clone, Copy)]
pub struct DynG<'a>(pub &'a str);
impl LabelGroup for DynG<'_> {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("l"), &self.0);
    }
}
fn is_dyn<T: DynamicLabelSet>(_: &T) {}
impl LabelGroupSet for DynSet {
    type Group<'a> = DynG<'a>;
    type Unique = usize;
    fn cardinality(&self) -> Option<usize> {
        is_dyn(&self.0);
        None
    }
    fn encode_dense(&self, _: usize) -> Option<usize> {
        None
    }
    fn decode_dense(&self, _: usize) -> DynG<'_> {
        panic!("decode_dense of an unbounded set")
    }
    fn encode(&self, v: DynG<'_>) -> Option<usize> {
        LabelSet::encode(&self.0, v.0)
    }
    fn decode(&self, v: &usize) -> DynG<'_> {
        DynG(LabelSet::decode(&self.0, *v))
    }
}
const NAMES: [&str; 8] = ["0", "1", "2", "3", "4", "5", "6", "7"];
impl Indexed for DynSet {
    fn group(&self, i: usize) -> DynG<'_> {
        DynG(NAMES[i])
    }
}

/// what the operations mean for each metric type
pub trait Ops: MetricType + MetricEncoding<BufferedTextEncoder> {
    const KIND: Kind;
    fn meta() -> Self::Metadata;
    fn zero() -> Val;
    fn upd<L: Indexed>(v: &MetricVec<Self, L>, id: LabelId<L>, step: usize);
    fn upd_conv<L: Indexed>(v: &MetricVec<Self, L>, l: L::Group<'_>, step: usize);
    fn upd_mut<L: Indexed>(v: &mut MetricVec<Self, L>, id: LabelId<L>, step: usize);
    fn model(v: &mut Val, step: usize);
    fn read(&self) -> Val;
}
impl Ops for CounterState {
    const KIND: Kind = Kind::C;
    fn meta() {}
    fn zero() -> Val {
        Val::U(0)
    }
    fn upd<L: Indexed>(v: &MetricVec<Self, L>, id: LabelId<L>, s: usize) {
        v.get_metric(id).inc_by(1 << (2 * (s % 16)))
    }
    fn upd_conv<L: Indexed>(v: &MetricVec<Self, L>, l: L::Group<'_>, s: usize) {
        v.inc_by(l, 1 << (2 * (s % 16)))
    }
    fn upd_mut<L: Indexed>(v: &mut MetricVec<Self, L>, id: LabelId<L>, s: usize) {
        v.get_metric_mut(id).inc_by(1 << (2 * (s % 16)))
    }
    fn model(v: &mut Val, s: usize) {
        let Val::U(x) = v else { unreachable!() };
        *x += 1 << (2 * (s % 16))
    }
    fn read(&self) -> Val {
        Val::U(self.count.load(Relaxed))
    }
}
fn gi(s: usize) -> i64 {
    (1 << (2 * (s % 16))) * if s % 3 == 1 { -1 } else { 1 }
}
impl Ops for GaugeState {
    const KIND: Kind = Kind::G;
    fn meta() {}
    fn zero() -> Val {
        Val::I(0)
    }
    fn upd<L: Indexed>(v: &MetricVec<Self, L>, id: LabelId<L>, s: usize) {
        v.get_metric(id).inc_by(gi(s))
    }
    fn upd_conv<L: Indexed>(v: &MetricVec<Self, L>, l: L::Group<'_>, s: usize) {
        v.inc_by(l, gi(s))
    }
    fn upd_mut<L: Indexed>(v: &mut MetricVec<Self, L>, id: LabelId<L>, s: usize) {
        v.get_metric_mut(id).inc_by(gi(s))
    }
    fn model(v: &mut Val, s: usize) {
        let Val::I(x) = v else { unreachable!() };
        *x += gi(s)
    }
    fn read(&self) -> Val {
        Val::I(self.count.load(Relaxed))
    }
}
impl Ops for FloatGaugeState {
    const KIND: Kind = Kind::F;
    fn meta() {}
    fn zero() -> Val {
        Val::F(0.0)
    }
    fn upd<L: Indexed>(v: &MetricVec<Self, L>, id: LabelId<L>, s: usize) {
        v.get_metric(id).inc_by(gi(s) as f64 * 0.5)
    }
    fn upd_conv<L: Indexed>(v: &MetricVec<Self, L>, l: L::Group<'_>, s: usize) {
        v.inc_by(l, gi(s) as f64 * 0.5)
    }
    fn upd_mut<L: Indexed>(v: &mut MetricVec<Self, L>, id: LabelId<L>, s: usize) {
        v.get_metric_mut(id).inc_by(gi(s) as f64 * 0.5)
    }
    fn model(v: &mut Val, s: usize) {
        let Val::F(x) = v else { unreachable!() };
        *x += gi(s) as f64 * 0.5
    }
    fn read(&self) -> Val {
        Val::F(self.count.get())
    }
}
fn ho(s: usize) -> f64 {
    [0.0, 2.0, 64.0][s % 3] + 1.0 / (1u64 << (s % 16)) as f64
}
impl Ops for HistogramState<2> {
    const KIND: Kind = Kind::H;
    fn meta() -> Thresholds<2> {
        Thresholds::with_buckets(LE2)
    }
    fn zero() -> Val {
        Val::H { buckets: [0; 2], inf: 0, sum: 0.0 }
    }
    fn upd<L: Indexed>(v: &MetricVec<Self, L>, id: LabelId<L>, s: usize) {
        v.get_metric(id).observe(ho(s))
    }
    fn upd_conv<L: Indexed>(v: &MetricVec<Self, L>, l: L::Group<'_>, s: usize) {
        v.observe(l, ho(s))
    }
    fn upd_mut<L: Indexed>(v: &mut MetricVec<Self, L>, id: LabelId<L>, s: usize) {
        v.get_metric_mut(id).observe(ho(s))
    }
    fn model(v: &mut Val, s: usize) {
        let Val::H { buckets, inf, sum } = v else { unreachable!() };
        match s % 3 {
            0 => buckets[0] += 1,
            1 => buckets[1] += 1,
            _ => *inf += 1,
        }
        *sum += ho(s);
    }
    fn read(&self) -> Val {
        let i = self.inner.read();
        Val::H { buckets: [i.buckets[0].load(Relaxed), i.buckets[1].load(Relaxed)], inf: i.inf.load(Relaxed), sum: i.sum.get() }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Touch(usize),
    Upd(usize),
    Conv(usize),
    Mut(usize),
    TouchMut(usize),
    Remove(usize),
    Init,
    Look,
}
/// what the documentation leaves to the representation
#[derive(Clone, Copy, PartialEq)]
pub enum Removes {
    No,
    Yes,
    /// default constructors: either, but always the same
    Either,
}

pub fn scrape_vec<M: Ops, L: Indexed>(v: &MetricVec<M, L>) -> Result<prom::Family, Fail> {
    let mut e = BufferedTextEncoder::new();
    let Ok(()) = v.collect_family_into(MetricName::from_str("m"), &mut e);
    let b = e.finish();
    let mut d = prom::doc(&b).map_err(|x| fail("document", format!("{x}; output {:?}", String::from_utf8_lossy(&b))))?;
    ensure!(d.len() == 1, "document", "{} families", d.len());
    Ok(d.pop().unwrap())
}
fn check_all<M: Ops, L: Indexed>(v: &MetricVec<M, L>, model: &[Option<Val>], upper: Option<usize>, o: &mut Obs) -> Res {
    let live = model.iter().filter(|m| m.is_some()).count();
    let c = v.get_cardinality();
    ensure!(c == (live, upper), "cardinality", "cardinality query returned {:?}, expected ({}, {:?})", c, live, upper);
    let f = scrape_vec(v)?;
    let exp: Vec<Series> = model
        .iter()
        .enumerate()
        .filter_map(|(i, m)| Some(Series { labels: vec![("l".into(), i.to_string())], val: m.clone()? }))
        .collect();
    matches(&f, M::KIND, &exp).map_err(|e| fail("scrape", e))?;
    o.state(format!("{model:?}").as_bytes());
    o.show(|| format!("{model:?}"));
    Ok(())
}
pub fn run_ops<M: Ops, L: Indexed>(mut v: MetricVec<M, L>, nlabels: usize, ops: &[Op], removes: Removes, upper: Option<usize>, early_ids: bool, o: &mut Obs) -> Res {
    let mut model: Vec<Option<Val>> = vec![None; nlabels];
    let ids: Vec<LabelId<L>> = if early_ids { (0..nlabels).map(|i| v.with_labels(v.get_label_set().group(i))).collect() } else { vec![] };
    macro_rules! id {
        ($i:expr) => {
            if early_ids {
                ids[*$i]
            } else {
                v.with_labels(v.get_label_set().group(*$i))
            }
        };
    }
    let mut mode: Option<bool> = match removes {
        Removes::No => Some(false),
        Removes::Yes => Some(true),
        Removes::Either => None,
    };
    for (n, op) in ops.iter().enumerate() {
        o.step(1);
        match op {
            Op::Touch(i) => {
                let m = model[*i].get_or_insert_with(M::zero);
                let got = v.get_metric(id!(i)).read();
                ensure!(got == *m, "value", "after {:?} reference shows {:?}, expected {:?}", &ops[..=n], got, m);
            }
            Op::TouchMut(i) => {
                let m = model[*i].get_or_insert_with(M::zero);
                let id = id!(i);
                let got = v.get_metric_mut(id).read();
                ensure!(got == *m, "value", "after {:?} exclusive reference shows {:?}, expected {:?}", &ops[..=n], got, m);
            }
            Op::Upd(i) => {
                M::model(model[*i].get_or_insert_with(M::zero), n);
                M::upd(&v, id!(i), n);
            }
            Op::Conv(i) => {
                M::model(model[*i].get_or_insert_with(M::zero), n);
                M::upd_conv(&v, v.get_label_set().group(*i), n);
            }
            Op::Mut(i) => {
                M::model(model[*i].get_or_insert_with(M::zero), n);
                let id = id!(i);
                M::upd_mut(&mut v, id, n);
            }
            Op::Remove(i) => {
                let got = v.remove_metric(id!(i)).map(|m| m.read());
                if model[*i].is_some() && mode.is_none() {
                    mode = Some(got.is_some());
                }
                let want = if mode == Some(true) { model[*i].take() } else { None };
                ensure!(got == want, "remove", "after {:?} removal returned {:?}, expected {:?}", &ops[..=n], got, want);
            }
            Op::Init => {
                v.init_all_dense();
                let all = match mode {
                    Some(removes) => !removes,
                    None => {
                        let all = nlabels > 0 && v.get_cardinality().0 == nlabels && model.iter().any(|m| m.is_none());
                        if all {
                            mode = Some(false);
                        }
                        all
                    }
                };
                if all {
                    for m in &mut model {
                        m.get_or_insert_with(M::zero);
                    }
                }
            }
            Op::Look => check_all(&v, &model, upper, o)?,
        }
    }
    check_all(&v, &model, upper, o)
}
pub fn alphabet(n: usize) -> Vec<Op> {
    let mut a = vec![];
    for i in 0..n {
        a.extend([Op::Touch(i), Op::Upd(i), Op::Conv(i), Op::Mut(i), Op::TouchMut(i), Op::Remove(i)]);
    }
    a.extend([Op::Init, Op::Look]);
    a
}

fn c09_kind<M: Ops>(cx: &mut Cx) {
    let (d2, d3) = if cx.thorough { (6, 5) } else { (5, 4) };
    for (nl, depth) in [(2, d2), (3, d3)] {
        let a = alphabet(nl);
        for (cfg, early) in [("dense", true), ("dense", false), ("sparse", true), ("sparse", false), ("collide", true), ("dyn", false)] {
            // the deepest level only with two labels and one configuration per representation
            let depth = if matches!((cfg, early), ("dense", true) | ("sparse", true)) { depth } else { depth - 1 };
            Cx::seqs(a.len(), depth, |sq| {
                let ops = || sq.iter().map(|&k| a[k]).collect::<Vec<_>>();
                cx.case(
                    || format!("{:?} {cfg}{} {:?}", M::KIND, if early { "" } else { " (ids looked up at each use)" }, ops()),
                    |o| {
                        let ops = ops();
                        match cfg {
                            "dense" => run_ops(MetricVec::<M, _>::dense_with_label_set_and_metadata(StaticLabelSet::<E3>::new(), M::meta()), 3, &ops, Removes::No, Some(3), early, o),
                            "sparse" => run_ops(MetricVec::<M, _>::sparse_with_label_set_and_metadata(StaticLabelSet::<E3>::new(), M::meta()), 3, &ops, Removes::Yes, Some(3), early, o),
                            "collide" => run_ops(MetricVec::<M, _>::sparse_with_label_set_and_metadata(ListSet::<1>::numbered(3, true), M::meta()), 3, &ops, Removes::Yes, Some(3), early, o),
                            _ => run_ops(MetricVec::<M, _>::with_label_set_and_metadata(DynSet(lasso::ThreadedRodeo::new()), M::meta()), 3, &ops, Removes::Yes, None, early, o),
                        }
                    },
                );
            });
        }
    }
}
/// deep histories: n series created in some order, some removed, created again; checked at every stage
pub fn growth<const H: u8, M: Ops>(cx: &mut Cx, repr: Repr, n: usize, accesses: &[usize]) {
    for order in 0..4usize {
        for rem in 0..6usize {
            for &access in accesses {
                if n > 2000 && (order % 2 == 1 || rem % 2 == 0) {
                    continue;
                }
                cx.case(
                    || format!("growth {repr:?} {:?} hash class {H} n={n} order {order} removal pattern {rem} {}", M::KIND, ["shared", "exclusive", "alternating"][access]),
                    |o| {
                        let fixed = n % 2 == 0 || repr == Repr::Dense;
                        let mut v = mkvec::<M, _>(repr, ListSet::<H>::numbered(n, fixed), M::meta());
                        let upper = fixed.then_some(n);
                        let mut model: Vec<Option<Val>> = vec![None; n];
                        let ord: Vec<usize> = match order {
                            0 => (0..n).collect(),
                            1 => (0..n).rev().collect(),
                            2 => (0..n).map(|i| (i * 7) % n).collect::<std::collections::BTreeSet<_>>().into_iter().rev().chain(0..n).collect(),
                            _ => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
                        };
                        let ids: Vec<_> = (0..n).map(|i| v.with_labels(v.get_label_set().group(i))).collect();
                        let removed = |i: usize| match rem {
                            0 => true,
                            1 => i % 2 == 0,
                            2 => i < n / 2,
                            3 => i >= n / 2,
                            4 => i % 3 != 1,
                            _ => i == n / 2,
                        };
                        let mut step = 0;
                        for round in 0..3 {
                            for &i in &ord {
                                M::model(model[i].get_or_insert_with(M::zero), step);
                                if access == 0 || access == 2 && (step + round) % 2 == 0 {
                                    M::upd(&v, ids[i], step);
                                } else {
                                    M::upd_mut(&mut v, ids[i], step);
                                }
                                step += 1;
                                o.step(1);
                                if round == 0 && if n <= 1000 { (i * 5) % 8 == 0 } else { i == n / 3 } {
                                    check_all(&v, &model, upper, o)?;
                                }
                            }
                            check_all(&v, &model, upper, o)?;
                            for &i in &ord {
                                if removed(i) {
                                    let got = v.remove_metric(ids[i]).map(|m| m.read());
                                    let want = if repr == Repr::Dense { None } else { model[i].take() };
                                    ensure!(got == want, "remove", "removal of {i} returned {got:?}, expected {want:?}");
                                    o.step(1);
                                }
                            }
                            check_all(&v, &model, upper, o)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
// every way of updating a series, also by nothing at all
pub trait Free: Indexed {
    fn free(i: usize) -> Self::Group<'static>;
}
impl Free for StaticLabelSet<E3> {
    fn free(i: usize) -> E3 {
        [E3::A, E3::B, E3::C][i]
    }
}
impl Free for DynSet {
    fn free(i: usize) -> DynG<'static> {
        DynG(NAMES[i])
    }
}
pub trait Api: Ops {
    /// name, what it does to the series, how it is done
    #[allow(clippy::type_complexity)]
    fn apis<L: Free>() -> Vec<(&'static str, fn(&mut Val), fn(&mut MetricVec<Self, L>, usize))>;
}
macro_rules! apis {
    ($($name:ident($v:ident, $i:ident, $g:ident, $id:ident) $m:expr, $e:expr;)*) => {
        vec![$((stringify!($name), $m as fn(&mut Val), |$v: &mut MetricVec<Self, L>, $i: usize| {
            #[allow(unused)]
            let $g = || L::free($i);
            #[allow(unused)]
            let $id = $v.with_labels(L::free($i));
            $e;
        })),*]
    };
}
macro_rules! val {
    ($K:ident, $x:ident, $e:expr) => {
        |v: &mut Val| {
            let Val::$K($x) = v else { unreachable!() };
            $e
        }
    };
}
impl Api for CounterState {
    fn apis<L: Free>() -> Vec<(&'static str, fn(&mut Val), fn(&mut MetricVec<Self, L>, usize))> {
        apis! {
            vec_inc(v, i, g, id) val!(U, x, *x += 1), v.inc(g());
            vec_inc_by_0(v, i, g, id) val!(U, _x, ()), v.inc_by(g(), 0);
            vec_inc_by_5(v, i, g, id) val!(U, x, *x += 5), v.inc_by(g(), 5);
            vec_inc_mut(v, i, g, id) val!(U, x, *x += 1), v.inc_mut(g());
            vec_inc_by_mut_0(v, i, g, id) val!(U, _x, ()), v.inc_by_mut(g(), 0);
            vec_inc_by_mut_5(v, i, g, id) val!(U, x, *x += 5), v.inc_by_mut(g(), 5);
            guard_inc(v, i, g, id) val!(U, x, *x += 1), v.get_metric(id).inc();
            guard_inc_by_0(v, i, g, id) val!(U, _x, ()), v.get_metric(id).inc_by(0);
            guard_inc_by_5(v, i, g, id) val!(U, x, *x += 5), v.get_metric(id).inc_by(5);
            mut_inc(v, i, g, id) val!(U, x, *x += 1), v.get_metric_mut(id).inc();
            mut_inc_by_0(v, i, g, id) val!(U, _x, ()), v.get_metric_mut(id).inc_by(0);
            mut_inc_by_5(v, i, g, id) val!(U, x, *x += 5), v.get_metric_mut(id).inc_by(5);
        }
    }
}
macro_rules! gauge_apis {
    ($S:ty, $K:ident, $c:expr) => {
        impl Api for $S {
            fn apis<L: Free>() -> Vec<(&'static str, fn(&mut Val), fn(&mut MetricVec<Self, L>, usize))> {
                apis! {
                    vec_inc(v, i, g, id) val!($K, x, *x += $c(1)), v.inc(g());
                    vec_dec(v, i, g, id) val!($K, x, *x -= $c(1)), v.dec(g());
                    vec_inc_by_0(v, i, g, id) val!($K, _x, ()), v.inc_by(g(), $c(0));
                    vec_inc_by_5(v, i, g, id) val!($K, x, *x += $c(5)), v.inc_by(g(), $c(5));
                    vec_dec_by_0(v, i, g, id) val!($K, _x, ()), v.dec_by(g(), $c(0));
                    vec_dec_by_7(v, i, g, id) val!($K, x, *x -= $c(7)), v.dec_by(g(), $c(7));
                    vec_dec_by_minus_5(v, i, g, id) val!($K, x, *x += $c(5)), v.dec_by(g(), $c(-5));
                    vec_set_0(v, i, g, id) val!($K, x, *x = $c(0)), v.set(g(), $c(0));
                    vec_set_9(v, i, g, id) val!($K, x, *x = $c(9)), v.set(g(), $c(9));
                    guard_inc(v, i, g, id) val!($K, x, *x += $c(1)), v.get_metric(id).inc();
                    guard_dec(v, i, g, id) val!($K, x, *x -= $c(1)), v.get_metric(id).dec();
                    guard_inc_by_0(v, i, g, id) val!($K, _x, ()), v.get_metric(id).inc_by($c(0));
                    guard_inc_by_5(v, i, g, id) val!($K, x, *x += $c(5)), v.get_metric(id).inc_by($c(5));
                    guard_dec_by_0(v, i, g, id) val!($K, _x, ()), v.get_metric(id).dec_by($c(0));
                    guard_dec_by_7(v, i, g, id) val!($K, x, *x -= $c(7)), v.get_metric(id).dec_by($c(7));
                    guard_set_0(v, i, g, id) val!($K, x, *x = $c(0)), v.get_metric(id).set($c(0));
                    guard_set_9(v, i, g, id) val!($K, x, *x = $c(9)), v.get_metric(id).set($c(9));
                    mut_inc(v, i, g, id) val!($K, x, *x += $c(1)), v.get_metric_mut(id).inc();
                    mut_dec(v, i, g, id) val!($K, x, *x -= $c(1)), v.get_metric_mut(id).dec();
                    mut_inc_by_0(v, i, g, id) val!($K, _x, ()), v.get_metric_mut(id).inc_by($c(0));
                    mut_inc_by_5(v, i, g, id) val!($K, x, *x += $c(5)), v.get_metric_mut(id).inc_by($c(5));
                    mut_dec_by_0(v, i, g, id) val!($K, _x, ()), v.get_metric_mut(id).dec_by($c(0));
                    mut_dec_by_7(v, i, g, id) val!($K, x, *x -= $c(7)), v.get_metric_mut(id).dec_by($c(7));
                    mut_set_0(v, i, g, id) val!($K, x, *x = $c(0)), v.get_metric_mut(id).set($c(0));
                    mut_set_9(v, i, g, id) val!($K, x, *x = $c(9)), v.get_metric_mut(id).set($c(9));
                }
            }
        }
    };
}
gauge_apis!(GaugeState, I, |x: i64| x);
gauge_apis!(FloatGaugeState, F, |x: i32| x as f64);
fn ob(v: &mut Val, x: f64) {
    let Val::H { buckets, inf, sum } = v else { unreachable!() };
    *(if x <= LE2[0] {
        &mut buckets[0]
    } else if x <= LE2[1] {
        &mut buckets[1]
    } else {
        inf
    }) += 1;
    *sum += x;
}
impl Api for HistogramState<2> {
    fn apis<L: Free>() -> Vec<(&'static str, fn(&mut Val), fn(&mut MetricVec<Self, L>, usize))> {
        use std::time::Duration;
        const D: Duration = Duration::from_secs(2);
        apis! {
            vec_observe_0(v, i, g, id) |v: &mut Val| ob(v, 0.0), v.observe(g(), 0.0);
            vec_observe_2(v, i, g, id) |v: &mut Val| ob(v, 2.0), v.observe(g(), 2.0);
            vec_observe_inf(v, i, g, id) |v: &mut Val| ob(v, f64::INFINITY), v.observe(g(), f64::INFINITY);
            vec_observe_minus_1(v, i, g, id) |v: &mut Val| ob(v, -1.0), v.observe(g(), -1.0);
            vec_duration_0(v, i, g, id) |v: &mut Val| ob(v, 0.0), v.observe_duration(g(), Duration::ZERO);
            vec_duration_2(v, i, g, id) |v: &mut Val| ob(v, 2.0), v.observe_duration(g(), D);
            guard_observe_0(v, i, g, id) |v: &mut Val| ob(v, 0.0), v.get_metric(id).observe(0.0);
            guard_observe_2(v, i, g, id) |v: &mut Val| ob(v, 2.0), v.get_metric(id).observe(2.0);
            guard_duration_0(v, i, g, id) |v: &mut Val| ob(v, 0.0), v.get_metric(id).observe_duration(Duration::ZERO);
            guard_duration_2(v, i, g, id) |v: &mut Val| ob(v, 2.0), v.get_metric(id).observe_duration(D);
            mut_observe_0(v, i, g, id) |v: &mut Val| ob(v, 0.0), v.get_metric_mut(id).observe(0.0);
            mut_observe_2(v, i, g, id) |v: &mut Val| ob(v, 2.0), v.get_metric_mut(id).observe(2.0);
            mut_duration_0(v, i, g, id) |v: &mut Val| ob(v, 0.0), v.get_metric_mut(id).observe_duration(Duration::ZERO);
            mut_duration_2(v, i, g, id) |v: &mut Val| ob(v, 2.0), v.get_metric_mut(id).observe_duration(D);
        }
    }
}
fn c09_api<M: Api>(cx: &mut Cx) {
    fn over<M: Api, L: Free>(cx: &mut Cx, what: &str, upper: Option<usize>, removes: bool, depth: usize, make: impl Fn() -> MetricVec<M, L>) {
        let api = M::apis::<L>();
        // the operations on two labels, then removing either of them
        let n = api.len() * 2 + 2;
        Cx::seqs(n, depth, |sq| {
            cx.case(
                || format!("{:?} {what}: {:?}", M::KIND, sq.iter().map(|&k| if k < api.len() * 2 { format!("{}({})", api[k / 2].0, k % 2) } else { format!("remove({})", k % 2) }).collect::<Vec<_>>()),
                |o| {
                    let mut v = make();
                    let mut model = vec![None; 3];
                    for &k in sq {
                        let i = k % 2;
                        o.step(1);
                        if k < api.len() * 2 {
                            (api[k / 2].1)(model[i].get_or_insert_with(M::zero));
                            (api[k / 2].2)(&mut v, i);
                        } else {
                            let got = v.remove_metric(v.with_labels(L::free(i))).map(|m| m.read());
                            let want = if removes { model[i].take() } else { None };
                            ensure!(got == want, "remove", "removal of {i} returned {got:?}, expected {want:?}");
                        }
                    }
                    check_all(&v, &model, upper, o)
                },
            );
        });
    }
    let d = if cx.thorough { 3 } else { 2 };
    over::<M, _>(cx, "dense", Some(3), false, d, || MetricVec::dense_with_label_set_and_metadata(StaticLabelSet::<E3>::new(), M::meta()));
    over::<M, _>(cx, "sparse", Some(3), true, d, || MetricVec::sparse_with_label_set_and_metadata(StaticLabelSet::<E3>::new(), M::meta()));
    over::<M, _>(cx, "dyn", None, true, 2, || MetricVec::with_label_set_and_metadata(DynSet(lasso::ThreadedRodeo::new()), M::meta()));
}
pub fn c09(cx: &mut Cx) {
    c09_api::<CounterState>(cx);
    c09_api::<GaugeState>(cx);
    c09_api::<FloatGaugeState>(cx);
    c09_api::<HistogramState<2>>(cx);
    let max = if cx.thorough { 300 } else { 72 };
    for n in 1..=max {
        growth::<0, CounterState>(cx, Repr::Sparse, n, &[0, 1]);
        growth::<1, CounterState>(cx, Repr::Sparse, n, &[0, 1]);
        growth::<2, GaugeState>(cx, Repr::Sparse, n, &[0, 1]);
        growth::<3, FloatGaugeState>(cx, Repr::Sparse, n, &[0, 1]);
        if n <= 72 {
            growth::<1, HistogramState<2>>(cx, Repr::Sparse, n, &[0, 1]);
        }
    }
    for n in [1, 2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] {
        growth::<0, CounterState>(cx, Repr::Dense, n, &[0, 1]);
        growth::<0, HistogramState<2>>(cx, Repr::Dense, n, &[0, 1]);
    }
    for n in if cx.thorough { vec![4095, 4096, 4097, 65535, 65536, 65537, 140_000] } else { vec![4097, 65537, 70_000] } {
        growth::<0, CounterState>(cx, Repr::Sparse, n, &[0, 1]);
        growth::<0, GaugeState>(cx, Repr::Dense, n, &[0, 2]);
    }
    c09_kind::<CounterState>(cx);
    c09_kind::<GaugeState>(cx);
    c09_kind::<FloatGaugeState>(cx);
    c09_kind::<HistogramState<2>>(cx);
}

// ------------------------------------------------------------------ C10

fn c10_kind<M: Ops>(cx: &mut Cx)
where
    M::Metadata: Sized,
{
    let cpus = std::thread::available_parallelism().map_or(0, usize::from);
    let small = alphabet(2);
    let a1 = alphabet(1);
    for card in [0usize, 1, 2, 3, 5, 64, 1023, 1024, 1025, 5000] {
        for fixed in [true, false] {
            for repr in [Repr::Dense, Repr::Sparse, Repr::Default] {
                if repr == Repr::Dense && !fixed {
                    cx.case(
                        || format!("{cpus} cpus {:?} dense, unbounded set of {card}", M::KIND),
                        |_| {
                            let r = guarded(|| {
                                MetricVec::<M, _>::dense_with_label_set_and_metadata(ListSet::<0>::numbered(card, false), M::meta());
                            });
                            ensure!(r.is_err(), "dense-unbounded", "a dense vec over an unbounded label set was accepted");
                            Ok(())
                        },
                    );
                    continue;
                }
                let removes = match repr {
                    Repr::Dense => Removes::No,
                    Repr::Sparse => Removes::Yes,
                    Repr::Default => Removes::Either,
                };
                let mut one = |ops: Vec<Op>, early: bool| {
                    cx.case(
                        || format!("{cpus} cpus {:?} {repr:?} cardinality {card}{} {:?}", M::KIND, if fixed { "" } else { " (unbounded)" }, &ops[..ops.len().min(8)]),
                        |o| run_ops(mkvec::<M, _>(repr, ListSet::<0>::numbered(card, fixed), M::meta()), card, &ops, removes, fixed.then_some(card), early, o),
                    )
                };
                if card <= 3 {
                    let a: &[Op] = match card {
                        0 => &[Op::Init, Op::Look],
                        1 => &a1,
                        _ => &small,
                    };
                    Cx::seqs(a.len(), if card == 2 { 3 } else { 2 }, |sq| one(sq.iter().map(|&k| a[k]).collect(), true));
                } else {
                    // histories at both ends of the set and over all of it
                    let ends = [0, 1, card / 2, card - 2, card - 1];
                    for x in ends {
                        one(vec![Op::Upd(x), Op::Look, Op::Remove(x), Op::Conv(x), Op::Mut(x)], true);
                        for y in ends {
                            if x != y {
                                one(vec![Op::Mut(x), Op::Upd(y), Op::Remove(x), Op::Look, Op::Touch(x), Op::Init], false);
                            }
                        }
                    }
                    one(vec![Op::Init, Op::Upd(1), Op::Remove(1)], true);
                    let mut all: Vec<Op> = (0..card).map(Op::Conv).collect();
                    all.extend((0..card).step_by(3).map(Op::Remove));
                    all.extend((0..card).step_by(2).map(Op::Upd));
                    one(all, true);
                }
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(singleton = "l")]
pub enum One {
    A = 0,
}
impl Indexed for StaticLabelSet<One> {
    fn group(&self, _: usize) -> One {
        One::A
    }
}
impl Default for ListSet<0> {
    fn default() -> Self {
        ListSet::numbered(2, true)
    }
}
impl Default for ListSet<2> {
    fn default() -> Self {
        ListSet::numbered(1030, true)
    }
}
fn c10_ctors(cx: &mut Cx) {
    // every constructor of MetricVec, for a small set and one above the default dense limit
    macro_rules! ctors {
        ($H:literal, $n:expr) => {{
            let ops = [Op::Upd(1), Op::Mut(0), Op::Remove(1), Op::Look, Op::Conv(1), Op::Init];
            type L = ListSet<$H>;
            let l = || L::default();
            macro_rules! one {
                ($name:literal, $rm:expr, $e:expr) => {
                    cx.case(
                        || format!("constructor {} over {} groups", $name, $n),
                        |o| run_ops($e, $n, &ops, $rm, Some($n), true, o),
                    );
                };
            }
            one!("new", Removes::Either, MetricVec::<CounterState, L>::new());
            one!("default", Removes::Either, MetricVec::<CounterState, L>::default());
            one!("with_metadata", Removes::Either, MetricVec::<HistogramState<2>, L>::with_metadata(Thresholds::with_buckets(LE2)));
            one!("with_label_set", Removes::Either, MetricVec::<GaugeState, L>::with_label_set(l()));
            one!("with_label_set_and_metadata", Removes::Either, MetricVec::<HistogramState<2>, L>::with_label_set_and_metadata(l(), Thresholds::with_buckets(LE2)));
            one!("dense", Removes::No, MetricVec::<CounterState, L>::dense());
            one!("dense_with_metadata", Removes::No, MetricVec::<HistogramState<2>, L>::dense_with_metadata(Thresholds::with_buckets(LE2)));
            one!("dense_with_label_set", Removes::No, MetricVec::<FloatGaugeState, L>::dense_with_label_set(l()));
            one!("dense_with_label_set_and_metadata", Removes::No, MetricVec::<CounterState, L>::dense_with_label_set_and_metadata(l(), ()));
            one!("sparse", Removes::Yes, MetricVec::<CounterState, L>::sparse());
            one!("sparse_with_metadata", Removes::Yes, MetricVec::<HistogramState<2>, L>::sparse_with_metadata(Thresholds::with_buckets(LE2)));
            one!("sparse_with_label_set", Removes::Yes, MetricVec::<GaugeState, L>::sparse_with_label_set(l()));
            one!("sparse_with_label_set_and_metadata", Removes::Yes, MetricVec::<CounterState, L>::sparse_with_label_set_and_metadata(l(), ()));
        }};
    }
    ctors!(0, 2);
    ctors!(2, 1030);
}
/// a group outside a fixed set is rejected; an empty set has no member
fn c10_reject(cx: &mut Cx) {
    for card in [0usize, 1, 3, 1024, 1025] {
        for repr in [Repr::Dense, Repr::Sparse, Repr::Default] {
            cx.case(
                || format!("foreign group, {repr:?} cardinality {card}"),
                |_| {
                    let v = mkvec::<CounterState, _>(repr, ListSet::<0>::numbered(card, true), ());
                    let other = labels(&[("l", s("x"))]);
                    ensure!(v.try_with_labels(&other).is_none(), "foreign", "a group outside the set got an identifier");
                    ensure!(guarded(|| v.with_labels(&other)).is_err(), "foreign", "with_labels accepted a group outside the set");
                    ensure!(guarded(|| v.inc(&other)).is_err(), "foreign", "inc accepted a group outside the set");
                    let f = scrape_vec(&v)?;
                    ensure!(f.samples.is_empty(), "foreign", "a series appeared: {:?}", f.samples);
                    Ok(())
                },
            );
        }
    }
}
pub fn c10(cx: &mut Cx) {
    cx.note("cpus", std::thread::available_parallelism().map_or(0, usize::from) as u64);
    c10_kind::<CounterState>(cx);
    c10_kind::<GaugeState>(cx);
    c10_kind::<FloatGaugeState>(cx);
    c10_kind::<HistogramState<2>>(cx);
    c10_ctors(cx);
    c10_reject(cx);
}
