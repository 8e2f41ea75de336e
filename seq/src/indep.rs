//! C30: instances do not affect each other, whatever threads use them and from wherever they are called
use crate::ensure;
use crate::env::set_clock;
use crate::fw::*;
use crate::pb;
use crate::prom;
use crate::text::{Built, Item};
use crate::vecs::{DynSet, Indexed, Ops, E3};
use crate::world::*;
use measured::label::{LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelSet, LabelValue, LabelVisitor, StaticLabelSet};
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::group::Encoding;
use measured::metric::histogram::{HistogramState, HistogramTimer, HistogramVecTimer, Thresholds};
use measured::metric::name::MetricName;
use measured::metric::{LabelId, MetricEncoding, MetricFamilyEncoding, MetricVec};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::*;
use measured_prometheus_protobuf::ProtoEncoder;
use std::cell::{Cell, RefCell};
use std::hash::{Hash, Hasher};
use std::io::{self, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::mpsc;

const NAME: &MetricName = MetricName::from_str("m");

// ------------------------------------------------------------------ threads that stay

type Job = Box<dyn FnOnce() + Send>;
struct Pool {
    to: Vec<mpsc::SyncSender<Job>>,
}
thread_local! {
    static POOL: Pool = Pool {
        to: (0..2).map(|_| {
            let (tx, rx) = mpsc::sync_channel::<Job>(1);
            std::thread::spawn(move || for j in rx { j() });
            tx
        }).collect(),
    };
}
/// run f on one of this worker's two helper threads and wait for it
fn on(thread: usize, f: &mut (dyn FnMut() -> Res + Send)) -> Res {
    struct P(*mut (dyn FnMut() -> Res + Send));
    unsafe impl Send for P {}
    let cur = current_case();
    let (tx, rx) = mpsc::sync_channel::<Res>(1);
    // the job is waited for below, so what it borrows outlives it
    let p = P(unsafe { std::mem::transmute::<&mut (dyn FnMut() -> Res + Send), &'static mut (dyn FnMut() -> Res + Send)>(f) });
    let job: Job = Box::new(move || {
        let p = p;
        set_current_case(cur);
        let r = match guarded(|| unsafe { (*p.0)() }) {
            Ok(r) => r,
            Err(m) => Err(fail("panic", format!("unexpected panic: {m}"))),
        };
        set_current_case(u64::MAX);
        let _ = tx.send(r);
    });
    POOL.with(|p| p.to[thread].send(job)).unwrap();
    rx.recv().unwrap()
}

// ------------------------------------------------------------------ the instances

/// something with operations that knows what they must do
pub trait Thing {
    const OPS: usize;
    fn op(&mut self, k: usize) -> Res;
    /// compare everything that can be seen
    fn look(&mut self, o: &mut Vec<u8>) -> Res;
}
struct VecT<M: Ops, L: Indexed> {
    v: MetricVec<M, L>,
    ids: Vec<Option<LabelId<L>>>,
    model: Vec<Option<Val>>,
    removes: bool,
    upper: Option<usize>,
    at: usize,
    n: usize,
    labels: fn(usize) -> Vec<(String, String)>,
}
impl<M: Ops, L: Indexed> VecT<M, L> {
    fn new(v: MetricVec<M, L>, removes: bool, upper: Option<usize>, variant: usize, n: usize) -> Self {
        VecT { v, ids: vec![None; n], model: vec![None; n], removes, upper, at: 5 * variant, n, labels: |i| vec![("l".into(), i.to_string())] }
    }
    fn id(&mut self, i: usize) -> LabelId<L> {
        match self.ids[i] {
            Some(i) => i,
            None => {
                let id = self.v.with_labels(self.v.get_label_set().group(i));
                self.ids[i] = Some(id);
                id
            }
        }
    }
}
impl<M: Ops, L: Indexed> Thing for VecT<M, L> {
    const OPS: usize = 6;
    fn op(&mut self, k: usize) -> Res {
        let s = self.at;
        self.at += 1;
        match k {
            // by an identifier kept since it was first asked for
            0 => {
                let id = self.id(0);
                M::upd(&self.v, id, s);
                M::model(self.model[0].get_or_insert_with(M::zero), s);
            }
            1 | 2 => {
                M::upd_conv(&self.v, self.v.get_label_set().group(k - 1), s);
                M::model(self.model[k - 1].get_or_insert_with(M::zero), s);
            }
            3 => {
                let id = self.v.with_labels(self.v.get_label_set().group(0));
                let got = self.v.remove_metric(id).map(|m| m.read());
                let want = if self.removes { self.model[0].take() } else { None };
                ensure!(got == want, "remove", "removal returned {got:?}, expected {want:?}");
            }
            4 => return self.look(&mut vec![]),
            _ => {
                let id = self.id(1);
                M::upd_mut(&mut self.v, id, s);
                M::model(self.model[1].get_or_insert_with(M::zero), s);
            }
        }
        Ok(())
    }
    fn look(&mut self, o: &mut Vec<u8>) -> Res {
        let live = self.model.iter().flatten().count();
        let c = self.v.get_cardinality();
        ensure!(c == (live, self.upper), "cardinality", "cardinality query returned {c:?}, expected ({live}, {:?})", self.upper);
        let f = crate::vecs::scrape_vec(&self.v)?;
        let exp: Vec<Series> = (0..self.n).filter_map(|i| Some(Series { labels: (self.labels)(i), val: self.model[i].clone()? })).collect();
        matches(&f, M::KIND, &exp).map_err(|e| fail("scrape", e))?;
        o.extend_from_slice(format!("{:?}", self.model).as_bytes());
        for i in 0..self.n {
            if let Some(m) = self.model[i].clone() {
                let id = self.id(i);
                let got = self.v.get_metric(id).read();
                ensure!(got == m, "value", "series {i} reads {got:?}, expected {m:?}");
            }
        }
        Ok(())
    }
}
/// a derived set whose two dynamic labels have an interner each
#[derive(Clone, Copy, LabelGroup)]
#[label(set = TwoSet)]
pub struct TwoG<'a> {
    #[label(dynamic_with = lasso::ThreadedRodeo, default)]
    l: &'a str,
    #[label(dynamic_with = lasso::ThreadedRodeo, default)]
    k: &'a str,
    #[label(fixed)]
    e: E3b,
}
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
enum E3b {
    X,
    Y,
}
struct DerivedT {
    v: CounterVec<TwoSet>,
    model: std::collections::BTreeMap<(usize, usize, bool), u64>,
    at: u64,
    swap: bool,
}
const WORDS: [&str; 3] = ["ab", "cd", "ef"];
impl DerivedT {
    fn new(variant: usize) -> Self {
        let mut t = DerivedT { v: CounterVec::with_label_set(TwoSet::default()), model: Default::default(), at: 3 * variant as u64 + 1, swap: variant % 2 == 1 };
        // interned in another order by the other variants
        if variant % 2 == 1 {
            t.add((2, 1, true));
        }
        t
    }
    fn g(k: (usize, usize, bool)) -> TwoG<'static> {
        TwoG { l: WORDS[k.0], k: WORDS[k.1], e: if k.2 { E3b::X } else { E3b::Y } }
    }
    fn add(&mut self, k: (usize, usize, bool)) {
        self.at += 2;
        self.v.inc_by(Self::g(k), self.at);
        *self.model.entry(k).or_default() += self.at;
    }
}
impl Thing for DerivedT {
    const OPS: usize = 5;
    fn op(&mut self, k: usize) -> Res {
        match k {
            0 => self.add((0, 1, self.swap)),
            1 => self.add((1, 0, self.swap)),
            2 => self.add((2, 2, !self.swap)),
            3 => {
                let id = self.v.with_labels(Self::g((0, 1, self.swap)));
                let got = self.v.remove_metric(id).map(|m| m.count.into_inner());
                let want = self.model.remove(&(0, 1, self.swap));
                ensure!(got == want, "remove", "removal returned {got:?}, expected {want:?}");
            }
            _ => return self.look(&mut vec![]),
        }
        Ok(())
    }
    fn look(&mut self, o: &mut Vec<u8>) -> Res {
        let f = crate::hist::show(|e| self.v.collect_family_into(NAME, e))?;
        let exp: Vec<Series> = self
            .model
            .iter()
            .map(|(k, v)| Series {
                labels: vec![("l".into(), WORDS[k.0].into()), ("k".into(), WORDS[k.1].into()), ("e".into(), if k.2 { "x" } else { "y" }.into())],
                val: Val::U(*v),
            })
            .collect();
        matches(&f, Kind::C, &exp).map_err(|e| fail("scrape", e))?;
        o.extend_from_slice(format!("{:?}", self.model).as_bytes());
        Ok(())
    }
}
/// histograms whose bounds are their own
struct HistT<const N: usize> {
    h: Histogram<N>,
    v: HistogramVec<StaticLabelSet<E3>, N>,
    le: [f64; N],
    seen: Vec<f64>,
    vseen: [Vec<f64>; 2],
}
impl<const N: usize> HistT<N> {
    fn new(variant: usize) -> Self {
        let le = [[1.0, 10.0, 11.0, 12.0], [2.0, 20.0, 21.0, 30.0], [0.25, 40.0, 50.0, 60.0]][variant % 3];
        let le = std::array::from_fn(|i| le[i]);
        HistT { h: Histogram::with_metadata(Thresholds::with_buckets(le)), v: HistogramVec::sparse_with_label_set_and_metadata(StaticLabelSet::new(), Thresholds::with_buckets(le)), le, seen: vec![], vseen: Default::default() }
    }
    fn hist(&self, labels: Vec<(String, String)>, seen: &[f64]) -> prom::Hist {
        let below = |x: f64| seen.iter().filter(|s| **s <= x).count() as u64;
        prom::Hist {
            labels,
            buckets: self.le.iter().map(|l| (*l, below(*l))).collect(),
            inf: Some(seen.len() as u64),
            count: Some(seen.len() as u64),
            sum: Some(seen.iter().sum()),
        }
    }
}
impl<const N: usize> Thing for HistT<N> {
    const OPS: usize = 5;
    fn op(&mut self, k: usize) -> Res {
        match k {
            0 => {
                self.h.observe(1.5);
                self.seen.push(1.5);
            }
            1 => {
                self.h.get_metric_mut().observe(15.0);
                self.seen.push(15.0);
            }
            2 => {
                self.v.observe(E3::A, 30.0);
                self.vseen[0].push(30.0);
            }
            3 => {
                // one and a half seconds, whatever the time is
                self.v.observe(E3::B, std::time::Duration::from_millis(1500).as_secs_f64());
                self.vseen[1].push(1.5);
            }
            _ => return self.look(&mut vec![]),
        }
        Ok(())
    }
    fn look(&mut self, o: &mut Vec<u8>) -> Res {
        let f = crate::hist::show(|e| self.h.collect_family_into(NAME, e))?;
        let got = prom::hists(&f).map_err(|e| fail("document", e))?;
        let want = vec![self.hist(vec![], &self.seen)];
        ensure!(got == want, "histogram", "histogram shows {got:?}, expected {want:?}");
        let f = crate::hist::show(|e| self.v.collect_family_into(NAME, e))?;
        let mut got = prom::hists(&f).map_err(|e| fail("document", e))?;
        got.sort_by(|a, b| a.labels.cmp(&b.labels));
        let want: Vec<_> = (0..2).filter(|i| !self.vseen[*i].is_empty()).map(|i| self.hist(vec![("l".into(), i.to_string())], &self.vseen[i])).collect();
        ensure!(got == want, "histogram", "histograms show {got:?}, expected {want:?}");
        o.extend_from_slice(format!("{:?}{:?}", self.seen, self.vseen).as_bytes());
        Ok(())
    }
}
/// the metrics without labels
#[derive(Default)]
struct SinglesT {
    c: Counter,
    g: Gauge,
    f: FloatGauge,
    m: (u64, i64, f64),
}
impl SinglesT {
    fn new(variant: usize) -> Self {
        let mut t = SinglesT::default();
        for _ in 0..variant {
            t.op(0).ok();
            t.op(2).ok();
        }
        t
    }
}
impl Thing for SinglesT {
    const OPS: usize = 4;
    fn op(&mut self, k: usize) -> Res {
        match k {
            0 => {
                self.c.inc_by(3);
                self.m.0 += 3;
                self.g.dec();
                self.m.1 -= 1;
            }
            1 => {
                self.c.get_metric_mut().inc();
                self.m.0 += 1;
                self.g.set(40);
                self.m.1 = 40;
                self.f.set(2.5);
                self.m.2 = 2.5;
            }
            2 => {
                self.f.inc_by(0.25);
                self.m.2 += 0.25;
                self.g.inc_by(7);
                self.m.1 += 7;
            }
            _ => return self.look(&mut vec![]),
        }
        Ok(())
    }
    fn look(&mut self, o: &mut Vec<u8>) -> Res {
        let fams = [
            (Kind::C, Val::U(self.m.0), crate::hist::show(|e| self.c.collect_family_into(NAME, e))?),
            (Kind::G, Val::I(self.m.1), crate::hist::show(|e| self.g.collect_family_into(NAME, e))?),
            (Kind::F, Val::F(self.m.2), crate::hist::show(|e| self.f.collect_family_into(NAME, e))?),
        ];
        for (k, val, f) in fams {
            matches(&f, k, &[Series { labels: vec![], val }]).map_err(|e| fail("scrape", e))?;
        }
        o.extend_from_slice(format!("{:?}", self.m).as_bytes());
        Ok(())
    }
}
/// families of the same names whose values are those of the variant
fn family(k: usize, variant: usize, at: usize) -> Built {
    let (item, help) = match (k, variant % 2) {
        (0, 0) => (Item::Single(Kind::C), Some("h")),
        (0, _) => (Item::Vec(Kind::C, Repr::Dense, 2), None),
        (1, 0) => (Item::Vec(Kind::G, Repr::Sparse, 1), Some("g\\")),
        (1, _) => (Item::Single(Kind::F), Some("g\n")),
        (_, 0) => (Item::Vec(Kind::F, Repr::Dense, 3), None),
        _ => (Item::OptSome, Some("")),
    };
    Built::new(item, format!("m{at}"), help.map(str::to_string))
}
/// what an encoder of each kind is told and what it must have written
trait Enc {
    fn fresh() -> Self;
    fn put(&mut self, b: &Built) -> Result<(), Fail>;
    /// everything since the last time
    fn take(&mut self) -> Result<Vec<u8>, Fail>;
    fn check(bytes: &[u8], want: &[Built]) -> Res;
}
fn check_text(bytes: &[u8], want: &[Built]) -> Res {
    let d = prom::doc(bytes).map_err(|e| fail("document", format!("{e}; output {:?}", String::from_utf8_lossy(bytes))))?;
    ensure!(d.len() == want.len(), "families", "{} families, expected {}: {:?}", d.len(), want.len(), String::from_utf8_lossy(bytes));
    for (f, b) in d.iter().zip(want) {
        ensure!(f.name == b.name, "name", "family {:?}, expected {:?}", f.name, b.name);
        b.check(f).map_err(|e| fail("family", e))?;
    }
    Ok(())
}
impl Enc for BufferedTextEncoder {
    fn fresh() -> Self {
        BufferedTextEncoder::new()
    }
    fn put(&mut self, b: &Built) -> Result<(), Fail> {
        b.write_buffered(self);
        Ok(())
    }
    fn take(&mut self) -> Result<Vec<u8>, Fail> {
        Ok(self.finish().to_vec())
    }
    fn check(bytes: &[u8], want: &[Built]) -> Res {
        check_text(bytes, want)
    }
}
impl Enc for TextEncoder<Vec<u8>> {
    fn fresh() -> Self {
        TextEncoder::new(vec![])
    }
    fn put(&mut self, b: &Built) -> Result<(), Fail> {
        b.write(self).map_err(|e| fail("error", format!("{e}")))
    }
    fn take(&mut self) -> Result<Vec<u8>, Fail> {
        self.flush().map_err(|e| fail("error", format!("{e}")))?;
        Ok(std::mem::take(&mut self.writer))
    }
    fn check(bytes: &[u8], want: &[Built]) -> Res {
        check_text(bytes, want)
    }
}
impl Enc for ProtoEncoder<Vec<u8>> {
    fn fresh() -> Self {
        ProtoEncoder::new(vec![])
    }
    fn put(&mut self, b: &Built) -> Result<(), Fail> {
        b.write_proto(self).map_err(|e| fail("error", format!("{e}")))
    }
    fn take(&mut self) -> Result<Vec<u8>, Fail> {
        self.flush().map_err(|e| fail("error", format!("{e}")))?;
        Ok(std::mem::take(&mut self.writer))
    }
    fn check(bytes: &[u8], want: &[Built]) -> Res {
        let d = pb::stream(bytes).map_err(|e| fail("decode", format!("{e}; output {bytes:?}")))?;
        ensure!(d.len() == want.len(), "families", "{} families, expected {}: {d:?}", d.len(), want.len());
        for (f, b) in d.iter().zip(want) {
            b.is(&b.name, f).map_err(|e| fail("family", format!("{e}; decoded {d:?}")))?;
        }
        Ok(())
    }
}
struct EncT<E> {
    e: E,
    variant: usize,
    since: Vec<Built>,
}
impl<E: Enc> EncT<E> {
    fn new(variant: usize) -> Self {
        EncT { e: E::fresh(), variant, since: vec![] }
    }
}
impl<E: Enc> Thing for EncT<E> {
    const OPS: usize = 4;
    fn op(&mut self, k: usize) -> Res {
        if k == 3 {
            return self.look(&mut vec![]);
        }
        let b = family(k, self.variant, self.since.len());
        self.e.put(&b)?;
        self.since.push(b);
        Ok(())
    }
    fn look(&mut self, o: &mut Vec<u8>) -> Res {
        let b = self.e.take()?;
        E::check(&b, &self.since)?;
        self.since.clear();
        o.extend_from_slice(&b);
        Ok(())
    }
}
/// interners of the same strings in another order
struct RodeoT {
    r: lasso::ThreadedRodeo,
    ids: Vec<Option<usize>>,
    variant: usize,
}
impl RodeoT {
    fn new(variant: usize) -> Self {
        RodeoT { r: lasso::ThreadedRodeo::new(), ids: vec![None; 3], variant }
    }
}
impl Thing for RodeoT {
    const OPS: usize = 4;
    fn op(&mut self, k: usize) -> Res {
        if k == 3 {
            return self.look(&mut vec![]);
        }
        let w = WORDS[(k + self.variant) % 3];
        let Some(id) = LabelSet::encode(&self.r, w) else {
            return Err(fail("intern", format!("{w:?} was not interned")));
        };
        ensure!(self.ids[k].is_none_or(|i| i == id), "intern", "{w:?} interned as {id} after {:?}", self.ids[k]);
        self.ids[k] = Some(id);
        Ok(())
    }
    fn look(&mut self, o: &mut Vec<u8>) -> Res {
        for (k, id) in self.ids.iter().enumerate() {
            if let Some(id) = id {
                let w = WORDS[(k + self.variant) % 3];
                let got = LabelSet::decode(&self.r, *id);
                ensure!(got == w, "decode", "{id} of {w:?} decodes to {got:?}");
            }
        }
        let n = self.ids.iter().flatten().count();
        ensure!(self.r.len() == n, "intern", "{} strings interned, expected {n}", self.r.len());
        o.extend_from_slice(format!("{:?}", self.ids).as_bytes());
        Ok(())
    }
}

/// timers, which may end on another thread than they were started on
struct TimerT {
    running: Vec<(u64, Timer)>,
    p: Box<Histogram<2>>,
    v: Box<HistogramVec<StaticLabelSet<E3>, 2>>,
    /// of the plain one, of the vec's first series
    seen: [Vec<f64>; 2],
}
enum Timer {
    P(HistogramTimer<'static, 2>),
    V(HistogramVecTimer<'static, StaticLabelSet<E3>, 2>),
}
/// one clock for everybody, in seconds
static SECONDS: AtomicU64 = AtomicU64::new(1000);
impl TimerT {
    fn new(_: usize) -> Self {
        TimerT {
            running: vec![],
            p: Box::new(Histogram::with_metadata(Thresholds::with_buckets(LE2))),
            v: Box::new(HistogramVec::sparse_with_label_set_and_metadata(StaticLabelSet::new(), Thresholds::with_buckets(LE2))),
            seen: Default::default(),
        }
    }
}
impl Drop for TimerT {
    fn drop(&mut self) {
        for (_, t) in self.running.drain(..) {
            match t {
                Timer::P(t) => t.forget(),
                Timer::V(t) => t.forget(),
            }
        }
    }
}
impl Thing for TimerT {
    const OPS: usize = 5;
    fn op(&mut self, k: usize) -> Res {
        let now = SECONDS.fetch_add(1, SeqCst);
        set_clock(Some(now * 1_000_000_000));
        // ended or forgotten before what they borrow goes
        let p: &'static Histogram<2> = unsafe { &*(&*self.p as *const _) };
        let v: &'static HistogramVec<StaticLabelSet<E3>, 2> = unsafe { &*(&*self.v as *const _) };
        match k {
            0 => self.running.push((now, Timer::P(p.start_timer()))),
            1 => self.running.push((now, Timer::V(v.start_timer(E3::A)))),
            2 if !self.running.is_empty() => {
                let (since, t) = self.running.remove(0);
                self.seen[matches!(t, Timer::V(_)) as usize].push((now - since) as f64);
                drop(t);
            }
            3 if !self.running.is_empty() => {
                let (since, t) = self.running.pop().unwrap();
                self.seen[matches!(t, Timer::V(_)) as usize].push((now - since) as f64);
                let d = match t {
                    Timer::P(t) => t.observe(),
                    Timer::V(t) => t.observe(),
                };
                ensure!(d.as_secs() == now - since && d.subsec_nanos() == 0, "timer", "a timer of {} s returned {d:?}", now - since);
            }
            4 => return self.look(&mut vec![]),
            _ => {}
        }
        set_clock(None);
        Ok(())
    }
    fn look(&mut self, o: &mut Vec<u8>) -> Res {
        set_clock(None);
        let fams = [crate::hist::show(|e| self.p.collect_family_into(NAME, e))?, crate::hist::show(|e| self.v.collect_family_into(NAME, e))?];
        for (i, f) in fams.iter().enumerate() {
            let got = prom::hists(f).map_err(|e| fail("document", e))?;
            // a timer of the vec may create its series when it starts or when it ends
            let seen = &self.seen[i];
            ensure!(got.len() == 1 || i == 1 && got.is_empty() && seen.is_empty(), "histogram", "{got:?} of {seen:?}");
            let below = |x: f64| seen.iter().filter(|s| **s <= x).count() as u64;
            for h in got {
                ensure!(
                    h.buckets == LE2.map(|l| (l, below(l))) && h.count == Some(seen.len() as u64) && h.inf == h.count && h.sum == Some(seen.iter().sum()),
                    "histogram",
                    "{h:?} of {seen:?}"
                );
            }
        }
        o.extend_from_slice(format!("{} {:?}", self.running.len(), self.seen).as_bytes());
        Ok(())
    }
}

/// instances of two types, in turn
enum Either<A, B> {
    A(A),
    B(B),
}
impl<A: Thing, B: Thing> Thing for Either<A, B> {
    const OPS: usize = if A::OPS > B::OPS { A::OPS } else { B::OPS };
    fn op(&mut self, k: usize) -> Res {
        match self {
            Either::A(x) => x.op(k % A::OPS),
            Either::B(x) => x.op(k % B::OPS),
        }
    }
    fn look(&mut self, o: &mut Vec<u8>) -> Res {
        match self {
            Either::A(x) => x.look(o),
            Either::B(x) => x.look(o),
        }
    }
}
fn either<A, B>(a: impl Fn(usize) -> A + Sync, b: impl Fn(usize) -> B + Sync) -> impl Fn(usize) -> Either<A, B> + Sync {
    move |i| if i % 2 == 0 { Either::A(a(i / 2)) } else { Either::B(b(i / 2)) }
}
/// another label of another number of values
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
#[label(singleton = "l")]
enum E2 {
    #[label(rename = "0")]
    A,
    #[label(rename = "1")]
    B,
}
impl Indexed for StaticLabelSet<E2> {
    fn group(&self, i: usize) -> E2 {
        [E2::A, E2::B][i]
    }
}
fn two_values<M: Ops>(variant: usize) -> VecT<M, StaticLabelSet<E2>> {
    VecT::new(mkvec([Repr::Default, Repr::Sparse][variant % 2], StaticLabelSet::new(), M::meta()), variant % 2 == 1, Some(2), variant, 2)
}

// ------------------------------------------------------------------ two instances, one or two threads

#[derive(Clone, Copy, Debug)]
enum Op {
    /// the instance of this slot does its operation
    Do(usize, usize),
    /// the instance of this slot is dropped and another made where it was
    Replace(usize),
    /// the instances change places
    Swap,
}
fn run2<T: Thing + Send>(make: &(impl Fn(usize) -> T + Sync), ops: &[(usize, Op)], threads: bool, o: &mut Obs) -> Res {
    let mut slots: [Option<T>; 2] = [None, None];
    let mut seen = vec![];
    let mut made = 2;
    let at = |t: usize, f: &mut (dyn FnMut() -> Res + Send)| if threads { on(t, f) } else { f() };
    at(0, &mut || {
        slots[0] = Some(make(0));
        slots[1] = Some(make(1));
        Ok(())
    })?;
    for (n, (t, op)) in ops.iter().enumerate() {
        o.step(1);
        at(*t, &mut || match op {
            Op::Do(s, k) => slots[*s].as_mut().unwrap().op(*k),
            Op::Replace(s) => {
                slots[*s] = None;
                slots[*s] = Some(make(made));
                made += 1;
                Ok(())
            }
            Op::Swap => {
                slots.swap(0, 1);
                Ok(())
            }
        })
        .map_err(|f| fail(&f.key, format!("at step {n}: {}", f.msg)))?;
    }
    // what each shows, to the thread that did not come last
    let last = ops.last().map_or(0, |x| x.0);
    for s in 0..2 {
        at(1 - last, &mut || slots[s].as_mut().unwrap().look(&mut seen)).map_err(|f| fail(&f.key, format!("in the end, slot {s}: {}", f.msg)))?;
    }
    o.state(&seen);
    o.show(|| String::from_utf8_lossy(&seen).into_owned());
    Ok(())
}
fn pairs<T: Thing + Send>(cx: &mut Cx, what: &str, depth: usize, tdepth: usize, make: impl Fn(usize) -> T + Sync) {
    let mut a = vec![];
    for s in 0..2 {
        a.extend((0..T::OPS).map(|k| Op::Do(s, k)));
        a.push(Op::Replace(s));
    }
    a.push(Op::Swap);
    Cx::seqs(a.len(), depth, |sq| {
        let ops = || sq.iter().map(|&k| (0, a[k])).collect::<Vec<_>>();
        cx.case(|| format!("{what} {:?}", ops().iter().map(|x| x.1).collect::<Vec<_>>()), |o| run2(&make, &ops(), false, o));
    });
    // the same with every step on one of two threads
    let a: Vec<(usize, Op)> = a.iter().flat_map(|x| [(0, *x), (1, *x)]).filter(|x| !matches!(x, (1, Op::Swap))).collect();
    Cx::seqs(a.len(), tdepth, |sq| {
        // the threads are alike
        if sq.first().is_none_or(|k| a[*k].0 == 0) {
            let ops = || sq.iter().map(|&k| a[k]).collect::<Vec<_>>();
            cx.case(|| format!("{what} on two threads {:?}", ops()), |o| run2(&make, &ops(), true, o));
        }
    });
}
/// dense, then sparse where the dense one was, and so on
fn mixed<M: Ops>(variant: usize) -> VecT<M, StaticLabelSet<E3>> {
    if variant % 2 == 0 {
        VecT::new(MetricVec::dense_with_label_set_and_metadata(StaticLabelSet::new(), M::meta()), false, Some(3), variant, 3)
    } else {
        VecT::new(MetricVec::sparse_with_label_set_and_metadata(StaticLabelSet::new(), M::meta()), true, Some(3), variant, 3)
    }
}
fn kind<M: Ops + Send>(cx: &mut Cx, depth: usize, tdepth: usize)
where
    MetricVec<M, StaticLabelSet<E3>>: Send,
    MetricVec<M, ListSet<1>>: Send,
    MetricVec<M, DynSet>: Send,
{
    let k = M::KIND;
    pairs(cx, &format!("{k:?} sparse"), depth, tdepth, |i| VecT::<M, _>::new(MetricVec::sparse_with_label_set_and_metadata(StaticLabelSet::<E3>::new(), M::meta()), true, Some(3), i, 3));
    pairs(cx, &format!("{k:?} dense"), depth, tdepth, |i| VecT::<M, _>::new(MetricVec::dense_with_label_set_and_metadata(StaticLabelSet::<E3>::new(), M::meta()), false, Some(3), i, 3));
    pairs(cx, &format!("{k:?} dense and sparse"), depth, tdepth, mixed::<M>);
    pairs(cx, &format!("{k:?} colliding"), depth, tdepth, |i| VecT::<M, _>::new(MetricVec::sparse_with_label_set_and_metadata(ListSet::<1>::numbered(3, true), M::meta()), true, Some(3), i, 3));
    pairs(cx, &format!("{k:?} interned"), depth, tdepth, |i| {
        let v = MetricVec::<M, _>::with_label_set_and_metadata(DynSet(lasso::ThreadedRodeo::new()), M::meta());
        // strings that the other has interned in another order
        for w in &["2", "1", "0"][..i % 3] {
            LabelSet::encode(&v.get_label_set().0, *w);
        }
        VecT::new(v, true, None, i, 3)
    });
}

// ------------------------------------------------------------------ one instance used from inside another

type Hook = Rc<dyn Fn() -> Res>;
thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    /// which of the points call, which of the calls does (usize::MAX: all), calls so far
    static WHEN: Cell<(u32, usize, usize)> = const { Cell::new((0, 0, 0)) };
    static TROUBLE: RefCell<Option<Fail>> = const { RefCell::new(None) };
}
const POINTS: [&str; 8] = ["visit_values", "visit", "encode", "decode", "hash", "eq", "write", "cardinality"];
/// user code is being called by the library
fn user(point: u32) {
    let (mask, which, n) = WHEN.get();
    // not again from inside
    if mask & 1 << point == 0 || HOOK.with(|h| h.borrow().is_none()) {
        return;
    }
    WHEN.set((mask, which, n + 1));
    if which != usize::MAX && which != n {
        return;
    }
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(h) = h {
        if let Err(f) = h() {
            TROUBLE.with(|t| t.borrow_mut().get_or_insert(f).key.len());
        }
        HOOK.with(|x| *x.borrow_mut() = Some(h));
    }
}
#[derive(Clone, Copy)]
struct CbId(u32);
impl PartialEq for CbId {
    fn eq(&self, o: &Self) -> bool {
        user(5);
        self.0 == o.0
    }
}
impl Eq for CbId {}
impl Hash for CbId {
    fn hash<S: Hasher>(&self, s: &mut S) {
        user(4);
        (self.0 & 1).hash(s)
    }
}
#[derive(Clone, Copy)]
struct CbV(u32);
impl LabelValue for CbV {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        user(1);
        match self.0 % 3 {
            0 => v.write_int(self.0 as i64),
            1 => v.write_str(&self.0.to_string()),
            _ => v.write_float(self.0 as f64),
        }
    }
}
#[derive(Clone, Copy)]
struct CbG(u32);
impl LabelGroup for CbG {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        user(0);
        v.write_value(LabelName::from_str("l"), &CbV(self.0));
        user(0);
        v.write_value(LabelName::from_str("k"), &CbV(self.0 + 1));
        user(0);
    }
}
fn cb_labels(i: usize) -> Vec<(String, String)> {
    let v = |i: usize| if i % 3 == 2 { format!("{i}.0") } else { i.to_string() };
    vec![("l".into(), v(i)), ("k".into(), v(i + 1))]
}
struct CbSet;
impl LabelGroupSet for CbSet {
    type Group<'a> = CbG;
    type Unique = CbId;
    fn cardinality(&self) -> Option<usize> {
        user(7);
        Some(3)
    }
    fn encode_dense(&self, v: CbId) -> Option<usize> {
        user(2);
        Some(v.0 as usize)
    }
    fn decode_dense(&self, v: usize) -> CbG {
        user(3);
        CbG(v as u32)
    }
    fn encode(&self, v: CbG) -> Option<CbId> {
        user(2);
        Some(CbId(v.0))
    }
    fn decode(&self, v: &CbId) -> CbG {
        user(3);
        CbG(v.0)
    }
}
impl Indexed for CbSet {
    fn group(&self, i: usize) -> CbG {
        CbG(i as u32)
    }
}
#[derive(Default)]
struct CbWriter(Vec<u8>);
impl Write for CbWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        user(6);
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        user(6);
        Ok(())
    }
}
/// the metric types, with the protobuf encoding of those that have one
trait Outer: Ops + MetricEncoding<TextEncoder<CbWriter>> {
    fn proto(v: &MetricVec<Self, CbSet>) -> Option<Result<Vec<u8>, Fail>>;
    fn pval(v: &Val) -> pb::Val {
        match v {
            Val::U(v) => pb::Val::Counter(*v as f64),
            Val::I(v) => pb::Val::Gauge(*v as f64),
            Val::F(v) => pb::Val::Gauge(*v),
            Val::H { .. } => unreachable!(),
        }
    }
}
macro_rules! outers {
    ($($t:ty)*) => {$(
        impl Outer for $t {
            fn proto(v: &MetricVec<Self, CbSet>) -> Option<Result<Vec<u8>, Fail>> {
                let mut e = ProtoEncoder::new(CbWriter::default());
                let r = v.collect_family_into(NAME, &mut e).and_then(|_| e.flush());
                Some(r.map(|_| e.writer.0).map_err(|e| fail("error", format!("{e}"))))
            }
        }
    )*};
}
outers!(CounterState GaugeState FloatGaugeState);
impl Outer for HistogramState<2> {
    fn proto(_: &MetricVec<Self, CbSet>) -> Option<Result<Vec<u8>, Fail>> {
        None
    }
}
/// a whole life of one vec whose user code calls the hook
fn outer<M: Outer>(dense: bool, seen: &mut Vec<u8>) -> Res {
    let mut v: MetricVec<M, CbSet> = mkvec(if dense { Repr::Dense } else { Repr::Sparse }, CbSet, M::meta());
    let mut model: Vec<Option<Val>> = vec![None; 3];
    let mut at = 0;
    for round in 0..2 {
        for (i, how) in [(2u32, 0), (0, 1), (2, 3), (1, 2)] {
            let id = v.with_labels(CbG(i));
            match how {
                0 => M::upd_conv(&v, CbG(i), at),
                1 => M::upd(&v, id, at),
                2 => M::upd_mut(&mut v, id, at),
                _ => {
                    if round == 1 {
                        let got = v.remove_metric(id).map(|m| m.read());
                        let want = if dense { None } else { model[2].take() };
                        ensure!(got == want, "remove", "removal returned {got:?}, expected {want:?}");
                    }
                    continue;
                }
            }
            M::model(model[i as usize].get_or_insert_with(M::zero), at);
            at += 1;
        }
        let live = model.iter().flatten().count();
        let c = v.get_cardinality();
        ensure!(c == (live, Some(3)), "cardinality", "cardinality query returned {c:?}, expected ({live}, Some(3))");
        let exp: Vec<Series> = (0..3).filter_map(|i| Some(Series { labels: cb_labels(i), val: model[i].clone()? })).collect();
        let mut e = BufferedTextEncoder::new();
        let Ok(()) = v.collect_family_into(NAME, &mut e);
        let b = e.finish().to_vec();
        let mut t = TextEncoder::new(CbWriter::default());
        v.collect_family_into(NAME, &mut t).and_then(|_| t.flush()).map_err(|e| fail("error", format!("{e}")))?;
        for (what, b) in [("buffered", &b), ("streaming", &t.writer.0)] {
            let d = prom::doc(b).map_err(|x| fail("document", format!("{what}: {x}; output {:?}", String::from_utf8_lossy(b))))?;
            ensure!(d.len() == 1, "document", "{what}: {} families in {:?}", d.len(), String::from_utf8_lossy(b));
            matches(&d[0], M::KIND, &exp).map_err(|e| fail("scrape", format!("{what}: {e}")))?;
        }
        if let Some(b) = M::proto(&v) {
            let b = b?;
            let d = pb::stream(&b).map_err(|e| fail("decode", format!("{e}; output {b:?}")))?;
            ensure!(d.len() == 1 && d[0].name.as_deref() == Some("m") && d[0].metrics.len() == exp.len(), "decode", "decoded {d:?}, expected {exp:?}");
            for e in &exp {
                ensure!(d[0].metrics.iter().any(|m| m.labels == e.labels && m.val == M::pval(&e.val)), "decode", "decoded {d:?}, expected {e:?}");
            }
        }
        seen.extend(b);
    }
    Ok(())
}
fn nested_run<M: Outer, T: Thing + 'static>(dense: bool, mask: u32, which: usize, inner: T, o: &mut Obs) -> Result<usize, Fail> {
    let inner = Rc::new(RefCell::new((inner, 0usize)));
    let i2 = inner.clone();
    let mut seen = vec![];
    TROUBLE.with(|t| t.borrow_mut().take());
    HOOK.with(|h| {
        *h.borrow_mut() = Some(Rc::new(move || {
            let (t, n) = &mut *i2.borrow_mut();
            if which == usize::MAX {
                *n += 1;
                return t.op((*n - 1) % T::OPS);
            }
            (0..T::OPS).try_for_each(|k| t.op(k))
        }))
    });
    WHEN.set((mask, which, 0));
    let r = guarded(|| outer::<M>(dense, &mut seen));
    let calls = WHEN.replace((0, 0, 0)).2;
    HOOK.with(|h| h.borrow_mut().take());
    let trouble = TROUBLE.with(|t| t.borrow_mut().take());
    match r {
        Ok(r) => r.map_err(|f| fail(&f.key, format!("the outer one: {}", f.msg)))?,
        Err(m) => return Err(fail("panic", format!("unexpected panic: {m}"))),
    }
    if let Some(f) = trouble {
        return Err(fail(&f.key, format!("the inner one: {}", f.msg)));
    }
    let (t, _) = &mut *inner.borrow_mut();
    t.look(&mut seen).map_err(|f| fail(&f.key, format!("the inner one, in the end: {}", f.msg)))?;
    o.step(calls + 10);
    o.state(&seen);
    Ok(calls)
}
fn nested<T: Thing + 'static>(cx: &mut Cx, what: &str, make: impl Fn() -> T + Copy) {
    fn one<M: Outer, T: Thing + 'static>(cx: &mut Cx, what: &str, make: impl Fn() -> T + Copy) {
        for dense in [true, false] {
            let name = if dense { "dense" } else { "sparse" };
            for mask in (0..POINTS.len()).map(|p| 1 << p).chain([!0u32]) {
                let points = POINTS.iter().enumerate().filter(|(i, _)| mask & 1 << i != 0).map(|x| *x.1).collect::<Vec<_>>();
                cx.case(|| format!("{what} used from inside each {points:?} of a {name} {:?} vec", M::KIND), |o| nested_run::<M, T>(dense, mask, usize::MAX, make(), o).map(|_| ()));
                if mask == !0 {
                    continue;
                }
                // from inside one of the calls: a fixed number of cases, the later of which may find no call
                for which in 0..NTH {
                    cx.case(|| format!("{what} used from inside call {which} of {points:?} of a {name} {:?} vec", M::KIND), |o| nested_run::<M, T>(dense, mask, which, make(), o).map(|_| ()));
                }
                cx.case(|| format!("{what} used from inside the last calls of {points:?} of a {name} {:?} vec", M::KIND), |o| {
                    let n = nested_run::<M, T>(dense, mask, usize::MAX - 1, make(), o)?;
                    (NTH..n).try_for_each(|w| nested_run::<M, T>(dense, mask, w, make(), o).map(|_| ()))
                });
            }
        }
    }
    one::<CounterState, T>(cx, what, make);
    one::<GaugeState, T>(cx, what, make);
    one::<FloatGaugeState, T>(cx, what, make);
    one::<HistogramState<2>, T>(cx, what, make);
}
const NTH: usize = 8;

pub fn c30(cx: &mut Cx) {
    let (d, t) = if cx.thorough { (5, 4) } else { (4, 3) };
    pairs(cx, "buffered text", d + 1, t, EncT::<BufferedTextEncoder>::new);
    pairs(cx, "streaming text", d, t, EncT::<TextEncoder<Vec<u8>>>::new);
    pairs(cx, "protobuf", d, t, EncT::<ProtoEncoder<Vec<u8>>>::new);
    pairs(cx, "interner", d + 1, t, RodeoT::new);
    pairs(cx, "without labels", d + 1, t + 1, SinglesT::new);
    pairs(cx, "bounds", d, t + 1, HistT::<2>::new);
    pairs(cx, "timers", d, t + 1, TimerT::new);
    pairs(cx, "two dynamic labels", d, t + 1, DerivedT::new);
    kind::<CounterState>(cx, d, t);
    kind::<GaugeState>(cx, d, t);
    kind::<FloatGaugeState>(cx, d, t);
    kind::<HistogramState<2>>(cx, d, t);
    // of different types
    pairs(cx, "labels of 3 and of 2 values", d, t, either(mixed::<CounterState>, two_values::<CounterState>));
    pairs(cx, "labels of 2 and of 3 values", d, t, either(two_values::<HistogramState<2>>, mixed::<HistogramState<2>>));
    pairs(cx, "counters and float gauges", d, t, either(mixed::<CounterState>, mixed::<FloatGaugeState>));
    pairs(cx, "gauges and histograms", d, t, either(mixed::<GaugeState>, mixed::<HistogramState<2>>));
    pairs(cx, "3 and 1 bounds", d, t, either(HistT::<3>::new, HistT::<1>::new));
    pairs(cx, "0 and 4 bounds", d, t, either(HistT::<0>::new, HistT::<4>::new));
    pairs(cx, "text and protobuf", d, t, either(EncT::<BufferedTextEncoder>::new, EncT::<ProtoEncoder<Vec<u8>>>::new));
    pairs(cx, "buffered and streaming text", d, t, either(EncT::<TextEncoder<Vec<u8>>>::new, EncT::<BufferedTextEncoder>::new));
    nested(cx, "buffered text", || EncT::<BufferedTextEncoder>::new(0));
    nested(cx, "streaming text", || EncT::<TextEncoder<Vec<u8>>>::new(1));
    nested(cx, "protobuf", || EncT::<ProtoEncoder<Vec<u8>>>::new(1));
    nested(cx, "interner", || RodeoT::new(0));
    nested(cx, "metrics without labels", || SinglesT::new(0));
    nested(cx, "bounds", || HistT::<2>::new(1));
    nested(cx, "timers", || TimerT::new(0));
    nested(cx, "two dynamic labels", || DerivedT::new(1));
    nested(cx, "counter vec", || mixed::<CounterState>(1));
    nested(cx, "dense gauge vec", || mixed::<GaugeState>(0));
    // of the very type that the outer one has
    fn alike<M: Ops>(r: Repr) -> VecT<M, CbSet> {
        VecT { labels: cb_labels, ..VecT::new(mkvec(r, CbSet, M::meta()), r == Repr::Sparse, Some(3), 1, 3) }
    }
    nested(cx, "a sparse counter vec of the kind", || alike::<CounterState>(Repr::Sparse));
    nested(cx, "a dense float gauge vec of the kind", || alike::<FloatGaugeState>(Repr::Dense));
    nested(cx, "a sparse histogram vec of the kind", || alike::<HistogramState<2>>(Repr::Sparse));
    nested(cx, "histogram vec", || mixed::<HistogramState<2>>(1));
}
