//! The system under test: one metric (or vec) and the operations threads perform on it.
use crate::programs::{Container, Kind, Program};
use measured::label::LabelGroupSet;
use measured::FixedCardinalityLabel;
use measured::metric::counter::CounterState;
use measured::metric::gauge::{FloatGaugeState, GaugeState};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::MetricName;
use measured::metric::{Metric, MetricFamilyEncoding, MetricLockGuard, MetricType, MetricVec};
use measured::text::TextEncoder;
use measured::{Counter, CounterVec, LabelGroup, MetricGroup};
use measured_prometheus_protobuf::ProtoEncoder;

/// Value of one series: counter/gauge/float gauge: [v]; histogram: cumulative buckets, +Inf, sum, count.
pub type Val = Vec<i64>;
pub type Label = u8;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// update through the convenience method (one lookup, one update)
    Upd(Label, i64),
    /// gauges: set
    Set(Label, i64),
    /// look up, update twice through the held reference, release
    Hold(Label, i64, i64),
    /// look the series up (creating it) and release
    Touch(Label),
    /// resolve the label once, use the identifier for two separate updates
    Twice(Label, i64, i64),
    Remove(Label),
    Scrape,
    /// scrape with the protobuf encoder
    Proto,
    /// start a timer and drop it or have it observed
    Timer(Label, bool),
    Card,
    /// create another vec of the same type, update and scrape it, all private to the thread
    NewVec(Label, i64),
    /// exclusive scrape after the threads
    Intern(Label),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unit,
    Removed(Option<Val>),
    Scrape(String),
    Card(usize, Option<usize>),
    /// identity of a label: id equality class is checked through decode and a debug print of the id
    Id(String, String),
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub op: Op,
    pub call: u64,
    pub ret: u64,
    pub res: Res,
}

pub trait Target: Sync {
    fn run(&self, op: &Op) -> Res;
}

pub struct World {
    pub t: Box<dyn Target>,
}

impl World {
    pub fn new(p: &Program) -> World {
        let t = make(p.kind, p.container);
        let w = World { t };
        for op in &p.init {
            w.run(op);
        }
        w
    }
    pub fn run(&self, op: &Op) -> Res {
        self.t.run(op)
    }
}

// ------------------------------------------------------------------ label groups
#[derive(Clone, Copy, PartialEq, Eq, Debug, FixedCardinalityLabel)]
pub enum K {
    L0, L1, L2, L3, L4, L5, L6, L7, L8, L9, L10, L11, L12, L13, L14, L15,
}
#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = GSet)]
pub struct G {
    k: K,
}
#[rustfmt::skip]
pub const NAMES: [&str; 64] = ["l0", "l1", "l2", "l3", "l4", "l5", "l6", "l7", "l8", "l9", "l10", "l11", "l12", "l13", "l14", "l15", "l16", "l17", "l18", "l19", "l20", "l21", "l22", "l23", "l24", "l25", "l26", "l27", "l28", "l29", "l30", "l31", "l32", "l33", "l34", "l35", "l36", "l37", "l38", "l39", "l40", "l41", "l42", "l43", "l44", "l45", "l46", "l47", "l48", "l49", "l50", "l51", "l52", "l53", "l54", "l55", "l56", "l57", "l58", "l59", "l60", "l61", "l62", "l63"];

#[derive(Clone, Copy, PartialEq, Debug, LabelGroup)]
#[label(set = DSet)]
pub struct D<'a> {
    #[label(dynamic_with = lasso::ThreadedRodeo, default)]
    k: &'a str,
}

/// a set of 64 labels whose identifiers all hash alike: every series lives in one and the same shard
#[derive(Default)]
pub struct PileSet;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Pile(Label);
impl std::hash::Hash for Pile {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u32(7)
    }
}
impl measured::label::LabelGroup for Pile {
    fn visit_values(&self, v: &mut impl measured::label::LabelGroupVisitor) {
        const K: &measured::label::LabelName = measured::label::LabelName::from_str("k");
        struct S(&'static str);
        impl measured::label::LabelValue for S {
            fn visit<V: measured::label::LabelVisitor>(&self, v: V) -> V::Output {
                v.write_str(self.0)
            }
        }
        v.write_value(K, &S(NAMES[self.0 as usize]));
    }
}
impl LabelGroupSet for PileSet {
    type Group<'a> = Pile;
    type Unique = Pile;
    fn cardinality(&self) -> Option<usize> {
        Some(64)
    }
    fn encode_dense(&self, v: Pile) -> Option<usize> {
        Some(v.0 as usize)
    }
    fn decode_dense(&self, v: usize) -> Pile {
        Pile(v as Label)
    }
    fn encode(&self, v: Pile) -> Option<Pile> {
        Some(v)
    }
    fn decode(&self, v: &Pile) -> Pile {
        *v
    }
}

/// the derived set plus how a label index becomes a group
pub trait Lab: LabelGroupSet + Sync {
    fn with<R>(l: Label, f: impl for<'a> FnOnce(Self::Group<'a>) -> R) -> R;
    fn ident(&self, l: Label) -> (String, String);
}
impl Lab for GSet {
    fn with<R>(l: Label, f: impl for<'a> FnOnce(G) -> R) -> R {
        f(G { k: K::decode(l as usize) })
    }
    fn ident(&self, l: Label) -> (String, String) {
        let id = self.encode(G { k: K::decode(l as usize) }).unwrap();
        let back = self.decode(&id);
        (format!("{id:?}"), NAMES[back.k.encode()].to_string())
    }
}
impl Lab for DSet {
    fn with<R>(l: Label, f: impl for<'a> FnOnce(D<'a>) -> R) -> R {
        f(D { k: NAMES[l as usize] })
    }
    fn ident(&self, l: Label) -> (String, String) {
        let id = self.encode(D { k: NAMES[l as usize] }).unwrap();
        let back = self.decode(&id);
        (format!("{id:?}"), back.k.to_string())
    }
}

impl Lab for PileSet {
    fn with<R>(l: Label, f: impl for<'a> FnOnce(Pile) -> R) -> R {
        f(Pile(l))
    }
    fn ident(&self, l: Label) -> (String, String) {
        (format!("{l}"), NAMES[l as usize].to_string())
    }
}

// ------------------------------------------------------------------ metric kinds
pub trait Met: MetricType + Sync + Send
where
    Self: measured::metric::MetricEncoding<TextEncoder<Vec<u8>>>,
{
    fn meta() -> Self::Metadata;
    fn upd(g: MetricLockGuard<'_, Self>, x: i64);
    /// update through a borrowed guard
    fn upd_ref(&self, x: i64, m: &Self::Metadata);
    fn set(g: MetricLockGuard<'_, Self>, x: i64);
    fn val(self) -> Val;
    // the methods of whole metrics and vecs
    fn upd_one(m: &Metric<Self>, x: i64);
    fn set_one(_: &Metric<Self>, _: i64) {
        unreachable!()
    }
    fn upd_vec<L: LabelGroupSet>(v: &MetricVec<Self, L>, g: L::Group<'_>, x: i64);
    fn set_vec<L: LabelGroupSet>(_: &MetricVec<Self, L>, _: L::Group<'_>, _: i64) {
        unreachable!()
    }
    fn timer_one(_: &Metric<Self>, _: bool) {
        unreachable!()
    }
    fn timer_vec<L: LabelGroupSet>(_: &MetricVec<Self, L>, _: L::Group<'_>, _: bool) {
        unreachable!()
    }
    fn proto_one(_: &Metric<Self>) -> String {
        unreachable!()
    }
    fn proto_vec<L: LabelGroupSet>(_: &MetricVec<Self, L>) -> String {
        unreachable!()
    }
}
/// scrape with the protobuf encoder and write the result the way the text encoder does
fn proto(f: impl FnOnce(&mut ProtoEncoder<Vec<u8>>) -> std::io::Result<()>) -> String {
    let mut e = ProtoEncoder::new(Vec::with_capacity(512));
    f(&mut e).unwrap();
    e.flush().unwrap();
    let mut s = String::new();
    for f in crate::pb::stream(&e.writer).unwrap_or_else(|x| panic!("protobuf output does not decode: {x}")) {
        for m in f.metrics {
            let l: Vec<String> = m.labels.iter().map(|(n, v)| format!("{n}=\"{v}\"")).collect();
            let (crate::pb::Val::Counter(v) | crate::pb::Val::Gauge(v)) = m.val;
            s.push_str(&if l.is_empty() { format!("{} {v}\n", f.name.as_deref().unwrap_or("?")) } else { format!("{}{{{}}} {v}\n", f.name.as_deref().unwrap_or("?"), l.join(",")) });
        }
    }
    s
}
macro_rules! gauge_ops {
    ($t:ty) => {
        fn upd_one(m: &Metric<Self>, x: i64) {
            match x {
                1 => m.inc(),
                -1 => m.dec(),
                x if x < 0 => m.dec_by(-x as $t),
                x => m.inc_by(x as $t),
            }
        }
        fn set_one(m: &Metric<Self>, x: i64) {
            m.set(x as $t)
        }
        fn upd_vec<L: LabelGroupSet>(v: &MetricVec<Self, L>, g: L::Group<'_>, x: i64) {
            match x {
                1 => v.inc(g),
                -1 => v.dec(g),
                x if x < 0 => v.dec_by(g, -x as $t),
                x => v.inc_by(g, x as $t),
            }
        }
        fn set_vec<L: LabelGroupSet>(v: &MetricVec<Self, L>, g: L::Group<'_>, x: i64) {
            v.set(g, x as $t)
        }
    };
}
macro_rules! proto_ops {
    () => {
        fn proto_one(m: &Metric<Self>) -> String {
            proto(|e| m.collect_family_into(MetricName::from_str("m"), e))
        }
        fn proto_vec<L: LabelGroupSet>(v: &MetricVec<Self, L>) -> String {
            proto(|e| v.collect_family_into(MetricName::from_str("m"), e))
        }
    };
}
impl Met for CounterState {
    fn meta() {}
    fn upd(g: MetricLockGuard<'_, Self>, x: i64) {
        if x == 1 { g.inc() } else { g.inc_by(x as u64) }
    }
    fn upd_ref(&self, x: i64, _: &()) {
        if x == 1 { self.inc() } else { self.inc_by(x as u64) }
    }
    fn set(_: MetricLockGuard<'_, Self>, _: i64) {
        unreachable!()
    }
    fn val(self) -> Val {
        vec![self.count.into_inner() as i64]
    }
    fn upd_one(m: &Metric<Self>, x: i64) {
        if x == 1 { m.inc() } else { m.inc_by(x as u64) }
    }
    fn upd_vec<L: LabelGroupSet>(v: &MetricVec<Self, L>, g: L::Group<'_>, x: i64) {
        if x == 1 { v.inc(g) } else { v.inc_by(g, x as u64) }
    }
    proto_ops!();
}
impl Met for GaugeState {
    fn meta() {}
    fn upd(g: MetricLockGuard<'_, Self>, x: i64) {
        match x {
            1 => g.inc(),
            -1 => g.dec(),
            x if x < 0 => g.dec_by(-x),
            x => g.inc_by(x),
        }
    }
    fn upd_ref(&self, x: i64, _: &()) {
        self.count.fetch_add(x, std::sync::atomic::Ordering::Relaxed);
    }
    fn set(g: MetricLockGuard<'_, Self>, x: i64) {
        g.set(x)
    }
    fn val(self) -> Val {
        vec![self.count.into_inner()]
    }
    gauge_ops!(i64);
    proto_ops!();
}
impl Met for FloatGaugeState {
    fn meta() {}
    fn upd(g: MetricLockGuard<'_, Self>, x: i64) {
        match x {
            1 => g.inc(),
            -1 => g.dec(),
            x if x < 0 => g.dec_by(-x as f64),
            x => g.inc_by(x as f64),
        }
    }
    fn upd_ref(&self, x: i64, _: &()) {
        self.count.inc_by(x as f64);
    }
    fn set(g: MetricLockGuard<'_, Self>, x: i64) {
        g.set(x as f64)
    }
    fn val(self) -> Val {
        vec![self.count.get() as i64]
    }
    gauge_ops!(f64);
    proto_ops!();
}
pub const BOUNDS: [f64; 2] = [1.0, 10.0];
impl Met for HistogramState<2> {
    fn meta() -> Thresholds<2> {
        Thresholds::with_buckets(BOUNDS)
    }
    fn upd(g: MetricLockGuard<'_, Self>, x: i64) {
        g.observe(x as f64)
    }
    fn upd_ref(&self, x: i64, m: &Thresholds<2>) {
        let b = m.get().iter().position(|le| x as f64 <= *le).unwrap_or(2);
        self.inner.read().observe(b, x as f64)
    }
    fn set(_: MetricLockGuard<'_, Self>, _: i64) {
        unreachable!()
    }
    fn val(self) -> Val {
        let i = self.inner.into_inner();
        let [a, b] = i.buckets;
        let (a, b, c) = (a.into_inner() as i64, b.into_inner() as i64, i.inf.into_inner() as i64);
        vec![a, a + b, a + b + c, i.sum.get().round() as i64, a + b + c]
    }
    fn upd_one(m: &Metric<Self>, x: i64) {
        m.observe(x as f64)
    }
    fn upd_vec<L: LabelGroupSet>(v: &MetricVec<Self, L>, g: L::Group<'_>, x: i64) {
        v.observe(g, x as f64)
    }
    fn timer_one(m: &Metric<Self>, observe: bool) {
        let t = m.start_timer();
        if observe {
            t.observe();
        }
    }
    fn timer_vec<L: LabelGroupSet>(v: &MetricVec<Self, L>, g: L::Group<'_>, observe: bool) {
        let t = v.start_timer(g);
        if observe {
            t.observe();
        }
    }
}

// ------------------------------------------------------------------ targets
struct Single<M: Met>(Metric<M>)
where
    M: measured::metric::MetricEncoding<TextEncoder<Vec<u8>>>;
struct VecT<M: Met, L: Lab> 
where
    M: measured::metric::MetricEncoding<TextEncoder<Vec<u8>>>,
{
    v: MetricVec<M, L>,
    make: fn() -> MetricVec<M, L>,
}

fn text<F: MetricFamilyEncoding<TextEncoder<Vec<u8>>>>(f: &F) -> String {
    let mut e = TextEncoder::new(Vec::with_capacity(512));
    f.collect_family_into(MetricName::from_str("m"), &mut e).unwrap();
    String::from_utf8(e.writer).unwrap()
}

impl<M: Met> Target for Single<M>
where
    M: measured::metric::MetricEncoding<TextEncoder<Vec<u8>>>,
    M::Metadata: Sync,
{
    fn run(&self, op: &Op) -> Res {
        match *op {
            Op::Upd(_, x) => M::upd_one(&self.0, x),
            Op::Set(_, x) => M::set_one(&self.0, x),
            Op::Timer(_, o) => M::timer_one(&self.0, o),
            Op::Proto => return Res::Scrape(M::proto_one(&self.0)),
            Op::Hold(_, x, y) | Op::Twice(_, x, y) => {
                let g = self.0.get_metric();
                g.upd_ref(x, g.metadata());
                M::upd(g, y);
            }
            Op::Touch(_) => drop(self.0.get_metric()),
            Op::Scrape => return Res::Scrape(text(&self.0)),
            _ => unreachable!(),
        }
        Res::Unit
    }
}

impl<M: Met, L: Lab> Target for VecT<M, L>
where
    M: measured::metric::MetricEncoding<TextEncoder<Vec<u8>>>,
    M::Metadata: Sync,
    MetricVec<M, L>: Sync,
{
    fn run(&self, op: &Op) -> Res {
        let v = &self.v;
        match *op {
            Op::Upd(l, x) => L::with(l, |g| M::upd_vec(v, g, x)),
            Op::Set(l, x) => L::with(l, |g| M::set_vec(v, g, x)),
            Op::Timer(l, o) => L::with(l, |g| M::timer_vec(v, g, o)),
            Op::Proto => return Res::Scrape(M::proto_vec(v)),
            Op::Hold(l, x, y) => L::with(l, |g| {
                let g = v.get_metric(v.with_labels(g));
                g.upd_ref(x, g.metadata());
                M::upd(g, y);
            }),
            Op::Twice(l, x, y) => L::with(l, |g| {
                let id = v.with_labels(g);
                M::upd(v.get_metric(id), x);
                M::upd(v.get_metric(id), y);
            }),
            Op::Touch(l) => L::with(l, |g| drop(v.get_metric(v.with_labels(g)))),
            Op::Remove(l) => return L::with(l, |g| Res::Removed(v.remove_metric(v.with_labels(g)).map(M::val))),
            Op::Scrape => return Res::Scrape(text(v)),
            Op::Card => {
                let (a, b) = v.get_cardinality();
                return Res::Card(a, b);
            }
            Op::NewVec(l, x) => {
                let v2 = (self.make)();
                L::with(l, |g| M::upd(v2.get_metric(v2.with_labels(g)), x));
                return Res::Scrape(text(&v2));
            }
            Op::Intern(l) => {
                let (a, b) = v.get_label_set().ident(l);
                return Res::Id(a, b);
            }
        }
        Res::Unit
    }
}

/// nothing exists before the threads start: every operation makes its own vec
struct FreshT;
impl Target for FreshT {
    fn run(&self, op: &Op) -> Res {
        match *op {
            Op::NewVec(l, x) => {
                let v = CounterVec::<GSet>::sparse();
                GSet::with(l, |g| v.inc_by(g, x as u64));
                Res::Scrape(text(&v))
            }
            Op::Scrape => Res::Scrape(String::new()),
            _ => unreachable!(),
        }
    }
}

/// a derived group: label 15 is the plain counter, the other labels live in the vec
#[derive(MetricGroup)]
#[metric(new(sparse: bool))]
struct Grp {
    /// plain
    p: Counter,
    /// vec
    #[metric(init = if sparse { CounterVec::sparse() } else { CounterVec::dense() })]
    m: CounterVec<GSet>,
}
struct GrpT(Grp);
impl Target for GrpT {
    fn run(&self, op: &Op) -> Res {
        match *op {
            Op::Upd(15, x) => self.0.p.inc_by(x as u64),
            Op::Upd(l, x) => GSet::with(l, |g| self.0.m.inc_by(g, x as u64)),
            Op::Remove(l) => return GSet::with(l, |g| Res::Removed(self.0.m.remove_metric(self.0.m.with_labels(g)).map(Met::val))),
            Op::Scrape => {
                let mut e = TextEncoder::new(Vec::with_capacity(512));
                self.0.collect_group_into(&mut e).unwrap();
                let s = String::from_utf8(e.writer).unwrap();
                return Res::Scrape(s.replace("\np ", "\nm{k=\"l15\"} "));
            }
            Op::Proto => {
                let s = proto(|e| self.0.collect_group_into(e));
                return Res::Scrape(format!("\n{s}").replace("\np ", "\nm{k=\"l15\"} "));
            }
            _ => unreachable!(),
        }
        Res::Unit
    }
}

fn make_vec<M: Met + 'static>(c: Container) -> Box<dyn Target>
where
    M: measured::metric::MetricEncoding<TextEncoder<Vec<u8>>>,
    M::Metadata: Sync,
    MetricVec<M, GSet>: Sync,
    MetricVec<M, DSet>: Sync,
    MetricVec<M, PileSet>: Sync,
{
    fn pile<M: Met>() -> MetricVec<M, PileSet> where M: measured::metric::MetricEncoding<TextEncoder<Vec<u8>>> {
        MetricVec::sparse_with_metadata(M::meta())
    }
    fn dense<M: Met>() -> MetricVec<M, GSet> where M: measured::metric::MetricEncoding<TextEncoder<Vec<u8>>> {
        MetricVec::dense_with_metadata(M::meta())
    }
    fn sparse<M: Met>() -> MetricVec<M, GSet> where M: measured::metric::MetricEncoding<TextEncoder<Vec<u8>>> {
        MetricVec::sparse_with_metadata(M::meta())
    }
    fn dynv<M: Met>() -> MetricVec<M, DSet> where M: measured::metric::MetricEncoding<TextEncoder<Vec<u8>>> {
        MetricVec::with_metadata(M::meta())
    }
    match c {
        Container::Single => Box::new(Single::<M>(Metric::with_metadata(M::meta()))),
        Container::Dense => Box::new(VecT::<M, GSet> { v: dense(), make: dense }),
        Container::Sparse => Box::new(VecT::<M, GSet> { v: sparse(), make: sparse }),
        Container::Dyn => Box::new(VecT::<M, DSet> { v: dynv(), make: dynv }),
        Container::Pile => Box::new(VecT::<M, PileSet> { v: pile(), make: pile }),
        Container::GroupDense | Container::GroupSparse | Container::Fresh => unreachable!(),
    }
}

fn make(k: Kind, c: Container) -> Box<dyn Target> {
    if c == Container::GroupDense || c == Container::GroupSparse {
        return Box::new(GrpT(Grp::new(c == Container::GroupSparse)));
    }
    if c == Container::Fresh {
        return Box::new(FreshT);
    }
    match k {
        Kind::Counter => make_vec::<CounterState>(c),
        Kind::Gauge => make_vec::<GaugeState>(c),
        Kind::Float => make_vec::<FloatGaugeState>(c),
        Kind::Hist => make_vec::<HistogramState<2>>(c),
    }
}

pub fn warm_globals() {
    let v = CounterVec::<GSet>::sparse();
    v.inc(G { k: K::L0 });
    let _ = text(&v);
    let d = CounterVec::<DSet>::new();
    d.inc(D { k: "l0" });
    let _ = text(&d);
    let _ = proto(|e| d.collect_family_into(MetricName::from_str("m"), e));
}
