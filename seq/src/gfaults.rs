//! C15, C25: metric groups, derived ones and their adapters, with a writer that fails
use crate::faulty::*;
use crate::fw::*;
use measured::label::StaticLabelSet;
use measured::metric::group::ComposedGroup;
use measured::metric::name::WithNamespace;
use measured::text::TextEncoder;
use measured::{Counter, CounterVec, FixedCardinalityLabel, FloatGauge, Gauge, GaugeVec, Histogram, HistogramVec, MetricGroup};
use measured_prometheus_protobuf::ProtoEncoder;
use std::io;
use std::sync::Arc;

impl Stream for ProtoEncoder<W> {
    const TEXT: bool = false;
    fn make(w: W) -> Self {
        Self::new(w)
    }
    fn w(&mut self) -> &mut W {
        &mut self.writer
    }
    fn finish(&mut self) -> io::Result<()> {
        self.flush()
    }
}

#[derive(FixedCardinalityLabel, Clone, Copy)]
#[label(singleton = "kind")]
enum K {
    One,
    Two,
}
#[derive(MetricGroup)]
#[metric(new())]
struct Plain {
    /// counts
    /// things
    c: Counter,
    #[metric(rename = "renamed")]
    v: CounterVec<StaticLabelSet<K>>,
    g: Gauge,
    /// opt
    o: Option<FloatGauge>,
    none: Option<Gauge>,
    /// vec
    gv: GaugeVec<StaticLabelSet<K>>,
}
impl Plain {
    fn full() -> Plain {
        let mut p = Plain::new();
        p.c.inc_by(3);
        p.v.inc(K::One);
        p.v.inc(K::Two);
        p.g.set(-4);
        p.gv.set(K::Two, 7);
        let f = FloatGauge::new();
        f.set(0.5);
        p.o = Some(f);
        p.none = None;
        p
    }
}
#[derive(MetricGroup)]
struct Hist {
    /// times
    h: Histogram<2>,
    hv: HistogramVec<StaticLabelSet<K>, 1>,
    o: Option<Histogram<0>>,
}
impl Hist {
    fn full() -> Hist {
        use measured::metric::histogram::Thresholds;
        let x = Hist {
            h: Histogram::with_metadata(Thresholds::with_buckets([1.0, 2.0])),
            hv: HistogramVec::with_metadata(Thresholds::with_buckets([0.25])),
            o: Some(Histogram::with_metadata(Thresholds::with_buckets([]))),
        };
        x.h.get_metric().observe(1.5);
        x.hv.observe(K::One, 2.0);
        x.hv.observe(K::Two, 0.0);
        x
    }
}
#[derive(MetricGroup)]
struct Outer<A, B> {
    /// first
    first: Counter,
    #[metric(namespace = "a")]
    a: A,
    #[metric(flatten)]
    b: Option<B>,
    #[metric(flatten)]
    none: Option<B>,
    #[metric(namespace = "c")]
    c: Arc<B>,
    last: Gauge,
}
fn outer<A, B>(a: A, b: impl Fn() -> B) -> Outer<A, B> {
    Outer { first: Counter::new(), a, b: Some(b()), none: None, c: Arc::new(b()), last: Gauge::new() }
}
macro_rules! all {
    ($cx:ident, $e:ty, [$($make:ident)*]) => {$({
        let p = $make::full;
        let n = stringify!($make);
        let cx: &mut Cx = $cx;
        macro_rules! go {
            ($what:expr, $g:expr) => {{
                let g = $g;
                group_faults::<$e>(cx, &format!("group {n}, {}", $what), true, &|e: &mut $e| MetricGroup::<$e>::collect_group_into(&g, e));
            }};
        }
        let q = p();
        go!("itself", p());
        go!("by reference", &q);
        go!("in an Arc", Arc::new(p()));
        go!("in an Option", Some(p()));
        go!("absent", None::<$make>);
        go!("in a namespace", WithNamespace::new("ns", p()));
        go!("in two namespaces", WithNamespace::new("ns", WithNamespace::new("in", p())));
        go!("composed", ComposedGroup(p(), p()));
        go!("composed in a namespace", WithNamespace::new("ns", ComposedGroup(Some(p()), ComposedGroup(WithNamespace::new("x", &q), Arc::new(p())))));
        go!("derived", outer(p(), p));
        go!("derived twice", outer(outer(p(), p), || outer(p(), p)));
    })*};
}
pub fn c15(cx: &mut Cx) {
    all!(cx, TextEncoder<W>, [Plain Hist]);
    let p = measured_process::ProcessCollector::for_self();
    group_faults::<TextEncoder<W>>(cx, "process collector", false, &|e| p.collect_group_into(e));
    let p = WithNamespace::new("process", Some(p));
    group_faults::<TextEncoder<W>>(cx, "process collector in a namespace", false, &|e| p.collect_group_into(e));
}
pub fn c25(cx: &mut Cx) {
    all!(cx, ProtoEncoder<W>, [Plain]);
    let p = measured_process::ProcessCollector::for_self();
    group_faults::<ProtoEncoder<W>>(cx, "process collector", false, &|e| p.collect_group_into(e));
}
