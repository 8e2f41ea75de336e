//! C23: updates through exclusive references have the effect of the shared ones
use crate::ensure;
use crate::fw::*;
use crate::world::*;
use measured::metric::histogram::Thresholds;
use measured::metric::{Metric, MetricType, MetricVec};
use measured::*;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Duration;

/// what one update does to the model, and how it is made on the real thing
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Inc,
    IncBy(u64),
    GInc,
    GIncBy(i64),
    GDec,
    GDecBy(i64),
    GSet(i64),
    FInc,
    FIncBy(f64),
    FDec,
    FDecBy(f64),
    FSet(f64),
    Obs(f64),
    Dur(u64, u32),
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    C(u64),
    G(i64),
    F(f64),
    H(Vec<u64>, f64),
}
fn zero(k: Kind) -> St {
    match k {
        Kind::C => St::C(0),
        Kind::G => St::G(0),
        Kind::F => St::F(0.0),
        Kind::H => St::H(vec![0; 3], 0.0),
    }
}
fn model(s: &mut St, op: Op) {
    match (s, op) {
        (St::C(v), Op::Inc) => *v = v.wrapping_add(1),
        (St::C(v), Op::IncBy(x)) => *v = v.wrapping_add(x),
        (St::G(v), Op::GInc) => *v = v.wrapping_add(1),
        (St::G(v), Op::GIncBy(x)) => *v = v.wrapping_add(x),
        (St::G(v), Op::GDec) => *v = v.wrapping_sub(1),
        (St::G(v), Op::GDecBy(x)) => *v = v.wrapping_sub(x),
        (St::G(v), Op::GSet(x)) => *v = x,
        (St::F(v), Op::FInc) => *v += 1.0,
        (St::F(v), Op::FIncBy(x)) => *v += x,
        (St::F(v), Op::FDec) => *v -= 1.0,
        (St::F(v), Op::FDecBy(x)) => *v -= x,
        (St::F(v), Op::FSet(x)) => *v = x,
        (St::H(b, s), Op::Obs(x)) => {
            b[LE2.iter().filter(|le| !(x <= **le)).count()] += 1;
            *s += x;
        }
        (s, Op::Dur(a, n)) => model(s, Op::Obs(Duration::new(a, n).as_secs_f64())),
        _ => unreachable!(),
    }
}
fn same(a: &St, b: &St) -> bool {
    match (a, b) {
        (St::F(a), St::F(b)) => feq(*a, *b),
        (St::H(a, s), St::H(b, t)) => a == b && feq(*s, *t),
        _ => a == b,
    }
}
fn ops(k: Kind, full: bool) -> Vec<Op> {
    use Op::*;
    match (k, full) {
        (Kind::C, true) => vec![Inc, IncBy(0), IncBy(1), IncBy(3), IncBy(u64::MAX), IncBy(1 << 63), IncBy(1 << 32)],
        (Kind::C, false) => vec![Inc, IncBy(7), IncBy(u64::MAX)],
        (Kind::G, true) => vec![GInc, GIncBy(5), GIncBy(-3), GIncBy(i64::MAX), GIncBy(i64::MIN), GDec, GDecBy(5), GDecBy(i64::MIN), GDecBy(i64::MAX), GSet(0), GSet(i64::MIN), GSet(-9)],
        (Kind::G, false) => vec![GInc, GIncBy(i64::MAX), GDec, GDecBy(5), GSet(-9)],
        (Kind::F, true) => vec![
            FInc,
            FIncBy(0.1),
            FIncBy(-0.0),
            FIncBy(1e16),
            FIncBy(f64::INFINITY),
            FIncBy(1e-20),
            FIncBy(-f64::from_bits(1)),
            FDec,
            FDecBy(0.3),
            FDecBy(0.0),
            FDecBy(-1e-20),
            FDecBy(f64::MIN_POSITIVE),
            FDecBy(f64::MAX),
            FDecBy(f64::NEG_INFINITY),
            FSet(-0.0),
            FSet(f64::NAN),
            FSet(f64::from_bits(1)),
            FSet(2.5),
        ],
        (Kind::F, false) => vec![FIncBy(1e-300), FDecBy(1e-300), FSet(-0.0), FInc, FIncBy(0.1), FDec, FDecBy(1e16)],
        (Kind::H, true) => vec![Obs(0.5), Obs(1.0), Obs(1.0000001), Obs(10.0), Obs(-0.0), Obs(1e300), Obs(f64::INFINITY), Obs(f64::NEG_INFINITY), Obs(1e-20), Obs(-f64::from_bits(1)), Obs(f64::NAN), Dur(0, 0), Dur(0, 1), Dur(1, 0), Dur(11, 5), Dur(u64::MAX, 999_999_999)],
        (Kind::H, false) => vec![Obs(0.5), Obs(1.0), Obs(5.0), Obs(50.0), Dur(10, 0)],
    }
}
/// the ways to make an update
const MODES: [&str; 3] = ["shared", "exclusive", "convenience"];

macro_rules! apply {
    // $g: guard or mut reference
    (C $g:expr, $op:expr) => {
        match $op {
            Op::Inc => $g.inc(),
            Op::IncBy(x) => $g.inc_by(x),
            _ => unreachable!(),
        }
    };
    (G $g:expr, $op:expr) => {
        match $op {
            Op::GInc => $g.inc(),
            Op::GIncBy(x) => $g.inc_by(x),
            Op::GDec => $g.dec(),
            Op::GDecBy(x) => $g.dec_by(x),
            Op::GSet(x) => $g.set(x),
            _ => unreachable!(),
        }
    };
    (F $g:expr, $op:expr) => {
        match $op {
            Op::FInc => $g.inc(),
            Op::FIncBy(x) => $g.inc_by(x),
            Op::FDec => $g.dec(),
            Op::FDecBy(x) => $g.dec_by(x),
            Op::FSet(x) => $g.set(x),
            _ => unreachable!(),
        }
    };
    (H $g:expr, $op:expr) => {
        match $op {
            Op::Obs(x) => $g.observe(x),
            Op::Dur(a, b) => $g.observe_duration(Duration::new(a, b)),
            _ => unreachable!(),
        }
    };
}
enum One {
    C(Counter),
    G(Gauge),
    F(FloatGauge),
    H(Histogram<2>),
}
fn hstate<const N: usize>(h: &measured::metric::histogram::HistogramState<N>) -> St {
    let g = h.inner.read();
    let mut b: Vec<u64> = g.buckets.iter().map(|b| b.load(Relaxed)).collect();
    b.push(g.inf.load(Relaxed));
    St::H(b, g.sum.get())
}
impl One {
    fn new(k: Kind) -> One {
        match k {
            Kind::C => One::C(Counter::new()),
            Kind::G => One::G(Gauge::new()),
            Kind::F => One::F(FloatGauge::new()),
            Kind::H => One::H(Histogram::with_metadata(Thresholds::with_buckets(LE2))),
        }
    }
    fn apply(&mut self, op: Op, mode: usize) {
        match (self, mode) {
            (One::C(c), 0) => apply!(C c.get_metric(), op),
            (One::C(c), 1) => apply!(C c.get_metric_mut(), op),
            (One::C(c), _) => match op {
                Op::Inc => c.inc_mut(),
                Op::IncBy(x) => c.inc_by_mut(x),
                _ => unreachable!(),
            },
            (One::G(c), 0) => apply!(G c.get_metric(), op),
            (One::G(c), 1) => apply!(G c.get_metric_mut(), op),
            (One::G(c), _) => apply!(G c, op),
            (One::F(c), 0) => apply!(F c.get_metric(), op),
            (One::F(c), 1) => apply!(F c.get_metric_mut(), op),
            (One::F(c), _) => apply!(F c, op),
            (One::H(c), 0) => apply!(H c.get_metric(), op),
            (One::H(c), 1) => apply!(H c.get_metric_mut(), op),
            (One::H(c), _) => match op {
                Op::Obs(x) => c.observe(x),
                Op::Dur(a, b) => c.get_metric().observe_duration(Duration::new(a, b)),
                _ => unreachable!(),
            },
        }
    }
    /// the state seen through a shared and through an exclusive reference
    fn read(&mut self) -> [St; 2] {
        match self {
            One::C(c) => {
                let a = St::C(c.get_metric().count.load(Relaxed));
                [a, St::C(c.get_metric_mut().count.load(Relaxed))]
            }
            One::G(c) => {
                let a = St::G(c.get_metric().count.load(Relaxed));
                [a, St::G(c.get_metric_mut().count.load(Relaxed))]
            }
            One::F(c) => {
                let a = St::F(c.get_metric().count.get());
                [a, St::F(c.get_metric_mut().count.get_ex())]
            }
            One::H(c) => {
                let a = hstate(&c.get_metric());
                [a, hstate(&c.get_metric_mut())]
            }
        }
    }
}
type LS = ListSet<0>;
enum Many {
    C(CounterVec<LS>),
    G(GaugeVec<LS>),
    F(FloatGaugeVec<LS>),
    H(HistogramVec<LS, 2>),
}
impl Many {
    fn new(k: Kind, r: Repr, n: usize) -> Many {
        let s = ListSet::numbered(n, true);
        match k {
            Kind::C => Many::C(mkvec(r, s, ())),
            Kind::G => Many::G(mkvec(r, s, ())),
            Kind::F => Many::F(mkvec(r, s, ())),
            Kind::H => Many::H(mkvec(r, s, Thresholds::with_buckets(LE2))),
        }
    }
    fn apply(&mut self, i: usize, op: Op, mode: usize) {
        macro_rules! l {
            ($c:expr) => {
                &$c.get_label_set().groups[i]
            };
        }
        macro_rules! by_ref {
            ($k:ident $c:expr) => {{
                let id = $c.with_labels(l!($c));
                if mode == 0 {
                    apply!($k $c.get_metric(id), op)
                } else {
                    apply!($k $c.get_metric_mut(id), op)
                }
            }};
        }
        match (self, mode, op) {
            (Many::C(c), 2, Op::Inc) => c.inc(l!(c)),
            (Many::C(c), 2, Op::IncBy(x)) => c.inc_by(l!(c), x),
            (Many::C(c), _, _) => by_ref!(C c),
            (Many::G(c), 2, Op::GInc) => c.inc(l!(c)),
            (Many::G(c), 2, Op::GIncBy(x)) => c.inc_by(l!(c), x),
            (Many::G(c), 2, Op::GDec) => c.dec(l!(c)),
            (Many::G(c), 2, Op::GDecBy(x)) => c.dec_by(l!(c), x),
            (Many::G(c), 2, Op::GSet(x)) => c.set(l!(c), x),
            (Many::G(c), _, _) => by_ref!(G c),
            (Many::F(c), 2, Op::FInc) => c.inc(l!(c)),
            (Many::F(c), 2, Op::FIncBy(x)) => c.inc_by(l!(c), x),
            (Many::F(c), 2, Op::FDec) => c.dec(l!(c)),
            (Many::F(c), 2, Op::FDecBy(x)) => c.dec_by(l!(c), x),
            (Many::F(c), 2, Op::FSet(x)) => c.set(l!(c), x),
            (Many::F(c), _, _) => by_ref!(F c),
            (Many::H(c), 2, Op::Obs(x)) => c.observe(l!(c), x),
            (Many::H(c), 2, Op::Dur(a, b)) => c.observe_duration(l!(c), Duration::new(a, b)),
            (Many::H(c), _, _) => by_ref!(H c),
        }
    }
    fn read(&mut self, i: usize, excl: bool) -> St {
        macro_rules! g {
            ($c:expr, $f:expr, $g:expr) => {{
                let id = $c.with_labels(&$c.get_label_set().groups[i]);
                if excl {
                    $g($c.get_metric_mut(id))
                } else {
                    $f($c.get_metric(id))
                }
            }};
        }
        match self {
            Many::C(c) => g!(c, |g: measured::metric::counter::CounterLockGuard| St::C(g.count.load(Relaxed)), |mut g: measured::metric::counter::CounterMut| St::C(*g.count.get_mut())),
            Many::G(c) => g!(c, |g: measured::metric::gauge::GaugeLockGuard| St::G(g.count.load(Relaxed)), |mut g: measured::metric::gauge::GaugeMut| St::G(*g.count.get_mut())),
            Many::F(c) => g!(c, |g: measured::metric::gauge::FloatGaugeLockGuard| St::F(g.count.get()), |mut g: measured::metric::gauge::FloatGaugeMut| St::F(g.count.get_ex())),
            Many::H(c) => {
                let id = c.with_labels(&c.get_label_set().groups[i]);
                if excl {
                    let g = c.get_metric_mut(id);
                    assert_eq!(g.metadata().get(), &LE2, "metadata of an exclusive reference");
                    hstate(&g)
                } else {
                    let g = c.get_metric(id);
                    assert_eq!(g.metadata().get(), &LE2, "metadata of a shared reference");
                    hstate(&g)
                }
            }
        }
    }
    fn cardinality(&self) -> usize {
        match self {
            Many::C(c) => c.get_cardinality().0,
            Many::G(c) => c.get_cardinality().0,
            Many::F(c) => c.get_cardinality().0,
            Many::H(c) => c.get_cardinality().0,
        }
    }
    fn remove(&self, i: usize) -> Option<St> {
        macro_rules! r {
            ($c:expr) => {
                $c.remove_metric($c.with_labels(&$c.get_label_set().groups[i]))
            };
        }
        match self {
            Many::C(c) => r!(c).map(|s| St::C(s.count.load(Relaxed))),
            Many::G(c) => r!(c).map(|s| St::G(s.count.load(Relaxed))),
            Many::F(c) => r!(c).map(|s| St::F(s.count.get())),
            Many::H(c) => r!(c).map(|s| hstate(&s)),
        }
    }
    fn obj(self) -> Obj {
        match self {
            Many::C(c) => Obj::CV(c),
            Many::G(c) => Obj::GV(c),
            Many::F(c) => Obj::FV(c),
            Many::H(c) => Obj::HV(c),
        }
    }
}
fn shown(s: &St) -> Val {
    match s {
        St::C(v) => Val::U(*v),
        St::G(v) => Val::I(*v),
        St::F(v) => Val::F(*v),
        St::H(b, s) => Val::H { buckets: [b[0], b[1]], inf: b[2], sum: *s },
    }
}
fn bytes(s: &St) -> Vec<u8> {
    format!("{s:?}").into_bytes()
}

/// a metric type of our own, with metadata
#[derive(Default)]
struct Own(AtomicU64);
impl MetricType for Own {
    type Metadata = String;
}
fn own(seq: &[usize], o: &mut Obs, r: Option<Repr>) -> Res {
    // op = series * 4 + mode * 2 + amount
    o.step(seq.len());
    let amount = |x: usize| [1u64, 1 << 40][x % 2];
    let Some(r) = r else {
        let mut m: Metric<Own> = Metric::with_metadata("meta".into());
        let mut want = 0;
        for &x in seq {
            want += amount(x);
            if x / 2 % 2 == 0 {
                let g = m.get_metric();
                ensure!(g.metadata() == "meta", "metadata", "shared reference has metadata {:?}", g.metadata());
                g.0.fetch_add(amount(x), Relaxed);
            } else {
                let mut g = m.get_metric_mut();
                ensure!(g.metadata() == "meta", "metadata", "exclusive reference has metadata {:?}", g.metadata());
                *g.0.get_mut() += amount(x);
            }
            let a = m.get_metric().0.load(Relaxed);
            let got = [a, *m.get_metric_mut().0.get_mut()];
            ensure!(got == [want; 2], "state", "state {got:?}, expected {want}");
        }
        return Ok(());
    };
    let mut v: MetricVec<Own, LS> = mkvec(r, ListSet::numbered(3, true), "meta".into());
    let mut want = [0u64; 3];
    for &x in seq {
        let i = x / 4;
        want[i] += amount(x);
        let id = v.with_labels(&v.get_label_set().groups[i]);
        if x / 2 % 2 == 0 {
            let g = v.get_metric(id);
            ensure!(g.metadata() == "meta", "metadata", "shared reference has metadata {:?}", g.metadata());
            g.0.fetch_add(amount(x), Relaxed);
        } else {
            let mut g = v.get_metric_mut(id);
            ensure!(g.metadata() == "meta", "metadata", "exclusive reference has metadata {:?}", g.metadata());
            *g.0.get_mut() += amount(x);
        }
        for (j, w) in want.iter().enumerate() {
            let id = v.with_labels(&v.get_label_set().groups[j]);
            let a = v.get_metric(id).0.load(Relaxed);
            let got = [a, *v.get_metric_mut(id).0.get_mut()];
            ensure!(got == [*w; 2], "state", "series {j} is {got:?}, expected {w}");
        }
    }
    ensure!(v.metadata() == "meta", "metadata", "metadata of the vec");
    Ok(())
}

pub fn c23(cx: &mut Cx) {
    // alone: every sequence of update x mode
    for k in KINDS {
        let full = ops(k, true);
        let small = ops(k, false);
        for (al, depth) in [(full, if cx.thorough { 5 } else { 4 }), (small, if cx.thorough { 6 } else { 5 })] {
            Cx::seqs(al.len() * 3, depth, |s| {
                let mk = || s.iter().map(|x| format!("{} {:?}", MODES[x % 3], al[x / 3])).collect::<Vec<_>>().join(", ");
                cx.case(
                    || format!("{k:?}: {}", mk()),
                    |o| {
                        o.step(s.len());
                        let mut m = One::new(k);
                        let mut w = zero(k);
                        for &x in s {
                            m.apply(al[x / 3], x % 3);
                            model(&mut w, al[x / 3]);
                            for g in m.read() {
                                ensure!(same(&g, &w), "state", "state {g:?} after {}, all-shared gives {w:?}", mk());
                            }
                        }
                        o.state(&bytes(&w));
                        o.show(|| format!("{w:?}"));
                        Ok(())
                    },
                );
            });
        }
    }
    // in vecs: every sequence of series x update x mode, and removal
    for k in KINDS {
        let al = {
            let mut a = ops(k, false);
            a.truncate(3);
            a
        };
        for r in [Repr::Dense, Repr::Sparse, Repr::Default] {
            let n = al.len() * 3 * 2;
            Cx::seqs(n + 2, if cx.thorough { 5 } else { 4 }, |s| {
                let mk = || {
                    s.iter()
                        .map(|&x| {
                            if x >= n {
                                format!("remove {}", x - n)
                            } else {
                                format!("{} {:?} of series {}", MODES[x / 2 % 3], al[x / 6], x % 2)
                            }
                        })
                        .collect::<Vec<_>>()
                        .join(", ")
                };
                cx.case(
                    || format!("{k:?} vec {r:?}: {}", mk()),
                    |o| {
                        o.step(s.len());
                        let mut m = Many::new(k, r, 3);
                        let mut w: Vec<Option<St>> = vec![None; 3];
                        for &x in s {
                            if x >= n {
                                let got = m.remove(x - n);
                                let want = if r == Repr::Sparse { w[x - n].take() } else { None };
                                let ok = match (&got, &want) {
                                    (None, None) => true,
                                    (Some(a), Some(b)) => same(a, b),
                                    _ => false,
                                };
                                ensure!(ok, "remove", "removal gives {got:?}, all-shared gives {want:?} after {}", mk());
                                continue;
                            }
                            m.apply(x % 2, al[x / 6], x / 2 % 3);
                            model(w[x % 2].get_or_insert_with(|| zero(k)), al[x / 6]);
                            let c = w.iter().flatten().count();
                            ensure!(m.cardinality() == c, "cardinality", "{} series after {}, expected {c}", m.cardinality(), mk());
                            for i in 0..3 {
                                if let Some(w) = &w[i] {
                                    for excl in [false, true] {
                                        let g = m.read(i, excl);
                                        ensure!(same(&g, w), "state", "series {i} is {g:?} after {}, all-shared gives {w:?}", mk());
                                    }
                                }
                            }
                        }
                        let c = w.iter().flatten().count();
                        ensure!(m.cardinality() == c, "cardinality", "{} series after {}, expected {c}", m.cardinality(), mk());
                        let exp: Vec<Series> = w.iter().enumerate().filter_map(|(i, w)| w.as_ref().map(|w| Series { labels: vec![("l".into(), i.to_string())], val: shown(w) })).collect();
                        let f = scrape(&m.obj()).map_err(|e| fail("scrape", e))?;
                        matches(&f, k, &exp).map_err(|e| fail("scrape", format!("{e} after {}", mk())))?;
                        o.state(format!("{w:?}").as_bytes());
                        o.show(|| format!("{w:?}"));
                        Ok(())
                    },
                );
            });
        }
    }
    // the &mut self methods of CounterVec
    for r in [Repr::Dense, Repr::Sparse, Repr::Default] {
        Cx::seqs(12, if cx.thorough { 5 } else { 4 }, |s| {
            cx.case(
                || format!("CounterVec {r:?} inc/inc_by/inc_mut/inc_by_mut {s:?}"),
                |o| {
                    o.step(s.len());
                    static SET: std::sync::OnceLock<LS> = std::sync::OnceLock::new();
                    let set: &'static LS = SET.get_or_init(|| ListSet::numbered(3, true));
                    let mut v: CounterVec<&'static LS> = mkvec(r, set, ());
                    let mut w = [0u64; 3];
                    for &x in s {
                        let i = x % 3;
                        let l = &set.groups[i];
                        match x / 3 {
                            0 => v.inc(l),
                            1 => v.inc_by(l, 1 << 33),
                            2 => v.inc_mut(l),
                            _ => v.inc_by_mut(l, 1 << 20),
                        }
                        w[i] = w[i].wrapping_add([1, 1 << 33, 1, 1 << 20][x / 3]);
                    }
                    for i in 0..3 {
                        let g = v.get_metric(v.with_labels(&set.groups[i])).count.load(Relaxed);
                        ensure!(g == w[i], "state", "series {i} is {g}, expected {}", w[i]);
                    }
                    o.state(format!("{w:?}").as_bytes());
                    Ok(())
                },
            )
        });
    }
    // many series: created, removed and created again by shared and exclusive references
    let many: &[usize] = if cx.thorough { &[33, 64, 65, 96, 130, 257, 300, 520] } else { &[33, 65, 130, 257] };
    for &n in many {
        for r in [Repr::Dense, Repr::Sparse] {
            use crate::vecs::growth;
            use measured::metric::{counter::CounterState, gauge::{FloatGaugeState, GaugeState}, histogram::HistogramState};
            growth::<0, CounterState>(cx, r, n, &[1, 2]);
            growth::<1, GaugeState>(cx, r, n, &[1, 2]);
            growth::<0, FloatGaugeState>(cx, r, n, &[1, 2]);
            growth::<2, HistogramState<2>>(cx, r, n, &[1, 2]);
        }
    }
    // a metric type with metadata of its own
    for r in [None, Some(Repr::Dense), Some(Repr::Sparse), Some(Repr::Default)] {
        Cx::seqs(if r.is_none() { 4 } else { 12 }, if cx.thorough { 5 } else { 4 }, |s| cx.case(|| format!("own metric type {r:?} {s:?}"), |o| own(s, o, r)));
    }
}
