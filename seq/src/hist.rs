//! C11 (bucketing), C12 (threshold constructors), C20 (timers)
use crate::ensure;
use crate::env::{clock, set_clock, set_step};
use crate::fw::*;
use crate::prom;
use crate::world::*;
use measured::metric::histogram::{HistogramTimer, HistogramVecTimer, Thresholds};
use measured::metric::name::MetricName;
use measured::metric::MetricFamilyEncoding;
use measured::text::BufferedTextEncoder;
use measured::*;
use std::time::{Duration, Instant};

pub fn up(x: f64) -> f64 {
    if x.is_nan() || x == f64::INFINITY {
        x
    } else if x == 0.0 {
        f64::from_bits(1)
    } else if x > 0.0 {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    }
}
pub fn down(x: f64) -> f64 {
    -up(-x)
}

pub fn show<T>(f: impl FnOnce(&mut BufferedTextEncoder) -> Result<(), T>) -> Result<prom::Family, Fail> {
    let mut e = BufferedTextEncoder::new();
    let _ = f(&mut e);
    let b = e.finish();
    let mut d = prom::doc(&b).map_err(|x| fail("document", format!("{x}; output {:?}", String::from_utf8_lossy(&b))))?;
    ensure!(d.len() == 1, "document", "{} families", d.len());
    Ok(d.pop().unwrap())
}
const NAME: &MetricName = MetricName::from_str("m");

/// the definition of a histogram, directly
fn expect(les: &[f64], xs: &[f64]) -> (Vec<u64>, u64, f64) {
    let mut sum = 0.0;
    for x in xs {
        sum += x;
    }
    (les.iter().map(|le| xs.iter().filter(|x| **x <= *le).count() as u64).collect(), xs.len() as u64, sum)
}
fn compare(h: &prom::Hist, les: &[f64], xs: &[f64]) -> Res {
    let (b, n, sum) = expect(les, xs);
    let fin: Vec<(f64, u64)> = les.iter().cloned().zip(b).filter(|x| x.0 != f64::INFINITY).collect();
    ensure!(h.buckets.len() == fin.len(), "buckets", "{} finite buckets, expected {}", h.buckets.len(), fin.len());
    for (g, w) in h.buckets.iter().zip(&fin) {
        ensure!(feq(g.0, w.0), "le", "bucket bound {:?}, expected {:?}", g.0, w.0);
        ensure!(g.1 == w.1, "bucket", "bucket le={:?} shows {}, expected {} after {:?} with bounds {:?}", w.0, g.1, w.1, xs, les);
    }
    ensure!(h.inf == Some(n), "inf", "+Inf bucket {:?}, expected {n} after {xs:?} with bounds {les:?}", h.inf);
    ensure!(h.count == Some(n), "count", "count {:?}, expected {n} after {xs:?}", h.count);
    ensure!(h.sum.is_some_and(|s| feq(s, sum)), "sum", "sum {:?}, expected {sum:?} after {xs:?}", h.sum);
    Ok(())
}

fn layouts<const N: usize>() -> Vec<(&'static str, [f64; N])> {
    let mut v: Vec<(&str, [f64; N])> = vec![
        ("linear", std::array::from_fn(|i| 1.0 + i as f64)),
        ("exponential", std::array::from_fn(|i| 0.1 * 2f64.powi(i as i32))),
        ("around zero", std::array::from_fn(|i| (i as f64 - (N / 2) as f64) * 0.5)),
        ("subnormal", std::array::from_fn(|i| f64::from_bits(i as u64 + 1))),
        ("adjacent", std::array::from_fn(|i| f64::from_bits(1f64.to_bits() + i as u64))),
        ("largest", std::array::from_fn(|i| f64::from_bits(f64::MAX.to_bits() - (N - 1 - i) as u64))),
    ];
    if N > 0 {
        v.push(("from -Inf", std::array::from_fn(|i| if i == 0 { f64::NEG_INFINITY } else { i as f64 * 10.0 })));
        v.push(("to +Inf", std::array::from_fn(|i| if i == N - 1 { f64::INFINITY } else { i as f64 - 3.0 })));
        v.push(("negative zero", std::array::from_fn(|i| if i == N / 2 { -0.0 } else { i as f64 - (N / 2) as f64 })));
        v.push(("negative", std::array::from_fn(|i| i as f64 - N as f64)));
    }
    v
}
fn alphabet(les: &[f64], full: bool) -> Vec<f64> {
    let mut a = vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::from_bits(1), -f64::from_bits(1), 0.5, -0.5];
    let pick: Vec<f64> = if full || les.len() <= 3 { les.to_vec() } else { vec![les[0], les[les.len() / 2], les[les.len() - 1]] };
    for b in pick {
        a.extend([b, up(b), down(b)]);
    }
    if !full {
        a.dedup_by(|x, y| x.to_bits() == y.to_bits());
    }
    a
}
const ACCESS: [&str; 7] = ["shared", "exclusive", "alternating", "vec dense", "vec sparse", "vec exclusive dense", "vec exclusive sparse"];
fn c11_one<const N: usize>(les: [f64; N], xs: &[f64], access: usize, o: &mut Obs) -> Res {
    o.step(xs.len());
    let t = Thresholds::with_buckets(les);
    let f = if access < 3 {
        let mut h = Histogram::<N>::with_metadata(t);
        for (i, x) in xs.iter().enumerate() {
            match (access, i % 2) {
                (0, _) | (2, 0) => h.observe(*x),
                _ => h.get_metric_mut().observe(*x),
            }
        }
        show(|e| h.collect_family_into(NAME, e))?
    } else {
        let mut v: HistogramVec<ListSet<0>, N> = mkvec(if access % 2 == 1 { Repr::Dense } else { Repr::Sparse }, ListSet::numbered(2, true), t);
        // an observation in another series must not show
        v.observe(&v.get_label_set().groups[1], 3.0);
        let id = v.with_labels(&v.get_label_set().groups[0]);
        v.get_metric(id);
        for x in xs {
            if access < 5 {
                v.observe(&v.get_label_set().groups[0], *x);
            } else {
                v.get_metric_mut(id).observe(*x);
            }
        }
        show(|e| v.collect_family_into(NAME, e))?
    };
    let hs = prom::hists(&f).map_err(|e| fail("document", format!("{e} with bounds {les:?}")))?;
    let h = hs.iter().find(|h| access < 3 || h.labels[0].1 == "0").ok_or_else(|| fail("document", "no series"))?;
    o.state(format!("{h:?}").as_bytes());
    o.show(|| format!("{h:?}"));
    compare(h, &les, xs)?;
    if access >= 3 {
        let h = hs.iter().find(|h| h.labels[0].1 == "1").ok_or_else(|| fail("document", "no other series"))?;
        compare(h, &les, &[3.0])?;
    }
    Ok(())
}
fn c11n<const N: usize>(cx: &mut Cx) {
    for (name, les) in layouts::<N>() {
        let full = alphabet(&les, true);
        for access in 0..ACCESS.len() {
            for x in &full {
                cx.case(|| format!("{N} buckets {name} {} observe {x:?}", ACCESS[access]), |o| c11_one(les, &[*x], access, o));
            }
            // the whole alphabet in one run, twice
            let all: Vec<f64> = full.iter().chain(&full).filter(|x| x.is_finite()).cloned().collect();
            cx.case(|| format!("{N} buckets {name} {} observe all boundary values twice", ACCESS[access]), |o| c11_one(les, &all, access, o));
        }
        let small = alphabet(&les, false);
        let depth = if N <= 2 { 3 } else { 2 };
        let (depth, accs) = if cx.thorough { (depth + (N <= 8) as usize, 3) } else { (depth, 3) };
        for access in 0..accs {
            Cx::seqs(small.len(), depth, |sq| {
                if sq.len() != 1 {
                    let xs = || sq.iter().map(|&i| small[i]).collect::<Vec<_>>();
                    cx.case(|| format!("{N} buckets {name} {} observe {:?}", ACCESS[access], xs()), |o| c11_one(les, &xs(), access, o))
                }
            });
        }
    }
}
/// many buckets: every bound by itself, its neighbours, and all of them
fn c11_wide<const N: usize>(cx: &mut Cx) {
    for (name, les) in layouts::<N>() {
        if name == "exponential" && N > 1000 {
            continue;
        }
        for access in 0..ACCESS.len() {
            let mut all = vec![];
            for i in 0..N {
                // every way of access near the ends, the middle and the powers of two
                let near = |p: usize| i + 2 >= p && i <= p + 1;
                if access != 0 && !(near(0) || near(N) || near(N / 2) || near(i.next_power_of_two()) || near(i.next_power_of_two() / 2)) {
                    continue;
                }
                cx.case(
                    || format!("{N} buckets {name} {} observe bound {i} and its neighbours", ACCESS[access]),
                    |o| {
                        for x in if access == 0 { vec![les[i], up(les[i]), down(les[i])] } else { vec![les[i], up(les[i])] } {
                            c11_one(les, &[x], access, o)?;
                        }
                        Ok(())
                    },
                );
                all.extend([les[i], up(les[i]), down(les[i])]);
            }
            all.retain(|x| x.is_finite());
            cx.case(|| format!("{N} buckets {name} {} observe all bounds and their neighbours", ACCESS[access]), |o| c11_one(les, &all, access, o));
            all.reverse();
            cx.case(|| format!("{N} buckets {name} {} observe all bounds and their neighbours, from above", ACCESS[access]), |o| c11_one(les, &all, access, o));
        }
    }
}
/// many observations, really made, and on top of counts that stand for many
fn c11_many(cx: &mut Cx) {
    let les = [1.0, 2.0, 3.0];
    let ns: &[usize] = if cx.thorough { &[255, 256, 257, 65535, 65536, 65537, (1 << 24) + 1] } else { &[255, 256, 257, 65535, 65536, 65537] };
    for &n in ns {
        for access in 0..ACCESS.len() {
            for v in [1.0, 2.0, 3.0, 4.0] {
                cx.case(
                    || format!("{v} observed {n} times, {}", ACCESS[access]),
                    |o| {
                        let mut xs = vec![v; n];
                        xs.push(2.5);
                        c11_one(les, &xs, access, o)
                    },
                );
            }
        }
    }
    for k in [7u32, 8, 15, 16, 24, 31, 32, 33, 48, 52, 53, 62] {
        for at in 0..4usize {
            for ex in [false, true] {
                cx.case(
                    || format!("bucket {at} holds 2^{k}-1, then one observation in each bucket, twice{}", if ex { ", exclusive" } else { "" }),
                    |o| {
                        let mut h = Histogram::<3>::with_metadata(Thresholds::with_buckets(les));
                        let pre = (1u64 << k) - 1;
                        {
                            let g = h.get_metric();
                            let w = g.inner.write();
                            let c = if at < 3 { &w.buckets[at] } else { &w.inf };
                            c.store(pre, std::sync::atomic::Ordering::Relaxed);
                        }
                        let mut counts = [0u64; 4];
                        counts[at] = pre;
                        for _ in 0..2 {
                            for (i, x) in [1.0, 2.0, 3.0, 4.0].into_iter().enumerate() {
                                if ex {
                                    h.get_metric_mut().observe(x)
                                } else {
                                    h.observe(x)
                                }
                                counts[i] += 1;
                                o.step(1);
                                let f = show(|e| h.collect_family_into(NAME, e))?;
                                let hs = prom::hists(&f).map_err(|e| fail("document", e))?;
                                let mut cum = 0;
                                for b in 0..3 {
                                    cum += counts[b];
                                    ensure!(hs[0].buckets[b].1 == cum, "large", "bucket {b} shows {}, expected {cum}", hs[0].buckets[b].1);
                                }
                                cum += counts[3];
                                ensure!(hs[0].inf == Some(cum) && hs[0].count == Some(cum), "large", "+Inf {:?}, count {:?}, expected {cum}", hs[0].inf, hs[0].count);
                                o.state(format!("{:?}", hs[0]).as_bytes());
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
pub fn c11(cx: &mut Cx) {
    macro_rules! each { ($($n:literal)*) => { $(c11n::<$n>(cx);)* } }
    each!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 31 32 33 64);
    macro_rules! wide { ($($n:literal)*) => { $(c11_wide::<$n>(cx);)* } }
    wide!(63 65 100 127 128 129 200 255 256 257 300);
    if cx.thorough {
        wide!(511 512 513 1000 1024 1025);
    }
    c11_many(cx);
}

// ------------------------------------------------------------------ C12

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * b.abs()
}
/// the bounds, in order, as they appear in the exposition
fn le_labels<const N: usize>(t: Thresholds<N>) -> Result<Vec<f64>, Fail> {
    let h = Histogram::<N>::with_metadata(t);
    let f = show(|e| h.collect_family_into(NAME, e))?;
    Ok(prom::hists(&f).map_err(|e| fail("document", e))?[0].buckets.iter().map(|b| b.0).collect())
}
fn c12n<const N: usize>(cx: &mut Cx) {
    let args = [
        f64::NEG_INFINITY, -1e300, -2.0, -1.0, -0.5, -f64::MIN_POSITIVE, -0.0, 0.0, f64::from_bits(1), f64::MIN_POSITIVE, 1e-300, 1e-9, 0.001, 0.1, 0.5,
        down(1.0), 1.0, up(1.0), 1.1, 1.5, 2.0, 3.0, 10.0, 12345.678, 1e10, 1e100, 1e300, f64::MAX, f64::NAN,
    ];
    for &a in &args {
        for &b in &args {
            for lin in [false, true] {
                cx.case(
                    || format!("{}_buckets::<{N}>({a:?}, {b:?})", if lin { "linear" } else { "exponential" }),
                    |o| {
                        // NaN is neither positive nor greater than 1; a NaN start of linear buckets is left open
                        if lin && a.is_nan() {
                            return Ok(());
                        }
                        #[allow(clippy::neg_cmp_op_on_partial_ord)]
                        let bad = if lin { !(b > 0.0) } else { !(a > 0.0) || !(b > 1.0) };
                        let r = guarded(|| if lin { Thresholds::<N>::linear_buckets(a, b) } else { Thresholds::<N>::exponential_buckets(a, b) });
                        if bad {
                            ensure!(r.is_err(), "accepted", "invalid arguments accepted");
                            return Ok(());
                        }
                        let t = r.map_err(|e| fail("rejected", format!("valid arguments panic: {e}")))?;
                        for i in 0..N {
                            let want = if lin { a + b * i as f64 } else { a * b.powi(i as i32) };
                            let got = t.get()[i];
                            ensure!(close(got, want) || (got.is_nan() && want.is_nan()), "bound", "bound {i} is {got:?}, expected {want:?}");
                        }
                        // the accuracy of the last bounds does not depend on how they were computed
                        o.state(format!("{:?}", t.get()).as_bytes());
                        o.show(|| format!("{:?}", t.get()));
                        let les = *t.get();
                        if les.windows(2).all(|w| w[0] < w[1]) && les.iter().all(|x| x.is_finite()) {
                            let l = le_labels(t)?;
                            ensure!(l.len() == N && l.iter().zip(&les).all(|(x, y)| feq(*x, *y)), "le", "le labels {l:?}, bounds {les:?}");
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
fn c12_explicit<const N: usize>(cx: &mut Cx) {
    let vals = [f64::NEG_INFINITY, -2.5, -1.0, -0.0, 0.0, f64::from_bits(1), 0.1, 0.1 + 0.2, 1.0, up(1.0), 1e21, f64::INFINITY, f64::NAN];
    let few = [-2.5, -0.0, 0.0, f64::from_bits(1), 0.1, 1.0, up(1.0), f64::NAN];
    // whether NaN may be the only bound is left open
    let vals: &[f64] = if N > 3 { &few } else { &vals[..vals.len() - (N == 1) as usize] };
    let mut idx = [0usize; N];
    loop {
        let les: [f64; N] = std::array::from_fn(|i| vals[idx[i]]);
        cx.case(
            || format!("with_buckets({les:?})"),
            |o| {
                #[allow(clippy::neg_cmp_op_on_partial_ord)]
                let bad = les.windows(2).any(|w| !(w[0] < w[1]));
                let r = guarded(|| Thresholds::<N>::with_buckets(les));
                if bad {
                    ensure!(r.is_err(), "accepted", "bounds {les:?} that do not increase were accepted");
                    return Ok(());
                }
                let t = r.map_err(|e| fail("rejected", format!("increasing bounds {les:?} panic: {e}")))?;
                ensure!(t.get().iter().zip(&les).all(|(a, b)| feq(*a, *b)), "bound", "bounds {:?}, given {:?}", t.get(), les);
                o.state(format!("{:?}", t.get()).as_bytes());
                let l = le_labels(t)?;
                let want: Vec<f64> = les.iter().cloned().filter(|x| *x != f64::INFINITY).collect();
                ensure!(l.len() == want.len() && l.iter().zip(&want).all(|(x, y)| feq(*x, *y)), "le", "le labels {l:?}, bounds {les:?}");
                Ok(())
            },
        );
        let mut i = 0;
        while i < N && idx[i] + 1 == vals.len() {
            idx[i] = 0;
            i += 1;
        }
        if i == N {
            break;
        }
        idx[i] += 1;
    }
}
/// long lists, right but for one place
fn c12_one_wrong<const N: usize>(cx: &mut Cx) {
    for p in 0..N {
        for wrong in 0..7 {
            if p == 0 && wrong != 0 {
                continue;
            }
            cx.case(
                || format!("with_buckets of {N} bounds, {} at {p}", ["right", "equal to the one before", "less than the one before", "less than the first", "NaN", "-Inf", "a hair below the one before"][wrong]),
                |o| {
                    let mut les: [f64; N] = std::array::from_fn(|i| (i as f64 - 3.0) * 0.5 + if i >= p { 0.125 } else { 0.0 });
                    match wrong {
                        1 => les[p] = les[p - 1],
                        2 => les[p] = les[p - 1] - 0.25,
                        3 => les[p] = les[0] - 1.0,
                        4 => les[p] = f64::NAN,
                        5 => les[p] = f64::NEG_INFINITY,
                        6 => les[p] = down(les[p - 1]),
                        _ => {}
                    }
                    let r = guarded(|| Thresholds::<N>::with_buckets(les));
                    if wrong != 0 {
                        ensure!(r.is_err(), "accepted", "bounds that do not increase were accepted");
                        return Ok(());
                    }
                    let t = r.map_err(|e| fail("rejected", format!("increasing bounds panic: {e}")))?;
                    ensure!(*t.get() == les, "bound", "bounds {:?}, given {:?}", t.get(), les);
                    o.state(format!("{:?}", t.get()).as_bytes());
                    let l = le_labels(t)?;
                    ensure!(l == les, "le", "le labels {l:?}, bounds {les:?}");
                    Ok(())
                },
            );
        }
    }
}
pub fn c12(cx: &mut Cx) {
    macro_rules! each { ($f:ident $($n:literal)*) => { $($f::<$n>(cx);)* } }
    each!(c12_explicit 0 1 2 3 4 5);
    if cx.thorough {
        each!(c12_explicit 6 7);
    }
    each!(c12n 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 32 64 127 128 129 255 256 257 300);
    each!(c12_one_wrong 6 7 8 9 15 16 17 31 32 33 63 64 65 100 128 255 256 257 300);
    if cx.thorough {
        each!(c12n 24 48 500 512 513 1000 1023 1024 1025);
        each!(c12_one_wrong 512 1000 1024);
    }
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Tick,
    Start(usize),
    Drop(usize),
    Observe(usize),
    Forget(usize),
    Unwind(usize),
    Dur(usize),
    Since(usize),
    Remove(usize),
}
enum Timer<'a> {
    P(HistogramTimer<'a, 2>),
    V(HistogramVecTimer<'a, ListSet<0>, 2>),
}
struct Targets {
    plain: Histogram<2>,
    dense: HistogramVec<ListSet<0>, 2>,
    sparse: HistogramVec<ListSet<0>, 2>,
}
const TARGETS: [&str; 5] = ["plain", "dense l=0", "dense l=1", "sparse l=0", "sparse l=1"];
impl Targets {
    fn new() -> Self {
        let t = || Thresholds::with_buckets(LE2);
        Targets { plain: Histogram::with_metadata(t()), dense: mkvec(Repr::Dense, ListSet::numbered(2, true), t()), sparse: mkvec(Repr::Sparse, ListSet::numbered(2, true), t()) }
    }
    fn vec(&self, i: usize) -> (&HistogramVec<ListSet<0>, 2>, &Labels) {
        let v = if i <= 2 { &self.dense } else { &self.sparse };
        (v, &v.get_label_set().groups[(i + 1) % 2])
    }
}
fn run_timers(h: &[T], unit: u64, o: &mut Obs) -> Res {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            set_clock(None)
        }
    }
    let _r = Reset;
    let mut now = 5_000_000_000u64;
    set_clock(Some(now));
    let origin = Instant::now();
    let t = Targets::new();
    let mut timers: Vec<Option<(Timer, usize, u64)>> = vec![];
    let mut model: [Vec<f64>; 5] = Default::default();
    for (n, op) in h.iter().enumerate() {
        o.step(1);
        let dur = |from: u64| Duration::from_nanos(now - from);
        match *op {
            T::Tick => {
                now += unit << (2 * (n % 12));
                set_clock(Some(now));
            }
            T::Start(i) => {
                let x = if i == 0 {
                    Timer::P(t.plain.start_timer())
                } else {
                    let (v, g) = t.vec(i);
                    Timer::V(v.start_timer(g))
                };
                timers.push(Some((x, i, now)));
            }
            T::Drop(k) => {
                let (x, i, from) = timers[k].take().unwrap();
                drop(x);
                model[i].push(dur(from).as_secs_f64());
            }
            T::Unwind(k) => {
                let (x, i, from) = timers[k].take().unwrap();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _x = x;
                    std::panic::resume_unwind(Box::new(()));
                }));
                assert!(r.is_err());
                model[i].push(dur(from).as_secs_f64());
            }
            T::Observe(k) => {
                let (x, i, from) = timers[k].take().unwrap();
                let d = match x {
                    Timer::P(x) => x.observe(),
                    Timer::V(x) => x.observe(),
                };
                ensure!(d == dur(from), "returned", "{:?}: observe returned {d:?}, expected {:?}", &h[..=n], dur(from));
                model[i].push(dur(from).as_secs_f64());
            }
            T::Forget(k) => {
                let (x, _, _) = timers[k].take().unwrap();
                match x {
                    Timer::P(x) => x.forget(),
                    Timer::V(x) => x.forget(),
                }
            }
            T::Dur(i) => {
                let d = Duration::from_nanos(unit << (2 * (n % 12)));
                if i == 0 {
                    t.plain.get_metric().observe_duration(d);
                } else {
                    let (v, g) = t.vec(i);
                    if n % 2 == 0 {
                        v.observe_duration(g, d);
                    } else {
                        v.get_metric(v.with_labels(g)).observe_duration(d);
                    }
                }
                model[i].push(d.as_secs_f64());
            }
            T::Since(i) => {
                let d = if i == 0 {
                    t.plain.get_metric().observe_duration_since(origin)
                } else {
                    let (v, g) = t.vec(i);
                    if n % 2 == 0 {
                        v.observe_duration_since(g, origin)
                    } else {
                        v.get_metric(v.with_labels(g)).observe_duration_since(origin)
                    }
                };
                ensure!(d == dur(5_000_000_000), "returned", "{:?}: observe_duration_since returned {d:?}", &h[..=n]);
                model[i].push(d.as_secs_f64());
            }
            // a timer of a removed series starts it afresh when it stops
            T::Remove(i) => {
                let (v, g) = t.vec(i);
                drop(v.remove_metric(v.with_labels(g)));
                model[i].clear();
            }
        }
    }
    // timers still running have recorded nothing
    let check = |model: &[Vec<f64>; 5], o: &mut Obs| -> Res {
        for i in 0..5 {
            let (f, l) = match i {
                0 => (show(|e| t.plain.collect_family_into(NAME, e))?, None),
                _ => (show(|e| t.vec(i).0.collect_family_into(NAME, e))?, Some(((i + 1) % 2).to_string())),
            };
            let hs = prom::hists(&f).map_err(|e| fail("document", e))?;
            let h = hs.iter().find(|h| l.is_none() || h.labels[0].1 == *l.as_ref().unwrap());
            match h {
                None => ensure!(model[i].is_empty(), "missing", "{h:?}: no series {}, expected {:?}", TARGETS[i], model[i]),
                Some(x) => compare(x, &LE2, &model[i]).map_err(|e| fail(&e.key, format!("{} in {}: {}", format_args!("{h:?}"), TARGETS[i], e.msg)))?,
            }
            o.state(format!("{i}{:?}", model[i]).as_bytes());
        }
        Ok(())
    };
    check(&model, o)?;
    let mut running = false;
    for x in timers.iter_mut().rev() {
        if let Some((x, i, from)) = x.take() {
            drop(x);
            model[i].push(Duration::from_nanos(now - from).as_secs_f64());
            running = true;
        }
    }
    if running {
        check(&model, o)?;
    }
    Ok(())
}
fn gen(h: &mut Vec<T>, live: &mut Vec<bool>, left: usize, ends: usize, f: &mut dyn FnMut(&[T])) {
    f(h);
    if left == 0 {
        return;
    }
    let mut ops = vec![T::Tick];
    if live.len() < 3 {
        ops.extend((0..5).map(T::Start));
    }
    for k in 0..live.len() {
        if live[k] {
            ops.extend([T::Drop(k), T::Observe(k), T::Forget(k), T::Unwind(k)]);
        }
    }
    ops.extend((0..ends).map(T::Dur));
    ops.extend((0..ends).map(T::Since));
    if live.iter().any(|x| *x) {
        ops.push(T::Remove(3));
    }
    for op in ops {
        // a tick directly after a tick only lengthens it
        if op == T::Tick && h.last() == Some(&T::Tick) {
            continue;
        }
        h.push(op);
        match op {
            T::Start(_) => live.push(true),
            T::Drop(k) | T::Observe(k) | T::Forget(k) | T::Unwind(k) => live[k] = false,
            _ => {}
        }
        gen(h, live, left - 1, ends, f);
        match op {
            T::Start(_) => {
                live.pop();
            }
            T::Drop(k) | T::Observe(k) | T::Forget(k) | T::Unwind(k) => live[k] = true,
            _ => {}
        }
        h.pop();
    }
}
/// every reading of the clock takes time: what is recorded is what is returned and lies between the calls
fn run_running(h: &[T], step: u64, o: &mut Obs) -> Res {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            set_clock(None);
            set_step(0);
        }
    }
    let _r = Reset;
    set_clock(Some(5_000_000_000));
    let a0 = clock();
    set_step(step);
    let origin = Instant::now();
    let b0 = clock();
    let t = Targets::new();
    // the calls that started each timer happened between these readings
    let mut timers: Vec<Option<(Timer, usize, u64, u64)>> = vec![];
    let mut state = [(0u64, 0f64); 5];
    for (n, op) in h.iter().enumerate() {
        o.step(1);
        let before = clock();
        // (target, returned, started between)
        let rec: Option<(usize, Option<Duration>, u64, u64)> = match *op {
            T::Start(i) => {
                let x = if i == 0 {
                    Timer::P(t.plain.start_timer())
                } else {
                    let (v, g) = t.vec(i);
                    Timer::V(v.start_timer(g))
                };
                timers.push(Some((x, i, before, clock())));
                None
            }
            T::Drop(k) => {
                let (x, i, a, b) = timers[k].take().unwrap();
                drop(x);
                Some((i, None, a, b))
            }
            T::Observe(k) => {
                let (x, i, a, b) = timers[k].take().unwrap();
                let d = match x {
                    Timer::P(x) => x.observe(),
                    Timer::V(x) => x.observe(),
                };
                Some((i, Some(d), a, b))
            }
            T::Forget(k) => {
                match timers[k].take().unwrap().0 {
                    Timer::P(x) => x.forget(),
                    Timer::V(x) => x.forget(),
                }
                None
            }
            T::Since(i) => {
                let d = if i == 0 {
                    t.plain.get_metric().observe_duration_since(origin)
                } else {
                    let (v, g) = t.vec(i);
                    if n % 2 == 0 {
                        v.observe_duration_since(g, origin)
                    } else {
                        v.get_metric(v.with_labels(g)).observe_duration_since(origin)
                    }
                };
                Some((i, Some(d), a0, b0))
            }
            _ => unreachable!(),
        };
        let after = clock();
        for i in 0..5 {
            let (f, l) = match i {
                0 => (show(|e| t.plain.collect_family_into(NAME, e))?, None),
                _ => (show(|e| t.vec(i).0.collect_family_into(NAME, e))?, Some(((i + 1) % 2).to_string())),
            };
            let hs = prom::hists(&f).map_err(|e| fail("document", e))?;
            let now = hs.iter().find(|h| l.is_none() || h.labels[0].1 == *l.as_ref().unwrap()).map_or((0, 0.0), |h| (h.count.unwrap_or(0), h.sum.unwrap_or(0.0)));
            let (dc, ds) = (now.0.wrapping_sub(state[i].0), now.1 - state[i].1);
            match rec {
                Some((j, ret, a, b)) if j == i => {
                    ensure!(dc == 1, "running-count", "{:?}: {dc} observations recorded in {}", &h[..=n], TARGETS[i]);
                    let (lo, hi) = ((before - b) as f64 / 1e9, (after - a) as f64 / 1e9);
                    ensure!(lo <= ds && ds <= hi, "running-value", "{:?}: recorded {ds} s, but between {lo} and {hi} s had passed", &h[..=n]);
                    if let Some(d) = ret {
                        ensure!(d.as_secs_f64() == ds, "running-returned", "{:?}: recorded {ds} s and returned {d:?}", &h[..=n]);
                    }
                }
                _ => ensure!(dc == 0 && ds == 0.0, "running-other", "{:?}: {dc} observations of {ds} s recorded in {}", &h[..=n], TARGETS[i]),
            }
            state[i] = now;
        }
        o.state(format!("{state:?}").as_bytes());
    }
    for x in timers.into_iter().flatten() {
        match x.0 {
            Timer::P(x) => x.forget(),
            Timer::V(x) => x.forget(),
        }
    }
    Ok(())
}
fn gen_running(h: &mut Vec<T>, live: &mut Vec<bool>, left: usize, f: &mut dyn FnMut(&[T])) {
    f(h);
    if left == 0 {
        return;
    }
    let mut ops = vec![];
    if live.len() < 3 {
        ops.extend([0, 1, 3].map(T::Start));
    }
    for k in 0..live.len() {
        if live[k] {
            ops.extend([T::Drop(k), T::Observe(k), T::Forget(k)]);
        }
    }
    ops.extend([0, 2, 4].map(T::Since));
    for op in ops {
        h.push(op);
        match op {
            T::Start(_) => live.push(true),
            T::Drop(k) | T::Observe(k) | T::Forget(k) => live[k] = false,
            _ => {}
        }
        gen_running(h, live, left - 1, f);
        match op {
            T::Start(_) => {
                live.pop();
            }
            T::Drop(k) | T::Observe(k) | T::Forget(k) => live[k] = true,
            _ => {}
        }
        h.pop();
    }
}
fn exclusive_durations(cx: &mut Cx) {
    for secs in [0u64, 1, 9, 10, 11, 3600, 1 << 33, u64::MAX] {
        for nanos in [0u32, 1, 500_000_000, 999_999_999] {
            for access in 0..4 {
                cx.case(
                    || format!("observe_duration({secs} s {nanos} ns) access {access}"),
                    |o| {
                        let d = Duration::new(secs, nanos);
                        let mut h = Histogram::<2>::with_metadata(Thresholds::with_buckets(LE2));
                        let mut v: HistogramVec<ListSet<0>, 2> = mkvec(Repr::Sparse, ListSet::numbered(1, true), Thresholds::with_buckets(LE2));
                        let id = v.with_labels(&v.get_label_set().groups[0]);
                        let f = match access {
                            0 => {
                                h.get_metric().observe_duration(d);
                                show(|e| h.collect_family_into(NAME, e))?
                            }
                            1 => {
                                h.get_metric_mut().observe_duration(d);
                                show(|e| h.collect_family_into(NAME, e))?
                            }
                            2 => {
                                v.observe_duration(&v.get_label_set().groups[0], d);
                                show(|e| v.collect_family_into(NAME, e))?
                            }
                            _ => {
                                v.get_metric_mut(id).observe_duration(d);
                                show(|e| v.collect_family_into(NAME, e))?
                            }
                        };
                        let hs = prom::hists(&f).map_err(|e| fail("document", e))?;
                        o.state(format!("{hs:?}").as_bytes());
                        compare(&hs[0], &LE2, &[d.as_secs_f64()])
                    },
                );
            }
        }
    }
    for ns in [0u64, 1, 999_999_999, 1_000_000_000, 10_000_000_000, 10_000_000_001, 86_400_000_000_000] {
        cx.case(
            || format!("exclusive observe_duration_since after {ns} ns"),
            |_| {
                set_clock(Some(1_000));
                let s = Instant::now();
                set_clock(Some(1_000 + ns));
                let mut h = Histogram::<2>::with_metadata(Thresholds::with_buckets(LE2));
                let d = h.get_metric_mut().observe_duration_since(s);
                set_clock(None);
                ensure!(d == Duration::from_nanos(ns), "returned", "returned {d:?}");
                let f = show(|e| h.collect_family_into(NAME, e))?;
                compare(&prom::hists(&f).map_err(|e| fail("document", e))?[0], &LE2, &[d.as_secs_f64()])
            },
        );
    }
}
pub fn c20(cx: &mut Cx) {
    exclusive_durations(cx);
    // steps of whole seconds keep the sums exact
    for step in [1u64, 2, 1 << 20] {
        gen_running(&mut vec![], &mut vec![], if cx.thorough { 5 } else { 4 }, &mut |h| {
            if !h.is_empty() {
                cx.case(|| format!("clock moving {step} s at each reading {h:?}"), |o| run_running(h, step * 1_000_000_000, o))
            }
        });
    }
    // many timers at once, ended in several orders and ways
    for n in [5usize, 10, 31, 64, 100, 257, 1000] {
        for order in 0..4 {
            for ends in 0..6 {
                cx.case(
                    || format!("{n} timers at once, order {order}, ends {ends}"),
                    |o| {
                        let mut h = vec![];
                        for k in 0..n {
                            h.push(T::Start(k % 5));
                            if k % 3 == 0 {
                                h.push(T::Tick);
                            }
                        }
                        let ord: Vec<usize> = match order {
                            0 => (0..n).collect(),
                            1 => (0..n).rev().collect(),
                            2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
                            _ => (0..n).filter(|i| i % 2 == 0).chain((0..n).filter(|i| i % 2 == 1)).collect(),
                        };
                        for (i, k) in ord.into_iter().enumerate() {
                            let all = [T::Drop(k), T::Observe(k), T::Forget(k), T::Unwind(k)];
                            h.push(if ends < 4 { all[ends] } else { all[(i * (ends - 3) + i / 4) % 4] });
                            if i % 7 == 0 {
                                h.push(T::Tick);
                            }
                        }
                        run_timers(&h, 250_000_000, o).map_err(|f| fail(&f.key, f.msg.chars().take(1500).collect::<String>()))
                    },
                );
            }
        }
    }
    let depth = if cx.thorough { 6 } else { 5 };
    for (unit, depth) in [(250_000_000u64, depth), (1, 4), (999_999_999, 4)] {
        let ends = if unit == 250_000_000 && depth == 6 { 3 } else { 5 };
        gen(&mut vec![], &mut vec![], depth, ends, &mut |h| {
            if !h.is_empty() {
                cx.case(|| format!("unit {unit} ns {h:?}"), |o| run_timers(h, unit, o))
            }
        });
    }
}
