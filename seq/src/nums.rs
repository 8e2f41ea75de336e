//! C24: exposed numbers equal the stored ones
use crate::fw::*;
use crate::hist::show;
use crate::world::*;
use crate::{ensure, pb, prom};
use measured::label::{LabelTestVisitor, LabelValue, NoLabels};
use measured::metric::counter::{write_counter, CounterState};
use measured::metric::gauge::*;
use measured::metric::histogram::Thresholds;
use measured::metric::name::MetricName;
use measured::metric::{MetricEncoding, MetricFamilyEncoding};
use measured::text::BufferedTextEncoder;
use measured::*;
use measured_prometheus_protobuf::ProtoEncoder;
use std::sync::atomic::Ordering::Relaxed;

const NAME: &MetricName = MetricName::from_str("m");
type PE = ProtoEncoder<Vec<u8>>;

fn u64s() -> Vec<u64> {
    let mut v = vec![0, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 2, 1 << 53 | 1, (1 << 54) + 2, (1 << 54) + 6, u64::MAX - 1023, u64::MAX - 1024, u64::MAX - 2047];
    for k in 0..64 {
        let p = 1u64 << k;
        v.extend([p, p - 1, p + 1, p | p >> 1, !p]);
    }
    let mut p = 1u64;
    for _ in 0..20 {
        v.extend([p, p.wrapping_sub(1), p.wrapping_add(1), (p / 2).wrapping_mul(9), p.saturating_mul(9)]);
        p = p.wrapping_mul(10);
    }
    for d in 1..=20u32 {
        // d digits, all different and all equal
        v.push((0..d.min(19)).fold(0u64, |a, i| a * 10 + (i as u64 + 1) % 10));
        v.push((0..d.min(19)).fold(0u64, |a, _| a * 10 + 7));
    }
    v.extend(0..300);
    v.sort();
    v.dedup();
    v
}
fn i64s() -> Vec<i64> {
    let mut v: Vec<i64> = u64s().iter().flat_map(|x| [*x as i64, (*x as i64).wrapping_neg()]).collect();
    v.extend([i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1]);
    v.sort();
    v.dedup();
    v
}
fn f64s(thorough: bool) -> Vec<f64> {
    let mut m = vec![0u64, 1, 2, 0x8000000000000, 0x7ffffffffffff, 0xfffffffffffff, 0xffffffffffffe, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x999999999999a, 0x123456789abcd];
    for k in 0..52 {
        m.extend([1u64 << k, (1u64 << k) - 1, 0xfffffffffffff ^ (1 << k)]);
    }
    if thorough {
        for k in 0..52 {
            for l in 0..k {
                m.push(1 << k | 1 << l);
            }
        }
        m.sort();
        m.dedup();
    }
    let mut v = vec![];
    for e in 0..2048u64 {
        for x in &m {
            for s in 0..2u64 {
                v.push(f64::from_bits(s << 63 | e << 52 | x));
            }
        }
    }
    for k in -325i32..=309 {
        for d in ["1", "5", "9.5", "1.7976931348623157", "2.2250738585072014", "4.9"] {
            v.push(format!("{d}e{k}").parse().unwrap());
        }
    }
    for i in 0..1000 {
        v.extend([i as f64 / 10.0, i as f64 / 100.0, i as f64 / 7.0, -(i as f64) / 1000.0, i as f64]);
    }
    for u in u64s() {
        v.extend([u as f64, -(u as f64), u as i64 as f64 * 0.1]);
    }
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup_by(|a, b| a.to_bits() == b.to_bits());
    v
}
fn sole(f: &prom::Family) -> Result<&prom::Sample, Fail> {
    ensure!(f.samples.len() == 1, "document", "{} samples", f.samples.len());
    Ok(&f.samples[0])
}
fn proto(f: impl FnOnce(&mut PE) -> std::io::Result<()>) -> Result<pb::Fam, Fail> {
    let mut e = PE::new(vec![]);
    f(&mut e).and_then(|()| e.flush()).map_err(|e| fail("proto", e.to_string()))?;
    let mut v = pb::stream(&e.writer).map_err(|x| fail("proto", x))?;
    ensure!(v.len() == 1 && v[0].metrics.len() == 1, "proto", "families {v:?}");
    Ok(v.pop().unwrap())
}
fn unsigned(v: u64, way: usize, o: &mut Obs) -> Res {
    let c = Counter::new();
    c.inc_by(v);
    match way {
        0 => {
            let f = show(|e| c.collect_family_into(NAME, e))?;
            let raw = &sole(&f)?.raw;
            o.state(raw.as_bytes());
            o.show(|| raw.clone());
            ensure!(raw.parse() == Ok(v), "counter text", "counter {v} is exposed as {raw}");
        }
        1 => {
            let f = show(|e| {
                let Ok(()) = <CounterState as MetricEncoding<BufferedTextEncoder>>::write_type(NAME, e);
                write_counter(e, NAME, NoLabels, v)
            })?;
            let raw = &sole(&f)?.raw;
            ensure!(raw.parse() == Ok(v), "write_counter text", "write_counter({v}) exposes {raw}");
        }
        2 => {
            let f = proto(|e| c.collect_family_into(NAME, e))?;
            ensure!(f.metrics[0].val == pb::Val::Counter(v as f64), "counter proto", "counter {v} is exposed as {:?}", f.metrics[0].val);
        }
        3 => {
            let f = proto(|e| {
                <CounterState as MetricEncoding<PE>>::write_type(NAME, e)?;
                write_counter(e, NAME, NoLabels, v)
            })?;
            ensure!(f.metrics[0].val == pb::Val::Counter(v as f64), "write_counter proto", "write_counter({v}) exposes {:?}", f.metrics[0].val);
        }
        _ => {
            let h = Histogram::<2>::with_metadata(Thresholds::with_buckets(LE2));
            {
                let g = h.get_metric();
                let i = g.inner.read();
                match way {
                    4 => i.buckets[0].store(v, Relaxed),
                    5 => i.buckets[1].store(v, Relaxed),
                    _ => i.inf.store(v, Relaxed),
                }
            }
            let f = show(|e| h.collect_family_into(NAME, e))?;
            for s in &f.samples {
                let want = match (s.name.as_str(), s.label("le")) {
                    ("m_sum", _) => continue,
                    (_, Some("1.0")) => [v, 0, 0][way - 4],
                    (_, Some("10.0")) => [v, v, 0][way - 4],
                    _ => v,
                };
                ensure!(s.raw.parse() == Ok(want), "histogram text", "histogram count {want} is exposed as {} in {} {:?}", s.raw, s.name, s.labels);
            }
        }
    }
    Ok(())
}
fn signed(v: i64, way: usize, o: &mut Obs) -> Res {
    let c = Gauge::new();
    c.set(v);
    match way {
        0 => {
            let f = show(|e| c.collect_family_into(NAME, e))?;
            let raw = &sole(&f)?.raw;
            o.state(raw.as_bytes());
            o.show(|| raw.clone());
            ensure!(raw.parse() == Ok(v), "gauge text", "gauge {v} is exposed as {raw}");
        }
        1 => {
            let f = show(|e| {
                let Ok(()) = <GaugeState as MetricEncoding<BufferedTextEncoder>>::write_type(NAME, e);
                write_gauge(e, NAME, NoLabels, v)
            })?;
            let raw = &sole(&f)?.raw;
            ensure!(raw.parse() == Ok(v), "write_gauge text", "write_gauge({v}) exposes {raw}");
        }
        2 => {
            let f = proto(|e| c.collect_family_into(NAME, e))?;
            ensure!(f.metrics[0].val == pb::Val::Gauge(v as f64), "gauge proto", "gauge {v} is exposed as {:?}", f.metrics[0].val);
        }
        3 => {
            let f = proto(|e| {
                <GaugeState as MetricEncoding<PE>>::write_type(NAME, e)?;
                write_gauge(e, NAME, NoLabels, v)
            })?;
            ensure!(f.metrics[0].val == pb::Val::Gauge(v as f64), "write_gauge proto", "write_gauge({v}) exposes {:?}", f.metrics[0].val);
        }
        _ => {
            let t = label(LV::I(v))?;
            for x in t {
                ensure!(x.parse() == Ok(v), "label", "integer label {v} is exposed as {x:?}");
            }
        }
    }
    Ok(())
}
/// what a label value is written as: text, protobuf and the test visitor
fn label(v: LV) -> Result<[String; 3], Fail> {
    let t = v.visit(LabelTestVisitor);
    let groups = vec![labels(&[("a", s("x")), ("l", v.clone()), ("z", s("y"))])];
    let c: CounterVec<ListSet<0>> = mkvec(Repr::Dense, ListSet { groups, fixed: true }, ());
    c.inc(&c.get_label_set().groups[0]);
    let f = show(|e| c.collect_family_into(NAME, e))?;
    let p = proto(|e| c.collect_family_into(NAME, e))?;
    let l = sole(&f)?.labels.clone();
    ensure!(l.len() == 3 && l[0] == ("a".into(), "x".into()) && l[1].0 == "l" && l[2] == ("z".into(), "y".into()), "label", "labels {l:?}");
    let q = &p.metrics[0].labels;
    ensure!(q.len() == 3 && q[0] == l[0] && q[1].0 == "l" && q[2] == l[2], "label", "labels {q:?}");
    Ok([t, l[1].1.clone(), q[1].1.clone()])
}
fn float(v: f64, way: usize, o: &mut Obs) -> Res {
    let c = FloatGauge::new();
    c.set(v);
    let is = |raw: &str| prom::num(raw).is_some_and(|x| feq(x, v));
    let isp = |x: &pb::Val| matches!(x, pb::Val::Gauge(x) if feq(*x, v));
    match way {
        0 => {
            let f = show(|e| c.collect_family_into(NAME, e))?;
            let raw = &sole(&f)?.raw;
            o.state(raw.as_bytes());
            o.show(|| raw.clone());
            ensure!(is(raw), "float gauge text", "float gauge {v:?} is exposed as {raw}");
        }
        1 => {
            let f = show(|e| {
                let Ok(()) = <FloatGaugeState as MetricEncoding<BufferedTextEncoder>>::write_type(NAME, e);
                write_float_gauge(e, NAME, NoLabels, v)
            })?;
            let raw = &sole(&f)?.raw;
            ensure!(is(raw), "write_float_gauge text", "write_float_gauge({v:?}) exposes {raw}");
        }
        2 => {
            let f = proto(|e| c.collect_family_into(NAME, e))?;
            ensure!(isp(&f.metrics[0].val), "float gauge proto", "float gauge {v:?} is exposed as {:?}", f.metrics[0].val);
        }
        3 => {
            let f = proto(|e| {
                <FloatGaugeState as MetricEncoding<PE>>::write_type(NAME, e)?;
                write_float_gauge(e, NAME, NoLabels, v)
            })?;
            ensure!(isp(&f.metrics[0].val), "write_float_gauge proto", "write_float_gauge({v:?}) exposes {:?}", f.metrics[0].val);
        }
        4 => {
            for x in label(LV::F(v))? {
                ensure!(is(&x), "label", "float label {v:?} is exposed as {x:?}");
            }
        }
        _ => {
            let h = Histogram::<2>::with_metadata(Thresholds::with_buckets(LE2));
            h.get_metric().inner.read().sum.set(v);
            let f = show(|e| h.collect_family_into(NAME, e))?;
            let x = f.samples.iter().find(|x| x.name == "m_sum").ok_or_else(|| fail("document", "no sum"))?;
            ensure!(is(&x.raw), "sum text", "sum {v:?} is exposed as {}", x.raw);
        }
    }
    Ok(())
}
pub fn c24(cx: &mut Cx) {
    for v in u64s() {
        for w in 0..7 {
            cx.case(|| format!("unsigned {v} way {w}"), |o| unsigned(v, w, o));
        }
    }
    for v in i64s() {
        for w in 0..5 {
            cx.case(|| format!("signed {v} way {w}"), |o| signed(v, w, o));
        }
    }
    for v in f64s(cx.thorough) {
        for w in 0..6 {
            cx.case(|| format!("float {v:?} ({:#x}) way {w}", v.to_bits()), |o| float(v, w, o));
        }
    }
}
