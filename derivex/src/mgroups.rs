#![recursion_limit = "1024"]
//! C19: generated metric groups against expositions computed by the generator.
#![allow(non_camel_case_types, dead_code, unused)]
#[path = "../../seq/src/fw.rs"]
mod fw;
#[path = "../../seq/src/prom.rs"]
mod prom;
#[path = "../../seq/src/pb.rs"]
mod pb;
mod common;
use common::*;
use fw::{Cx, Obs, Res};
use lasso::{Rodeo, RodeoReader, ThreadedRodeo};
use measured::label::{ComposedGroup, StaticLabelSet};
use measured::metric::group::{Encoding, MetricGroup};
use measured::metric::histogram::Thresholds;
use measured::metric::name::{MetricNameEncoder, WithNamespace};
use measured::metric::{counter::CounterState, gauge::GaugeState, MetricFamilyEncoding};
use measured::text::BufferedTextEncoder;
use measured::{Counter, CounterVec, FixedCardinalityLabel, FloatGauge, FloatGaugeVec, Gauge, GaugeVec, Histogram, HistogramVec};
use std::sync::Arc;

#[derive(FixedCardinalityLabel, Clone, Copy, PartialEq, Debug)]
#[label(singleton = "solo")]
pub enum Solo {
    One,
    Two,
}
#[derive(measured::LabelGroup, Clone, Copy)]
#[label(set = KindSet)]
pub struct Kind {
    kind: Solo,
}
#[derive(measured::LabelGroup, Clone, Copy)]
#[label(set = RouteSet)]
pub struct Route<'a> {
    #[label(fixed_with = RodeoReader)]
    route: &'a str,
    kind: Solo,
}
pub fn k(i: usize) -> Kind {
    Kind { kind: [Solo::One, Solo::Two][i] }
}
pub fn routes(s: &[&'static str]) -> RodeoReader {
    s.iter().collect::<Rodeo>().into_reader()
}

pub struct Fam {
    pub name: &'static str,
    pub help: Option<&'static str>,
    pub typ: &'static str,
    /// "name{a=b,..} value", labels sorted
    pub samples: &'static [&'static str],
}
fn canon(s: &prom::Sample) -> String {
    let mut l: Vec<String> = s.labels.iter().map(|(n, v)| if n == "le" { format!("le={:?}", prom::num(v).unwrap_or(f64::NAN)) } else { format!("{n}={v}") }).collect();
    l.sort();
    format!("{}{{{}}} {:?}", s.name, l.join(","), s.value())
}
fn compare(b: &[u8], want: &[Fam], absent: &[&str]) -> Res {
    let got = prom::doc(b).map_err(|m| fw::fail("document", format!("{m} in {:?}", String::from_utf8_lossy(b))))?;
    // an absent metric may leave its help behind, nothing else
    let got: Vec<&prom::Family> = got.iter().filter(|f| !(absent.contains(&f.name.as_str()) && f.typ.is_none() && f.samples.is_empty())).collect();
    let names: Vec<&str> = got.iter().map(|f| f.name.as_str()).collect();
    let wn: Vec<&str> = want.iter().map(|f| f.name).collect();
    ensure!(names == wn, "families", "families {:?} instead of {:?}", names, wn);
    for (g, w) in got.iter().zip(want) {
        ensure!(g.help.as_deref() == w.help, "help", "help of {} is {:?} instead of {:?}", w.name, g.help, w.help);
        ensure!(g.typ.as_deref() == Some(w.typ), "type", "type of {} is {:?} instead of {:?}", w.name, g.typ, w.typ);
        let mut a: Vec<String> = g.samples.iter().map(canon).collect();
        let mut b: Vec<String> = w.samples.iter().map(|s| s.to_string()).collect();
        a.sort();
        b.sort();
        ensure!(a == b, "samples", "{} has samples {:?} instead of {:?}", w.name, a, b);
    }
    Ok(())
}
fn proto(b: &[u8], want: &[Fam], absent: &[&str]) -> Res {
    let got = pb::stream(b).map_err(|m| fw::fail("proto-stream", m))?;
    let got: Vec<&pb::Fam> = got.iter().filter(|f| !(f.name.as_ref().map_or(false, |n| absent.contains(&n.as_str())) && f.metrics.is_empty() && f.typ.is_none())).collect();
    let names: Vec<&str> = got.iter().map(|f| f.name.as_deref().unwrap_or("?")).collect();
    let wn: Vec<&str> = want.iter().map(|f| f.name).collect();
    ensure!(names == wn, "proto-families", "protobuf families {:?} instead of {:?}", names, wn);
    for (g, w) in got.iter().zip(want) {
        let t = match w.typ {
            "counter" => 0,
            _ => 1,
        };
        ensure!(g.typ == Some(t), "proto-type", "protobuf type of {} is {:?} instead of {}", w.name, g.typ, t);
        ensure!(g.help.as_deref() == w.help, "proto-help", "protobuf help of {} is {:?} instead of {:?}", w.name, g.help, w.help);
        let mut a: Vec<String> = g
            .metrics
            .iter()
            .map(|m| {
                let mut l: Vec<String> = m.labels.iter().map(|(n, v)| format!("{n}={v}")).collect();
                l.sort();
                format!("{}{{{}}} {:?}", w.name, l.join(","), match m.val {
                    pb::Val::Counter(x) | pb::Val::Gauge(x) => x,
                })
            })
            .collect();
        let mut b: Vec<String> = w.samples.iter().map(|s| s.to_string()).collect();
        a.sort();
        b.sort();
        ensure!(a == b, "proto-samples", "protobuf {} has samples {:?} instead of {:?}", w.name, a, b);
    }
    Ok(())
}
pub fn check<G: MetricGroup<BufferedTextEncoder>>(cx: &mut Cx, what: &'static str, make: impl Fn() -> G, want: &'static [Fam], absent: &'static [&'static str]) {
    cx.case(
        || what.to_string(),
        |o| {
            o.step(want.len());
            let g = make();
            // twice: collecting changes nothing
            for _ in 0..2 {
                let mut e = BufferedTextEncoder::new();
                g.collect_group_into(&mut e).unwrap();
                compare(&e.finish(), want, absent)?;
            }
            let mut e = BufferedTextEncoder::new();
            (&g).collect_group_into(&mut e).unwrap();
            compare(&e.finish(), want, absent)?;
            o.state(what.as_bytes());
            o.show(|| format!("{} families", want.len()));
            Ok(())
        },
    );
}
/// groups of counters and gauges also go through the protobuf encoder
pub fn check_pb<G: MetricGroup<BufferedTextEncoder> + MetricGroup<measured_prometheus_protobuf::ProtoEncoder<Vec<u8>>>>(cx: &mut Cx, what: &'static str, make: impl Fn() -> G, want: &'static [Fam], absent: &'static [&'static str]) {
    cx.case(
        || format!("{what} (protobuf)"),
        |o| {
            o.step(want.len());
            let g = make();
            let out = collect_pb(&g)?;
            proto(&out, want, absent)?;
            o.state(&out);
            Ok(())
        },
    );
    check(cx, what, make, want, absent);
}
fn collect_pb<G: MetricGroup<measured_prometheus_protobuf::ProtoEncoder<Vec<u8>>>>(g: &G) -> Result<Vec<u8>, fw::Fail> {
    let mut e = measured_prometheus_protobuf::ProtoEncoder::new(Vec::new());
    g.collect_group_into(&mut e).unwrap();
    e.flush().unwrap();
    Ok(e.writer.clone())
}

#[cfg(not(feature = "thorough"))]
#[path = "gen/mgroups_quick.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "gen/mgroups_thorough.rs"]
mod gen;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let only = a.iter().position(|x| x == "--index").map(|i| a[i + 1].parse().unwrap());
    std::process::exit(fw::main(gen::all, a[2] == "thorough", 8, only, 60))
}
