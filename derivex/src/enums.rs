//! C18: the generated enums against tables computed by the generator.
#![allow(non_camel_case_types, dead_code, unused)]
#[path = "../../seq/src/fw.rs"]
mod fw;
#[path = "../../seq/src/prom.rs"]
mod prom;
mod common;
use common::*;
use fw::{Cx, Obs, Res};
use measured::label::{FixedCardinalityLabel, FixedCardinalitySet, LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelSet, LabelValue, StaticLabelSet};

pub enum X {
    S(&'static str),
    I(i64),
}
fn exp(x: &X) -> Val {
    match x {
        X::S(s) => Val::S(s.to_string()),
        X::I(i) => Val::I(*i),
    }
}
struct One<T>(T);
impl<T: LabelValue> LabelGroup for One<T> {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("k"), &self.0);
    }
}
fn exposed(g: impl LabelGroup) -> Result<Vec<(String, String)>, fw::Fail> {
    use measured::metric::{counter::CounterState, name::MetricName, MetricEncoding};
    let mut e = measured::text::BufferedTextEncoder::new();
    let n = MetricName::from_str("m");
    CounterState::write_type(n, &mut e).unwrap();
    CounterState::new(1).collect_into(&(), g, n, &mut e).unwrap();
    let b = e.finish();
    let f = prom::doc(&b).map_err(|m| fw::fail("document", m))?;
    ensure!(f.len() == 1 && f[0].samples.len() == 1, "document", "{:?}", f);
    Ok(f[0].samples[0].labels.clone())
}

pub fn plain<T: FixedCardinalityLabel + PartialEq + std::fmt::Debug>(cx: &mut Cx, what: &str, all: &[T], x: &[X]) {
    cx.case(
        || format!("{what}: numbering"),
        |o| {
            o.step(all.len());
            ensure!(T::cardinality() == all.len(), "cardinality", "cardinality {} for {} variants", T::cardinality(), all.len());
            let set = StaticLabelSet::<T>::new();
            ensure!(FixedCardinalitySet::cardinality(&set) == all.len(), "cardinality", "set cardinality {} for {} variants", FixedCardinalitySet::cardinality(&set), all.len());
            ensure!(LabelSet::dynamic_cardinality(&set) == Some(all.len()), "cardinality", "set dynamic cardinality {:?}", LabelSet::dynamic_cardinality(&set));
            for (i, v) in all.iter().enumerate() {
                ensure!(FixedCardinalityLabel::encode(v) == i, "encode", "variant {:?} (number {}) is encoded as {}", v, i, FixedCardinalityLabel::encode(v));
                ensure!(T::decode(i) == *v, "decode", "{} decodes to {:?} instead of {:?}", i, T::decode(i), v);
                ensure!(LabelSet::encode(&set, *v) == Some(i), "set-encode", "set encodes variant {} as {:?}", i, LabelSet::encode(&set, *v));
                ensure!(LabelSet::decode(&set, i) == *v, "set-decode", "set decodes {} as {:?}", i, LabelSet::decode(&set, i));
            }
            o.state(what.as_bytes());
            o.show(|| format!("{} variants numbered", all.len()));
            Ok(())
        },
    );
    cx.case(
        || format!("{what}: values"),
        |o| {
            o.step(all.len());
            let mut seen = String::new();
            for (v, x) in all.iter().zip(x) {
                let got = v.visit(V);
                ensure!(got == exp(x), "value", "variant {:?} is exposed as {:?} instead of {:?}", v, got, exp(x));
                let t = exposed(One(*v))?;
                ensure!(t == [("k".to_string(), exp(x).text())], "text", "variant {:?} reads {:?} in text instead of {:?}", v, t, exp(x));
                seen += &exp(x).text();
                seen += "\0";
            }
            o.state(seen.as_bytes());
            o.show(|| seen.replace('\0', " "));
            Ok(())
        },
    );
}
pub fn single<T: FixedCardinalityLabel + LabelGroup + PartialEq + std::fmt::Debug + 'static>(cx: &mut Cx, what: &str, name: &str, all: &[T], x: &[X]) {
    cx.case(
        || format!("{what}: singleton group"),
        |o| {
            o.step(all.len());
            let set = StaticLabelSet::<T>::new();
            ensure!(LabelGroupSet::cardinality(&set) == Some(all.len()), "group-cardinality", "group set cardinality {:?}", LabelGroupSet::cardinality(&set));
            let vec = measured::CounterVec::<StaticLabelSet<T>>::new();
            for (i, (v, x)) in all.iter().zip(x).enumerate() {
                let want = vec![(name.to_string(), exp(x))];
                ensure!(labels(v) == want, "group-labels", "variant {:?} alone has labels {:?} instead of {:?}", v, labels(v), want);
                let t = exposed(*v)?;
                ensure!(t == [(name.to_string(), exp(x).text())], "group-text", "variant {:?} alone reads {:?} in text", v, t);
                let u = LabelGroupSet::encode(&set, *v);
                ensure!(u == Some(i), "group-encode", "group of variant {} is encoded as {:?}", i, u);
                ensure!(LabelGroupSet::encode_dense(&set, i) == Some(i), "group-dense", "dense index of variant {} is {:?}", i, LabelGroupSet::encode_dense(&set, i));
                ensure!(LabelGroupSet::decode(&set, &i) == *v && LabelGroupSet::decode_dense(&set, i) == *v, "group-decode", "{} decodes to {:?}", i, LabelGroupSet::decode(&set, &i));
                vec.inc_by(*v, i as u64 + 1);
            }
            let mut e = measured::text::BufferedTextEncoder::new();
            use measured::metric::{name::MetricName, MetricFamilyEncoding};
            vec.collect_family_into(MetricName::from_str("m"), &mut e).unwrap();
            let f = prom::doc(&e.finish()).map_err(|m| fw::fail("document", m))?;
            let mut got: Vec<(String, f64)> = f[0].samples.iter().map(|s| (format!("{:?}", s.labels), s.value())).collect();
            let mut want: Vec<(String, f64)> = x.iter().enumerate().map(|(i, x)| (format!("{:?}", vec![(name.to_string(), exp(x).text())]), i as f64 + 1.0)).collect();
            got.sort_by(|a, b| a.partial_cmp(b).unwrap());
            want.sort_by(|a, b| a.partial_cmp(b).unwrap());
            ensure!(got == want, "group-vec", "a vec of the enum reads {:?} instead of {:?}", got, want);
            o.state(format!("{want:?}").as_bytes());
            o.show(|| format!("{:?}", want.first()));
            Ok(())
        },
    );
}
#[cfg(not(feature = "thorough"))]
#[path = "gen/enums_quick.rs"]
mod gen;
#[cfg(feature = "thorough")]
#[path = "gen/enums_thorough.rs"]
mod gen;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let only = a.iter().position(|x| x == "--index").map(|i| a[i + 1].parse().unwrap());
    std::process::exit(fw::main(gen::all, a[2] == "thorough", 8, only, 60))
}
