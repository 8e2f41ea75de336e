//! Label sets, metrics and their expected exposition, shared by the properties.
use measured::label::{LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};
use measured::metric::histogram::Thresholds;
use measured::*;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub enum LV {
    S(String),
    I(i64),
    F(f64),
}
impl LabelValue for LV {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        match self {
            LV::S(s) => v.write_str(s),
            LV::I(i) => v.write_int(*i),
            LV::F(f) => v.write_float(*f),
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Labels(pub Vec<(String, LV)>);
impl LabelGroup for Labels {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        for (n, x) in &self.0 {
            v.write_value(LabelName::from_str(n), x);
        }
    }
}
pub fn labels(l: &[(&str, LV)]) -> Labels {
    Labels(l.iter().map(|(n, v)| (n.to_string(), v.clone())).collect())
}
pub fn s(x: &str) -> LV {
    LV::S(x.to_string())
}

/// identifier of a label group in a [`ListSet`]; H chooses how badly it hashes
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct K<const H: u8>(pub u32);
impl<const H: u8> Hash for K<H> {
    fn hash<S: Hasher>(&self, st: &mut S) {
        match H {
            0 => self.0.hash(st),
            1 => 7u32.hash(st),       // all equal
            2 => (self.0 & 1).hash(st), // two classes
            _ => st.write_u64((self.0 as u64) << 57),
        }
    }
}
/// a label set given by the list of its groups
pub struct ListSet<const H: u8> {
    pub groups: Vec<Labels>,
    pub fixed: bool,
}
impl<const H: u8> ListSet<H> {
    /// n groups labelled l="0".."n-1"
    pub fn numbered(n: usize, fixed: bool) -> Self {
        ListSet { groups: (0..n).map(|i| labels(&[("l", LV::I(i as i64))])).collect(), fixed }
    }
}
impl<const H: u8> LabelGroupSet for ListSet<H> {
    type Group<'a> = &'a Labels;
    type Unique = K<H>;
    fn cardinality(&self) -> Option<usize> {
        self.fixed.then_some(self.groups.len())
    }
    fn encode_dense(&self, v: K<H>) -> Option<usize> {
        self.fixed.then_some(v.0 as usize)
    }
    fn decode_dense(&self, v: usize) -> &Labels {
        &self.groups[v]
    }
    fn encode(&self, v: &Labels) -> Option<K<H>> {
        let d = (v as *const Labels as usize).wrapping_sub(self.groups.as_ptr() as usize) / std::mem::size_of::<Labels>();
        (d < self.groups.len()).then_some(K(d as u32))
    }
    fn decode(&self, v: &K<H>) -> &Labels {
        &self.groups[v.0 as usize]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    C,
    G,
    F,
    H,
}
pub const KINDS: [Kind; 4] = [Kind::C, Kind::G, Kind::F, Kind::H];
impl Kind {
    pub fn typ(self) -> &'static str {
        match self {
            Kind::C => "counter",
            Kind::G | Kind::F => "gauge",
            Kind::H => "histogram",
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Repr {
    Dense,
    Sparse,
    Default,
}
pub const LE2: [f64; 2] = [1.0, 10.0];
pub fn mkvec<M: measured::metric::MetricType, L: LabelGroupSet>(r: Repr, l: L, m: M::Metadata) -> measured::metric::MetricVec<M, L> {
    use measured::metric::MetricVec as V;
    match r {
        Repr::Dense => V::dense_with_label_set_and_metadata(l, m),
        Repr::Sparse => V::sparse_with_label_set_and_metadata(l, m),
        Repr::Default => V::with_label_set_and_metadata(l, m),
    }
}

/// any metric family, to be collected by any encoder
pub enum Obj {
    C(Counter),
    G(Gauge),
    F(FloatGauge),
    H(Histogram<2>),
    CV(CounterVec<ListSet<0>>),
    GV(GaugeVec<ListSet<0>>),
    FV(FloatGaugeVec<ListSet<0>>),
    HV(HistogramVec<ListSet<0>, 2>),
    NoC(Option<Counter>),
    SomeG(Option<Gauge>),
}
/// expected value of one series
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U(u64),
    I(i64),
    F(f64),
    H { buckets: [u64; 2], inf: u64, sum: f64 },
}
#[derive(Clone, Debug)]
pub struct Series {
    pub labels: Vec<(String, String)>,
    pub val: Val,
}
pub fn lstr(l: &Labels) -> Vec<(String, String)> {
    l.0.iter()
        .map(|(n, v)| {
            (
                n.clone(),
                match v {
                    LV::S(s) => s.clone(),
                    LV::I(i) => i.to_string(),
                    LV::F(f) if f.is_nan() => "NaN".into(),
                    LV::F(f) if f.is_infinite() => if *f > 0.0 { "+Inf" } else { "-Inf" }.into(),
                    LV::F(f) => format!("{f:?}"),
                },
            )
        })
        .collect()
}
impl Obj {
    /// a family of the given kind with the groups' series holding different values
    pub fn vec(k: Kind, r: Repr, groups: Vec<Labels>, touched: usize) -> (Obj, Vec<Series>) {
        let set = ListSet { groups: groups.clone(), fixed: true };
        let mut exp = vec![];
        let o = match k {
            Kind::C => {
                let v: CounterVec<ListSet<0>> = mkvec(r, set, ());
                for i in 0..touched {
                    v.inc_by(&v.get_label_set().groups[i], 1 + i as u64 * 3);
                    exp.push(Val::U(1 + i as u64 * 3));
                }
                Obj::CV(v)
            }
            Kind::G => {
                let v: GaugeVec<ListSet<0>> = mkvec(r, set, ());
                for i in 0..touched {
                    v.set(&v.get_label_set().groups[i], i as i64 * 5 - 2);
                    exp.push(Val::I(i as i64 * 5 - 2));
                }
                Obj::GV(v)
            }
            Kind::F => {
                let v: FloatGaugeVec<ListSet<0>> = mkvec(r, set, ());
                for i in 0..touched {
                    v.set(&v.get_label_set().groups[i], i as f64 * 0.5 + 0.25);
                    exp.push(Val::F(i as f64 * 0.5 + 0.25));
                }
                Obj::FV(v)
            }
            Kind::H => {
                let v = mkvec(r, set, Thresholds::with_buckets(LE2));
                for i in 0..touched {
                    let g = &v.get_label_set().groups[i];
                    v.observe(g, 0.5);
                    for _ in 0..i {
                        v.observe(g, 5.0);
                    }
                    v.observe(g, 50.0);
                    exp.push(Val::H { buckets: [1, i as u64], inf: 1, sum: 0.5 + 5.0 * i as f64 + 50.0 });
                }
                Obj::HV(v)
            }
        };
        (o, exp.into_iter().zip(&groups).map(|(val, l)| Series { labels: lstr(l), val }).collect())
    }
    pub fn single(k: Kind) -> (Obj, Vec<Series>) {
        let (o, val) = match k {
            Kind::C => {
                let c = Counter::new();
                c.inc_by(42);
                (Obj::C(c), Val::U(42))
            }
            Kind::G => {
                let c = Gauge::new();
                c.set(-7);
                (Obj::G(c), Val::I(-7))
            }
            Kind::F => {
                let c = FloatGauge::new();
                c.set(2.5);
                (Obj::F(c), Val::F(2.5))
            }
            Kind::H => {
                let c = Histogram::with_metadata(Thresholds::with_buckets(LE2));
                c.observe(5.0);
                c.observe(0.5);
                c.observe(50.0);
                c.observe(50.0);
                (Obj::H(c), Val::H { buckets: [1, 1], inf: 2, sum: 105.5 })
            }
        };
        (o, vec![Series { labels: vec![], val }])
    }
    pub fn kind(&self) -> Kind {
        match self {
            Obj::C(_) | Obj::CV(_) | Obj::NoC(_) => Kind::C,
            Obj::G(_) | Obj::GV(_) | Obj::SomeG(_) => Kind::G,
            Obj::F(_) | Obj::FV(_) => Kind::F,
            Obj::H(_) | Obj::HV(_) => Kind::H,
        }
    }
}
#[macro_export]
macro_rules! collect_text {
    ($o:expr, $name:expr, $enc:expr) => {{
        use measured::metric::MetricFamilyEncoding as _;
        match $o {
            $crate::world::Obj::C(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::G(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::F(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::H(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::CV(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::GV(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::FV(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::HV(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::NoC(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::SomeG(x) => x.collect_family_into($name, $enc),
        }
    }};
}
#[macro_export]
macro_rules! collect_proto {
    ($o:expr, $name:expr, $enc:expr) => {{
        use measured::metric::MetricFamilyEncoding as _;
        match $o {
            $crate::world::Obj::C(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::G(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::F(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::CV(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::GV(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::FV(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::NoC(x) => x.collect_family_into($name, $enc),
            $crate::world::Obj::SomeG(x) => x.collect_family_into($name, $enc),
            _ => unreachable!(),
        }
    }};
}

/// collect one family with a fresh buffered text encoder and parse it
pub fn scrape(o: &Obj) -> Result<crate::prom::Family, String> {
    let mut e = measured::text::BufferedTextEncoder::new();
    let Ok(()) = collect_text!(o, measured::metric::name::MetricName::from_str("m"), &mut e);
    let b = e.finish();
    let mut d = crate::prom::doc(&b).map_err(|x| format!("{x}; output {:?}", String::from_utf8_lossy(&b)))?;
    if d.len() != 1 {
        return Err(format!("{} families", d.len()));
    }
    Ok(d.pop().unwrap())
}

/// does a parsed family show exactly the expected series (in any order)?
pub fn matches(f: &crate::prom::Family, kind: Kind, exp: &[Series]) -> Result<(), String> {
    if f.typ.as_deref() != Some(kind.typ()) {
        return Err(format!("type {:?} of a {}", f.typ, kind.typ()));
    }
    if kind == Kind::H {
        let hs = crate::prom::hists(f)?;
        if hs.len() != exp.len() {
            return Err(format!("{} series, expected {}", hs.len(), exp.len()));
        }
        let by: std::collections::HashMap<_, _> = hs.iter().map(|h| (&h.labels, h)).collect();
        for e in exp {
            let h = *by.get(&e.labels).ok_or_else(|| format!("no series {:?}", e.labels))?;
            let Val::H { buckets, inf, sum } = &e.val else { unreachable!() };
            let want = crate::prom::Hist {
                labels: e.labels.clone(),
                buckets: vec![(LE2[0], buckets[0]), (LE2[1], buckets[0] + buckets[1])],
                inf: Some(buckets[0] + buckets[1] + inf),
                count: Some(buckets[0] + buckets[1] + inf),
                sum: Some(*sum),
            };
            if *h != want {
                return Err(format!("series {h:?}, expected {want:?}"));
            }
        }
        return Ok(());
    }
    if f.samples.len() != exp.len() {
        return Err(format!("{} series {:?}, expected {:?}", f.samples.len(), f.samples, exp));
    }
    let by: std::collections::HashMap<_, _> = f.samples.iter().map(|x| (&x.labels, x)).collect();
    for e in exp {
        let x = *by.get(&e.labels).ok_or_else(|| format!("no series {:?}", e.labels))?;
        let ok = match &e.val {
            Val::U(v) => x.raw.parse::<u64>().ok() == Some(*v),
            Val::I(v) => x.raw.parse::<i64>().ok() == Some(*v),
            Val::F(v) => feq(x.value(), *v),
            _ => unreachable!(),
        };
        if !ok {
            return Err(format!("series {:?} shows {}, expected {:?}", e.labels, x.raw, e.val));
        }
    }
    Ok(())
}
/// identical floats (bit for bit, any NaN equals any NaN)
pub fn feq(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
}
pub fn rust_u64(raw: &str) -> Option<u64> {
    raw.parse().ok()
}
