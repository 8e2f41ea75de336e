//! C27: user code that panics leaves the metrics as they were, or as the whole operation leaves them
use crate::ensure;
use crate::fw::*;
use crate::prom;
use measured::label::{LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};
use measured::metric::counter::{write_counter, CounterState};
use measured::metric::group::Encoding;
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::{MetricName, MetricNameEncoder};
use measured::metric::{MetricEncoding, MetricFamilyEncoding, MetricType, MetricVec};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured_prometheus_protobuf::ProtoEncoder;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io::{self, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    /// how many more calls of user code until one panics; negative: none does
    static LEFT: Cell<i64> = const { Cell::new(-1) };
}
struct Injected;
fn tick() {
    LEFT.with(|l| {
        let n = l.get();
        if n >= 0 {
            l.set(n - 1);
            if n == 0 {
                std::panic::resume_unwind(Box::new(Injected));
            }
        }
    })
}
fn arm(n: i64) {
    LEFT.with(|l| l.set(n))
}

// ------------------------------------------------------------------ user code, all of it counted

#[derive(Clone, Copy)]
struct Id<const H: u8>(u32);
impl<const H: u8> PartialEq for Id<H> {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl<const H: u8> Eq for Id<H> {}
impl<const H: u8> Hash for Id<H> {
    fn hash<S: Hasher>(&self, s: &mut S) {
        // not counted: a table that is being rehashed cannot be asked to survive this
        if H == 0 {
            self.0.hash(s)
        } else {
            7u32.hash(s)
        }
    }
}
struct Value(u32);
impl LabelValue for Value {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        tick();
        let r = v.write_int(self.0 as i64);
        tick();
        r
    }
}
#[derive(Clone, Copy)]
struct Group(u32);
impl LabelGroup for Group {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        tick();
        v.write_value(LabelName::from_str("l"), &Value(self.0));
        tick();
        v.write_value(LabelName::from_str("k"), &Value(self.0 + 100));
        tick();
    }
}
struct Set<const H: u8> {
    n: u32,
    fixed: bool,
}
impl<const H: u8> LabelGroupSet for Set<H> {
    type Group<'a> = Group;
    type Unique = Id<H>;
    fn cardinality(&self) -> Option<usize> {
        tick();
        self.fixed.then_some(self.n as usize)
    }
    fn encode_dense(&self, v: Id<H>) -> Option<usize> {
        tick();
        self.fixed.then_some(v.0 as usize)
    }
    fn decode_dense(&self, v: usize) -> Group {
        tick();
        Group(v as u32)
    }
    fn encode(&self, v: Group) -> Option<Id<H>> {
        tick();
        (v.0 < self.n).then_some(Id(v.0))
    }
    fn decode(&self, v: &Id<H>) -> Group {
        tick();
        Group(v.0)
    }
}
struct Name;
impl MetricNameEncoder for Name {
    fn encode_utf8(&self, b: &mut impl Write) -> io::Result<()> {
        tick();
        b.write_all(b"m")?;
        tick();
        Ok(())
    }
    fn encode_len(&self) -> usize {
        tick();
        1
    }
}
struct PanicWriter(Vec<u8>);
impl Write for PanicWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        tick();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        tick();
        Ok(())
    }
}
/// a counter of the user's own
struct Own(AtomicU64);
impl Default for Own {
    fn default() -> Self {
        tick();
        Own(AtomicU64::new(0))
    }
}
impl MetricType for Own {
    type Metadata = ();
}
macro_rules! own {
    ($e:ty $(, $w:ident)?) => {
        impl$(<$w: Write>)? MetricEncoding<$e> for Own {
            fn write_type(name: impl MetricNameEncoder, enc: &mut $e) -> Result<(), <$e as Encoding>::Err> {
                tick();
                <CounterState as MetricEncoding<$e>>::write_type(name, enc)?;
                tick();
                Ok(())
            }
            fn collect_into(&self, _: &(), labels: impl LabelGroup, name: impl MetricNameEncoder, enc: &mut $e) -> Result<(), <$e as Encoding>::Err> {
                tick();
                write_counter(enc, name, labels, self.0.load(Relaxed))?;
                tick();
                Ok(())
            }
        }
    };
}
own!(TextEncoder<W>, W);
own!(ProtoEncoder<W>, W);

// ------------------------------------------------------------------ operations

trait Kind: MetricType + MetricEncoding<TextEncoder<PanicWriter>> + MetricEncoding<BufferedTextEncoder> {
    const NAME: &'static str;
    fn meta() -> Self::Metadata;
    fn upd<const H: u8>(v: &MetricVec<Self, Set<H>>, i: u32, then: impl FnOnce());
    fn upd_mut<const H: u8>(v: &mut MetricVec<Self, Set<H>>, i: u32, then: impl FnOnce());
    fn proto<const H: u8>(_: &MetricVec<Self, Set<H>>) {}
    fn count(&self) -> u64;
}
impl Kind for CounterState {
    const NAME: &'static str = "counter";
    fn meta() {}
    fn upd<const H: u8>(v: &MetricVec<Self, Set<H>>, i: u32, then: impl FnOnce()) {
        let g = v.get_metric(v.with_labels(Group(i)));
        g.inc();
        then();
    }
    fn upd_mut<const H: u8>(v: &mut MetricVec<Self, Set<H>>, i: u32, then: impl FnOnce()) {
        let id = v.with_labels(Group(i));
        v.get_metric_mut(id).inc();
        then();
    }
    fn proto<const H: u8>(v: &MetricVec<Self, Set<H>>) {
        let mut e = ProtoEncoder::new(PanicWriter(vec![]));
        v.collect_family_into(Name, &mut e).unwrap();
        e.flush().unwrap();
    }
    fn count(&self) -> u64 {
        self.count.load(Relaxed)
    }
}
impl Kind for HistogramState<2> {
    const NAME: &'static str = "histogram";
    fn meta() -> Thresholds<2> {
        Thresholds::with_buckets([1.0, 2.0])
    }
    fn upd<const H: u8>(v: &MetricVec<Self, Set<H>>, i: u32, then: impl FnOnce()) {
        let g = v.get_metric(v.with_labels(Group(i)));
        g.observe(1.5);
        then();
    }
    fn upd_mut<const H: u8>(v: &mut MetricVec<Self, Set<H>>, i: u32, then: impl FnOnce()) {
        let id = v.with_labels(Group(i));
        v.get_metric_mut(id).observe(1.5);
        then();
    }
    fn count(&self) -> u64 {
        let r = self.inner.read();
        r.buckets.iter().chain([&r.inf]).map(|x| x.load(Relaxed)).sum()
    }
}
impl Kind for Own {
    const NAME: &'static str = "metric of one's own";
    fn meta() {}
    fn upd<const H: u8>(v: &MetricVec<Self, Set<H>>, i: u32, then: impl FnOnce()) {
        let g = v.get_metric(v.with_labels(Group(i)));
        g.0.fetch_add(1, Relaxed);
        then();
    }
    fn upd_mut<const H: u8>(v: &mut MetricVec<Self, Set<H>>, i: u32, then: impl FnOnce()) {
        let id = v.with_labels(Group(i));
        *v.get_metric_mut(id).0.get_mut() += 1;
        then();
    }
    fn proto<const H: u8>(v: &MetricVec<Self, Set<H>>) {
        let mut e = ProtoEncoder::new(PanicWriter(vec![]));
        v.collect_family_into(Name, &mut e).unwrap();
        e.flush().unwrap();
    }
    fn count(&self) -> u64 {
        self.0.load(Relaxed)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Upd(u32),
    UpdMut(u32),
    Rem(u32),
    Init,
    Card,
    Text,
    Buffered,
    Proto,
}
type Model = BTreeMap<u32, u64>;
fn run<M: Kind, const H: u8>(v: &mut MetricVec<M, Set<H>>, op: Op) -> Option<Option<u64>> {
    match op {
        Op::Upd(i) => M::upd(v, i, tick),
        Op::UpdMut(i) => M::upd_mut(v, i, tick),
        Op::Rem(i) => return Some(v.remove_metric(v.with_labels(Group(i))).map(|m| m.count())),
        Op::Init => v.init_all_dense(),
        Op::Card => {
            v.get_cardinality();
        }
        Op::Text => {
            let mut e = TextEncoder::new(PanicWriter(vec![]));
            v.collect_family_into(Name, &mut e).unwrap();
            e.flush().unwrap();
        }
        Op::Buffered => {
            let mut e = BufferedTextEncoder::new();
            let Ok(()) = v.collect_family_into(Name, &mut e);
            e.finish();
        }
        Op::Proto => M::proto(v),
    }
    None
}
/// what the scrape shows
fn read<M: Kind, const H: u8>(v: &MetricVec<M, Set<H>>) -> Result<Model, Fail> {
    let mut e = BufferedTextEncoder::new();
    let Ok(()) = v.collect_family_into(MetricName::from_str("m"), &mut e);
    let b = e.finish();
    let d = prom::doc(&b).map_err(|x| fail("document", format!("{x}; output {:?}", String::from_utf8_lossy(&b))))?;
    let mut m = Model::new();
    for f in &d {
        for s in &f.samples {
            let Ok(n) = s.raw.parse::<u64>() else { continue };
            if f.typ.as_deref() == Some("histogram") && !s.name.ends_with("_count") {
                continue;
            }
            let l: u32 = s.labels[0].1.parse().unwrap();
            ensure!(s.labels[1].1 == (l + 100).to_string(), "labels", "{:?}", s.labels);
            ensure!(m.insert(l, n).is_none(), "twice", "series {l} is listed twice");
        }
    }
    Ok(m)
}
fn model(m: &mut Model, op: Op, n: u32, dense: bool) -> Option<Option<u64>> {
    match op {
        Op::Upd(i) | Op::UpdMut(i) => *m.entry(i).or_insert(0) += 1,
        Op::Rem(i) => return Some(if dense { None } else { m.remove(&i) }),
        Op::Init if dense => {
            for i in 0..n {
                m.entry(i).or_insert(0);
            }
        }
        _ => {}
    }
    None
}
/// may the operation, interrupted, have left this?
fn allowed(before: &Model, after: &Model, got: &Model, op: Op) -> bool {
    if got == before || got == after {
        return true;
    }
    match op {
        // the series may exist already without the update
        Op::Upd(i) | Op::UpdMut(i) => {
            let mut m = before.clone();
            m.entry(i).or_insert(0);
            *got == m
        }
        Op::Init => before.iter().all(|(k, v)| got.get(k) == Some(v)) && got.iter().all(|(k, v)| after.get(k) == Some(v)),
        _ => false,
    }
}
fn one<M: Kind, const H: u8>(prefix: &[Op], op: Op, n: u32, dense: bool, twice: bool, o: &mut Obs) -> Res {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            arm(-1)
        }
    }
    let _off = Off;
    for k in 0.. {
        arm(-1);
        let set = Set::<H> { n, fixed: dense || n % 2 == 0 };
        let mut v: MetricVec<M, Set<H>> =
            if dense { MetricVec::dense_with_label_set_and_metadata(set, M::meta()) } else { MetricVec::sparse_with_label_set_and_metadata(set, M::meta()) };
        let mut m = Model::new();
        for p in prefix {
            let (a, b) = (run(&mut v, *p), model(&mut m, *p, n, dense));
            ensure!(a == b, "prefix", "{p:?} gave {a:?}, expected {b:?}");
        }
        let mut done = false;
        for t in 0..if twice { 2 } else { 1 } {
            arm(k);
            let r = guarded(|| run(&mut v, op));
            let left = LEFT.with(|l| l.get());
            arm(-1);
            o.step(1);
            let before = m.clone();
            let mut after = m.clone();
            let want = model(&mut after, op, n, dense);
            // the panic reaches the caller, and there is no other
            ensure!(r.is_err() == (left < 0), "panic", "{op:?}, panic in call {k} of user code: {}", if left < 0 { "the panic did not reach the caller" } else { "another panic" });
            let got = read(&v)?;
            match r {
                Ok(x) => {
                    ensure!(x == want, "result", "{op:?} gave {x:?}, expected {want:?}");
                    ensure!(got == after, "effect", "{op:?} left {got:?}, expected {after:?}");
                    done = true;
                }
                Err(_) => ensure!(allowed(&before, &after, &got, op), "state", "panic in call {k} of user code during {op:?}, time {t}: {before:?} became {got:?}"),
            }
            o.state(format!("{got:?}").as_bytes());
            m = got;
        }
        // everything still works
        let mut rest = vec![];
        for i in 0..n.min(4) {
            rest.extend([Op::Upd(i), Op::Card, Op::Rem(i), Op::UpdMut(i), Op::Upd(i)]);
        }
        rest.extend([Op::Init, Op::Text, Op::Proto, Op::Buffered, op]);
        for x in rest {
            let a = run(&mut v, x);
            let b = model(&mut m, x, n, dense);
            ensure!(a == b, "after", "after a panic in call {k} of user code during {op:?}: {x:?} gave {a:?}, expected {b:?}");
            let c = v.get_cardinality();
            ensure!(c.0 == m.len(), "after", "after a panic in call {k} of user code during {op:?}, then {x:?}: {} series, expected {}", c.0, m.len());
        }
        let got = read(&v)?;
        ensure!(got == m, "after", "after a panic in call {k} of user code during {op:?}: {got:?}, expected {m:?}");
        if done {
            break;
        }
    }
    Ok(())
}
fn kind<M: Kind, const H: u8>(cx: &mut Cx) {
    for dense in [true, false] {
        let n = 3;
        let name = |what: &str| format!("{} {} hash {H}: {what}", M::NAME, if dense { "dense" } else { "sparse" });
        let mut ops = vec![];
        for i in 0..2 {
            ops.extend([Op::Upd(i), Op::UpdMut(i), Op::Rem(i)]);
        }
        ops.extend([Op::Init, Op::Card, Op::Text, Op::Buffered, Op::Proto]);
        let pre = [Op::Upd(0), Op::Upd(1), Op::UpdMut(2), Op::Rem(0), Op::Rem(1), Op::Init];
        Cx::seqs(pre.len(), if cx.thorough { 4 } else { 3 }, |sq| {
            for &op in &ops {
                let p = || sq.iter().map(|&i| pre[i]).collect::<Vec<_>>();
                for twice in [false, true] {
                    cx.case(|| name(&format!("{:?}, then {op:?} with a panic{}", p(), if twice { ", twice" } else { "" })), |o| one::<M, H>(&p(), op, n, dense, twice, o));
                }
            }
        });
        // tables of many sizes, growing and with gaps
        for n in (4..=if cx.thorough { 100 } else { 40 }).chain([64, 65, 128, 129]) {
            for gaps in 0..4u32 {
                let mut p: Vec<Op> = (0..n - 1).map(|i| if i % 3 == 1 { Op::UpdMut(i) } else { Op::Upd(i) }).collect();
                p.extend((0..n - 1).filter(|i| gaps > 0 && i % 4 < gaps).map(Op::Rem));
                for op in [Op::Upd(n - 1), Op::UpdMut(n - 1), Op::Upd(0), Op::Rem(0), Op::Rem(n - 2), Op::Card] {
                    cx.case(|| name(&format!("{n} groups, gaps {gaps}, then {op:?} with a panic")), |o| one::<M, H>(&p, op, n, dense, false, o));
                }
                if n < 8 || n == 16 {
                    for op in [Op::Text, Op::Proto, Op::Init] {
                        cx.case(|| name(&format!("{n} groups, gaps {gaps}, then {op:?} with a panic")), |o| one::<M, H>(&p, op, n, dense, false, o));
                    }
                }
            }
        }
    }
}
pub fn c27(cx: &mut Cx) {
    kind::<CounterState, 0>(cx);
    kind::<CounterState, 1>(cx);
    kind::<HistogramState<2>, 0>(cx);
    kind::<HistogramState<2>, 1>(cx);
    kind::<Own, 0>(cx);
    kind::<Own, 1>(cx);
}
