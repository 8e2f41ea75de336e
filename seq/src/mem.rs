//! C28: repeating work holds no more memory and no more descriptors; every state is dropped exactly once
use crate::ensure;
use crate::fw::*;
use measured::label::{LabelGroup, LabelGroupSet, LabelGroupVisitor, LabelName, LabelSet, LabelValue, LabelVisitor};
use measured::metric::counter::{write_counter, CounterState};
use measured::metric::group::{Encoding, MetricGroup};
use measured::metric::histogram::{HistogramState, Thresholds};
use measured::metric::name::{MetricName, MetricNameEncoder};
use measured::metric::{MetricEncoding, MetricFamilyEncoding, MetricType, MetricVec};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured_prometheus_protobuf::ProtoEncoder;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::io::{self, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

// ------------------------------------------------------------------ what is held

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
    static DROPPED: Cell<u64> = const { Cell::new(0) };
    static TWICE: Cell<bool> = const { Cell::new(false) };
}
struct Counting;
fn add(n: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
fn live() -> isize {
    LIVE.with(|l| l.get())
}
fn bump(c: &'static std::thread::LocalKey<Cell<u64>>) {
    c.with(|c| c.set(c.get() + 1))
}

/// a counter that knows whether it is alive
struct Tracked {
    n: AtomicU64,
    state: u64,
}
const ALIVE: u64 = 0x5eed_a11e_5eed_a11e;
impl Default for Tracked {
    fn default() -> Self {
        bump(&MADE);
        Tracked { n: AtomicU64::new(0), state: ALIVE }
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if self.state != ALIVE {
            TWICE.with(|t| t.set(true));
        }
        self.state = 0;
        std::hint::black_box(&mut *self);
        bump(&DROPPED);
    }
}
impl MetricType for Tracked {
    type Metadata = ();
}
macro_rules! tracked {
    ($e:ty $(, $w:ident)?) => {
        impl$(<$w: Write>)? MetricEncoding<$e> for Tracked {
            fn write_type(name: impl MetricNameEncoder, enc: &mut $e) -> Result<(), <$e as Encoding>::Err> {
                <CounterState as MetricEncoding<$e>>::write_type(name, enc)
            }
            fn collect_into(&self, _: &(), labels: impl LabelGroup, name: impl MetricNameEncoder, enc: &mut $e) -> Result<(), <$e as Encoding>::Err> {
                write_counter(enc, name, labels, self.n.load(Relaxed))
            }
        }
    };
}
tracked!(TextEncoder<W>, W);
tracked!(ProtoEncoder<W>, W);

// ------------------------------------------------------------------ label sets

const TEXTS: [&str; 4] = ["", "one", "a rather longer label value", "with \"escapes\" \\ and \n"];
#[derive(Clone, Copy)]
struct G<'a>(&'a str);
impl LabelGroup for G<'_> {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        v.write_value(LabelName::from_str("l"), &self.0);
    }
}
#[derive(Clone, Copy, PartialEq, Eq)]
struct Id<const H: u8>(usize);
impl<const H: u8> Hash for Id<H> {
    fn hash<S: Hasher>(&self, s: &mut S) {
        if H == 0 {
            self.0.hash(s)
        } else {
            7u32.hash(s)
        }
    }
}
/// a fixed list of texts
struct Fixed<const H: u8>(Vec<String>);
impl<const H: u8> LabelGroupSet for Fixed<H> {
    type Group<'a> = G<'a>;
    type Unique = Id<H>;
    fn cardinality(&self) -> Option<usize> {
        Some(self.0.len())
    }
    fn encode_dense(&self, v: Id<H>) -> Option<usize> {
        Some(v.0)
    }
    fn decode_dense(&self, v: usize) -> G<'_> {
        G(&self.0[v])
    }
    fn encode(&self, v: G<'_>) -> Option<Id<H>> {
        self.0.iter().position(|x| x == v.0).map(Id)
    }
    fn decode(&self, v: &Id<H>) -> G<'_> {
        G(&self.0[v.0])
    }
}
/// interned texts
struct Interned(lasso::ThreadedRodeo);
impl LabelGroupSet for Interned {
    type Group<'a> = G<'a>;
    type Unique = Id<0>;
    fn cardinality(&self) -> Option<usize> {
        None
    }
    fn encode_dense(&self, _: Id<0>) -> Option<usize> {
        None
    }
    fn decode_dense(&self, _: usize) -> G<'_> {
        unreachable!()
    }
    fn encode(&self, v: G<'_>) -> Option<Id<0>> {
        LabelSet::encode(&self.0, v.0).map(Id)
    }
    fn decode(&self, v: &Id<0>) -> G<'_> {
        G(LabelSet::decode(&self.0, v.0))
    }
}
trait Set: LabelGroupSet + Sized {
    fn get<M: Kind>(v: &MetricVec<M, Self>, t: &str, f: impl FnOnce(measured::metric::MetricLockGuard<'_, M>));
    fn get_mut<M: Kind>(v: &mut MetricVec<M, Self>, t: &str, f: impl FnOnce(measured::metric::MetricMut<'_, M>));
    fn remove<M: Kind>(v: &MetricVec<M, Self>, t: &str) -> Option<M>;
    fn has<M: Kind>(v: &MetricVec<M, Self>, t: &str) -> bool;
    fn timer<const N: usize>(v: &measured::HistogramVec<Self, N>, t: &str, how: u8);
}
macro_rules! set {
    ($t:ty $(, $h:ident)?) => {
        impl$(<const $h: u8>)? Set for $t {
            fn get<M: Kind>(v: &MetricVec<M, Self>, t: &str, f: impl FnOnce(measured::metric::MetricLockGuard<'_, M>)) {
                f(v.get_metric(v.with_labels(G(t))))
            }
            fn get_mut<M: Kind>(v: &mut MetricVec<M, Self>, t: &str, f: impl FnOnce(measured::metric::MetricMut<'_, M>)) {
                let id = v.with_labels(G(t));
                f(v.get_metric_mut(id))
            }
            fn remove<M: Kind>(v: &MetricVec<M, Self>, t: &str) -> Option<M> {
                v.remove_metric(v.with_labels(G(t)))
            }
            fn has<M: Kind>(v: &MetricVec<M, Self>, t: &str) -> bool {
                v.try_with_labels(G(t)).is_some()
            }
            fn timer<const N: usize>(v: &measured::HistogramVec<Self, N>, t: &str, how: u8) {
                let x = v.start_timer(G(t));
                match how {
                    0 => drop(x),
                    1 => {
                        x.observe();
                    }
                    2 => x.forget(),
                    _ => {
                        let _ = guarded(move || {
                            let _x = x;
                            std::panic::resume_unwind(Box::new(()));
                        });
                    }
                }
            }
        }
    };
}
set!(Fixed<H>, H);
set!(Interned);

// ------------------------------------------------------------------ operations

/// forgets everything; a call fails when told to
struct Sink(i64);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 -= 1;
        if self.0 == 0 {
            return Err(io::Error::from(io::ErrorKind::BrokenPipe));
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Kept {
    text: TextEncoder<Sink>,
    buffered: BufferedTextEncoder,
    proto: ProtoEncoder<Sink>,
    last: Option<Box<dyn std::any::Any>>,
}
const NAME: &MetricName = MetricName::from_str("m");
trait Kind: MetricType + MetricEncoding<TextEncoder<Sink>> + MetricEncoding<BufferedTextEncoder> + 'static {
    const NAME: &'static str;
    const TRACKED: bool = false;
    fn meta() -> Self::Metadata;
    fn upd(g: measured::metric::MetricLockGuard<'_, Self>);
    fn upd_mut(g: measured::metric::MetricMut<'_, Self>);
    fn proto<S: Set>(_: &MetricVec<Self, S>, _: &mut ProtoEncoder<Sink>) {}
    fn timer<S: Set>(_: &MetricVec<Self, S>, _: &str, _: u8) {}
}
impl Kind for CounterState {
    const NAME: &'static str = "counter";
    fn meta() {}
    fn upd(g: measured::metric::MetricLockGuard<'_, Self>) {
        g.inc()
    }
    fn upd_mut(g: measured::metric::MetricMut<'_, Self>) {
        g.inc()
    }
    fn proto<S: Set>(v: &MetricVec<Self, S>, e: &mut ProtoEncoder<Sink>) {
        let _ = e.write_help(NAME, "help");
        let _ = v.collect_family_into(NAME, e);
    }
}
impl Kind for Tracked {
    const NAME: &'static str = "counter of one's own";
    const TRACKED: bool = true;
    fn meta() {}
    fn upd(g: measured::metric::MetricLockGuard<'_, Self>) {
        g.n.fetch_add(1, Relaxed);
    }
    fn upd_mut(mut g: measured::metric::MetricMut<'_, Self>) {
        *g.n.get_mut() += 1;
    }
    fn proto<S: Set>(v: &MetricVec<Self, S>, e: &mut ProtoEncoder<Sink>) {
        let _ = v.collect_family_into(NAME, e);
    }
}
impl Kind for HistogramState<3> {
    const NAME: &'static str = "histogram";
    fn meta() -> Thresholds<3> {
        Thresholds::with_buckets([1.0, 2.0, 3.0])
    }
    fn upd(g: measured::metric::MetricLockGuard<'_, Self>) {
        g.observe(1.5)
    }
    fn upd_mut(g: measured::metric::MetricMut<'_, Self>) {
        g.observe(2.5)
    }
    fn timer<S: Set>(v: &MetricVec<Self, S>, t: &str, how: u8) {
        S::timer(v, t, how)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Upd(usize),
    UpdMut(usize),
    /// an update that unwinds while the guard is held
    Unwind(usize),
    /// the state removed is dropped at once
    Rem(usize),
    /// it is kept until the next one is
    RemKeep(usize),
    Timer(u8),
    Init,
    Card,
    Unknown,
    Text,
    TextKept,
    /// a write fails, a later scrape succeeds
    TextFails(i64),
    Buffered,
    BufferedKept,
    /// the bytes are kept until the next ones are
    BufferedHeld,
    Proto,
    ProtoKept,
    ProtoFails(i64),
    /// the series come to be, their values stay: longer numbers would need larger buffers
    Fill(usize),
    Clear(usize),
}
fn run<M: Kind, S: Set>(v: &mut MetricVec<M, S>, k: &mut Kept, texts: &[String], op: Op) {
    let t = |i: usize| texts[i].as_str();
    match op {
        Op::Upd(i) => S::get(v, t(i), M::upd),
        Op::UpdMut(i) => S::get_mut(v, t(i), M::upd_mut),
        Op::Unwind(i) => {
            let _ = guarded(|| {
                S::get(v, t(i), |g| {
                    let _g = g;
                    std::panic::resume_unwind(Box::new(()));
                })
            });
        }
        Op::Rem(i) => drop(S::remove(v, t(i))),
        Op::RemKeep(i) => {
            let m = S::remove(v, t(i));
            if let Some(m) = m {
                k.last = Some(Box::new(m));
            }
        }
        Op::Timer(how) => M::timer(v, t(1), how),
        Op::Init => v.init_all_dense(),
        Op::Card => {
            v.get_cardinality();
        }
        Op::Unknown => {
            S::has(v, t(1));
        }
        Op::Text => {
            let mut e = TextEncoder::new(Sink(0));
            let _ = e.write_help(NAME, TEXTS[3]);
            let _ = v.collect_family_into(NAME, &mut e);
        }
        Op::TextKept => {
            let _ = k.text.write_help(NAME, TEXTS[3]);
            let _ = v.collect_family_into(NAME, &mut k.text);
            let _ = k.text.flush();
        }
        Op::TextFails(n) => {
            k.text.writer.0 = n;
            let _ = v.collect_family_into(NAME, &mut k.text);
            k.text.writer.0 = 0;
        }
        Op::Buffered => {
            let mut e = BufferedTextEncoder::new();
            let Ok(()) = v.collect_family_into(NAME, &mut e);
            e.finish();
        }
        Op::BufferedKept => {
            let Ok(()) = v.collect_family_into(NAME, &mut k.buffered);
            k.buffered.finish();
        }
        Op::BufferedHeld => {
            let Ok(()) = k.buffered.write_help(NAME, TEXTS[3]);
            let Ok(()) = v.collect_family_into(NAME, &mut k.buffered);
            k.last = Some(Box::new(k.buffered.finish()));
        }
        Op::Proto => M::proto(v, &mut ProtoEncoder::new(Sink(0))),
        Op::ProtoKept => {
            M::proto(v, &mut k.proto);
            let _ = k.proto.flush();
        }
        Op::ProtoFails(n) => {
            k.proto.writer.0 = n;
            M::proto(v, &mut k.proto);
            M::proto(v, &mut k.proto);
            k.proto.writer.0 = 0;
        }
        Op::Fill(n) => (0..n).for_each(|i| S::get(v, t(i), |g| drop(g))),
        Op::Clear(n) => (0..n).for_each(|i| drop(S::remove(v, t(i)))),
    }
}
/// the body is repeated; what is held at the end of a round must not grow
fn rounds<M: Kind, S: Set>(make: impl Fn() -> MetricVec<M, S>, texts: &[String], body: &[Op], warm: usize, o: &mut Obs) -> Res {
    let mut ends = [0isize; 2];
    for end in &mut ends {
        let start = (live(), MADE.with(|m| m.get()), DROPPED.with(|m| m.get()));
        TWICE.with(|t| t.set(false));
        {
            let mut v = make();
            let mut k = Kept { text: TextEncoder::new(Sink(0)), buffered: BufferedTextEncoder::new(), proto: ProtoEncoder::new(Sink(0)), last: None };
            // the most held within windows of rounds, each as long as all before. Once one holds less than a
            // byte per round (per four texts) more than the one before, all is well: numbers get longer, buffers
            // grow by steps
            let mut most = vec![];
            let mut window = isize::MIN;
            for r in 0usize.. {
                for &op in body {
                    run(&mut v, &mut k, texts, op);
                    o.step(1);
                }
                window = window.max(live() - start.0);
                if M::TRACKED {
                    let held = MADE.with(|m| m.get()) - start.1 - (DROPPED.with(|m| m.get()) - start.2);
                    let kept = k.last.as_ref().is_some_and(|x| x.is::<M>()) as usize;
                    let series = v.get_cardinality().0;
                    ensure!(held as usize == series + kept, "states", "after round {r} {held} states are alive, {series} of series and {kept} removed and kept");
                }
                if (r + 1) % warm == 0 && ((r + 1) / warm).is_power_of_two() {
                    if most.last().is_some_and(|l| window - *l < ((r + 1) / 2 * texts.len() / 4) as isize) {
                        break;
                    }
                    most.push(window);
                    window = isize::MIN;
                    ensure!(most.len() < 8, "growth", "the most bytes held within {warm} rounds, the {warm} after, then {}, {} and so on: {most:?}", 2 * warm, 4 * warm);
                }
            }
            let late = most.last().unwrap();
            o.state(&late.to_le_bytes());
            o.show(|| format!("{late} bytes held"));
        }
        let made = MADE.with(|m| m.get()) - start.1;
        let dropped = DROPPED.with(|m| m.get()) - start.2;
        ensure!(made == dropped, "states", "{made} states were created, {dropped} dropped");
        ensure!(!TWICE.with(|t| t.get()), "twice", "a state was dropped twice");
        *end = live() - start.0;
    }
    // the first time, something may be set up that stays
    ensure!(ends[1] == 0, "left", "{} bytes are left when everything is dropped", ends[1]);
    Ok(())
}
fn texts(n: usize) -> Vec<String> {
    (0..n).map(|i| TEXTS.get(i).map_or_else(|| format!("label {i} {}", "x".repeat(i % 40)), |x| x.to_string())).collect()
}
fn kind<M: Kind>(cx: &mut Cx) {
    let mut ops = vec![];
    for i in [0, 3] {
        ops.extend([Op::Upd(i), Op::UpdMut(i), Op::Rem(i)]);
    }
    ops.extend([Op::Unwind(2), Op::RemKeep(0), Op::Init, Op::Card, Op::Unknown, Op::Text, Op::TextKept, Op::TextFails(5), Op::Buffered, Op::BufferedKept, Op::BufferedHeld]);
    if M::NAME == "histogram" {
        ops.extend((0..4).map(Op::Timer));
    } else {
        ops.extend([Op::Proto, Op::ProtoKept, Op::ProtoFails(1)]);
    }
    for c in 0..4 {
        let what = |s: &str| format!("{} {}, {s}", M::NAME, ["dense", "sparse", "sparse with equal hashes", "sparse over interned texts"][c]);
        let go = |n: usize, body: &[Op], warm: usize, o: &mut Obs| -> Res {
            let t = texts(n);
            match c {
                0 => rounds(|| MetricVec::<M, _>::dense_with_label_set_and_metadata(Fixed::<0>(t.clone()), M::meta()), &t, body, warm, o),
                1 => rounds(|| MetricVec::<M, _>::sparse_with_label_set_and_metadata(Fixed::<0>(t.clone()), M::meta()), &t, body, warm, o),
                2 => rounds(|| MetricVec::<M, _>::sparse_with_label_set_and_metadata(Fixed::<1>(t.clone()), M::meta()), &t, body, warm, o),
                _ => rounds(|| MetricVec::<M, _>::with_label_set_and_metadata(Interned(lasso::ThreadedRodeo::new()), M::meta()), &t, body, warm, o),
            }
        };
        Cx::seqs(ops.len(), 3, |sq| {
            let p = || sq.iter().map(|&i| ops[i]).collect::<Vec<_>>();
            cx.case(|| what(&format!("repeating {:?}", p())), |o| go(4, &p(), if sq.len() < 3 { 16 } else { 8 }, o));
        });
        if cx.thorough {
            let few = [Op::Upd(0), Op::UpdMut(3), Op::Rem(0), Op::Rem(3), Op::TextFails(9), Op::BufferedHeld, Op::ProtoFails(2), Op::ProtoKept, Op::Timer(3)];
            Cx::seqs(few.len(), 5, |sq| {
                if sq.len() > 3 {
                    let p = || sq.iter().map(|&i| few[i]).collect::<Vec<_>>();
                    cx.case(|| what(&format!("repeating {:?}", p())), |o| go(4, &p(), 8, o));
                }
            });
        }
        // many series
        for n in (5..=if cx.thorough { 200 } else { 40 }).chain([63, 64, 65, 128, 200, 256, 500, 1000]) {
            for rest in [0, 1, 3, n / 2, n] {
                for scrape in [Op::TextKept, Op::BufferedHeld, Op::ProtoKept, Op::Card] {
                    let body = [Op::Fill(n), scrape, Op::Clear(rest)];
                    cx.case(|| what(&format!("{n} texts, repeating {body:?}")), |o| go(n, &body, if n > 100 { 2 } else { 8 }, o));
                }
            }
        }
    }
}
/// every number is a label group
struct Numbers;
impl LabelGroup for Id<0> {
    fn visit_values(&self, v: &mut impl LabelGroupVisitor) {
        struct N(i64);
        impl LabelValue for N {
            fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
                v.write_int(self.0)
            }
        }
        v.write_value(LabelName::from_str("n"), &N(self.0 as i64));
    }
}
impl LabelGroupSet for Numbers {
    type Group<'a> = Id<0>;
    type Unique = Id<0>;
    fn cardinality(&self) -> Option<usize> {
        None
    }
    fn encode_dense(&self, _: Id<0>) -> Option<usize> {
        None
    }
    fn decode_dense(&self, _: usize) -> Id<0> {
        unreachable!()
    }
    fn encode(&self, v: Id<0>) -> Option<Id<0>> {
        Some(v)
    }
    fn decode(&self, v: &Id<0>) -> Id<0> {
        *v
    }
}
/// series of ever new label groups come and the oldest ones go
fn sliding<M: Kind>(cx: &mut Cx) {
    let sizes = if cx.thorough { vec![0, 1, 2, 3, 5, 8, 16, 27, 28, 29, 64, 100, 448, 1000] } else { vec![0, 1, 2, 5, 28, 100] };
    for live_series in sizes {
        for batch in [1, 2, 3, 7, 50] {
            for step in [1usize, 2, 64, 1 << 20, 0x9e37_79b9_7f4a_7c15] {
                for how in 0..4 {
                    let id = || format!("{} sparse, {live_series} series, in each round {batch} new ones and the oldest go, steps of {step}, {}", M::NAME, ["updated", "exclusively", "removed by chance twice", "scraped"][how]);
                    cx.case(id, |o| {
                        let start = live();
                        {
                            let mut v = MetricVec::<M, _>::with_label_set_and_metadata(Numbers, M::meta());
                            let id = |n: usize| Id::<0>((n as u64).wrapping_mul(step as u64) as usize & (usize::MAX >> 1));
                            let mut next = 0;
                            let mut most = vec![];
                            let mut window = isize::MIN;
                            let warm = 16;
                            for r in 0usize.. {
                                for _ in 0..batch {
                                    let l = v.with_labels(id(next));
                                    if how == 1 {
                                        M::upd_mut(v.get_metric_mut(l));
                                    } else {
                                        M::upd(v.get_metric(l));
                                    }
                                    next += 1;
                                    o.step(1);
                                    if next > live_series {
                                        for _ in 0..1 + (how == 2) as usize {
                                            drop(v.remove_metric(v.with_labels(id(next - 1 - live_series))));
                                        }
                                    }
                                }
                                if how == 3 {
                                    let _ = v.collect_family_into(NAME, &mut TextEncoder::new(Sink(0)));
                                }
                                let series = v.get_cardinality().0;
                                ensure!(series == next.min(live_series), "series", "{series} series are left of {next} and {live_series}");
                                window = window.max(live() - start);
                                if (r + 1) % warm == 0 && ((r + 1) / warm).is_power_of_two() {
                                    if next > live_series && most.last().is_some_and(|l| window - *l < ((r + 1) / 2 * batch) as isize) {
                                        break;
                                    }
                                    most.push(window);
                                    window = isize::MIN;
                                    ensure!(most.len() < 5 || next < 10_000, "growth", "the most bytes held within {warm} rounds, the {warm} after, then {}, {} and so on: {most:?}", 2 * warm, 4 * warm);
                                }
                            }
                            o.state(&most.last().unwrap().to_le_bytes());
                        }
                        ensure!(live() == start, "left", "{} bytes are left when everything is dropped", live() - start);
                        Ok(())
                    });
                }
            }
        }
    }
}
/// the process collector: descriptors and memory
fn process(cx: &mut Cx) {
    static ONE: Mutex<()> = Mutex::new(());
    #[derive(Clone, Copy, Debug)]
    enum P {
        New,
        Own,
        Init,
        Gone,
        Failing,
    }
    let ops = [P::New, P::Own, P::Init, P::Gone, P::Failing];
    let fds = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    Cx::seqs(ops.len(), if cx.thorough { 4 } else { 3 }, |sq| {
        let p = || sq.iter().map(|&i| ops[i]).collect::<Vec<_>>();
        cx.case(
            || format!("process collector, repeating {:?}", p()),
            |o| {
                let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
                let c = [measured_process::ProcessCollector::for_self(), measured_process::ProcessCollector::new(1), measured_process::ProcessCollector::new(i32::MAX)];
                let warm = 4;
                let mut most: Vec<(usize, isize)> = vec![];
                let mut window = (0, isize::MIN);
                let start = live();
                for r in 0usize.. {
                    for op in p() {
                        o.step(1);
                        match op {
                            P::New => drop(measured_process::ProcessCollector::for_self()),
                            P::Own | P::Init | P::Gone => {
                                let mut e = BufferedTextEncoder::new();
                                let Ok(()) = c[op as usize - 1].collect_group_into(&mut e);
                                e.finish();
                            }
                            P::Failing => {
                                let mut e = TextEncoder::new(Sink(7));
                                let _ = c[0].collect_group_into(&mut e);
                            }
                        }
                    }
                    let x = (fds(), live() - start);
                    window = (window.0.max(x.0), window.1.max(x.1));
                    if (r + 1) % warm == 0 && ((r + 1) / warm).is_power_of_two() {
                        if most.last().is_some_and(|l| window.0 <= l.0 && window.1 - l.1 < (r as isize + 1) / 2) {
                            break;
                        }
                        most.push(window);
                        window = (0, isize::MIN);
                        ensure!(most.len() < 5, "growth", "the most descriptors and bytes held within {warm} rounds, the {warm} after, then {}, {} and so on: {most:?}", 2 * warm, 4 * warm);
                    }
                }
                o.state(format!("{:?}", most.last()).as_bytes());
                Ok(())
            },
        );
    });
}
pub fn c28(cx: &mut Cx) {
    // whatever is set up once
    drop(measured::CounterVec::sparse_with_label_set(Fixed::<0>(vec![])));
    process(cx);
    kind::<CounterState>(cx);
    kind::<Tracked>(cx);
    kind::<HistogramState<3>>(cx);
    sliding::<CounterState>(cx);
    sliding::<Tracked>(cx);
    sliding::<HistogramState<3>>(cx);
}
