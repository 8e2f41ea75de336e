//! C22: the tokio collector against the metrics interface of the runtimes it observes.
#[path = "../../seq/src/fw.rs"]
#[macro_use]
#[allow(dead_code)]
mod fw;
#[path = "../../seq/src/prom.rs"]
#[allow(dead_code)]
mod prom;
#[path = "../../seq/src/faulty.rs"]
#[allow(dead_code)]
mod faulty;
use faulty::{group_faults, Stream, W};
use fw::{fail, Cx, Obs, Res};
use measured::metric::group::MetricGroup;
use measured::metric::name::WithNamespace;
use measured::text::BufferedTextEncoder;
use measured_tokio::{NamedRuntimesCollector, RuntimeCollector};
use std::collections::BTreeMap;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, Instant};
use tokio::runtime::{Builder, HistogramScale, Runtime, RuntimeMetrics};

// ---------------------------------------------------------------- runtimes and what they do
#[derive(Clone, Copy, Debug, PartialEq)]
struct Conf {
    /// 0: current thread
    workers: usize,
    /// (scale, number of buckets); scale 0: off, 1: linear, 2: logarithmic
    hist: (u8, usize),
    blocking: usize,
}
const WORK: [&str; 11] = ["idle", "yields", "pending", "blocking-queue", "blocking-idle", "stuck", "overflow", "budget", "long-polls", "outside", "io"];
struct Rt {
    rt: Option<Runtime>,
    m: RuntimeMetrics,
    hold: Vec<Sender<()>>,
    name: Option<String>,
    #[cfg(feature = "net")]
    io: Vec<tokio::io::unix::AsyncFd<std::fs::File>>,
}
fn spin(ms: u64) {
    let t = Instant::now();
    while t.elapsed() < Duration::from_millis(ms) {
        std::hint::spin_loop();
    }
}
impl Rt {
    fn new(c: Conf, name: Option<&str>) -> Rt {
        let mut b = if c.workers == 0 { Builder::new_current_thread() } else { Builder::new_multi_thread() };
        if c.workers > 0 {
            b.worker_threads(c.workers);
        }
        b.max_blocking_threads(c.blocking).thread_keep_alive(Duration::from_secs(3600)).thread_stack_size(256 << 10);
        if c.hist.0 > 0 {
            b.enable_metrics_poll_count_histogram();
            b.metrics_poll_count_histogram_buckets(c.hist.1);
            b.metrics_poll_count_histogram_scale(if c.hist.0 == 1 { HistogramScale::Linear } else { HistogramScale::Log });
            b.metrics_poll_count_histogram_resolution(Duration::from_micros(if c.hist.0 == 1 { 300 } else { 50 }));
        }
        #[cfg(feature = "net")]
        b.enable_io();
        let rt = b.build().expect("runtime");
        let m = rt.handle().metrics();
        Rt {
            rt: Some(rt),
            m,
            hold: vec![],
            name: name.map(|s| s.to_string()),
            #[cfg(feature = "net")]
            io: vec![],
        }
    }
    fn held(&mut self) -> Receiver<()> {
        let (tx, rx) = channel();
        self.hold.push(tx);
        rx
    }
    fn work(&mut self, w: usize) {
        let h = self.rt.as_ref().unwrap().handle().clone();
        let yields = |n: usize| async move {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        };
        match w {
            0 => {}
            1 => {
                let v: Vec<_> = (0..20).map(|i| h.spawn(yields(i))).collect();
                for j in v {
                    self.wait(j);
                }
            }
            2 => {
                for _ in 0..3 {
                    h.spawn(std::future::pending::<()>());
                }
                self.rt.as_ref().unwrap().block_on(yields(3));
            }
            3 => {
                // more blocking work than there are threads for
                let n = 2 + self.m.num_blocking_threads();
                for _ in 0..n + 3 {
                    let rx = self.held();
                    h.spawn_blocking(move || {
                        let _ = rx.recv();
                    });
                }
            }
            4 => {
                let v: Vec<_> = (0..2).map(|_| h.spawn_blocking(|| spin(1))).collect();
                self.rt.as_ref().unwrap().block_on(async {
                    // the queue may be held up by other blocking work
                    for j in v {
                        for _ in 0..20 {
                            if j.is_finished() {
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(1));
                        }
                    }
                });
            }
            5 => {
                // workers that are busy, with tasks behind them
                let rx = self.held();
                let rt = self.rt.as_ref().unwrap();
                if self.m.num_workers() == 1 && rt.handle().runtime_flavor() == tokio::runtime::RuntimeFlavor::CurrentThread {
                    rt.block_on(async {
                        for i in 0..5 {
                            tokio::spawn(yields(i));
                        }
                    });
                } else {
                    let (t, r) = channel();
                    h.spawn(async move {
                        for i in 0..5 {
                            tokio::spawn(yields(i));
                        }
                        let _ = t.send(());
                        let _ = rx.recv();
                    });
                    // it may never start if all workers are busy already
                    let _ = r.recv_timeout(Duration::from_millis(20));
                }
                for i in 0..4 {
                    h.spawn(yields(i));
                }
            }
            6 => {
                let j = h.spawn(async {
                    for _ in 0..700 {
                        tokio::spawn(async {});
                    }
                });
                self.wait(j);
            }
            7 => {
                let j = h.spawn(async {
                    for _ in 0..1000 {
                        tokio::task::consume_budget().await;
                    }
                });
                self.wait(j);
            }
            8 => {
                let v: Vec<_> = [0, 1, 2, 0]
                    .iter()
                    .map(|&ms| {
                        h.spawn(async move {
                            spin(ms);
                            tokio::task::yield_now().await;
                            spin(ms);
                        })
                    })
                    .collect();
                for j in v {
                    self.wait(j);
                }
            }
            9 => {
                for _ in 0..2 {
                    h.spawn(std::future::pending::<()>());
                }
            }
            _ => {
                #[cfg(feature = "net")]
                {
                    use std::io::Write;
                    use std::os::fd::FromRawFd;
                    let _g = h.enter();
                    let mut writers = vec![];
                    for k in 0..3 {
                        let mut p = [0; 2];
                        assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_NONBLOCK | libc::O_CLOEXEC) }, 0);
                        let (r, w) = unsafe { (std::fs::File::from_raw_fd(p[0]), std::fs::File::from_raw_fd(p[1])) };
                        let a = tokio::io::unix::AsyncFd::new(r).unwrap();
                        if k > 0 {
                            self.io.push(a);
                            writers.push(w);
                        }
                    }
                    for w in &mut writers {
                        w.write_all(b"x").unwrap();
                    }
                    let last = self.io.last().unwrap();
                    self.rt.as_ref().unwrap().block_on(async {
                        // the IO driver may be with a worker that is kept busy
                        for _ in 0..50 {
                            if let std::task::Poll::Ready(g) = std::future::poll_fn(|c| std::task::Poll::Ready(last.poll_read_ready(c))).await {
                                drop(g);
                                break;
                            }
                            tokio::task::yield_now().await;
                        }
                    });
                }
            }
        }
    }
    fn crowd(&mut self, what: usize, n: usize) {
        let h = self.rt.as_ref().unwrap().handle().clone();
        match what {
            0 => {
                for _ in 0..n {
                    h.spawn(std::future::pending::<()>());
                }
                self.rt.as_ref().unwrap().block_on(tokio::task::yield_now());
            }
            1 => {
                let rx = self.held();
                h.spawn_blocking(move || {
                    let _ = rx.recv();
                });
                for _ in 0..n {
                    h.spawn_blocking(|| {});
                }
            }
            2 => {
                // as many that are done, beside those that are not
                let both = std::sync::Arc::new(std::sync::Barrier::new(n + n / 2 + 1));
                let v: Vec<_> = (0..n + n / 2)
                    .map(|i| {
                        let (both, rx) = (both.clone(), if i < n { Some(self.held()) } else { None });
                        h.spawn_blocking(move || {
                            both.wait();
                            rx.map(|r| r.recv());
                        })
                    })
                    .collect();
                both.wait();
                for j in &v[n..] {
                    while !j.is_finished() {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                }
            }
            3 => {
                let j = h.spawn(async move {
                    for _ in 0..n {
                        tokio::task::yield_now().await;
                    }
                });
                if self.rt.as_ref().unwrap().handle().runtime_flavor() == tokio::runtime::RuntimeFlavor::CurrentThread {
                    self.rt.as_ref().unwrap().block_on(j).unwrap();
                } else {
                    while !j.is_finished() {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                }
            }
            _ => {
                for _ in 0..self.m.num_workers() {
                    let rx = self.held();
                    h.spawn(async move {
                        let _ = rx.recv();
                    });
                }
                if self.rt.as_ref().unwrap().handle().runtime_flavor() == tokio::runtime::RuntimeFlavor::CurrentThread {
                    // nobody runs them
                    self.hold.clear();
                }
                for _ in 0..n {
                    h.spawn(async {});
                }
            }
        }
    }
    fn wait(&self, j: tokio::task::JoinHandle<()>) {
        let rt = self.rt.as_ref().unwrap();
        if rt.handle().runtime_flavor() == tokio::runtime::RuntimeFlavor::CurrentThread {
            rt.block_on(j).unwrap();
        } else {
            // workers may all be kept busy, in which case the task stays queued
            let t = Instant::now();
            while !j.is_finished() && t.elapsed() < Duration::from_millis(30) {
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }
    fn stop(&mut self) {
        self.hold.clear();
        #[cfg(feature = "net")]
        self.io.clear();
        if let Some(r) = self.rt.take() {
            drop(r);
        }
    }
}
impl Drop for Rt {
    fn drop(&mut self) {
        self.stop();
    }
}

// ---------------------------------------------------------------- what the runtimes' own interface shows
type Samples = BTreeMap<String, f64>;
type Labels<'a> = Vec<(&'a str, String)>;
fn key(name: &str, mut l: Vec<(String, String)>) -> String {
    for (n, v) in &mut l {
        if n == "le" {
            *v = format!("{:?}", prom::num(v).unwrap_or(f64::NAN));
        }
    }
    l.sort();
    format!("{name}{l:?}")
}
struct Want {
    fams: BTreeMap<String, Samples>,
}
impl Want {
    fn put(&mut self, rt: &Rt, fam: &str, suffix: &str, l: Labels, v: f64) {
        let mut l: Vec<(String, String)> = l.into_iter().map(|(a, b)| (a.to_string(), b)).collect();
        if let Some(n) = &rt.name {
            l.push(("runtime".into(), n.clone()));
        }
        let old = self.fams.get_mut(fam).unwrap().insert(key(&format!("{fam}{suffix}"), l), v);
        assert!(old.is_none());
    }
}
fn want(rts: &[&Rt]) -> BTreeMap<String, Samples> {
    let mut w = Want { fams: BTreeMap::new() };
    for f in [
        "threads", "active_tasks", "queued_tasks", "scheduled_tasks_total", "budget_forced_yield_count", "worker_mean_poll_time_seconds", "worker_noop_count", "worker_park_count", "worker_steal_count",
        "worker_steal_operations_count", "worker_poll_time_seconds",
    ] {
        w.fams.insert(f.into(), Samples::new());
    }
    if cfg!(feature = "net") {
        for f in ["registered_fds_total", "deregistered_fds_total", "io_ready_events_total"] {
            w.fams.insert(f.into(), Samples::new());
        }
    }
    for r in rts {
        let m = &r.m;
        let s = |x: &str| x.to_string();
        w.put(r, "threads", "", vec![("kind", s("worker"))], m.num_workers() as f64);
        w.put(r, "threads", "", vec![("kind", s("idle"))], m.num_idle_blocking_threads() as f64);
        w.put(r, "threads", "", vec![("kind", s("blocking"))], m.num_blocking_threads().saturating_sub(m.num_idle_blocking_threads()) as f64);
        w.put(r, "active_tasks", "", vec![], m.active_tasks_count() as f64);
        w.put(r, "queued_tasks", "", vec![("kind", s("blocking"))], m.blocking_queue_depth() as f64);
        w.put(r, "queued_tasks", "", vec![("kind", s("injection"))], m.injection_queue_depth() as f64);
        w.put(r, "scheduled_tasks_total", "", vec![("worker", s("remote")), ("overflow", s("true"))], m.remote_schedule_count() as f64);
        w.put(r, "budget_forced_yield_count", "", vec![], m.budget_forced_yield_count() as f64);
        for i in 0..m.num_workers() {
            let wk = || ("worker", i.to_string());
            w.put(r, "queued_tasks", "", vec![("kind", i.to_string())], m.worker_local_queue_depth(i) as f64);
            w.put(r, "scheduled_tasks_total", "", vec![wk(), ("overflow", s("false"))], m.worker_local_schedule_count(i) as f64);
            w.put(r, "scheduled_tasks_total", "", vec![wk(), ("overflow", s("true"))], m.worker_overflow_count(i) as f64);
            w.put(r, "worker_mean_poll_time_seconds", "", vec![wk()], m.worker_mean_poll_time(i).as_secs_f64());
            w.put(r, "worker_noop_count", "", vec![wk()], m.worker_noop_count(i) as f64);
            w.put(r, "worker_park_count", "", vec![wk()], m.worker_park_count(i) as f64);
            w.put(r, "worker_steal_count", "", vec![wk()], m.worker_steal_count(i) as f64);
            w.put(r, "worker_steal_operations_count", "", vec![wk()], m.worker_steal_operations(i) as f64);
            w.put(r, "worker_poll_time_seconds", "_count", vec![wk()], m.worker_poll_count(i) as f64);
            w.put(r, "worker_poll_time_seconds", "_sum", vec![wk()], m.worker_total_busy_duration(i).as_secs_f64());
            if m.poll_count_histogram_enabled() {
                let n = m.poll_count_histogram_num_buckets();
                let mut sum = 0;
                for b in 0..n {
                    sum += m.poll_count_histogram_bucket_count(i, b);
                    let end = m.poll_count_histogram_bucket_range(b).end;
                    let le = if b + 1 == n { s("+Inf") } else { format!("{:?}", end.as_secs_f64()) };
                    w.put(r, "worker_poll_time_seconds", "_bucket", vec![wk(), ("le", le)], sum as f64);
                }
            }
        }
        #[cfg(feature = "net")]
        {
            w.put(r, "registered_fds_total", "", vec![], m.io_driver_fd_registered_count() as f64);
            w.put(r, "deregistered_fds_total", "", vec![], m.io_driver_fd_deregistered_count() as f64);
            w.put(r, "io_ready_events_total", "", vec![], m.io_driver_ready_count() as f64);
        }
    }
    w.fams
}
fn find(b: &[u8], s: &str) -> Option<usize> {
    b.windows(s.len()).position(|w| w == s.as_bytes()).filter(|&i| i == 0 || b[i - 1] == b'\n')
}
fn parse(b: &[u8], prefix: &str) -> Result<BTreeMap<String, Samples>, fw::Fail> {
    let show = || String::from_utf8_lossy(b).chars().take(600).collect::<String>();
    // the collector writes no type lines; the strict parser wants one where samples carry suffixes
    let typ = format!("# TYPE {prefix}worker_poll_time_seconds ");
    let hl = format!("# HELP {prefix}worker_poll_time_seconds ");
    let mut patched = b.to_vec();
    if let (None, Some(at)) = (find(b, &typ), find(b, &hl)) {
        let end = at + b[at..].iter().position(|c| *c == b'\n').unwrap_or(0) + 1;
        patched.splice(end..end, format!("{typ}histogram\n").into_bytes());
    }
    let d = prom::doc(&patched).map_err(|m| fail("document", format!("{m} in {:?}", show())))?;
    let mut out = BTreeMap::new();
    let mut helps = BTreeMap::new();
    for f in d {
        let n = f.name.strip_prefix(prefix).ok_or_else(|| fail("prefix", f.name.clone()))?.to_string();
        let h = f.help.clone().unwrap_or_default();
        ensure!(!h.is_empty(), "help", "{n} has no help");
        if let Some(o) = helps.insert(h, n.clone()) {
            return Err(fail("help", format!("{n} and {o} have the same help")));
        }
        let mut s = Samples::new();
        for x in &f.samples {
            let k = key(x.name.strip_prefix(prefix).unwrap_or("?"), x.labels.clone());
            ensure!(s.insert(k.clone(), x.value()).is_none(), "duplicate", "{k} appears twice");
        }
        ensure!(out.insert(n.clone(), s).is_none(), "duplicate-family", "{n} appears twice");
    }
    Ok(out)
}
fn diff(got: &BTreeMap<String, Samples>, want: &BTreeMap<String, Samples>) -> Res {
    for (f, w) in want {
        let Some(g) = got.get(f) else { return Err(fail("missing-family", format!("{f} is missing"))) };
        for (k, v) in w {
            match g.get(k) {
                None => return Err(fail(f, format!("{k} is missing; there is {:?}", g.keys().take(20).collect::<Vec<_>>()))),
                Some(x) if x != v => return Err(fail(f, format!("{k} is {x}, the runtime says {v}"))),
                _ => {}
            }
        }
        for k in g.keys() {
            ensure!(w.contains_key(k), f, "{k} should not be there");
        }
    }
    for f in got.keys() {
        ensure!(want.contains_key(f), "unknown-family", "{f}");
    }
    Ok(())
}
/// scrape at rest: the runtimes' own interface shows the same before and after
fn check<G: MetricGroup<BufferedTextEncoder>>(g: &G, prefix: &str, rts: &[&Rt], o: &mut Obs) -> Res {
    let mut attempt = 0;
    loop {
        attempt += 1;
        let a = want(rts);
        let mut e = BufferedTextEncoder::new();
        g.collect_group_into(&mut e).map_err(|_| fail("error", "collection failed"))?;
        let b = e.finish();
        let c = want(rts);
        if a == c {
            o.step(1);
            o.state(&b);
            o.show(|| String::from_utf8_lossy(&b).chars().filter(|c| *c != '\n').take(200).collect());
            let got = parse(&b, prefix)?;
            return diff(&got, &a);
        }
        if attempt == 60_000 {
            println!("ENGINE-ERROR the runtime does not come to rest");
            std::process::exit(2);
        }
        std::thread::sleep(Duration::from_micros(300));
    }
}

// ---------------------------------------------------------------- enumeration
const NAMES: [&str; 5] = ["main", "", "a\"b\\c\nd", "über", "x,worker=\"0\""];
fn confs(th: bool) -> Vec<Conf> {
    let mut v = vec![];
    for workers in [0, 1, 2, 4] {
        let hs: &[(u8, usize)] = if th { &[(0, 0), (1, 1), (1, 2), (1, 10), (2, 1), (2, 2), (2, 5), (2, 16)] } else { &[(0, 0), (1, 1), (1, 5), (2, 2), (2, 10)] };
        for &hist in hs {
            for blocking in [1, 3] {
                v.push(Conf { workers, hist, blocking });
            }
        }
    }
    v
}
fn c22(cx: &mut Cx) {
    let th = cx.thorough;
    // A: one runtime, every configuration, workload and way of collecting it
    for c in confs(th) {
        for w in 0..WORK.len() {
            for how in 0..4 {
                cx.case(
                    || format!("one {c:?} {} as {}", WORK[w], ["unnamed", "named", "collection of one", "namespaced"][how]),
                    |o| {
                        let name = NAMES[(w + how) % NAMES.len()];
                        let mut r = Rt::new(c, if how == 0 { None } else { Some(name) });
                        match how {
                            0 => {
                                let g = { let _e = r.rt.as_ref().unwrap().enter(); RuntimeCollector::current() };
                                check(&g, "", &[&r], o)?;
                                r.work(w);
                                check(&g, "", &[&r], o)?;
                                r.stop();
                                check(&g, "", &[&r], o)
                            }
                            1 => {
                                let g = RuntimeCollector::new(r.m.clone()).with_name(name.to_string());
                                r.work(w);
                                check(&g, "", &[&r], o)
                            }
                            2 => {
                                let g = NamedRuntimesCollector::new();
                                check(&g, "", &[], o)?;
                                g.add(r.m.clone(), name);
                                check(&g, "", &[&r], o)?;
                                r.work(w);
                                check(&g, "", &[&r], o)?;
                                r.stop();
                                check(&g, "", &[&r], o)
                            }
                            _ => {
                                let g = WithNamespace::new("tokio", RuntimeCollector::new(r.m.clone()).with_name(name));
                                r.work(w);
                                check(&g, "tokio_", &[&r], o)
                            }
                        }
                    },
                );
            }
        }
    }
    // B: all collections of two or three runtimes out of a set of kinds
    let mut kinds = vec![];
    for workers in [0, 2] {
        for hist in [(0, 0), (2, 3)] {
            let ws: &[usize] = if th { &[0, 2, 3, 5, 6] } else { &[0, 3, 6] };
            for &w in ws {
                kinds.push((Conf { workers, hist, blocking: 2 }, w));
            }
        }
    }
    let pick = |ks: Vec<(Conf, usize)>, o: &mut Obs| -> Res {
        let g = NamedRuntimesCollector::default();
        let mut rts: Vec<Rt> = vec![];
        for (i, (c, w)) in ks.into_iter().enumerate() {
            let mut r = Rt::new(c, Some(NAMES[i]));
            if i % 2 == 0 {
                g.add(r.m.clone(), NAMES[i]);
            } else {
                let _e = r.rt.as_ref().unwrap().enter();
                g.add_current(NAMES[i].to_string());
            }
            r.work(w);
            rts.push(r);
            let refs: Vec<&Rt> = rts.iter().collect();
            check(&g, "", &refs, o)?;
        }
        let refs: Vec<&Rt> = rts.iter().collect();
        check(&WithNamespace::new("ns", g), "ns_", &refs, o)
    };
    for a in &kinds {
        for b in &kinds {
            cx.case(|| format!("two {:?} {} + {:?} {}", a.0, WORK[a.1], b.0, WORK[b.1]), |o| pick(vec![*a, *b], o));
            if th {
                for c in &kinds {
                    cx.case(|| format!("three {:?} {} + {:?} {} + {:?} {}", a.0, WORK[a.1], b.0, WORK[b.1], c.0, WORK[c.1]), |o| pick(vec![*a, *b, *c], o));
                }
            }
        }
    }
    // many workers, many runtimes
    for workers in [11, 17, 33] {
        for w in [1, 5] {
            cx.case(
                || format!("{workers} workers {}", WORK[w]),
                |o| {
                    let mut r = Rt::new(Conf { workers, hist: (2, 3), blocking: 2 }, Some("many"));
                    r.work(w);
                    check(&RuntimeCollector::new(r.m.clone()).with_name("many"), "", &[&r], o)
                },
            );
        }
    }
    // more of everything than fits into a byte, or two: workers, tasks, queues, threads, polls
    for workers in [65, 257, 300] {
        cx.case(
            || format!("{workers} workers"),
            |o| {
                let mut r = Rt::new(Conf { workers, hist: (0, 0), blocking: 2 }, None);
                r.work(1);
                check(&RuntimeCollector::new(r.m.clone()), "", &[&r], o)
            },
        );
    }
    for workers in [0, 1, 2] {
        for n in [200usize, 300, 70_000] {
            for what in 0..5 {
                if what == 2 && n > 300 {
                    continue;
                }
                cx.case(
                    || format!("{workers} workers, {n} {}", ["tasks that wait", "blocking tasks in the queue", "blocking threads", "polls", "tasks behind a busy worker"][what]),
                    |o| {
                        let mut r = Rt::new(Conf { workers, hist: (0, 0), blocking: if what == 2 { 2 * n } else { 1 } }, Some("crowd"));
                        r.crowd(what, n);
                        check(&RuntimeCollector::new(r.m.clone()).with_name("crowd"), "", &[&r], o)
                    },
                );
            }
        }
    }
    for n in [4usize, 5, 11, 26, 71] {
        cx.case(
            || format!("{n} runtimes"),
            |o| {
                let g = NamedRuntimesCollector::new();
                let mut rts: Vec<Rt> = vec![];
                for i in 0..n {
                    // in no particular order
                    let name = format!("r{}", i * 7 % n * 3);
                    let mut r = Rt::new(Conf { workers: i % 3, hist: (if i % 2 == 0 { 2 } else { 0 }, 2), blocking: 1 }, Some(&name));
                    g.add(r.m.clone(), name);
                    r.work([0, 1, 3][i / 3 % 3]);
                    rts.push(r);
                }
                check(&g, "", &rts.iter().collect::<Vec<_>>(), o)
            },
        );
    }
    // histories of additions, also of a current runtime where there is none, which panics and changes nothing
    const ADD: [&str; 4] = ["add", "add current", "add current outside of a runtime", "scrape"];
    fw::Cx::seqs(ADD.len(), if th { 6 } else { 5 }, |s| {
        if !s.contains(&2) {
            return;
        }
        cx.case(
            || format!("additions {:?}", s.iter().map(|i| ADD[*i]).collect::<Vec<_>>()),
            |o| {
                let g = NamedRuntimesCollector::new();
                let mut rts: Vec<Rt> = vec![];
                for &op in s {
                    let name = format!("r{}", rts.len());
                    match op {
                        0 | 1 => {
                            let r = Rt::new(Conf { workers: 0, hist: (0, 0), blocking: 1 }, Some(&name));
                            if op == 0 {
                                g.add(r.m.clone(), name);
                            } else {
                                let _e = r.rt.as_ref().unwrap().enter();
                                g.add_current(name);
                            }
                            rts.push(r);
                        }
                        2 => ensure!(fw::guarded(|| g.add_current("none")).is_err(), "outside", "a current runtime was found where there is none"),
                        _ => check(&g, "", &rts.iter().collect::<Vec<_>>(), o)?,
                    }
                    o.step(1);
                }
                check(&g, "", &rts.iter().collect::<Vec<_>>(), o)
            },
        );
    });
    // C: all histories of workloads up to a depth, scraped after every one
    let depth = if th { 3 } else { 2 };
    for workers in [0, 1, 3] {
        for hist in [(0, 0), (2, 4)] {
            for d in 2..=depth {
                let n = WORK.len();
                for code in 0..n.pow(d as u32) {
                    let seq: Vec<usize> = (0..d).map(|k| code / n.pow(k as u32) % n).collect();
                    let c = Conf { workers, hist, blocking: 2 };
                    let seq2 = seq.clone();
                    cx.case(
                        || format!("history {c:?} {:?}", seq.iter().map(|w| WORK[*w]).collect::<Vec<_>>()),
                        |o| {
                            let mut r = Rt::new(c, None);
                            let g = RuntimeCollector::new(r.m.clone());
                            for w in seq2 {
                                r.work(w);
                                check(&g, "", &[&r], o)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C15, C25: a writer that fails
impl Stream for measured_prometheus_protobuf::ProtoEncoder<W> {
    const TEXT: bool = false;
    fn make(w: W) -> Self {
        Self::new(w)
    }
    fn w(&mut self) -> &mut W {
        &mut self.writer
    }
    fn finish(&mut self) -> std::io::Result<()> {
        self.flush()
    }
}
macro_rules! faults {
    ($name:ident, $e:ty) => {
        fn $name(cx: &mut Cx) {
            // nothing runs on them: the numbers do not change
            for hist in [(0, 0), (1, 2)] {
                let r = [Rt::new(Conf { workers: 0, hist, blocking: 1 }, Some("a")), Rt::new(Conf { workers: 0, hist, blocking: 2 }, None)];
                let one = RuntimeCollector::new(r[0].m.clone());
                group_faults::<$e>(cx, &format!("a runtime, {hist:?}"), true, &|e: &mut $e| MetricGroup::<$e>::collect_group_into(&one, e));
                let named = RuntimeCollector::new(r[0].m.clone()).with_name("x\"y");
                let ns = WithNamespace::new("tokio", named);
                group_faults::<$e>(cx, &format!("a named runtime in a namespace, {hist:?}"), true, &|e: &mut $e| MetricGroup::<$e>::collect_group_into(&ns, e));
                let all = NamedRuntimesCollector::new();
                group_faults::<$e>(cx, "no runtimes", true, &|e: &mut $e| MetricGroup::<$e>::collect_group_into(&all, e));
                all.add(r[0].m.clone(), "first");
                all.add(r[1].m.clone(), "second");
                group_faults::<$e>(cx, &format!("two runtimes, {hist:?}"), true, &|e: &mut $e| MetricGroup::<$e>::collect_group_into(&all, e));
            }
        }
    };
}
faults!(c15, measured::text::TextEncoder<W>);
faults!(c25, measured_prometheus_protobuf::ProtoEncoder<W>);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.iter().any(|x| x == "--plain") {
        // the same program built without the net feature
        use std::os::unix::process::CommandExt;
        let exe = std::env::current_exe().unwrap().to_string_lossy().replace("/tokiox/debug/", "/tokiox-plain/debug/");
        let e = std::process::Command::new(exe).args(a[1..].iter().filter(|x| *x != "--plain")).exec();
        panic!("{e}");
    }
    let mut only = None;
    let mut threads = std::thread::available_parallelism().map_or(4, |n| n.get() as u64);
    let mut i = 3;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--index" => only = Some(a[i + 1].parse().unwrap()),
            "--threads" => threads = a[i + 1].parse().unwrap(),
            _ => {}
        }
        i += 2;
    }
    std::process::exit(fw::main(
        match a[1].as_str() {
            "C15" => c15,
            "C25" => c25,
            _ => c22,
        },
        a[2] == "thorough",
        threads,
        only,
        120,
    ));
}
