//! C21: the process collector against helper processes whose state we drive command by command.
#[path = "../../seq/src/fw.rs"]
#[macro_use]
#[allow(dead_code)]
mod fw;
#[path = "../../seq/src/pb.rs"]
#[allow(dead_code)]
mod pb;
#[path = "../../seq/src/prom.rs"]
#[allow(dead_code)]
mod prom;
mod forge;
use fw::{fail, Cx, Obs, Res};
use measured::metric::group::MetricGroup;
use measured::metric::name::WithNamespace;
use measured::text::BufferedTextEncoder;
use measured_process::ProcessCollector;
use measured_prometheus_protobuf::ProtoEncoder;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const MB: usize = 1 << 20;
const FAMS: [&str; 7] = ["open_fds", "max_fds", "virtual_memory_bytes", "resident_memory_bytes", "cpu_seconds_total", "threads", "start_time_seconds"];

// ---------------------------------------------------------------- the helper process
fn usage() -> (f64, f64) {
    let mut r: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::getrusage(libc::RUSAGE_SELF, &mut r) };
    let f = |t: libc::timeval| t.tv_sec as f64 + t.tv_usec as f64 / 1e6;
    (f(r.ru_utime), f(r.ru_stime))
}
fn burn(user: f64, sys: f64) {
    let (u0, s0) = usage();
    let mut x = 1u64;
    while usage().0 - u0 < user {
        for _ in 0..2_000_000 {
            x = std::hint::black_box(x.wrapping_mul(6364136223846793005).wrapping_add(1));
        }
    }
    let f = std::fs::File::open("/dev/zero").unwrap();
    let mut b = vec![0u8; MB];
    while usage().1 - s0 < sys {
        for _ in 0..200 {
            unsafe { libc::read(std::os::fd::AsRawFd::as_raw_fd(&f), b.as_mut_ptr() as *mut _, MB) };
        }
    }
}
fn helper() {
    let mine = ProcessCollector::for_self();
    let mut fds = vec![];
    let mut threads: Vec<(std::sync::mpsc::Sender<()>, std::thread::JoinHandle<()>)> = vec![];
    let mut maps: Vec<(*mut libc::c_void, usize)> = vec![];
    let mut touched = vec![];
    let stdin = std::io::stdin();
    let mut line = String::with_capacity(256);
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let w: Vec<&str> = line.split_whitespace().collect();
        let num = |i: usize| w[i].parse::<u64>().unwrap();
        let mut reply = String::from("ok");
        match w[0] {
            "open" => {
                for _ in 0..num(1) {
                    fds.push(std::fs::File::open("/dev/null").unwrap());
                }
            }
            "close" => {
                for _ in 0..num(1) {
                    fds.pop();
                }
            }
            "spawn" => {
                for _ in 0..num(1) {
                    let (tx, rx) = std::sync::mpsc::channel();
                    let h = std::thread::Builder::new().stack_size(256 << 10).spawn(move || { let _ = rx.recv(); }).unwrap();
                    threads.push((tx, h));
                }
            }
            "join" => {
                for _ in 0..num(1) {
                    if let Some((tx, h)) = threads.pop() {
                        drop(tx);
                        h.join().unwrap();
                    }
                }
                // a joined thread may be on its way out for a moment
                while std::fs::read_dir("/proc/self/task").unwrap().count() > threads.len() + 1 || truth(unsafe { libc::getpid() }).threads > threads.len() as i64 + 1 {
                    std::thread::yield_now();
                }
            }
            "map" | "touch" => unsafe {
                let n = (num(1) as usize * MB).max(4096);
                let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                assert!(p != libc::MAP_FAILED);
                if w[0] == "touch" {
                    for o in (0..n).step_by(4096) {
                        *(p as *mut u8).add(o) = 1;
                    }
                    touched.push((p, n));
                } else {
                    maps.push((p, n));
                }
            },
            "unmap" => {
                if let Some((p, n)) = maps.pop() {
                    unsafe { libc::munmap(p, n) };
                }
            }
            "untouch" => {
                if let Some((p, n)) = touched.pop() {
                    unsafe { libc::munmap(p, n) };
                }
            }
            "limit" => unsafe {
                let mut l: libc::rlimit = std::mem::zeroed();
                libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
                let hard = l.rlim_max;
                if num(1) > hard {
                    // beyond the hard limit where the system lets us
                    let top = std::fs::read_to_string("/proc/sys/fs/nr_open").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1 << 20);
                    l.rlim_max = num(1).min(top).max(hard);
                    l.rlim_cur = num(1).min(l.rlim_max);
                }
                if num(1) <= hard || libc::setrlimit(libc::RLIMIT_NOFILE, &l) != 0 {
                    l.rlim_max = hard;
                    l.rlim_cur = num(1).min(hard);
                    assert_eq!(libc::setrlimit(libc::RLIMIT_NOFILE, &l), 0);
                }
                reply = format!("ok {}", l.rlim_cur);
            },
            // n MB resident, all of it the same 64 MB of memory
            "share" => unsafe {
                let n = 64 * MB;
                let fd = libc::memfd_create(b"shared\0".as_ptr().cast(), 0);
                assert!(fd >= 0 && libc::ftruncate(fd, n as i64) == 0);
                for _ in 0..num(1) / 64 {
                    let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
                    assert!(p != libc::MAP_FAILED);
                    for o in (0..n).step_by(4096) {
                        *(p as *mut u8).add(o) = 1;
                    }
                }
                libc::close(fd);
            },
            "name" => unsafe {
                let n = std::ffi::CString::new(line.trim_end_matches('\n').strip_prefix("name ").unwrap()).unwrap();
                libc::prctl(libc::PR_SET_NAME, n.as_ptr());
            },
            // from now on an unprivileged user
            "drop" => unsafe {
                let ok = libc::setgroups(0, std::ptr::null()) == 0 && libc::setresgid(65534, 65534, 65534) == 0 && libc::setresuid(65534, 65534, 65534) == 0;
                reply = format!("ok {ok}");
            },
            // can the descriptors of this process be counted by us?
            "canfd" => reply = format!("ok {}", std::fs::read_dir(format!("/proc/{}/fd", num(1))).is_ok_and(|d| d.count() > 0)),
            "look" => reply = text(&ProcessCollector::new(num(1) as i32)).iter().map(|x| format!("{:02x}", x)).collect(),
            "burn" => burn(num(1) as f64 / 1e3, num(2) as f64 / 1e3),
            // CPU used by a waited-for child of the helper does not belong to the helper
            "kid" => unsafe {
                let p = libc::fork();
                if p == 0 {
                    burn(num(1) as f64 / 1e3, num(2) as f64 / 1e3);
                    libc::_exit(0);
                }
                libc::waitpid(p, std::ptr::null_mut(), 0);
            },
            "self" => {
                // 0: a collector made when the helper started, 1: made now
                let b = if num(1) == 0 { text(&mine) } else { text(&ProcessCollector::for_self()) };
                reply = b.iter().map(|x| format!("{:02x}", x)).collect();
            }
            "exit" => {
                println!("ok");
                std::process::exit(0)
            }
            _ => panic!(),
        }
        println!("{reply}");
    }
}

// ---------------------------------------------------------------- the observer
fn text(c: &ProcessCollector) -> Vec<u8> {
    let mut e = BufferedTextEncoder::new();
    c.collect_group_into(&mut e).expect("collection failed");
    e.finish().to_vec()
}
struct H {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
    pid: i32,
    base: i64,
    fds: i64,
    threads: i64,
    soft: u64,
    vm: i64,
    rss: i64,
}
#[derive(Debug, Clone, Copy, PartialEq)]
struct Truth {
    fds: i64,
    max: Option<u64>,
    vsize: i64,
    rss: i64,
    ticks: i64,
    threads: i64,
    start: f64,
}
fn truth(pid: i32) -> Truth {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap();
    let f: Vec<i64> = s[s.rfind(')').unwrap() + 1..].split_whitespace().skip(1).map(|x| x.parse().unwrap_or(-1)).collect();
    // f[0] is field 4 of proc(5)
    let g = |n: usize| f[n - 4];
    let lim = std::fs::read_to_string(format!("/proc/{pid}/limits")).unwrap();
    let l = lim.lines().find(|l| l.starts_with("Max open files")).unwrap();
    let max = l["Max open files".len()..].split_whitespace().next().unwrap().parse().ok();
    let btime: f64 = std::fs::read_to_string("/proc/stat").unwrap().lines().find_map(|l| l.strip_prefix("btime ").map(|x| x.trim().parse().unwrap())).unwrap();
    let (tck, page) = unsafe { (libc::sysconf(libc::_SC_CLK_TCK), libc::sysconf(libc::_SC_PAGESIZE)) };
    Truth { fds: std::fs::read_dir(format!("/proc/{pid}/fd")).unwrap().count() as i64, max, vsize: g(23), rss: g(24) * page, ticks: (g(14) + g(15)) * 1000 / tck, threads: g(20), start: btime + g(22) as f64 / tck as f64 }
}
impl H {
    fn new() -> H {
        let mut child = Command::new("/proc/self/exe").arg("helper").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("helper");
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        let pid = child.id() as i32;
        let mut h = H { child, tx, rx, pid, base: 0, fds: 0, threads: 1, soft: 0, vm: 0, rss: 0 };
        h.raw("open 0");
        let t = truth(pid);
        h.base = t.fds;
        h.soft = t.max.unwrap_or(0);
        h.vm = t.vsize;
        h.rss = t.rss;
        h
    }
    fn raw(&mut self, s: &str) -> String {
        writeln!(self.tx, "{s}").expect("helper is gone");
        let mut l = String::new();
        self.rx.read_line(&mut l).unwrap();
        if l.is_empty() && !s.starts_with("self") {
            println!("ENGINE-ERROR the helper died on {s}");
            std::process::exit(2);
        }
        assert!(!l.is_empty(), "the process died while it collected about itself");
        if s != "exit" {
            self.settle();
        }
        l.trim().to_string()
    }
    /// wait until every thread of the helper sleeps
    fn settle(&self) {
        loop {
            let busy = std::fs::read_dir(format!("/proc/{}/task", self.pid)).unwrap().flatten().any(|t| {
                let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
                !s[s.rfind(')').map_or(0, |i| i + 1)..].trim_start().starts_with('S')
            });
            if !busy {
                return;
            }
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
    }
    fn cmd(&mut self, s: &str) {
        let w: Vec<String> = s.split_whitespace().map(|x| x.to_string()).collect();
        let n: i64 = w.get(1).map_or(0, |x| x.parse().unwrap_or(0));
        let before = (self.fds, self.threads, self.soft);
        let r = self.raw(s);
        match w[0].as_str() {
            "open" => self.fds = before.0 + n,
            "close" => self.fds = (before.0 - n).max(0),
            "spawn" => self.threads = before.1 + n,
            "join" => self.threads = (before.1 - n).max(1),
            "limit" => self.soft = r[3..].parse().unwrap(),
            _ => {}
        }
    }
}
impl Drop for H {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// name -> value; checks the shape
fn parse_text(b: &[u8], prefix: &str) -> Result<BTreeMap<&'static str, f64>, fw::Fail> {
    let show = || String::from_utf8_lossy(b).into_owned();
    let d = prom::doc(b).map_err(|m| fail("document", format!("{m} in {:?}", show())))?;
    let mut out = BTreeMap::new();
    for f in &d {
        let n = f.name.strip_prefix(prefix).unwrap_or("?");
        let Some(n) = FAMS.iter().find(|x| **x == n) else { return Err(fail("unknown-family", format!("{:?} in {:?}", f.name, show()))) };
        ensure!(f.help.as_deref().is_some_and(|h| !h.is_empty()), "help", "{n} has no help in {:?}", show());
        ensure!(f.samples.len() == 1 && f.samples[0].labels.is_empty() && f.samples[0].name == f.name, "samples", "{n} in {:?}", show());
        ensure!(out.insert(*n, f.samples[0].value()).is_none(), "duplicate", "{n} in {:?}", show());
    }
    Ok(out)
}
fn parse_proto(b: &[u8], prefix: &str) -> Result<BTreeMap<&'static str, f64>, fw::Fail> {
    let d = pb::stream(b).map_err(|m| fail("protobuf", m))?;
    let mut out = BTreeMap::new();
    for f in &d {
        let n = f.name.as_deref().and_then(|n| n.strip_prefix(prefix)).unwrap_or("?");
        let Some(n) = FAMS.iter().find(|x| **x == n) else { return Err(fail("unknown-family", format!("protobuf {:?}", f.name))) };
        ensure!(f.help.as_deref().is_some_and(|h| !h.is_empty()), "help", "{n} has no help in protobuf");
        ensure!(f.metrics.len() == 1 && f.metrics[0].labels.is_empty(), "samples", "{n} in protobuf: {:?}", f.metrics);
        let v = match &f.metrics[0].val {
            pb::Val::Gauge(v) | pb::Val::Counter(v) => *v,
            #[allow(unreachable_patterns)]
            v => return Err(fail("samples", format!("{n} in protobuf: {v:?}"))),
        };
        ensure!(out.insert(*n, v).is_none(), "duplicate", "{n} in protobuf");
    }
    Ok(out)
}
fn compare(got: &BTreeMap<&'static str, f64>, a: &Truth, b: &Truth, fd_slack: i64) -> Res {
    compare_but(got, a, b, fd_slack, true)
}
/// `fds`: the observer may count the descriptors
fn compare_but(got: &BTreeMap<&'static str, f64>, a: &Truth, b: &Truth, fd_slack: i64, fds: bool) -> Res {
    let get = |n: &str| got.get(n).copied().ok_or_else(|| fail("missing", format!("{n} is missing in {got:?}")));
    let within = |n: &str, v: f64, x: i64, y: i64, slack: i64| -> Res {
        let (lo, hi) = (x.min(y) as f64, x.max(y) as f64 + slack as f64);
        ensure!(v >= lo && v <= hi, n.to_string(), "{n} is {v}, the process has {lo}..{hi}");
        Ok(())
    };
    // newer kernels tell the number of descriptors, though not the descriptors, to everyone
    if fds || got.contains_key("open_fds") {
        within("open_fds", get("open_fds")?, a.fds, b.fds, fd_slack)?;
    }
    match a.max {
        None => ensure!(!got.contains_key("max_fds"), "max_fds", "max_fds is shown for an unlimited process"),
        Some(m) => {
            let v = get("max_fds")?;
            ensure!(v == m as f64, "max_fds", "max_fds is {v}, the soft limit is {m}");
        }
    }
    within("virtual_memory_bytes", get("virtual_memory_bytes")?, a.vsize, b.vsize, 0)?;
    within("resident_memory_bytes", get("resident_memory_bytes")?, a.rss, b.rss, 0)?;
    let c = get("cpu_seconds_total")?;
    ensure!(c > a.ticks as f64 / 1e3 - 1.0 && c < b.ticks as f64 / 1e3 + 1.0, "cpu_seconds_total", "cpu_seconds_total is {c}, the process used {}..{} ms", a.ticks, b.ticks);
    within("threads", get("threads")?, a.threads, b.threads, 0)?;
    let s = get("start_time_seconds")?;
    ensure!((s - a.start).abs() <= 1.0, "start_time_seconds", "start_time_seconds is {s}, the process started at {}", a.start);
    Ok(())
}
struct Pair {
    c: ProcessCollector,
    n: WithNamespace<ProcessCollector>,
}
fn bytes(p: &Pair, k: usize) -> Result<Vec<u8>, String> {
    let mut e = BufferedTextEncoder::new();
    match k {
        0 => p.c.collect_group_into(&mut e).map_err(|e| e.to_string())?,
        1 => p.n.collect_group_into(&mut e).map_err(|e| e.to_string())?,
        _ => {
            let mut b = vec![];
            let mut e = ProtoEncoder::new(&mut b);
            p.c.collect_group_into(&mut e).map_err(|e| e.to_string())?;
            e.flush().map_err(|e| e.to_string())?;
            drop(e);
            return Ok(b);
        }
    }
    Ok(e.finish().to_vec())
}
/// one scrape (text, namespaced text, protobuf) of the helper by another process
fn observe(p: &Pair, h: &H, o: &mut Obs) -> Res {
    for k in 0..3 {
        let a = truth(h.pid);
        let got = bytes(p, k).map_err(|e| fail("error", e))?;
        let got = match k {
            0 => parse_text(&got, "")?,
            1 => parse_text(&got, "proc_")?,
            _ => parse_proto(&got, "")?,
        };
        let b = truth(h.pid);
        o.step(1);
        if k == 0 {
            o.state(format!("{:?} {:?} {:?}", got["open_fds"], got["threads"], got.get("max_fds")).as_bytes());
            let g = got.clone();
            o.show(move || format!("{g:?}"));
        }
        compare(&got, &a, &b, 0)?;
        // what we did to the helper, as opposed to what the system says about it
        ensure!(got["open_fds"] as i64 == h.base + h.fds, "open_fds", "{} open_fds, the helper has {}+{}", got["open_fds"], h.base, h.fds);
        ensure!(got["threads"] as i64 == h.threads, "threads", "{} threads, the helper has {}", got["threads"], h.threads);
        ensure!(got["max_fds"] as u64 == h.soft, "max_fds", "max_fds {}, the helper has {}", got["max_fds"], h.soft);
    }
    Ok(())
}
/// the helper observes itself
fn observe_self(h: &mut H, which: u8, o: &mut Obs) -> Res {
    let a = truth(h.pid);
    let r = h.raw(&format!("self {which}"));
    let b = truth(h.pid);
    let bytes: Vec<u8> = (0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap()).collect();
    let got = parse_text(&bytes, "")?;
    o.step(1);
    // sampling holds a few descriptors and some memory of its own
    let fds = got.get("open_fds").copied().unwrap_or(0.0) as i64;
    ensure!(fds >= h.base + h.fds && fds <= h.base + h.fds + 3, "open_fds", "{fds} open_fds, the helper has {}+{}", h.base, h.fds);
    let w = |x: i64, d: i64| x + d;
    let a = Truth { vsize: w(a.vsize, -80 * (MB as i64)), rss: w(a.rss, -4 * (MB as i64)), ..a };
    let b = Truth { vsize: w(b.vsize, 80 * MB as i64), rss: w(b.rss, 4 * MB as i64), ..b };
    compare(&got, &a, &b, 3)
}

const OPS: [&str; 9] = ["open 1", "close 1", "spawn 1", "join 1", "map 64", "unmap", "touch 16", "untouch", "limit 77"];

fn c21(cx: &mut Cx) {
    let th = cx.thorough;
    // so that a helper's start time is clearly not our own
    std::thread::sleep(std::time::Duration::from_millis(2500));
    // A: grid of states, observed from outside and by the process itself
    let fds = [0, 1, 40];
    let lims: &[u64] = if th { &[0, 2, 64, 100, 1024, 4096, 1 << 40] } else { &[0, 2, 100, 1 << 40] };
    let thr: &[i64] = if th { &[0, 1, 2, 7, 30] } else { &[0, 1, 7] };
    let mems: &[(i64, i64)] = if th { &[(0, 0), (64, 0), (0, 32), (3000, 0), (64, 32), (9000, 64)] } else { &[(0, 0), (64, 0), (0, 32), (9000, 0)] };
    for &f in &fds {
        for &l in lims {
            for &t in thr {
                for &(m, r) in mems {
                    cx.case(
                        || format!("state fds={f} limit={l} threads={t} map={m}MB touch={r}MB"),
                        |o| {
                            let mut h = H::new();
                            let p = Pair { c: ProcessCollector::new(h.pid), n: WithNamespace::new("proc", ProcessCollector::new(h.pid)) };
                            observe(&p, &h, o)?;
                            if l != 0 && l >= 64 {
                                h.cmd(&format!("limit {l}"));
                            }
                            h.cmd(&format!("open {f}"));
                            h.cmd(&format!("spawn {t}"));
                            h.cmd(&format!("map {m}"));
                            h.cmd(&format!("touch {r}"));
                            if l != 0 && l < 64 {
                                h.cmd(&format!("limit {l}"));
                            }
                            observe(&p, &h, o)?;
                            // by a collector that meets the process in this state
                            let q = Pair { c: ProcessCollector::new(h.pid), n: WithNamespace::new("proc", ProcessCollector::new(h.pid)) };
                            observe(&q, &h, o)?;
                            // memory shown differs from the empty helper by what was mapped
                            let t2 = truth(h.pid);
                            if t2.vsize - h.vm < (m + r) * MB as i64 || t2.rss - h.rss < r * MB as i64 / 2 {
                                println!("ENGINE-ERROR memory of the helper did not grow");
                                std::process::exit(2);
                            }
                            if l == 0 || l >= 64 {
                                observe_self(&mut h, 0, o)?;
                                observe_self(&mut h, 1, o)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // B: all histories up to a depth, observed after every step
    let depth = if th { 4 } else { 3 };
    let who: u64 = 2;
    for d in 1..=depth {
        let mut s = vec![0usize; d];
        'all: loop {
            for w in 0..who {
                let s2 = s.clone();
                cx.case(
                    || format!("history {:?} by {}", s.iter().map(|i| OPS[*i]).collect::<Vec<_>>(), ["another process", "the process itself"][w as usize]),
                    |o| {
                        let mut h = H::new();
                        let p = Pair { c: ProcessCollector::new(h.pid), n: WithNamespace::new("proc", ProcessCollector::new(h.pid)) };
                        for i in s2 {
                            h.cmd(OPS[i]);
                            if w == 0 {
                                observe(&p, &h, o)?;
                            } else {
                                observe_self(&mut h, 0, o)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
            let mut i = d;
            loop {
                if i == 0 {
                    break 'all;
                }
                i -= 1;
                s[i] += 1;
                if s[i] < OPS.len() {
                    break;
                }
                s[i] = 0;
            }
        }
    }
    // C: CPU time
    let ms: &[u64] = if th { &[0, 300, 700, 1100, 2300] } else { &[0, 700, 1300] };
    for &u in ms {
        for &s in ms {
            for kid in 0..2 {
                cx.case(
                    || format!("cpu user={u}ms sys={s}ms {}", if kid == 1 { "in a waited-for child of the helper" } else { "" }),
                    |o| {
                        let mut h = H::new();
                        let p = Pair { c: ProcessCollector::new(h.pid), n: WithNamespace::new("proc", ProcessCollector::new(h.pid)) };
                        let verb = if kid == 1 { "kid" } else { "burn" };
                        h.cmd(&format!("{verb} {u} {s}"));
                        observe(&p, &h, o)?;
                        observe_self(&mut h, 0, o)?;
                        h.cmd("burn 600 600");
                        observe(&p, &h, o)?;
                        observe_self(&mut h, 1, o)
                    },
                );
            }
        }
    }
    // C2: large figures
    for (i, cmds) in [
        &["limit 70000"][..],
        &["limit 1000000"],
        &["limit 70000", "open 66000"],
        &["open 300", "spawn 300"],
        &["share 1984"],
        &["share 2304"],
        &["share 4416"],
        &["map 4000"],
        &["map 40000", "share 4416", "limit 1000000", "spawn 260"],
        &["name a b) R 1 (c"],
        &["name ) 9 9 9 9 9"],
        &["name "],
    ]
    .iter()
    .enumerate()
    {
        if !th && [2, 5, 8].contains(&i) {
            continue;
        }
        cx.case(
            || format!("large {cmds:?}"),
            |o| {
                let mut h = H::new();
                let p = Pair { c: ProcessCollector::new(h.pid), n: WithNamespace::new("proc", ProcessCollector::new(h.pid)) };
                for c in cmds.iter() {
                    if c.starts_with("open 66") && h.soft < 67000 {
                        return Ok(());
                    }
                    h.cmd(c);
                }
                observe(&p, &h, o)?;
                let q = Pair { c: ProcessCollector::new(h.pid), n: WithNamespace::new("proc", ProcessCollector::new(h.pid)) };
                observe(&q, &h, o)?;
                observe_self(&mut h, 0, o)
            },
        );
    }
    // C3: an observer that may not see all of it
    for f in fds {
        for dropped in 0..4 {
            cx.case(
                || format!("observer of another user fds={f} {}", ["none", "observer", "observed", "both"][dropped]),
                |o| {
                    let (mut a, mut b) = (H::new(), H::new());
                    b.cmd(&format!("open {f}"));
                    b.cmd("touch 8");
                    for (i, h) in [&mut a, &mut b].into_iter().enumerate() {
                        if dropped & 1 << i != 0 && h.raw("drop") != "ok true" {
                            return Ok(()); // not possible here
                        }
                    }
                    let can = match a.raw(&format!("canfd {}", b.pid)).as_str() {
                        "ok true" => true,
                        _ => false,
                    };
                    let t0 = truth(b.pid);
                    let r = a.raw(&format!("look {}", b.pid));
                    let t1 = truth(b.pid);
                    let bytes: Vec<u8> = (0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap()).collect();
                    let got = parse_text(&bytes, "")?;
                    o.step(1);
                    o.state(format!("{can}").as_bytes());
                    compare_but(&got, &t0, &t1, 0, can)?;
                    if dropped & 2 == 0 {
                        return Ok(());
                    }
                    observe_self(&mut b, 1, o)
                },
            );
        }
    }
    forge::cases(cx);
    // D: processes that do not exist (any more), and those that were never there
    for made in 0..4 {
        cx.case(
            || format!("death after the collector was made {}", ["at start", "and used", "while a zombie", "after the end"][made]),
            |o| {
                let mut h = H::new();
                let mut p = None;
                if made <= 1 {
                    p = Some(Pair { c: ProcessCollector::new(h.pid), n: WithNamespace::new("proc", ProcessCollector::new(h.pid)) });
                }
                if made == 1 {
                    observe(p.as_ref().unwrap(), &h, o)?;
                }
                h.raw("exit");
                // a zombie: may report what is still known of it
                let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
                unsafe { libc::waitid(libc::P_PID, h.pid as u32, &mut info, libc::WEXITED | libc::WNOWAIT) };
                if made == 2 {
                    p = Some(Pair { c: ProcessCollector::new(h.pid), n: WithNamespace::new("proc", ProcessCollector::new(h.pid)) });
                }
                if let Some(p) = &p {
                    let g = parse_text(&text(&p.c), "")?;
                    o.step(1);
                    let a = truth(h.pid);
                    if let Some(v) = g.get("start_time_seconds") {
                        ensure!((v - a.start).abs() <= 1.0, "start_time_seconds", "zombie: {v}, the process started at {}", a.start);
                    }
                    for n in ["virtual_memory_bytes", "resident_memory_bytes"] {
                        ensure!(g.get(n).is_none_or(|v| *v == 0.0), n.to_string(), "zombie: {n} is {:?}", g.get(n));
                    }
                }
                let _ = h.child.wait();
                let p = p.unwrap_or_else(|| Pair { c: ProcessCollector::new(h.pid), n: WithNamespace::new("proc", ProcessCollector::new(h.pid)) });
                let b = text(&p.c);
                o.step(1);
                ensure!(b.is_empty(), "dead", "a dead process is reported: {:?}", String::from_utf8_lossy(&b));
                Ok(())
            },
        );
    }
    for pid in [0, -1, -12345, i32::MAX, i32::MIN, 5_000_000] {
        cx.case(
            || format!("pid {pid}"),
            |o| {
                let b = text(&ProcessCollector::new(pid));
                o.step(1);
                ensure!(b.is_empty(), "never", "process {pid} is reported: {:?}", String::from_utf8_lossy(&b));
                Ok(())
            },
        );
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("helper") {
        return helper();
    }
    if a.get(1).map(|s| s.as_str()) == Some("forge") {
        return forge::main();
    }
    let mut only = None;
    let mut threads = std::thread::available_parallelism().map_or(4, |n| n.get() as u64);
    let mut i = 3;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--index" => only = Some(a[i + 1].parse().unwrap()),
            "--threads" => threads = a[i + 1].parse().unwrap(),
            _ => {}
        }
        i += 2;
    }
    std::process::exit(fw::main(c21, a[2] == "thorough", threads, only, 120));
}
