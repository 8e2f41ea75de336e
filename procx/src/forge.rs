//! A process that sees a forged /proc: it moves to a user and a mount namespace of its own, covers
//! /proc by a file system in memory there, and writes the files of one process into it.
use super::*;
use std::os::unix::fs::symlink;

/// what the forged process looks like
#[derive(Clone, Debug)]
pub struct Spec {
    pub pid: i32,
    pub fds: u64,
    /// soft and hard, `None`: unlimited
    pub limit: (Option<u64>, Option<u64>),
    pub vsize: u64,
    /// in pages
    pub rss: u64,
    pub utime: u64,
    pub stime: u64,
    pub threads: u64,
    pub start: u64,
    pub btime: u64,
    pub comm: Vec<u8>,
    pub state: char,
    /// bits: fd, limits, stat; 8: there is no such process
    pub missing: u8,
}
impl Spec {
    pub fn base() -> Spec {
        Spec { pid: 4242, fds: 3, limit: (Some(1024), Some(4096)), vsize: 123 << 12, rss: 45, utime: 678, stime: 912, threads: 5, start: 123456, btime: 1_700_000_000, comm: b"forged".to_vec(), state: 'S', missing: 0 }
    }
    fn line(&self) -> String {
        let l = |x: Option<u64>| x.map_or("-".to_string(), |x| x.to_string());
        let comm: String = self.comm.iter().map(|b| format!("{b:02x}")).collect();
        format!("{} {} {} {} {} {} {} {} {} {} {} x{} {} {}", self.pid, self.fds, l(self.limit.0), l(self.limit.1), self.vsize, self.rss, self.utime, self.stime, self.threads, self.start, self.btime, comm, self.state, self.missing)
    }
    fn parse(w: &[&str]) -> Spec {
        let n = |i: usize| w[i].parse::<u64>().unwrap();
        let l = |i: usize| w[i].parse::<u64>().ok();
        Spec { pid: w[0].parse().unwrap(), fds: n(1), limit: (l(2), l(3)), vsize: n(4), rss: n(5), utime: n(6), stime: n(7), threads: n(8), start: n(9), btime: n(10), comm: unhex(&w[11][1..]), state: w[12].chars().next().unwrap(), missing: n(13) as u8 }
    }
    pub fn truth(&self) -> Truth {
        let (tck, page) = unsafe { (libc::sysconf(libc::_SC_CLK_TCK), libc::sysconf(libc::_SC_PAGESIZE)) };
        Truth { fds: self.fds as i64, max: self.limit.0, vsize: self.vsize as i64, rss: self.rss as i64 * page, ticks: (self.utime + self.stime) as i64 * 1000 / tck, threads: self.threads as i64, start: self.btime as f64 + self.start as f64 / tck as f64 }
    }
}
pub fn unhex(r: &str) -> Vec<u8> {
    (0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap()).collect()
}

// ---------------------------------------------------------------- within the namespace
fn mount(src: &str, dst: &str, kind: &str, flags: u64) -> bool {
    let c = |s: &str| std::ffi::CString::new(s).unwrap();
    let (s, d, k) = (c(src), c(dst), c(kind));
    unsafe { libc::mount(s.as_ptr(), d.as_ptr(), k.as_ptr(), flags, std::ptr::null()) == 0 }
}
fn enter() -> bool {
    let (u, g) = unsafe { (libc::getuid(), libc::getgid()) };
    if unsafe { libc::unshare(libc::CLONE_NEWUSER | libc::CLONE_NEWNS) } != 0 {
        return false;
    }
    std::fs::write("/proc/self/setgroups", "deny").is_ok()
        && std::fs::write("/proc/self/uid_map", format!("0 {u} 1")).is_ok()
        && std::fs::write("/proc/self/gid_map", format!("0 {g} 1")).is_ok()
        && mount("none", "/", "", libc::MS_REC | libc::MS_PRIVATE)
        && mount("none", "/tmp", "tmpfs", 0)
        && std::fs::create_dir("/tmp/real").is_ok()
        && mount("/proc", "/tmp/real", "", libc::MS_BIND | libc::MS_REC)
        && mount("none", "/proc", "tmpfs", 0)
        && symlink("/tmp/real/sys", "/proc/sys").is_ok()
        && symlink("/tmp/real/uptime", "/proc/uptime").is_ok()
        && symlink("/tmp/real/meminfo", "/proc/meminfo").is_ok()
}
struct Sleeper(i32);
impl Sleeper {
    /// a process with exactly that many descriptors
    fn new(fds: u64) -> Sleeper {
        let mut p = [0; 2];
        unsafe {
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                for fd in 0..256 {
                    if fd != p[1] {
                        libc::close(fd);
                    }
                }
                // keep /dev/null in as many places as asked for
                for _ in 0..fds {
                    libc::open(b"/dev/null\0".as_ptr().cast(), libc::O_RDONLY);
                }
                libc::write(p[1], b"x".as_ptr().cast(), 1);
                libc::close(p[1]);
                loop {
                    libc::pause();
                }
            }
            libc::close(p[1]);
            let mut b = [0u8; 2];
            // until it has closed its end
            while libc::read(p[0], b.as_mut_ptr().cast(), 2) > 0 {}
            libc::close(p[0]);
            Sleeper(pid)
        }
    }
}
impl Drop for Sleeper {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.0, libc::SIGKILL);
            libc::waitpid(self.0, std::ptr::null_mut(), 0);
        }
    }
}
fn lay(s: &Spec, sleeper: i32) {
    let w = |p: String, b: &[u8]| std::fs::write(p, b).unwrap();
    let page = unsafe { libc::sysconf(libc::_SC_PAGESIZE) } as u64;
    let mut st = String::new();
    for l in std::fs::read_to_string("/tmp/real/stat").unwrap().lines() {
        if l.starts_with("btime ") {
            st += &format!("btime {}\n", s.btime);
        } else {
            st += l;
            st.push('\n');
        }
    }
    w("/proc/stat".into(), st.as_bytes());
    let d = format!("/proc/{}", s.pid);
    let _ = std::fs::remove_dir_all(&d);
    if s.missing & 8 != 0 {
        return;
    }
    std::fs::create_dir(&d).unwrap();
    if s.missing & 1 == 0 {
        symlink(format!("/tmp/real/{sleeper}/fd"), format!("{d}/fd")).unwrap();
        symlink(format!("/tmp/real/{sleeper}/fdinfo"), format!("{d}/fdinfo")).unwrap();
    }
    if s.missing & 2 == 0 {
        let mut o = String::new();
        let v = |x: Option<u64>| x.map_or("unlimited".into(), |x| x.to_string());
        for l in std::fs::read_to_string("/tmp/real/self/limits").unwrap().lines() {
            if l.starts_with("Max open files") {
                o += &format!("{:<26}{:<21}{:<21}files     \n", "Max open files", v(s.limit.0), v(s.limit.1));
            } else {
                o += l;
                o.push('\n');
            }
        }
        w(format!("{d}/limits"), o.as_bytes());
    }
    if s.missing & 4 == 0 {
        let mut f: Vec<i128> = (4..=52).map(|n| 900_000 + n).collect();
        let mut set = |n: usize, v: u64| f[n - 4] = v as i128;
        set(4, 1);
        set(7, 0);
        set(8, 0);
        f[8 - 4] = -1;
        let mut set = |n: usize, v: u64| f[n - 4] = v as i128;
        set(14, s.utime);
        set(15, s.stime);
        set(18, 20);
        set(19, 0);
        set(20, s.threads);
        set(22, s.start);
        set(23, s.vsize);
        set(24, s.rss);
        set(25, u64::MAX);
        set(38, 17);
        set(39, 3);
        set(40, 0);
        set(41, 0);
        set(52, 0);
        let mut o = format!("{} (", s.pid).into_bytes();
        o.extend_from_slice(&s.comm);
        o.extend_from_slice(format!(") {}", s.state).as_bytes());
        for x in &f {
            o.extend_from_slice(format!(" {x}").as_bytes());
        }
        o.push(b'\n');
        w(format!("{d}/stat"), &o);
        w(format!("{d}/statm"), format!("{} {} 7 8 0 9 0\n", s.vsize / page, s.rss).as_bytes());
        let mut o = b"Name:\t".to_vec();
        o.extend_from_slice(&s.comm);
        o.extend_from_slice(format!("\nUmask:\t0022\nState:\t{} (sleeping)\nTgid:\t{}\nNgid:\t0\nPid:\t{}\nPPid:\t1\nTracerPid:\t0\nUid:\t0\t0\t0\t0\nGid:\t0\t0\t0\t0\nFDSize:\t64\nGroups:\t\nVmPeak:\t{} kB\nVmSize:\t{} kB\nVmHWM:\t{} kB\nVmRSS:\t{} kB\nThreads:\t{}\n", s.state, s.pid, s.pid, s.vsize / 1024, s.vsize / 1024, s.rss * page / 1024, s.rss * page / 1024, s.threads).as_bytes());
        w(format!("{d}/status"), &o);
        let mut o = s.comm.clone();
        o.push(b'\n');
        w(format!("{d}/comm"), &o);
        if s.threads <= 300 {
            for t in 0..s.threads {
                std::fs::create_dir_all(format!("{d}/task/{}", s.pid as u64 + t)).unwrap();
            }
        }
    }
}
pub fn main() {
    if !enter() {
        println!("unavailable");
        return;
    }
    println!("ready");
    let mut sleeper: Option<(u64, Sleeper)> = None;
    let mut made: Option<Pair> = None;
    for line in std::io::stdin().lines() {
        let Ok(line) = line else { return };
        let w: Vec<&str> = line.split_whitespace().collect();
        let hex = |b: Vec<u8>| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        let r = fw::guarded(|| match w[0] {
            "lay" => {
                let s = Spec::parse(&w[1..]);
                if sleeper.as_ref().map(|x| x.0) != Some(s.fds) {
                    sleeper = Some((s.fds, Sleeper::new(s.fds)));
                }
                lay(&s, sleeper.as_ref().unwrap().1 .0);
                // can the descriptors be counted by listing them?
                format!("ok {}", std::fs::read_dir(format!("/proc/{}/fd", s.pid)).is_ok())
            }
            "make" => {
                let pid: i32 = w[1].parse().unwrap();
                made = Some(Pair { c: ProcessCollector::new(pid), n: WithNamespace::new("proc", ProcessCollector::new(pid)) });
                "ok".into()
            }
            "collect" => {
                let p = made.as_ref().unwrap();
                let mut out = vec![];
                for k in 0..3 {
                    match bytes(p, k) {
                        Ok(b) => out.push(format!("x{}", hex(b))),
                        Err(e) => out.push(format!("e{}", hex(e.into_bytes()))),
                    }
                }
                out.join(" ")
            }
            _ => panic!(),
        });
        println!("{}", r.unwrap_or_else(|m| format!("panic {}", hex(m.into_bytes()))));
    }
}

// ---------------------------------------------------------------- seen from outside
pub struct Forger {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
    pub ok: bool,
}
impl Drop for Forger {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Forger {
    pub fn new() -> Forger {
        let mut child = Command::new("/proc/self/exe").arg("forge").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("forger");
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        let mut f = Forger { child, tx, rx, ok: false };
        let mut l = String::new();
        f.rx.read_line(&mut l).unwrap();
        f.ok = l.trim() == "ready";
        f
    }
    fn ask(&mut self, s: &str) -> Result<String, fw::Fail> {
        writeln!(self.tx, "{s}").expect("the forger is gone");
        let mut l = String::new();
        self.rx.read_line(&mut l).unwrap();
        let l = l.trim().to_string();
        if let Some(m) = l.strip_prefix("panic ") {
            return Err(fail("panic", String::from_utf8_lossy(&unhex(m)).into_owned()));
        }
        if l.is_empty() {
            println!("ENGINE-ERROR the forger died on {s}");
            std::process::exit(2);
        }
        Ok(l)
    }
    pub fn make(&mut self, pid: i32) -> Res {
        self.ask(&format!("make {pid}")).map(|_| ())
    }
    /// lays out the process; answers whether its descriptors can be listed
    pub fn lay(&mut self, s: &Spec) -> Result<bool, fw::Fail> {
        Ok(self.ask(&format!("lay {}", s.line()))? == "ok true")
    }
    /// three scrapes of what was laid, against what it was; `start`: when the process started, if that
    /// could be known when the collector was made
    pub fn judge(&mut self, s: &Spec, listed: bool, start: Option<f64>, o: &mut Obs) -> Res {
        let r = self.ask("collect")?;
        for (k, w) in r.split(' ').enumerate() {
            let b = unhex(&w[1..]);
            let b = match &w[..1] {
                "x" => b,
                _ => return Err(fail("error", format!("collection of {s:?} failed with {}", String::from_utf8_lossy(&b)))),
            };
            let mut got = match k {
                0 => parse_text(&b, "")?,
                1 => parse_text(&b, "proc_")?,
                _ => parse_proto(&b, "")?,
            };
            o.step(1);
            if s.missing & 8 != 0 {
                ensure!(got.is_empty(), "dead", "a process that is not there is reported: {got:?}");
                continue;
            }
            let t = s.truth();
            // a source that is not there leaves its figures out, and no others
            // a process without `stat` is about to go: what is still known of it may be left out
            if s.missing & 4 != 0 {
                for (n, v) in [("open_fds", Some(t.fds as f64)), ("max_fds", t.max.map(|m| m as f64)), ("start_time_seconds", start)] {
                    if let (Some(v), false) = (v, got.contains_key(n)) {
                        got.insert(n, v);
                    }
                }
            }
            let mut put = |n: &'static str, v: f64| -> Res {
                ensure!(!got.contains_key(n) || s.missing & 4 != 0, n.to_string(), "{n} is {:?}, which nobody knows", got.get(n));
                got.insert(n, v);
                Ok(())
            };
            if s.missing & 1 != 0 {
                put("open_fds", t.fds as f64)?;
            }
            if let (Some(m), true) = (t.max, s.missing & 2 != 0) {
                put("max_fds", m as f64)?;
            }
            if s.missing & 4 != 0 {
                put("virtual_memory_bytes", t.vsize as f64)?;
                put("resident_memory_bytes", t.rss as f64)?;
                put("cpu_seconds_total", t.ticks as f64 / 1e3)?;
                put("threads", t.threads as f64)?;
            }
            if start.is_none() {
                put("start_time_seconds", t.start)?;
            }
            let t = Truth { start: start.unwrap_or(t.start), ..t };
            compare_but(&got, &t, &t, 0, listed).map_err(|f| fail(&f.key, format!("{} ({s:?})", f.msg)))?;
        }
        Ok(())
    }
}

pub fn cases(cx: &mut Cx) {
    let th = cx.thorough;
    if !Forger::new().ok {
        cx.note("forged", 0);
        return;
    }
    cx.note("forged", 1);
    let one = |cx: &mut Cx, name: String, specs: Vec<Spec>| {
        cx.case(
            || format!("forged {name}"),
            |o| {
                let mut f = Forger::new();
                for s in &specs {
                    let l = f.lay(s)?;
                    f.make(s.pid)?;
                    let start = (s.missing & 12 == 0).then(|| s.truth().start);
                    f.judge(s, l, start, o)?;
                }
                Ok(())
            },
        );
    };
    let base = Spec::base();
    // descriptors and their limit
    let lims: Vec<Option<u64>> = [0, 1, 9, 1023, 1024, 32768, 65535, 65536, 65537, 1 << 20, 1073741816, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 53].map(Some).into_iter().chain([None]).collect();
    for fds in [0, 1, 2, 3, 64, 200] {
        let mut v = vec![];
        for &soft in &lims {
            for &hard in &lims {
                if hard.is_none_or(|h| soft.is_some_and(|s| s <= h)) {
                    v.push(Spec { fds, limit: (soft, hard), ..base.clone() });
                }
            }
        }
        one(cx, format!("fds={fds} and all limits"), v);
    }
    // memory and threads
    for vsize in [0, 4096, (1 << 31) - 4096, 1 << 31, (1 << 32) - 4096, 1 << 32, (1 << 32) + 4096, (1 << 41) + 4096, (1 << 47) - 4096, 1 << 56] {
        let mut v = vec![];
        for rss in [0, 1, (1 << 19) - 1, 1 << 19, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 31) - 1, 1 << 31, 1 << 32, 1 << 35, 1 << 41] {
            for threads in [1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 4_194_304] {
                v.push(Spec { vsize, rss, threads, ..base.clone() });
            }
        }
        one(cx, format!("vsize={vsize} and all resident sizes and threads"), v);
    }
    // times
    let ticks: Vec<u64> = if th { vec![0, 1, 49, 50, 99, 100, 101, 150, 199, 200, 9999, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 50] } else { vec![0, 1, 99, 100, 150, (1 << 31) - 1, 1 << 32, 1 << 40] };
    for btime in [0, 1, 1_795_054_855, (1 << 31) - 1, 1 << 31, (1 << 32) + 7] {
        for start in [0, 1, 99, 100, 150, 1 << 31, (1 << 32) + 1, 1 << 40] {
            let mut v = vec![];
            for &utime in &ticks {
                for &stime in &ticks {
                    v.push(Spec { utime, stime, btime, start, ..base.clone() });
                }
            }
            one(cx, format!("btime={btime} start={start} and all CPU times"), v);
        }
    }
    // what cannot be read, names and states
    let names: [&[u8]; 9] = [b"", b"x", b"a b", b")", b"(", b"a) S 9 9 (b", b"fifteen-letters", b"\xff\xfe", b"\n) R 1"];
    for missing in 0..8u8 {
        let mut v = vec![];
        for name in names {
            for state in ['R', 'S', 'D', 'T', 't', 'Z', 'X', 'I', 'P'] {
                for pid in [1, 4242, i32::MAX] {
                    for fds in [0, 3] {
                        v.push(Spec { missing, pid, fds, comm: name.to_vec(), state, ..base.clone() });
                    }
                }
            }
        }
        one(cx, format!("without {missing} in all names and states"), v);
    }
    // one collector, a process that changes
    let a = [
        base.clone(),
        Spec { fds: 0, limit: (None, None), threads: 1, ..base.clone() },
        Spec { vsize: 1 << 41, rss: 1 << 21, utime: 5000, stime: 0, comm: b"other )".to_vec(), ..base.clone() },
        Spec { missing: 1, ..base.clone() },
        Spec { missing: 2, ..base.clone() },
        Spec { missing: 4, ..base.clone() },
        Spec { missing: 7, ..base.clone() },
        Spec { missing: 8, ..base.clone() },
        Spec { limit: (Some(9), Some(9)), state: 'Z', vsize: 0, rss: 0, ..base.clone() },
    ];
    let depth = if th { 4 } else { 3 };
    Cx::seqs(a.len(), depth, |s| {
        // once a process is gone another one may have its number, which is another story
        let gone = s.iter().position(|i| a[*i].missing == 8);
        if s.is_empty() || gone.is_some_and(|g| g + 1 != s.len()) {
            return;
        }
        let s = s.to_vec();
        cx.case(
            || format!("forged history {s:?}"),
            |o| {
                let mut f = Forger::new();
                let mut start = None;
                for (k, i) in s.iter().enumerate() {
                    let l = f.lay(&a[*i])?;
                    if k == 0 {
                        f.make(a[*i].pid)?;
                        start = (a[*i].missing & 12 == 0).then(|| a[*i].truth().start);
                    }
                    f.judge(&a[*i], l, start, o)?;
                }
                Ok(())
            },
        );
    });
}
