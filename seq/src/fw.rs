//! Enumeration framework: numbered cases, panics turned into failures, statistics, watchdog.
//! Every worker thread walks the same enumeration and runs the cases whose number is its own modulo the
//! number of workers, so a case is identified by its number alone and can be re-run by itself.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Arc;
use std::time::Instant;

pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail(key: &str, msg: impl Into<String>) -> Fail {
    Fail { key: key.to_string(), msg: msg.into() }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $k:expr, $($f:tt)*) => { if !($c) { return Err($crate::fw::fail(&$k, format!($($f)*))); } };
}

pub struct Slot {
    pub idx: AtomicU64,
}
#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub steps: u64,
    pub total: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// key -> (first case number, case id, message, how many cases)
    pub viol: BTreeMap<String, (u64, String, String, u64)>,
    pub notes: BTreeMap<String, u64>,
}
pub struct Cx {
    pub thorough: bool,
    t: u64,
    n: u64,
    next: u64,
    only: Option<u64>,
    upto: u64,
    pub st: Stats,
    slot: Arc<Slot>,
}
pub struct Obs {
    pub steps: u64,
    state: Option<u64>,
    show: Option<String>,
    want: bool,
}
impl Obs {
    pub fn step(&mut self, n: usize) {
        self.steps += n as u64;
    }
    /// what was observed in this case, for counting distinct outcomes
    pub fn state(&mut self, bytes: &[u8]) {
        self.state = Some(hash(bytes) ^ self.state.unwrap_or(0).rotate_left(7));
    }
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.want && self.show.is_none() {
            self.show = Some(f());
        }
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    static CUR: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// the case this thread is running, also to be told to a thread that works for it
pub fn current_case() -> u64 {
    CUR.get()
}
pub fn set_current_case(i: u64) {
    CUR.set(i)
}

/// run f; Err(message) if it panics
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

impl Cx {
    pub fn case(&mut self, id: impl Fn() -> String, f: impl FnOnce(&mut Obs) -> Res) {
        let i = self.next;
        self.next += 1;
        match self.only {
            Some(k) if k != i => return,
            None if i % self.n != self.t || i > self.upto => return,
            _ => {}
        }
        CUR.with(|c| c.set(i));
        self.slot.idx.store(i, Release);
        let mut o = Obs { steps: 0, state: None, show: None, want: (i / self.n).is_power_of_two() };
        let r = match guarded(|| f(&mut o)) {
            Ok(r) => r,
            Err(m) => Err(fail("panic", format!("unexpected panic: {m}"))),
        };
        self.slot.idx.store(u64::MAX, Release);
        CUR.with(|c| c.set(u64::MAX));
        self.st.cases += 1;
        self.st.steps += o.steps.max(1);
        if let Some(s) = o.state {
            if self.st.distinct.len() < 3_000_000 {
                self.st.distinct.insert(s);
            }
        }
        if o.want {
            let s = match o.show {
                Some(x) => format!("{} => {}", id(), x),
                None => id(),
            };
            self.st.samples.push(s.chars().take(400).collect());
        }
        if self.only.is_some() {
            println!("case {} : {}", i, id());
            match &r {
                Ok(()) => println!("held"),
                Err(e) => println!("failed: {}: {}", e.key, e.msg),
            }
        }
        if let Err(e) = r {
            let v = self.st.viol.entry(e.key).or_insert_with(|| (i, id(), e.msg, 0));
            v.3 += 1;
        }
    }
    pub fn note(&mut self, k: &str, n: u64) {
        self.st.notes.insert(k.to_string(), n);
    }
    /// all sequences over 0..k with length in lens, in order of length
    pub fn seqs(k: usize, max: usize, mut f: impl FnMut(&[usize])) {
        for len in 0..=max {
            let mut s = vec![0usize; len];
            'outer: loop {
                f(&s);
                for i in (0..len).rev() {
                    s[i] += 1;
                    if s[i] < k {
                        continue 'outer;
                    }
                    s[i] = 0;
                }
                break;
            }
        }
    }
}

extern "C" fn on_signal(sig: libc::c_int) {
    let i = CUR.try_with(|c| c.get()).unwrap_or(u64::MAX);
    let s = format!("\nCRASH\t{}\t{}\n", sig, i);
    unsafe {
        libc::write(1, s.as_ptr() as *const _, s.len());
        libc::_exit(70);
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(run: fn(&mut Cx), thorough: bool, threads: u64, only: Option<u64>, hang_s: u64) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let upto: Option<u64> = a.iter().position(|x| x == "--upto").map(|i| a[i + 1].parse().unwrap());
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = format!("{m} at {l}"));
    }));
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
        unsafe { libc::signal(s, on_signal as *const () as usize) };
    }
    let n = if only.is_some() { 1 } else { threads };
    let start = Instant::now();
    let slots: Vec<Arc<Slot>> = (0..n).map(|_| Arc::new(Slot { idx: AtomicU64::new(u64::MAX) })).collect();
    {
        let slots = slots.clone();
        std::thread::spawn(move || {
            // counted in wake-ups of this thread, not in seconds: the whole machine may be suspended for a while
            let mut seen: Vec<(u64, u64)> = vec![(u64::MAX, 0); slots.len()];
            loop {
                std::thread::sleep(std::time::Duration::from_millis(250));
                for (s, (last, ticks)) in slots.iter().zip(&mut seen) {
                    let i = s.idx.load(Acquire);
                    if i != *last || i == u64::MAX {
                        *last = i;
                        *ticks = 0;
                        continue;
                    }
                    *ticks += 1;
                    if *ticks >= hang_s * 4 {
                        println!("\nCRASH\thang\t{}", i);
                        std::process::exit(70);
                    }
                }
            }
        });
    }
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let slot = slots[t as usize].clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut cx = Cx { thorough, t, n, next: 0, only, upto: upto.unwrap_or(u64::MAX), st: Stats::default(), slot };
                    run(&mut cx);
                    cx.st.total = cx.next;
                    cx.st
                })
                .unwrap()
        })
        .collect();
    let mut all = Stats::default();
    for h in hs {
        let s = match h.join() {
            Ok(s) => s,
            Err(_) => {
                println!("ENGINE-ERROR the enumeration itself panicked");
                return 2;
            }
        };
        all.cases += s.cases;
        all.steps += s.steps;
        if all.total != 0 && all.total != s.total {
            println!("ENGINE-ERROR the workers enumerated different numbers of cases");
            return 2;
        }
        all.total = s.total;
        all.distinct.extend(s.distinct);
        all.samples.extend(s.samples);
        all.notes.extend(s.notes);
        for (k, v) in s.viol {
            match all.viol.entry(k) {
                std::collections::btree_map::Entry::Vacant(e) => {
                    e.insert(v);
                }
                std::collections::btree_map::Entry::Occupied(mut e) => {
                    let c = e.get().3 + v.3;
                    if v.0 < e.get().0 {
                        e.insert(v);
                    }
                    e.get_mut().3 = c;
                }
            }
        }
    }
    all.samples.sort_by_key(|s| hash(s.as_bytes()));
    all.samples.truncate(6);
    for (k, v) in &all.viol {
        println!("VIOL {{\"key\":{},\"idx\":{},\"id\":{},\"msg\":{},\"count\":{}}}", esc(k), v.0, esc(&v.1), esc(&v.2), v.3);
    }
    let notes: Vec<String> = all.notes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    println!(
        "STAT {{\"cases\":{},\"total\":{},\"steps\":{},\"distinct\":{},\"samples\":[{}],\"notes\":{{{}}},\"seconds\":{:.2}}}",
        all.cases,
        all.total,
        all.steps,
        all.distinct.len(),
        all.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        notes.join(","),
        start.elapsed().as_secs_f64()
    );
    if all.viol.is_empty() {
        0
    } else {
        1
    }
}
