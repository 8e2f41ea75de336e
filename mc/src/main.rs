//! Harnesses for the stateless model checker (see rt/mcrt.c).
mod lin;
#[path = "../../seq/src/pb.rs"]
#[allow(dead_code)]
mod pb;
mod programs;
mod world;

use std::alloc::{GlobalAlloc, Layout};
use std::ffi::{c_char, c_int, CString};
use std::panic::AssertUnwindSafe;

extern "C" {
    fn mc_alloc(size: usize, align: usize) -> *mut u8;
    fn mc_dealloc(p: *mut u8, n: usize);
    fn mc_now() -> u64;
    fn mc_fail(msg: *const c_char);
    fn mc_init();
    fn mc_region(on: c_int);
    fn mc_prog() -> c_int;
    fn mc_param_ncpu(n: c_int) -> u64;
    #[allow(clippy::too_many_arguments)]
    fn mc_explore(
        prog: c_int, harness: *const c_char, nthreads: c_int, bound: c_int, time_s: f64, track: c_int,
        horizon: u64, clock_step: u64, replay_path: *const c_char, replay: *const c_int, nreplay: c_int,
    ) -> std::ffi::c_long;
    #[allow(clippy::too_many_arguments)]
    fn mc_periodic(prog: c_int, harness: *const c_char, nthreads: c_int, period: c_int, time_s: f64, track: c_int, horizon: u64, clock_step: u64, replay_path: *const c_char) -> std::ffi::c_long;
    fn mc_wall() -> f64;
}

/// Bump allocation only: memory is never reused within one execution, so that a use after free
/// is always seen by the shadow memory.
struct Arena;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mc_alloc(l.size(), l.align())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = mc_alloc(l.size(), l.align());
        std::ptr::write_bytes(p, 0, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        mc_dealloc(p, l.size())
    }
}
#[global_allocator]
static A: Arena = Arena;

pub fn now() -> u64 {
    unsafe { mc_now() }
}

pub struct Exec {
    pub world: world::World,
    pub recs: [Vec<world::Rec>; 4],
}

static mut PROGRAMS: *const Vec<programs::Program> = std::ptr::null();
/// off: only termination, races and crashes are judged
static mut ORACLE: bool = true;
static mut EXEC: *mut Exec = std::ptr::null_mut();
static mut PANIC_MSG: *mut String = std::ptr::null_mut();

fn program() -> &'static programs::Program {
    unsafe { let v: &Vec<programs::Program> = &*PROGRAMS; &v[mc_prog() as usize] }
}

#[no_mangle]
extern "C" fn mch_warm(_tid: c_int) {
    // per-thread data of parking_lot and std, so that it is not created during executions
    unsafe {
        parking_lot_core::park(1, || false, || {}, |_, _| {}, parking_lot_core::DEFAULT_PARK_TOKEN, None);
    }
    let _ = std::thread::current();
}

#[no_mangle]
extern "C" fn mch_setup() {
    let p = program();
    let e = Exec { world: world::World::new(p), recs: [Vec::with_capacity(64), Vec::with_capacity(64), Vec::with_capacity(64), Vec::with_capacity(64)] };
    unsafe { EXEC = Box::into_raw(Box::new(e)) };
}

#[no_mangle]
extern "C" fn mch_thread(tid: c_int) {
    let p = program();
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| unsafe {
        let e = EXEC;
        let w: &world::World = &(*e).world;
        let recs: *mut Vec<world::Rec> = &mut (*e).recs[tid as usize];
        for op in &p.threads[tid as usize] {
            let call = now();
            let res = w.run(op);
            let ret = now();
            (*recs).push(world::Rec { op: op.clone(), call, ret, res });
        }
    }));
    if r.is_err() {
        let m = unsafe { if PANIC_MSG.is_null() { "panic".to_string() } else { (*PANIC_MSG).clone() } };
        let c = CString::new(format!("thread {tid} panicked: {m}")).unwrap();
        unsafe {
            if ORACLE {
                mc_fail(c.as_ptr())
            }
        };
    }
}

#[no_mangle]
extern "C" fn mch_finish(outcome: *mut u64, msg: *mut c_char, len: usize) -> c_int {
    if unsafe { !ORACLE } {
        return 0;
    }
    let p = program();
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| unsafe { lin::check(p, &mut *EXEC) }));
    let m = match r {
        Ok(Ok(o)) => {
            unsafe { *outcome = o };
            return 0;
        }
        Ok(Err(m)) => m,
        Err(_) => unsafe { format!("panic while checking: {}", if PANIC_MSG.is_null() { "?".to_string() } else { (*PANIC_MSG).clone() }) },
    };
    let b = m.as_bytes();
    let n = b.len().min(len - 1);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), msg as *mut u8, n);
        *msg.add(n) = 0;
    }
    1
}

fn main() {
    std::panic::set_hook(Box::new(|i| unsafe {
        PANIC_MSG = Box::into_raw(Box::new(format!("{i}").replace('\n', " ")));
    }));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let set = get("--set").expect("--set");
    let tier = get("--tier").unwrap_or("quick".into());
    let replay_dir = get("--replay-dir").unwrap_or("/tmp".into());
    unsafe { mc_region(1) };
    let progs = Box::leak(Box::new(programs::programs(&set, &tier)));
    unsafe { PROGRAMS = progs };
    let names: Vec<CString> = progs.iter().map(|p| CString::new(p.name.clone()).unwrap()).collect();
    let paths: Vec<CString> = progs.iter().map(|p| CString::new(format!("{replay_dir}/{}.sched", p.name)).unwrap()).collect();
    unsafe { mc_region(0) };
    if args.iter().any(|a| a == "--list") {
        for p in progs.iter() {
            println!("{}", p.name);
        }
        return;
    }
    let shard: (usize, usize) = get("--shard").map_or((0, 1), |s| {
        let (a, b) = s.split_once('/').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    });
    let only = get("--program");
    let bound: Option<i32> = get("--bound").map(|b| b.parse().unwrap());
    let time: f64 = get("--time").map_or(10.0, |b| b.parse().unwrap());
    let deadline: f64 = get("--deadline").map_or(600.0, |b| b.parse().unwrap());
    unsafe { ORACLE = !args.iter().any(|a| a == "--no-oracle") };
    let track = get("--track").map_or(0, |b| b.parse().unwrap());
    let replay: Option<Vec<c_int>> = get("--replay").map(|f| {
        let t = std::fs::read_to_string(f).unwrap();
        let l = t.lines().find(|l| l.starts_with("choices")).unwrap();
        l.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect()
    });
    let no_path = replay.is_some();
    // ncpu decides the number of shards, which the library computes once per process
    let ncpu: i32 = get("--ncpu").map_or(1, |b| b.parse().unwrap());
    unsafe {
        mc_param_ncpu(ncpu);
        if !set.starts_with("global") {
            world::warm_globals();
        }
        mc_init();
    }
    let maxb = progs.iter().map(|p| p.bound).max().unwrap_or(0);
    let maxb = bound.map_or(maxb, |b| b.min(maxb));
    unsafe { mc_region(1) };
    let mut done = vec![false; progs.len()];
    unsafe { mc_region(0) };
    let t0 = unsafe { mc_wall() };
    let (rp, rn) = replay.as_ref().map_or((std::ptr::null(), 0), |r| (r.as_ptr(), r.len() as c_int));
    // all programs with bound 0, then all with bound 1, ...
    for b in 0..=maxb {
        for i in 0..progs.len() {
            let p = &progs[i];
            if only.as_ref().map_or(i % shard.1 != shard.0, |o| *o != p.name) || b > p.bound || done[i] {
                continue;
            }
            let left = deadline - (unsafe { mc_wall() } - t0);
            if left <= 0.0 {
                continue;
            }
            let r = unsafe {
                mc_explore(
                    i as c_int, names[i].as_ptr(), p.threads.len() as c_int, b, time.min(left), track, 30000, p.clock_step,
                    if no_path { std::ptr::null() } else { paths[i].as_ptr() }, rp, rn,
                )
            };
            if no_path {
                return;
            }
            done[i] = r != 0;
        }
        // after the shallowest bound: the periodic schedules
        for (i, p) in progs.iter().enumerate() {
            let left = deadline - (unsafe { mc_wall() } - t0);
            if b > 0 || p.period == 0 || only.as_ref().map_or(i % shard.1 != shard.0, |o| *o != p.name) || left <= 0.0 {
                continue;
            }
            unsafe { mc_periodic(i as c_int, names[i].as_ptr(), p.threads.len() as c_int, p.period as c_int, (time * 2.0).min(left), track, 30000, p.clock_step, paths[i].as_ptr()) };
        }
    }
}
