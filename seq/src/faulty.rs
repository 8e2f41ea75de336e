//! a writer that fails as it is told, the ways in which it can, and the enumeration of them for a metric group
#[allow(unused_imports)]
use crate::ensure;
use crate::fw::*;
use std::io::{self, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the n-th write call fails (once, or it and all later ones)
    Call(usize, bool),
    /// accepts n bytes in all, then fails
    Byte(usize, bool),
    /// the n-th write call accepts nothing and says so
    Zero(usize),
    /// the n-th write call is interrupted
    Interrupt(usize),
    /// every other write call is interrupted
    Interrupts,
    /// no call accepts more than n bytes
    Short(usize),
    /// only the n-th call is short: one byte
    ShortOnce(usize),
    /// flush fails
    Flush,
    /// two calls fail
    Two(usize, usize),
    None,
}
pub struct W {
    pub out: Vec<u8>,
    pub fault: Fault,
    pub calls: usize,
    pub flushes: usize,
    pub failed: usize,
    /// everything in `out` up to the first failure
    pub at_fail: Option<usize>,
    /// the last error given out
    pub kind: Option<io::ErrorKind>,
}
const ERRORS: [io::ErrorKind; 8] = [
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WriteZero,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
];
impl W {
    pub fn new(fault: Fault) -> W {
        W { out: vec![], fault, calls: 0, flushes: 0, failed: 0, at_fail: None, kind: None }
    }
    fn fail(&mut self) -> io::Result<usize> {
        self.failed += 1;
        self.at_fail.get_or_insert(self.out.len());
        let k = match self.fault {
            Fault::Call(k, _) | Fault::Byte(k, _) | Fault::Two(k, _) => ERRORS[k % ERRORS.len()],
            _ => io::ErrorKind::Other,
        };
        self.kind = Some(k);
        Err(io::Error::new(k, "injected"))
    }
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        match self.fault {
            Fault::Call(k, perm) if c == k || (perm && c > k) => return self.fail(),
            Fault::Two(i, j) if c == i || c == j => return self.fail(),
            Fault::Byte(k, perm) => {
                if self.out.len() >= k {
                    if perm || self.failed == 0 {
                        return self.fail();
                    }
                } else if self.failed == 0 {
                    n = n.min(k - self.out.len());
                }
            }
            Fault::Zero(k) if c == k => {
                self.failed += 1;
                self.at_fail.get_or_insert(self.out.len());
                self.kind = None;
                return Ok(0);
            }
            Fault::Interrupt(k) if c == k => return Err(io::ErrorKind::Interrupted.into()),
            Fault::Interrupts if c % 2 == 0 => return Err(io::ErrorKind::Interrupted.into()),
            Fault::Short(k) => n = n.min(k),
            Fault::ShortOnce(k) if c == k => n = 1,
            _ => {}
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.fault == Fault::Flush {
            self.failed += 1;
            self.kind = Some(io::ErrorKind::Other);
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        Ok(())
    }
}
/// `calls` and `bytes` are too many to try all: those around powers of two, at the ends, and a grid
pub fn sparse_faults(calls: usize, bytes: usize) -> Vec<Fault> {
    let near = |n: usize, step: usize| {
        let mut v: Vec<usize> = (0..40.min(n)).chain(n.saturating_sub(40)..n).chain((0..n).step_by(step)).collect();
        v.extend((3..).map(|k| 1usize << k).take_while(|p| *p <= n + 1).flat_map(|p| [p - 2, p - 1, p, p + 1]).filter(|p| *p < n));
        v.sort();
        v.dedup();
        v
    };
    let mut v = vec![Fault::None, Fault::Flush, Fault::Interrupts];
    for k in near(calls, (calls / 150).max(1)) {
        v.extend([Fault::Call(k, false), Fault::Call(k, true), Fault::Zero(k), Fault::Interrupt(k), Fault::ShortOnce(k)]);
    }
    for k in near(bytes, (bytes / 150).max(1)) {
        v.extend([Fault::Byte(k, false), Fault::Byte(k, true)]);
    }
    v.extend([1, 2, 3, 5, 7, 16, 64, 1023, 4096, 8191, 8192].map(Fault::Short));
    v
}
/// all faults worth distinguishing for a fault-free run of `calls` write calls and `bytes` bytes
pub fn faults(calls: usize, bytes: usize, pairs: bool) -> Vec<Fault> {
    let mut v = vec![Fault::None, Fault::Flush, Fault::Interrupts];
    for k in 0..calls {
        v.extend([Fault::Call(k, false), Fault::Call(k, true), Fault::Zero(k), Fault::Interrupt(k), Fault::ShortOnce(k)]);
    }
    for k in 0..bytes {
        v.extend([Fault::Byte(k, false), Fault::Byte(k, true)]);
    }
    v.extend([1, 2, 3, 5, 7, 16, 64].map(Fault::Short));
    if pairs {
        for i in 0..calls {
            for j in i + 1..calls {
                v.push(Fault::Two(i, j));
            }
        }
    }
    v
}

/// a streaming encoder
pub trait Stream: Sized {
    /// bytes that precede later output do not make it unreadable
    const TEXT: bool;
    fn make(w: W) -> Self;
    fn w(&mut self) -> &mut W;
    fn finish(&mut self) -> io::Result<()>;
}
impl Stream for measured::text::TextEncoder<W> {
    const TEXT: bool = true;
    fn make(w: W) -> Self {
        Self::new(w)
    }
    fn w(&mut self) -> &mut W {
        &mut self.writer
    }
    fn finish(&mut self) -> io::Result<()> {
        self.flush()
    }
}
pub type Collect<'a, E> = &'a dyn Fn(&mut E) -> io::Result<()>;
fn group_run<E: Stream>(collect: Collect<E>, fault: Fault, clean: Option<&[u8]>, o: &mut Obs) -> Res {
    let mut e = E::make(W::new(fault));
    let mut failed = false;
    for (what, f) in [("collection", collect), ("flush", &|e: &mut E| e.finish())] {
        o.step(1);
        let before = e.w().failed;
        let r = f(&mut e);
        let bad = e.w().failed > before;
        ensure!(r.is_err() == bad, if bad { "swallowed" } else { "spurious" }, "{what}: the writer {} but the result is {r:?}", if bad { "failed" } else { "did not fail" });
        if let (Err(x), Some(k)) = (&r, e.w().kind) {
            ensure!(x.kind() == k, "error", "{what}: the writer failed with {k:?}, the result is {x:?}");
        }
        if let (true, Some(clean)) = (bad, clean) {
            let upto = e.w().at_fail.unwrap_or(e.w().out.len());
            ensure!(clean.starts_with(&e.w().out[..upto]), "prefix", "what was accepted is no prefix of the output without fault");
        }
        if bad {
            failed = true;
            break;
        }
    }
    if let (false, Some(clean)) = (failed, clean) {
        ensure!(e.w().out == clean, "output", "{:?}, expected {:?}", String::from_utf8_lossy(&e.w().out), String::from_utf8_lossy(clean));
    }
    o.state(&e.w().out);
    o.state(&[failed as u8]);
    // the writer recovers
    *e.w() = W::new(Fault::None);
    e.finish().map_err(|x| fail("recovery", format!("flush after recovery: {x}")))?;
    if E::TEXT {
        *e.w() = W::new(Fault::None);
    }
    collect(&mut e).map_err(|x| fail("recovery", format!("after recovery: {x}")))?;
    e.finish().map_err(|x| fail("recovery", format!("after recovery: {x}")))?;
    if let Some(clean) = clean {
        let out = &e.w().out;
        ensure!(out.ends_with(clean) && (!E::TEXT || out.len() == clean.len()), "recovery", "after recovery {:?}, a fresh encoder {:?}", String::from_utf8_lossy(out), String::from_utf8_lossy(clean));
    }
    Ok(())
}
/// every fault of a collection of the group; `fixed`: it gives the same bytes every time
pub fn group_faults<E: Stream>(cx: &mut Cx, name: &str, fixed: bool, collect: Collect<E>) {
    let mut e = E::make(W::new(Fault::None));
    let r = guarded(|| {
        collect(&mut e).unwrap();
        e.finish().unwrap();
    });
    if let Err(m) = r {
        cx.case(|| format!("{name} without fault"), |_| Err(fail("panic", format!("the collection without fault failed: {m}"))));
        return;
    }
    let clean = std::mem::take(&mut e.w().out);
    for fault in faults(e.w().calls, if fixed { clean.len() } else { 300 }, false) {
        cx.case(|| format!("{name}, {fault:?}"), |o| group_run(collect, fault, fixed.then_some(&clean[..]), o).map_err(|f| fail(&f.key, f.msg.chars().take(2000).collect::<String>())));
    }
}
