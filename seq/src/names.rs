//! C17: which names exist, and what a composed name writes
use crate::ensure;
use crate::fw::*;
use measured::label::LabelName;
use measured::metric::name::*;
use std::io::{self, Write};

fn valid(s: &str, colon: bool) -> bool {
    let c = |b: u8, first: bool| match b {
        b'a'..=b'z' | b'A'..=b'Z' | b'_' => true,
        b'0'..=b'9' => !first,
        b':' => colon,
        _ => false,
    };
    !s.is_empty() && s.bytes().enumerate().all(|(i, b)| c(b, i == 0))
}
/// a writer that takes at most n bytes at a time
struct Short(Vec<u8>, usize);
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn enc(n: &(impl MetricNameEncoder + ?Sized), want: &str) -> Res {
    let mut b = vec![];
    n.encode_utf8(&mut b).map_err(|e| fail("encode", e.to_string()))?;
    ensure!(b == want.as_bytes(), "encode", "name encodes to {:?}, expected {want:?}", String::from_utf8_lossy(&b));
    ensure!(n.encode_len() == want.len(), "len", "encode_len {} but {} bytes are written for {want:?}", n.encode_len(), want.len());
    let mut s = Short(vec![], 1);
    n.encode_utf8(&mut s).map_err(|e| fail("encode", e.to_string()))?;
    ensure!(s.0 == want.as_bytes(), "encode", "name encodes to {:?} byte by byte, expected {want:?}", String::from_utf8_lossy(&s.0));
    Ok(())
}
fn one(s: &str, o: &mut Obs) -> Res {
    let st: &'static str = Box::leak(s.to_string().into_boxed_str());
    let (m, l) = (valid(s, true), valid(s, false));
    o.step(5);
    o.state(&[m as u8, l as u8, s.len() as u8, s.bytes().next().unwrap_or(0), s.bytes().last().unwrap_or(0)]);
    o.show(|| format!("metric name {m}, label name {l}"));
    match guarded(|| enc(MetricName::from_str(st), s)) {
        Ok(r) => {
            ensure!(m, "from_str", "MetricName::from_str accepts {s:?}");
            r?
        }
        Err(e) => ensure!(!m, "from_str", "MetricName::from_str rejects {s:?}: {e}"),
    }
    match MetricName::try_from_str(s) {
        Ok(n) => {
            ensure!(m, "try_from_str", "MetricName::try_from_str accepts {s:?}");
            enc(n, s)?
        }
        Err(e) => {
            ensure!(!m, "try_from_str", "MetricName::try_from_str rejects {s:?}: {e}");
            let bad = s.bytes().any(|b| !valid(&format!("a{}", b as char), true));
            let ok = match e {
                InvalidMetricName::Empty => s.is_empty(),
                InvalidMetricName::StartsWithNumber => s.as_bytes()[0].is_ascii_digit(),
                InvalidMetricName::InvalidChars => bad,
            };
            ensure!(ok, "reason", "MetricName::try_from_str gives {e:?} for {s:?}");
        }
    }
    match guarded(|| enc(&MetricName::from_str("x").in_namespace(st), &format!("{s}_x"))) {
        Ok(r) => {
            ensure!(m, "in_namespace", "in_namespace accepts {s:?}");
            r?
        }
        Err(e) => ensure!(!m, "in_namespace", "in_namespace rejects {s:?}: {e}"),
    }
    match guarded(|| enc(&WithNamespace::new(st, MetricName::from_str("x")), &format!("{s}_x"))) {
        Ok(r) => {
            ensure!(m, "namespace", "WithNamespace::new accepts {s:?}");
            r?
        }
        Err(e) => ensure!(!m, "namespace", "WithNamespace::new rejects {s:?}: {e}"),
    }
    match guarded(|| LabelName::from_str(s).as_str().to_string()) {
        Ok(x) => {
            ensure!(l, "label", "LabelName::from_str accepts {s:?}");
            ensure!(x == s, "label", "LabelName::from_str({s:?}) is {x:?}");
        }
        Err(e) => ensure!(!l, "label", "LabelName::from_str rejects {s:?}: {e}"),
    }
    Ok(())
}

struct Own;
impl Suffix for Own {
    fn encode_text(&self, b: &mut impl Write) -> io::Result<()> {
        b.write_all(b"_own")
    }
    fn encode_len(&self) -> usize {
        4
    }
}
/// any name behind a pointer, so that deep nestings need no types of their own
trait Any {
    fn enc(&self, b: &mut dyn Write) -> io::Result<()>;
    fn len(&self) -> usize;
}
impl<T: MetricNameEncoder> Any for T {
    fn enc(&self, mut b: &mut dyn Write) -> io::Result<()> {
        self.encode_utf8(&mut b)
    }
    fn len(&self) -> usize {
        self.encode_len()
    }
}
struct D<'a>(&'a dyn Any);
impl MetricNameEncoder for D<'_> {
    fn encode_utf8(&self, b: &mut impl Write) -> io::Result<()> {
        self.0.enc(b)
    }
    fn encode_len(&self) -> usize {
        self.0.len()
    }
}
fn visit(cx: &mut Cx, t: &dyn Any, want: &str) {
    cx.case(
        || format!("composed name {want}"),
        |o| {
            o.step(want.matches('_').count());
            o.state(want.as_bytes());
            o.show(|| want.to_string());
            enc(&D(t), want)?;
            enc(&&D(t), want)?;
            enc(D(t).by_ref(), want)
        },
    );
}
fn layers(cx: &mut Cx, t: &D, want: &str, depth: usize) {
    visit(cx, t.0, want);
    if depth == 0 {
        return;
    }
    for n in ["n", "long_Namespace:1"] {
        layers(cx, &D(&WithNamespace::new(n, t)), &format!("{n}_{want}"), depth - 1);
    }
    layers(cx, &D(&MetricNameEncoder::with_suffix(t, Total)), &format!("{want}_total"), depth - 1);
    layers(cx, &D(&MetricNameEncoder::with_suffix(t, Count)), &format!("{want}_count"), depth - 1);
    layers(cx, &D(&WithNamespace::new("m", t).with_suffix(Sum)), &format!("m_{want}_sum"), depth - 1);
    layers(cx, &D(&MetricNameEncoder::with_suffix(t, Sum)), &format!("{want}_sum"), depth - 1);
    layers(cx, &D(&MetricNameEncoder::with_suffix(t, Bucket)), &format!("{want}_bucket"), depth - 1);
    layers(cx, &D(&MetricNameEncoder::with_suffix(t, Own)), &format!("{want}_own"), depth - 1);
}

pub fn c17(cx: &mut Cx) {
    cx.case(|| "empty string".into(), |o| one("", o));
    let ascii: Vec<char> = (0..128u8).map(|b| b as char).collect();
    for &a in &ascii {
        cx.case(|| format!("{:?}", a.to_string()), |o| one(&a.to_string(), o));
        for &b in &ascii {
            let s: String = [a, b].iter().collect();
            cx.case(|| format!("{s:?}"), |o| one(&s, o));
        }
        for n in [3usize, 7, 8, 16, 33] {
            for p in 0..n {
                let mut v = vec!['b'; n];
                v[p] = a;
                let s: String = v.iter().collect();
                cx.case(|| format!("{s:?}"), |o| one(&s, o));
            }
        }
    }
    let multi = ['\u{80}', '\u{aa}', '\u{e9}', '\u{130}', '\u{660}', '\u{ff10}', '\u{ff21}', '\u{203f}', '\u{1d7ce}', '\u{10ffff}', '\u{7ff}', '\u{800}', '\u{fffd}', '\u{ff3f}'];
    for c in multi {
        for (p, q) in [("", ""), ("a", ""), ("", "a"), ("a", "b"), ("_", "0"), ("ab", "cd")] {
            let s = format!("{p}{c}{q}");
            cx.case(|| format!("{s:?}"), |o| one(&s, o));
        }
    }
    let reps: Vec<char> = "azAZ09_:-. \"\n\0\u{7f}{@[`/+\u{e9}".chars().collect();
    Cx::seqs(reps.len(), if cx.thorough { 4 } else { 3 }, |s| {
        if s.len() >= 3 {
            let t: String = s.iter().map(|&i| reps[i]).collect();
            cx.case(|| format!("{t:?}"), |o| one(&t, o));
        }
    });
    // long names, each special character at either end, the middle and around powers of two
    let lens: &[usize] = &[63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 100_000];
    for &n in lens {
        let mut ps = vec![0, 1, 2, n / 2, n - 2, n - 1];
        for k in 3..17 {
            ps.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1].into_iter().filter(|p| *p < n));
        }
        for c in ['b', 'Z', '9', '0', ':', '-', '.', ' ', '"', '\n', '\0', '{', '\u{e9}', '\u{ff21}'] {
            cx.case(
                || format!("{c:?} at {} places of names of {n}", ps.len()),
                |o| {
                    for &p in if n > 5000 { &ps[..6] } else { &ps[..] } {
                        let x: String = (0..n).map(|i| if i == p { c } else { 'b' }).collect();
                        one(&x, o).map_err(|e| fail(&e.key, format!("{c:?} at {p} of {n}: {}", e.msg.chars().take(300).collect::<String>())))?;
                    }
                    Ok(())
                },
            );
        }
    }
    // deep nestings of each kind
    for depth in [8usize, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257] {
        for kind in 0..4 {
            cx.case(
                || format!("{} nested {depth} deep", ["namespaces", "suffixes", "namespaces and suffixes", "references"][kind]),
                |o| {
                    o.step(depth);
                    fn go(t: &dyn Any, depth: usize, kind: usize, want: &mut (String, String), base: &str) -> Res {
                        if depth == 0 {
                            return enc(&D(t), &format!("{}{base}{}", want.0, want.1));
                        }
                        match (kind, depth % 2) {
                            (0, _) | (2, 0) => {
                                let n: &'static str = ["ns", "x", "long_Namespace:1"][depth % 3];
                                want.0 = format!("{n}_{}", want.0);
                                go(&WithNamespace::new(n, D(t)), depth - 1, kind, want, base)
                            }
                            (1, _) | (2, _) => {
                                if depth % 3 == 0 {
                                    want.1.push_str("_total");
                                    go(&D(t).with_suffix(Total), depth - 1, kind, want, base)
                                } else {
                                    want.1.push_str("_own");
                                    go(&D(t).with_suffix(Own), depth - 1, kind, want, base)
                                }
                            }
                            _ => go(&&D(t), depth - 1, kind, want, base),
                        }
                    }
                    go(&MetricName::from_str("a"), depth, kind, &mut Default::default(), "a")
                },
            );
        }
    }
    let d = if cx.thorough { 6 } else { 4 };
    for base in ["a", "_", ":", "A_9:z"] {
        let n = MetricName::from_str(base);
        layers(cx, &D(&n), base, d);
        // compositions of the types themselves
        layers(cx, &D(&n.in_namespace("ns")), &format!("ns_{base}"), 1);
        layers(cx, &D(&n.with_suffix(Total)), &format!("{base}_total"), 1);
        layers(cx, &D(&n.in_namespace("ns").with_suffix(Bucket)), &format!("ns_{base}_bucket"), 1);
        layers(cx, &D(&WithNamespace::new("b", n.in_namespace("ns")).with_suffix(Sum).with_suffix(Count)), &format!("b_ns_{base}_sum_count"), 1);
        layers(cx, &D(&WithNamespace::new("c", WithNamespace::new("b", n.with_suffix(Own)))), &format!("c_b_{base}_own"), 1);
        layers(cx, &D(&WithNamespace::new("c", &WithNamespace::new("b", &n).with_suffix(Total)).by_ref()), &format!("c_b_{base}_total"), 1);
    }
}
