//! The oracle: final scrape, then for every label a linearizability check of its history against
//! a map entry `Option<Val>`.
//!
//! Calls are decomposed into atomic steps: an update is "make the series exist" followed by the
//! update itself; a scrape is one read per label (each at its own instant within the scrape, a
//! scrape is not a snapshot of the whole family); a removal is one step.
use crate::programs::{Container, Kind, Program};
use crate::world::{Label, Op, Rec, Res, Val, NAMES};
use crate::{now, Exec};

pub struct H(pub u64);
impl H {
    fn add(&mut self, s: &[u8]) {
        for b in s {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.0 = (self.0 ^ 0x1ff).wrapping_mul(0x100000001b3);
    }
    fn num(&mut self, n: i64) {
        self.add(&n.to_le_bytes())
    }
}

/// label 0..64; the single metric uses label 0
type Fam = Vec<(Label, Val)>;

fn num(s: &str) -> Result<i64, String> {
    if let Ok(v) = s.parse::<i64>() {
        return Ok(v);
    }
    let f: f64 = s.parse().map_err(|_| format!("bad sample value {s:?}"))?;
    // timers add nanoseconds
    let f = if (f - f.round()).abs() < 1e-6 { f.round() } else { f };
    if f != f.trunc() || f.abs() > 1e15 {
        return Err(format!("unexpected sample value {s:?}"));
    }
    Ok(f as i64)
}

/// strict parse of the exposition of family `m` with an optional label `k`
pub fn parse(p: &Program, text: &str) -> Result<Fam, String> {
    let hist = p.kind == Kind::Hist;
    let mut fam: Vec<(Label, [Option<i64>; 5])> = Vec::new();
    for line in text.lines() {
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (series, value) = line.rsplit_once(' ').ok_or_else(|| format!("bad line {line:?}"))?;
        let (name, labels) = match series.split_once('{') {
            Some((n, l)) => (n, l.strip_suffix('}').ok_or_else(|| format!("bad line {line:?}"))?),
            None => (series, ""),
        };
        let (mut k, mut le) = (None, None);
        if !labels.is_empty() {
            for part in labels.split(',') {
                let (n, v) = part.split_once('=').ok_or_else(|| format!("bad labels {line:?}"))?;
                let v = v.strip_prefix('"').and_then(|v| v.strip_suffix('"')).ok_or_else(|| format!("bad label value {line:?}"))?;
                let slot = match n {
                    "k" => &mut k,
                    "le" => &mut le,
                    _ => return Err(format!("unknown label name {line:?}")),
                };
                if slot.replace(v).is_some() {
                    return Err(format!("label name twice {line:?}"));
                }
            }
        }
        let label = match (p.container, k) {
            (Container::Single, None) => 0,
            (Container::Single, _) | (_, None) => return Err(format!("wrong labels {line:?}")),
            (_, Some(k)) => NAMES.iter().position(|n| *n == k).ok_or_else(|| format!("unknown series {line:?}"))? as Label,
        };
        let le: Option<f64> = match le {
            Some(le) => Some(le.parse().map_err(|_| format!("bad bound {line:?}"))?),
            None => None,
        };
        let slot = match (hist, name, le) {
            (false, "m", None) => 0,
            (true, "m_bucket", Some(1.0)) => 0,
            (true, "m_bucket", Some(10.0)) => 1,
            (true, "m_bucket", Some(f64::INFINITY)) => 2,
            (true, "m_sum", None) => 3,
            (true, "m_count", None) => 4,
            _ => return Err(format!("unexpected sample {line:?}")),
        };
        let v = num(value)?;
        let i = match fam.iter().position(|f| f.0 == label) {
            Some(i) => i,
            None => {
                fam.push((label, [None; 5]));
                fam.len() - 1
            }
        };
        if fam[i].1[slot].replace(v).is_some() {
            return Err(format!("series listed twice in one scrape: {line:?} in {text:?}"));
        }
    }
    let n = if hist { 5 } else { 1 };
    fam.into_iter()
        .map(|(l, a)| {
            let v: Option<Val> = a[..n].iter().copied().collect();
            v.map(|v| (l, v)).ok_or_else(|| format!("incomplete series {:?} in {text:?}", NAMES[l as usize]))
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
enum Step {
    Touch,
    Add(i64),
    Set(i64),
    Remove(Option<Val>),
    /// what a scrape showed for the label
    Read(Option<Val>),
    /// the histogram is listed with this many observations
    Count(i64),
    Exists(bool),
}

#[derive(Clone, Debug)]
struct HOp {
    call: u64,
    ret: u64,
    steps: Vec<Step>,
}

fn zero(k: Kind) -> Val {
    vec![0; if k == Kind::Hist { 5 } else { 1 }]
}

fn add(k: Kind, v: &mut Val, x: i64) {
    if k == Kind::Hist {
        if x <= 1 {
            v[0] += 1;
        }
        if x <= 10 {
            v[1] += 1;
        }
        v[2] += 1;
        v[3] += x;
        v[4] += 1;
    } else {
        v[0] += x;
    }
}

fn apply(k: Kind, s: &Step, st: &Option<Val>) -> Option<Option<Val>> {
    match s {
        Step::Touch => Some(Some(st.clone().unwrap_or_else(|| zero(k)))),
        Step::Add(x) => {
            let mut v = st.clone().unwrap_or_else(|| zero(k));
            add(k, &mut v, *x);
            Some(Some(v))
        }
        Step::Set(x) => Some(Some(vec![*x])),
        Step::Remove(r) => (r == st).then_some(None),
        Step::Count(n) => st.as_ref().is_some_and(|v| v[4] == *n).then(|| st.clone()),
        Step::Exists(b) => (st.is_some() == *b).then(|| st.clone()),
        Step::Read(r) => (r == st).then(|| st.clone()),
    }
}

type Pos = Vec<(u8, u8)>;

struct Search<'a> {
    k: Kind,
    h: &'a [Vec<HOp>],
    seen: Vec<(Pos, Option<Val>)>,
}
impl Search<'_> {
    fn go(&mut self, pos: &mut Pos, st: &Option<Val>) -> bool {
        if pos.iter().zip(self.h).all(|(p, h)| p.0 as usize == h.len()) {
            return true;
        }
        if self.seen.iter().any(|(p, s)| p == pos && s == st) {
            return false;
        }
        self.seen.push((pos.clone(), st.clone()));
        // an operation may begin when no unfinished operation returned before it was called
        let horizon = pos.iter().zip(self.h).filter_map(|(p, h)| h.get(p.0 as usize).map(|o| o.ret)).min().unwrap();
        for t in 0..self.h.len() {
            let (i, j) = pos[t];
            let Some(op) = self.h[t].get(i as usize) else { continue };
            if op.call > horizon {
                continue;
            }
            if let Some(n) = apply(self.k, &op.steps[j as usize], st) {
                let old = pos[t];
                pos[t] = if j as usize + 1 == op.steps.len() { (i + 1, 0) } else { (i, j + 1) };
                if self.go(pos, &n) {
                    return true;
                }
                pos[t] = old;
            }
        }
        false
    }
}

fn get(f: &Fam, l: Label) -> Option<Val> {
    f.iter().find(|x| x.0 == l).map(|x| x.1.clone())
}

/// What a set's property says about what is seen: other properties' business is not judged, so
/// that a defect is reported under the property it breaks.
#[derive(Clone, Copy, PartialEq)]
enum Lens {
    /// everything, histogram scrapes as whole states (C02)
    Full,
    /// only the state after all threads have returned (C01)
    Final,
    /// histograms by their number of observations while threads run (C03, C04)
    Count,
    /// only which series exist (C08)
    Presence,
}

pub fn check(p: &Program, e: &mut Exec) -> Result<u64, String> {
    let nt = p.threads.len();
    let lens = match p.name.split('.').next() {
        Some("c01") => Lens::Final,
        Some("c03") | Some("c04") => Lens::Count,
        Some("c08") => Lens::Presence,
        _ => Lens::Full,
    };
    let always = p.container == Container::Single;
    // the initial operations ran before everything, the final scrape comes after everything
    let call = now();
    let res = e.world.run(&Op::Scrape);
    let ret = now();
    let fin = Rec { op: Op::Scrape, call, ret, res };
    let mut all: Vec<Vec<&Rec>> = e.recs[..nt].iter().map(|r| r.iter().collect()).collect();
    for (t, r) in all.iter().enumerate() {
        if r.len() != p.threads[t].len() {
            return Err(format!("thread {t} completed {} of {} operations", r.len(), p.threads[t].len()));
        }
    }
    let init: Vec<Rec> = p.init.iter().map(|op| Rec { op: op.clone(), call: 0, ret: 0, res: Res::Unit }).collect();
    all.push(init.iter().collect());
    all.push(vec![&fin]);

    let mut labels: Vec<Label> = Vec::new();
    let mut scrapes: Vec<(u64, Fam)> = Vec::new();
    let mut ids: Vec<(Label, &str)> = Vec::new();
    let mut h = H(0xcbf29ce484222325);
    for r in all.iter().flatten() {
        match r.op {
            Op::Upd(l, _) | Op::Set(l, _) | Op::Hold(l, _, _) | Op::Twice(l, _, _) | Op::Touch(l) | Op::Remove(l) | Op::Timer(l, _) => {
                if !labels.contains(&l) {
                    labels.push(l)
                }
            }
            _ => {}
        }
        match &r.res {
            Res::Unit => {}
            Res::Scrape(_) if lens == Lens::Final && r.call != fin.call => {}
            Res::Scrape(s) => {
                let f = parse(p, s)?;
                for (l, v) in &f {
                    h.num(*l as i64);
                    v.iter().for_each(|x| h.num(*x));
                }
                h.num(-7);
                if let Op::NewVec(l, x) = r.op {
                    let mut v = zero(p.kind);
                    add(p.kind, &mut v, x);
                    if f != vec![(l, v)] {
                        return Err(format!("a fresh vec updated by one thread shows {s:?}"));
                    }
                } else {
                    scrapes.push((r.call, f));
                }
            }
            Res::Removed(v) => {
                h.num(if v.is_some() { 1 } else { 0 });
                v.iter().flatten().for_each(|x| h.num(*x));
            }
            Res::Card(n, m) => {
                h.num(*n as i64);
                let max = match p.container {
                    Container::Dyn => None,
                    Container::Pile => Some(64),
                    _ => Some(16),
                };
                if *m != max {
                    return Err(format!("cardinality upper bound {m:?}, expected {max:?}"));
                }
                let touches = |o: &Op, l| matches!(o, Op::Upd(x, _) | Op::Set(x, _) | Op::Hold(x, _, _) | Op::Twice(x, _, _) | Op::Touch(x) | Op::Timer(x, _) if *x == l);
                let (mut must, mut may) = (0, 0);
                for l in 0..NAMES.len() as Label {
                    let removed = p.threads.iter().flatten().any(|o| *o == Op::Remove(l)) && p.container != Container::Dense;
                    must += (!removed && all.iter().flatten().any(|q| touches(&q.op, l) && q.ret <= r.call)) as usize;
                    may += all.iter().flatten().any(|q| touches(&q.op, l) && q.call < r.ret) as usize;
                }
                if *n < must || *n > may {
                    return Err(format!("cardinality {n} reported while between {must} and {may} series existed"));
                }
            }
            Res::Id(id, back) => {
                let Op::Intern(l) = r.op else { unreachable!() };
                if back != NAMES[l as usize] {
                    return Err(format!("identifier of {:?} decodes to {back:?}", NAMES[l as usize]));
                }
                h.add(id.as_bytes());
                ids.push((l, id));
            }
        }
    }
    for (i, a) in ids.iter().enumerate() {
        for b in &ids[..i] {
            if (a.0 == b.0) != (a.1 == b.1) {
                return Err(format!("labels {:?} and {:?} got identifiers {} and {}", NAMES[a.0 as usize], NAMES[b.0 as usize], a.1, b.1));
            }
        }
    }
    for (_, f) in &scrapes {
        for (l, v) in f {
            // the group target always shows its plain counter
            let plain = matches!(p.container, Container::GroupDense | Container::GroupSparse) && *l == 15;
            if !labels.contains(l) && !(plain && *v == zero(p.kind)) && !always {
                return Err(format!("scrape lists series {:?} which nobody touched", NAMES[*l as usize]));
            }
        }
    }
    if always && labels.is_empty() {
        labels.push(0);
    }
    for &l in &labels {
        let plain = always || matches!(p.container, Container::GroupDense | Container::GroupSparse) && l == 15;
        let hist: Vec<Vec<HOp>> = all
            .iter()
            .map(|rs| {
                rs.iter()
                    .filter_map(|r| {
                        let steps = match (&r.op, &r.res) {
                            (Op::Upd(x, _) | Op::Twice(x, _, _), _) if *x == l && lens == Lens::Presence => vec![Step::Touch],
                            (Op::Scrape | Op::Proto, _) if lens == Lens::Final && r.call != fin.call => return None,
                            (Op::Timer(x, _), _) if *x == l => vec![Step::Touch, Step::Add(0)],
                            (Op::Upd(x, a), _) if *x == l => vec![Step::Touch, Step::Add(*a)],
                            (Op::Set(x, a), _) if *x == l => vec![Step::Touch, Step::Set(*a)],
                            (Op::Hold(x, a, b), _) if *x == l => vec![Step::Touch, Step::Add(*a), Step::Add(*b)],
                            (Op::Twice(x, a, b), _) if *x == l => vec![Step::Touch, Step::Add(*a), Step::Touch, Step::Add(*b)],
                            (Op::Touch(x), _) if *x == l => vec![Step::Touch],
                            (Op::Remove(x), Res::Removed(v)) if *x == l => {
                                if matches!(p.container, Container::Dense | Container::GroupDense) {
                                    // documented to do nothing
                                    return match v {
                                        None => None,
                                        Some(_) => Some(HOp { call: r.call, ret: r.ret, steps: vec![Step::Read(Some(vec![i64::MIN]))] }),
                                    };
                                }
                                vec![Step::Remove(v.clone())]
                            }
                            (Op::Scrape | Op::Proto, Res::Scrape(_)) => {
                                let f = &scrapes.iter().find(|s| s.0 == r.call).unwrap().1;
                                let v = get(f, l);
                                match (lens, v) {
                                    (Lens::Presence, v) => vec![Step::Exists(v.is_some())],
                                    (Lens::Count, Some(v)) if p.kind == Kind::Hist && r.call != fin.call => vec![Step::Count(v[4])],
                                    (_, v) => vec![Step::Read(v)],
                                }
                            }
                            _ => return None,
                        };
                        Some(HOp { call: r.call, ret: r.ret, steps })
                    })
                    .collect()
            })
            .collect();
        let st = plain.then(|| zero(p.kind));
        let mut s = Search { k: p.kind, h: &hist, seen: Vec::new() };
        if !s.go(&mut vec![(0, 0); hist.len()], &st) {
            let mut o = String::new();
            for (t, h) in hist.iter().enumerate() {
                for x in h {
                    o.push_str(&format!(" [{} {}..{} {:?}]", if t < nt { format!("t{t}") } else if t == nt { "init".into() } else { "final".into() }, x.call, x.ret, x.steps));
                }
            }
            return Err(format!("no order of the operations on series {:?} explains what was seen:{o}", NAMES[l as usize]));
        }
    }
    Ok(h.0)
}
