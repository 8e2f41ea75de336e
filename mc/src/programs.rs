//! The bounded programs that are explored: which operations which threads perform.
//!
//! All programs of a shape over an alphabet are generated (up to permuting threads), then
//! filtered to those that can say something about the property.
use crate::world::{Label, Op};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Counter,
    Gauge,
    Float,
    Hist,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Container {
    Single,
    Dense,
    Sparse,
    /// sparse over a dynamic label set
    Dyn,
    /// sparse over labels that all share one shard
    Pile,
    GroupDense,
    GroupSparse,
    /// every operation makes its own vec
    Fresh,
}
use Container::*;
use Kind::*;

#[derive(Clone, Debug)]
pub struct Program {
    pub name: String,
    pub kind: Kind,
    pub container: Container,
    pub init: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub bound: i32,
    /// nanoseconds by which every look at the clock advances it (parking_lot hands its locks over
    /// fairly depending on the time)
    pub clock_step: u64,
    /// also run every periodic schedule with slices of up to so many steps
    pub period: u32,
}

/// operation templates; the amounts are filled in by position
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
pub enum T {
    U(Label),
    /// negative update
    N(Label),
    S(Label),
    H(Label),
    W(Label),
    T(Label),
    R(Label),
    X,
    /// protobuf scrape
    P,
    /// timer dropped, timer observed
    D(Label),
    O(Label),
    C,
    V(Label),
    I(Label),
}

fn ops(threads: &[Vec<T>], kind: Kind) -> Vec<Vec<Op>> {
    // distinct powers: any lost, repeated or misplaced update shows in the sum
    let mut n = 0u32;
    let mut amt = |neg: bool| {
        let x = 10i64.pow(n % 9);
        n += 1;
        if neg && kind != Counter && kind != Hist { -x } else { x }
    };
    threads
        .iter()
        .map(|t| {
            t.iter()
                .map(|o| match *o {
                    T::U(l) => Op::Upd(l, amt(false)),
                    T::N(l) => Op::Upd(l, amt(true)),
                    T::S(l) => Op::Set(l, 5 * amt(false)),
                    T::H(l) => Op::Hold(l, amt(false), amt(false)),
                    T::W(l) => Op::Twice(l, amt(false), amt(false)),
                    T::T(l) => Op::Touch(l),
                    T::R(l) => Op::Remove(l),
                    T::X => Op::Scrape,
                    T::P => Op::Proto,
                    T::D(l) => Op::Timer(l, false),
                    T::O(l) => Op::Timer(l, true),
                    T::C => Op::Card,
                    T::V(l) => Op::NewVec(l, amt(false)),
                    T::I(l) => Op::Intern(l),
                })
                .collect()
        })
        .collect()
}

fn tname(t: &T) -> String {
    match *t {
        T::U(l) => format!("U{l}"),
        T::N(l) => format!("N{l}"),
        T::S(l) => format!("S{l}"),
        T::H(l) => format!("H{l}"),
        T::W(l) => format!("W{l}"),
        T::T(l) => format!("T{l}"),
        T::R(l) => format!("R{l}"),
        T::X => "X".into(),
        T::P => "P".into(),
        T::D(l) => format!("D{l}"),
        T::O(l) => format!("O{l}"),
        T::C => "C".into(),
        T::V(l) => format!("V{l}"),
        T::I(l) => format!("I{l}"),
    }
}

pub struct Gen {
    set: String,
    out: Vec<Program>,
}
impl Gen {
    pub fn one(&mut self, kind: Kind, container: Container, init: &[Op], threads: &[Vec<T>], bound: i32, clock_step: u64) {
        let body: Vec<String> = threads.iter().map(|t| t.iter().map(tname).collect::<String>()).collect();
        let pre = if init.is_empty() { String::new() } else { format!("+{}", init.len()) };
        let clk = if clock_step > 1 { ".late" } else { "" };
        let name = format!("{}.{kind:?}.{container:?}{pre}.{}{clk}", self.set, body.join("-")).to_lowercase();
        if let Some(p) = self.out.iter_mut().find(|p| p.name == name) {
            p.bound = p.bound.max(bound);
            return;
        }
        self.out.push(Program { name, kind, container, init: init.to_vec(), threads: ops(threads, kind), bound, clock_step, period: 0 });
    }
    /// long threads, run under every periodic schedule (and a few preemptions)
    fn long(&mut self, kind: Kind, container: Container, init: &[Op], threads: &[(T, usize)], period: u32) {
        let body: Vec<Vec<T>> = threads.iter().map(|(t, n)| vec![*t; *n]).collect();
        self.turns(kind, container, init, &body, period)
    }
    fn turns(&mut self, kind: Kind, container: Container, init: &[Op], threads: &[Vec<T>], period: u32) {
        let n = self.out.len();
        self.one(kind, container, init, threads, 0, 1);
        assert_eq!(self.out.len(), n + 1);
        self.out[n].period = period;
        self.out[n].name += ".turns";
    }
    #[allow(clippy::too_many_arguments)]
    pub fn all(&mut self, kinds: &[Kind], cs: &[Container], inits: &[&[Op]], alpha: &[T], shapes: &[&[usize]], bound: i32, keep: &dyn Fn(&[Vec<T>]) -> bool) {
        for shape in shapes {
            let mut progs: Vec<Vec<Vec<T>>> = vec![vec![]];
            for &n in *shape {
                let mut seqs: Vec<Vec<T>> = vec![vec![]];
                for _ in 0..n {
                    seqs = seqs.iter().flat_map(|s| alpha.iter().map(move |a| [s.clone(), vec![*a]].concat())).collect();
                }
                progs = progs
                    .iter()
                    .flat_map(|p| {
                        seqs.iter().filter_map(move |s| {
                            // threads of equal length are interchangeable: keep one order
                            if let Some(l) = p.last() {
                                if l.len() == s.len() && s.partial_cmp(l) == Some(std::cmp::Ordering::Less) {
                                    return None;
                                }
                            }
                            Some([p.clone(), vec![s.clone()]].concat())
                        })
                    })
                    .collect();
            }
            for p in progs {
                if !keep(&p) {
                    continue;
                }
                for &k in kinds {
                    for &c in cs {
                        let applicable = p.iter().flatten().all(|t| match t {
                            T::S(_) | T::N(_) => matches!(k, Gauge | Float),
                            T::R(_) => c != Single,
                            T::C => !matches!(c, Single | GroupDense | GroupSparse),
                            T::V(_) | T::I(_) => !matches!(c, Single | GroupDense | GroupSparse),
                            T::U(l) | T::H(l) | T::W(l) | T::T(l) => c != Single || *l == 0,
                            T::X => true,
                            T::P => k != Hist,
                            T::D(l) | T::O(l) => k == Hist && (c != Single || *l == 0),
                        });
                        let grp = matches!(c, GroupDense | GroupSparse);
                        let grp_ok = !grp || (k == Counter && p.iter().flatten().all(|t| matches!(t, T::U(_) | T::R(_) | T::X | T::P)));
                        if !applicable || !grp_ok {
                            continue;
                        }
                        for i in inits {
                            if c == Single && !i.is_empty() {
                                continue;
                            }
                            self.one(k, c, i, &p, bound, 1);
                        }
                    }
                }
            }
        }
    }
}

fn has(p: &[Vec<T>], f: impl Fn(&T) -> bool) -> bool {
    p.iter().flatten().any(f)
}
fn is_upd(t: &T) -> bool {
    matches!(t, T::U(_) | T::N(_) | T::S(_) | T::H(_) | T::W(_) | T::D(_) | T::O(_))
}

// with 4 shards, labels 0, 3 and 7 live in one shard and label 1 in another one
const OLD: &[Op] = &[Op::Upd(0, 1_000_000_000)];
const OLD3: &[Op] = &[Op::Upd(0, 1_000_000_000), Op::Upd(3, 2_000_000_000), Op::Upd(7, 3_000_000_000)];
const CREATED: &[Op] = &[Op::Touch(0)];
// a table that has grown (labels 0, 3, 7, 11 and 15 share a shard) next to another one in use (1, 5)
const BIG: &[Op] = &[
    Op::Upd(0, 1_000_000_000),
    Op::Upd(3, 2_000_000_000),
    Op::Upd(7, 3_000_000_000),
    Op::Upd(11, 4_000_000_000),
    Op::Upd(15, 5_000_000_000),
    Op::Upd(1, 6_000_000_000),
    Op::Upd(5, 7_000_000_000),
];

/// 40 series in one shard
const PILE: &[Op] = &{
    const Z: Op = Op::Upd(0, 100_000_000);
    let mut a = [Z; 40];
    let mut i = 0;
    while i < 40 {
        a[i] = Op::Upd(i as Label, 100_000_000 * (i as i64 + 1));
        i += 1;
    }
    a
};

pub fn programs(set: &str, tier: &str) -> Vec<Program> {
    let q = tier == "quick";
    let mut g = Gen { set: set.to_string(), out: Vec::new() };
    let vecs = [Dense, Sparse, Dyn];
    let all = [Single, Dense, Sparse, Dyn];
    let kinds = [Counter, Gauge, Float, Hist];
    let b = |quick: i32, thorough: i32| if q { quick } else { thorough };
    match set {
        "c01" => {
            let per = b(10, 24) as u32;
            for k in kinds {
                for c in all {
                    g.long(k, c, CREATED, &[(T::U(0), 20), (T::U(0), 20)], per);
                    g.long(k, c, &[], &[(T::U(0), 1), (T::U(0), 40)], per);
                }
                g.long(k, Single, &[], &[(T::H(0), 12), (T::U(0), 24)], per);
                g.long(k, Sparse, &[], &[(T::W(0), 12), (T::U(3), 24)], per);
                g.long(k, Single, &[], &[(T::U(0), 10), (T::U(0), 10), (T::U(0), 10)], b(4, 8) as u32);
                g.long(k, Dense, &[], &[(T::U(0), 10), (T::U(0), 10), (T::U(0), 10)], b(4, 8) as u32);
            }
            for c in [Single, Sparse] {
                g.long(Float, c, &[], &[(T::N(0), 20), (T::U(0), 20)], per);
                g.long(Hist, c, &[], &[(T::D(0), 12), (T::U(0), 20)], per);
                for k in [Gauge, Float] {
                    g.long(k, c, &[], &[(T::S(0), 3), (T::U(0), 8)], per);
                }
            }
            let upd = |p: &[Vec<T>]| p.iter().all(|t| t.iter().any(is_upd));
            let al = [T::U(0), T::U(3), T::U(1), T::H(0), T::W(0), T::T(0), T::T(3), T::N(0), T::S(0), T::X, T::P, T::D(0), T::O(0), T::D(3)];
            g.all(&kinds, &all, &[&[], CREATED], &al, &[&[1, 1]], b(3, 6), &upd);
            g.all(&kinds, &[Single, Dense], &[&[]], &[T::U(0), T::N(0), T::S(0), T::X], &[&[2, 1]], b(3, 6), &upd);
            g.all(&[Counter, Float, Hist], &[Single, Dense, Sparse], &[&[]], &[T::U(0)], &[&[1, 1, 1]], b(2, 4), &upd);
            if !q {
                g.all(&kinds, &[Sparse, Dyn], &[&[], OLD], &[T::U(0), T::U(3), T::H(0), T::N(0), T::S(0), T::X], &[&[2, 1]], 3, &upd);
                g.all(&kinds, &[Single, Dense], &[&[], CREATED], &[T::U(0), T::N(0), T::S(0), T::W(0), T::X], &[&[2, 2], &[1, 1, 1], &[2, 1, 1]], 3, &upd);
                g.all(&kinds, &[Sparse, Dyn], &[&[]], &[T::U(0), T::U(3), T::N(0), T::S(0)], &[&[1, 1, 1], &[2, 2]], 2, &upd);
            }
        }
        "c02" => {
            let per = b(10, 24) as u32;
            for c in [Single, Dense, Sparse] {
                g.long(Hist, c, &[], &[(T::U(0), 16), (T::X, 6)], per);
                g.long(Hist, c, &[], &[(T::D(0), 8), (T::X, 6)], per);
                g.long(Hist, c, &[], &[(T::U(0), 6), (T::U(0), 6), (T::X, 4)], b(4, 8) as u32);
                g.long(Hist, c, &[], &[(T::U(0), 8), (T::X, 4), (T::X, 4)], b(4, 8) as u32);
            }
            let k = |p: &[Vec<T>]| has(p, |t| *t == T::X) && has(p, is_upd);
            g.all(&[Hist], &all, &[&[], CREATED], &[T::U(0), T::H(0), T::D(0), T::X], &[&[1, 1]], b(4, 8), &k);
            g.all(&[Hist], &[Single, Dense, Sparse], &[&[]], &[T::U(0), T::X], &[&[2, 1], &[1, 1, 1]], b(2, 4), &k);
            g.all(&[Hist], &[Single], &[&[]], &[T::U(0), T::X], &[&[2, 2], &[3, 1], &[1, 3]], b(2, 4), &k);
            if !q {
                g.all(&[Hist], &[Dense, Sparse, Dyn], &[&[], CREATED, OLD3], &[T::U(0), T::U(3), T::X], &[&[2, 1], &[2, 2]], 3, &k);
                g.all(&[Hist], &[Single, Dense], &[&[]], &[T::U(0), T::H(0), T::X], &[&[2, 1, 1], &[2, 2, 1], &[1, 1, 1, 1]], 2, &k);
            }
        }
        "c03" => {
            let k = |p: &[Vec<T>]| has(p, |t| matches!(t, T::R(_)));
            let per = b(10, 24) as u32;
            for (k, i) in [(Counter, &[][..]), (Counter, OLD3), (Float, &[]), (Hist, &[])] {
                g.long(k, Sparse, i, &[(T::U(0), 10), (T::R(0), 10)], per);
                g.long(k, Sparse, i, &[(T::H(0), 8), (T::R(0), 10)], per);
                g.turns(k, Sparse, i, &[[T::U(0), T::R(0)].repeat(5), [T::U(0), T::R(0)].repeat(5)], per);
                g.turns(k, Sparse, i, &[[T::U(0), T::R(3)].repeat(5), [T::U(3), T::R(0)].repeat(5)], per);
            }
            g.turns(Counter, Sparse, &[], &[vec![T::U(0); 5], vec![T::R(0); 5], vec![T::U(3), T::R(3), T::U(3), T::R(3)]], b(4, 8) as u32);
            // a shard of many series
            let al = [T::U(0), T::U(60), T::H(20), T::R(0), T::R(39), T::R(20), T::X];
            g.all(&[Counter], &[Pile], &[PILE], &al, &[&[1, 1]], b(2, 4), &k);
            let al = [T::U(0), T::H(0), T::W(0), T::T(0), T::R(0), T::R(3), T::X, T::P, T::D(0)];
            g.all(&[Counter, Hist], &[Sparse], &[&[], OLD, OLD3], &al, &[&[1, 1]], b(4, 6), &k);
            g.all(&[Gauge, Float], &[Sparse, Dyn], &[OLD], &[T::U(0), T::H(0), T::R(0)], &[&[1, 1]], b(3, 5), &k);
            g.all(&[Counter], &[Sparse], &[&[]], &[T::U(0), T::U(3), T::R(0), T::R(3)], &[&[2, 1]], b(3, 3), &k);
            g.all(&[Counter], &[Sparse], &[OLD], &[T::U(0), T::R(0)], &[&[1, 1, 1]], b(3, 3), &k);
            g.all(&[Counter], &[GroupSparse], &[&[]], &[T::U(0), T::R(0), T::X], &[&[1, 1]], b(3, 4), &k);
            // removals from, and growth of, tables with several series
            let al = [T::U(0), T::U(11), T::H(3), T::R(0), T::R(3), T::R(1), T::X];
            g.all(&[Counter], &[Sparse, Dyn], &[OLD3, BIG], &al, &[&[1, 1]], b(3, 5), &k);
            g.all(&[Hist, Float], &[Sparse], &[BIG], &[T::U(0), T::U(3), T::R(0), T::R(3), T::X], &[&[1, 1]], b(3, 5), &k);
            // a table emptied one series after the other
            for init in [OLD3, BIG] {
                for p in [
                    vec![vec![T::R(0), T::R(3), T::R(7), T::R(11), T::R(15)], vec![T::U(0)]],
                    vec![vec![T::R(0), T::R(3), T::R(7), T::R(11)], vec![T::U(15), T::U(0)]],
                    vec![vec![T::R(0), T::R(3)], vec![T::R(7), T::R(11)]],
                    vec![vec![T::R(15), T::R(11), T::R(7), T::R(3)], vec![T::H(0)]],
                    vec![vec![T::R(0), T::U(0)], vec![T::R(3), T::U(11)]],
                ] {
                    g.one(Counter, Sparse, init, &p, b(2, 4), 1);
                }
            }
            g.one(Counter, Sparse, OLD, &[vec![T::H(0)], vec![T::R(0)]], b(4, 5), 1_000_000);
            g.one(Counter, Sparse, OLD, &[vec![T::U(0)], vec![T::R(0)], vec![T::R(0)]], b(3, 3), 1_000_000);
            if !q {
                g.all(&[Counter, Hist], &[Sparse, Dyn], &[&[], OLD3], &[T::U(0), T::U(3), T::H(0), T::R(0), T::R(3), T::X], &[&[2, 1], &[2, 2]], 2, &k);
                g.all(&[Counter], &[Sparse], &[&[], OLD3], &[T::U(0), T::U(3), T::H(0), T::R(0), T::X], &[&[1, 1, 1]], 2, &k);
            }
        }
        "c04" => {
            let k = |p: &[Vec<T>]| has(p, |t| matches!(t, T::X | T::P | T::C)) && has(p, |t| !matches!(t, T::X | T::P | T::C));
            let al = [T::U(0), T::U(3), T::T(0), T::R(0), T::R(3), T::X, T::P, T::C];
            g.all(&[Counter], &vecs, &[&[], OLD3], &al, &[&[1, 1]], b(4, 6), &k);
            g.all(&[Counter], &[Dense, Sparse], &[&[]], &[T::U(0), T::U(3), T::X], &[&[2, 1]], b(3, 4), &k);
            g.all(&[Counter], &[GroupDense, GroupSparse], &[&[], OLD3], &[T::U(0), T::U(1), T::U(15), T::R(0), T::X, T::P], &[&[1, 1]], b(3, 5), &k);
            g.all(&[Gauge, Float, Hist], &[Dense, Sparse, Dyn], &[&[]], &[T::U(0), T::R(0), T::X, T::P], &[&[1, 1]], b(3, 5), &k);
            g.all(&[Counter], &[Dense, Sparse], &[OLD], &[T::U(0), T::X, T::R(0)], &[&[1, 1, 1]], b(3, 3), &k);
            let per = b(10, 24) as u32;
            for c in vecs {
                g.long(Counter, c, &[], &[(T::U(0), 16), (T::X, 5)], per);
                g.turns(Counter, c, OLD3, &[[T::U(0), T::R(0)].repeat(6), vec![T::X; 5]], per);
                g.turns(Counter, c, OLD3, &[[T::R(3), T::U(11), T::R(11), T::U(3)].repeat(3), [T::X, T::C, T::P].repeat(2)], per);
            }
            g.long(Hist, Sparse, &[], &[(T::U(0), 8), (T::X, 4)], per);
            // a shard of many series
            let al = [T::U(0), T::U(60), T::R(0), T::R(39), T::R(20), T::X, T::P, T::C];
            g.all(&[Counter], &[Pile], &[PILE], &al, &[&[1, 1]], b(2, 4), &k);
            // tables that grow, shrink and are walked at the same time
            g.all(&[Counter], &[Sparse, Dyn], &[OLD3, BIG], &[T::U(11), T::U(4), T::R(3), T::R(15), T::R(1), T::X, T::P, T::C], &[&[1, 1]], b(3, 5), &k);
            if !q {
                g.all(&[Counter, Hist], &vecs, &[&[], OLD3], &[T::U(0), T::U(3), T::U(1), T::R(0), T::X, T::C], &[&[2, 1], &[2, 2]], 2, &k);
                g.all(&[Counter], &[GroupDense, GroupSparse], &[&[]], &[T::U(0), T::U(15), T::R(0), T::X], &[&[2, 1], &[2, 2]], 3, &k);
            }
        }
        "c05" | "c06" => {
            let race = set == "c06";
            let bb = |quick, thorough| if race { b(quick, thorough - 1) } else { b(quick, thorough) };
            let any = |p: &[Vec<T>]| p.iter().flatten().count() > 0;
            let al = [T::U(0), T::U(3), T::H(0), T::R(0), T::X, T::C, T::S(0), T::V(0), T::I(0), T::I(1), T::P];
            g.all(&[Counter], &[Dense, Sparse, Dyn], &[&[], OLD3], &al, &[&[1, 1]], bb(3, 4), &any);
            g.all(&[Gauge, Float, Hist], &all, &[&[]], &[T::U(0), T::R(0), T::S(0), T::X, T::P, T::D(0), T::O(0)], &[&[1, 1]], bb(3, 5), &any);
            g.all(&[Counter, Hist], &[Sparse], &[OLD], &[T::U(0), T::R(0), T::X], &[&[1, 1, 1]], bb(2, 3), &any);
            g.all(&[Counter], &[Dyn], &[&[]], &[T::U(0), T::U(1), T::X], &[&[1, 1, 1]], bb(2, 2), &any);
            if !race {
                let per = b(10, 24) as u32;
                for k in [Counter, Hist] {
                    g.turns(k, Sparse, OLD3, &[[T::U(0), T::R(0), T::X].repeat(4), [T::R(3), T::U(3), T::H(0), T::X].repeat(3)], per);
                    g.turns(k, Sparse, OLD3, &[[T::U(0), T::R(0)].repeat(3), [T::H(0), T::R(3)].repeat(3), vec![T::X; 4]], b(4, 8) as u32);
                    g.turns(k, Dyn, &[], &[[T::U(0), T::R(0), T::X].repeat(3), [T::U(0), T::U(1), T::R(1)].repeat(3)], per);
                }
            }
            // a shard of many series
            let al = [T::U(0), T::U(60), T::H(20), T::R(0), T::R(39), T::R(20), T::X, T::P, T::C];
            g.all(&[Counter], &[Pile], &[PILE], &al, &[&[1, 1]], bb(2, 3), &any);
            // two tables in use: operations on one and on the other, and on both
            let al = [T::U(0), T::U(1), T::U(11), T::H(1), T::R(0), T::R(3), T::R(1), T::X, T::C];
            g.all(&[Counter], &[Sparse, Dyn], &[BIG], &al, &[&[1, 1]], bb(3, 4), &any);
            for p in [vec![vec![T::R(0)], vec![T::R(1)], vec![T::X]], vec![vec![T::U(0)], vec![T::R(1)], vec![T::C]], vec![vec![T::R(0), T::R(3)], vec![T::R(1), T::R(5)]]] {
                g.one(Counter, Sparse, BIG, &p, bb(2, 3), 1);
            }
            if !race {
                for p in [vec![vec![T::U(0)], vec![T::R(0)], vec![T::X]], vec![vec![T::H(0)], vec![T::U(3)], vec![T::X]], vec![vec![T::X], vec![T::X], vec![T::R(0)]]] {
                    g.one(Counter, Sparse, OLD3, &p, b(3, 3), 1_000_000);
                    g.one(Hist, Sparse, OLD3, &p, b(2, 3), 1_000_000);
                }
            }
            if !q {
                g.all(&[Counter, Hist], &[Sparse, Dyn], &[&[]], &[T::U(0), T::U(3), T::R(0), T::X, T::C], &[&[2, 1], &[1, 1, 1]], bb(3, 3), &any);
                g.all(&[Counter], &[Dense], &[&[]], &[T::U(0), T::U(3), T::X, T::C], &[&[2, 2], &[1, 1, 1]], bb(3, 3), &any);
                g.all(&[Counter], &[Sparse], &[OLD], &[T::U(0), T::R(0), T::X], &[&[1, 1, 1, 1]], 1, &any);
            }
        }
        "c08" => {
            let k = |p: &[Vec<T>]| p.iter().all(|t| t.iter().any(|t| matches!(t, T::I(_) | T::U(_) | T::W(_)))) || has(p, |t| matches!(t, T::I(_)));
            let per = b(10, 24) as u32;
            g.turns(Counter, Dyn, &[], &[(0..10).map(T::I).collect(), (0..10).rev().map(T::I).collect()], per);
            g.turns(Counter, Dyn, &[], &[(0..10).map(T::I).collect(), (0..10).map(T::U).collect()], per);
            g.turns(Counter, Dyn, &[], &[(0..8).map(T::I).collect(), (0..8).map(T::U).collect(), vec![T::X; 3]], b(4, 8) as u32);
            let al = [T::I(0), T::I(1), T::I(2), T::U(0), T::U(1), T::X, T::P];
            g.all(&[Counter], &[Dyn], &[&[], OLD], &al, &[&[1, 1]], b(4, 5), &k);
            g.all(&[Counter], &[Dyn], &[&[]], &[T::I(0), T::I(1), T::U(0)], &[&[2, 1]], b(3, 4), &k);
            g.all(&[Counter], &[Dyn], &[&[]], &[T::I(0), T::I(1)], &[&[1, 1, 1]], b(2, 3), &k);
            g.all(&[Counter], &[Dyn], &[OLD], &[T::I(0), T::I(1), T::U(0), T::X], &[&[2, 1]], b(3, 4), &k);
            if !q {
                g.all(&[Counter], &[Dyn], &[&[], OLD3], &[T::I(0), T::I(1), T::U(0), T::U(1), T::X], &[&[2, 1], &[2, 2]], 2, &k);
                g.all(&[Counter], &[Dyn], &[&[]], &[T::I(0), T::I(1), T::U(0)], &[&[2, 2], &[1, 1, 1]], 2, &k);
            }
        }
        // nothing has run before: the process-wide number of shards is computed by racing threads
        "globalrace" => {
            g.one(Counter, Fresh, &[], &[vec![T::V(0)], vec![T::V(1)]], b(2, 4), 1);
            g.one(Counter, Fresh, &[], &[vec![T::V(0)], vec![T::V(1)], vec![T::V(2)]], b(1, 2), 1);
            g.one(Counter, Fresh, &[], &[vec![T::V(0), T::V(3)], vec![T::V(1)]], b(2, 3), 1);
        }
        _ => panic!("unknown set {set}"),
    }
    g.out
}
