//! A strict parser of the Prometheus text exposition format, written from the format description.
#[derive(Clone, Debug, PartialEq)]
pub struct Sample {
    pub name: String,
    pub labels: Vec<(String, String)>,
    pub raw: String,
}
impl Sample {
    pub fn value(&self) -> f64 {
        num(&self.raw).unwrap()
    }
    pub fn label(&self, n: &str) -> Option<&str> {
        self.labels.iter().find(|l| l.0 == n).map(|l| l.1.as_str())
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    Help(String, String),
    Type(String, String),
    Sample(Sample),
    Blank,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Family {
    pub name: String,
    pub help: Option<String>,
    pub typ: Option<String>,
    pub samples: Vec<Sample>,
}

pub fn num(s: &str) -> Option<f64> {
    match s {
        "+Inf" | "inf" | "+inf" | "Inf" => return Some(f64::INFINITY),
        "-Inf" | "-inf" => return Some(f64::NEG_INFINITY),
        "NaN" => return Some(f64::NAN),
        _ => {}
    }
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit() || matches!(b, b'+' | b'-' | b'.' | b'e' | b'E')) {
        return None;
    }
    s.parse().ok()
}
pub fn name_ok(s: &str, colon: bool) -> bool {
    !s.is_empty()
        && s.bytes().enumerate().all(|(i, b)| match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => true,
            b'0'..=b'9' => i > 0,
            b':' => colon,
            _ => false,
        })
}

fn take_name(s: &str, colon: bool) -> Result<(&str, &str), String> {
    let end = s.bytes().position(|b| !(b.is_ascii_alphanumeric() || b == b'_' || (colon && b == b':'))).unwrap_or(s.len());
    if !name_ok(&s[..end], colon) {
        return Err(format!("bad name at {s:?}"));
    }
    Ok((&s[..end], &s[end..]))
}

fn sample(l: &str) -> Result<Sample, String> {
    let (name, mut r) = take_name(l, true)?;
    let mut labels = vec![];
    if let Some(x) = r.strip_prefix('{') {
        r = x;
        if let Some(x) = r.strip_prefix('}') {
            r = x;
        } else {
            loop {
                let (n, x) = take_name(r, false)?;
                let x = x.strip_prefix("=\"").ok_or_else(|| format!("no =\" after label name {n:?} in {l:?}"))?;
                let mut v = String::new();
                let mut it = x.char_indices();
                let end = loop {
                    match it.next() {
                        None => return Err(format!("unterminated label value in {l:?}")),
                        Some((i, '"')) => break i,
                        Some((_, '\\')) => match it.next() {
                            Some((_, '\\')) => v.push('\\'),
                            Some((_, '"')) => v.push('"'),
                            Some((_, 'n')) => v.push('\n'),
                            _ => return Err(format!("bad escape in {l:?}")),
                        },
                        Some((_, c)) => v.push(c),
                    }
                };
                if labels.iter().any(|(k, _): &(String, String)| k == n) {
                    return Err(format!("label {n:?} twice in {l:?}"));
                }
                labels.push((n.to_string(), v));
                r = &x[end + 1..];
                if let Some(x) = r.strip_prefix(',') {
                    r = x;
                } else if let Some(x) = r.strip_prefix('}') {
                    r = x;
                    break;
                } else {
                    return Err(format!("no , or }} after label in {l:?}"));
                }
            }
        }
    }
    let raw = r.strip_prefix(' ').ok_or_else(|| format!("no space before the value in {l:?}"))?;
    if num(raw).is_none() {
        return Err(format!("bad value {raw:?} in {l:?}"));
    }
    Ok(Sample { name: name.to_string(), labels, raw: raw.to_string() })
}

pub fn lines(b: &[u8]) -> Result<Vec<Line>, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8".to_string())?;
    if s.is_empty() {
        return Ok(vec![]);
    }
    let s = s.strip_suffix('\n').ok_or("last line not terminated")?;
    let mut out = vec![];
    for l in s.split('\n') {
        if l.is_empty() {
            out.push(Line::Blank);
        } else if let Some(r) = l.strip_prefix("# HELP ") {
            let (n, r) = take_name(r, true)?;
            let t = r.strip_prefix(' ').ok_or_else(|| format!("no space after the name in {l:?}"))?;
            let mut v = String::new();
            let mut it = t.chars();
            while let Some(c) = it.next() {
                match c {
                    '\\' => match it.next() {
                        Some('\\') => v.push('\\'),
                        Some('n') => v.push('\n'),
                        _ => return Err(format!("bad escape in {l:?}")),
                    },
                    c => v.push(c),
                }
            }
            out.push(Line::Help(n.to_string(), v));
        } else if let Some(r) = l.strip_prefix("# TYPE ") {
            let (n, r) = take_name(r, true)?;
            match r {
                " counter" | " gauge" | " histogram" | " summary" | " untyped" => out.push(Line::Type(n.to_string(), r[1..].to_string())),
                _ => return Err(format!("bad type in {l:?}")),
            }
        } else if l.starts_with('#') {
            return Err(format!("unexpected comment {l:?}"));
        } else {
            out.push(Line::Sample(sample(l)?));
        }
    }
    Ok(out)
}

/// a whole document: families with HELP and TYPE directly in front of their samples, each name once,
/// a family with samples followed by one blank line if another family comes after it, no other blank line
pub fn doc(b: &[u8]) -> Result<Vec<Family>, String> {
    let mut out: Vec<Family> = vec![];
    let mut blank = false;
    let mut big = std::collections::HashSet::new();
    let ls = lines(b)?;
    let n = ls.len();
    for (i, l) in ls.into_iter().enumerate() {
        if l == Line::Blank {
            if blank || i == 0 || i + 1 == n || out.last().is_none_or_(|f| f.samples.is_empty()) {
                return Err("misplaced blank line".into());
            }
            blank = true;
            continue;
        }
        let fresh = match &l {
            Line::Help(..) => true,
            Line::Type(m, _) => !out.last().is_some_and(|f| f.name == *m && f.typ.is_none() && f.samples.is_empty()),
            _ => false,
        };
        if fresh {
            let m = match &l {
                Line::Help(m, _) | Line::Type(m, _) => m.clone(),
                _ => unreachable!(),
            };
            if out.iter().any(|f| f.name == m) {
                return Err(format!("family {m:?} twice"));
            }
            if out.last().is_some_and(|f| !f.samples.is_empty()) && !blank {
                return Err(format!("no blank line before family {m:?}"));
            }
            out.push(Family { name: m, ..Default::default() });
        } else if blank {
            return Err("blank line inside a family".into());
        }
        blank = false;
        match l {
            Line::Help(_, t) => out.last_mut().unwrap().help = Some(t),
            Line::Type(_, t) => out.last_mut().unwrap().typ = Some(t),
            Line::Sample(s) => {
                let f = out.last_mut().ok_or("sample outside any family")?;
                let hist = f.typ.as_deref() == Some("histogram");
                let ok = if hist {
                    s.name.strip_prefix(f.name.as_str()).is_some_and(|x| matches!(x, "_bucket" | "_sum" | "_count"))
                } else {
                    s.name == f.name
                };
                if !ok {
                    return Err(format!("sample {:?} in family {:?}", s.name, f.name));
                }
                let fresh = if f.samples.len() < 16 {
                    !f.samples.iter().any(|o| o.name == s.name && o.labels == s.labels)
                } else {
                    if f.samples.len() == 16 {
                        big = f.samples.iter().map(|o| (o.name.clone(), o.labels.clone())).collect();
                    }
                    big.insert((s.name.clone(), s.labels.clone()))
                };
                if !fresh {
                    return Err(format!("sample {:?} {:?} twice", s.name, s.labels));
                }
                f.samples.push(s)
            }
            Line::Blank => unreachable!(),
        }
    }
    Ok(out)
}
trait NoneOr<T> {
    fn is_none_or_(self, f: impl FnOnce(T) -> bool) -> bool;
}
impl<T> NoneOr<T> for Option<T> {
    fn is_none_or_(self, f: impl FnOnce(T) -> bool) -> bool {
        match self {
            None => true,
            Some(x) => f(x),
        }
    }
}

/// one histogram series found in a family: bounds with cumulative counts, +Inf count, count, sum
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Hist {
    pub labels: Vec<(String, String)>,
    pub buckets: Vec<(f64, u64)>,
    pub inf: Option<u64>,
    pub sum: Option<f64>,
    pub count: Option<u64>,
}
pub fn hists(f: &Family) -> Result<Vec<Hist>, String> {
    let mut out: Vec<Hist> = vec![];
    let mut at = std::collections::HashMap::new();
    for s in &f.samples {
        let mut ls = s.labels.clone();
        let suf = &s.name[f.name.len()..];
        let le = if suf == "_bucket" {
            let p = ls.iter().position(|l| l.0 == "le").ok_or("bucket without le")?;
            Some(ls.remove(p).1)
        } else {
            None
        };
        let i = *at.entry(ls.clone()).or_insert(out.len());
        if i == out.len() {
            out.push(Hist { labels: ls, ..Default::default() });
        }
        let h = &mut out[i];
        match suf {
            "_bucket" => {
                let c: u64 = s.raw.parse().map_err(|_| format!("bucket count {:?}", s.raw))?;
                let le = num(le.as_deref().unwrap()).ok_or("bad le")?;
                if le == f64::INFINITY {
                    if h.inf.replace(c).is_some() {
                        return Err("two +Inf buckets".into());
                    }
                } else {
                    h.buckets.push((le, c));
                }
            }
            "_sum" => h.sum = Some(s.value()),
            "_count" => h.count = Some(s.raw.parse().map_err(|_| format!("count {:?}", s.raw))?),
            _ => return Err(format!("sample {}", s.name)),
        }
    }
    Ok(out)
}
