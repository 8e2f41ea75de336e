//! A strict decoder of length-delimited io.prometheus.client.MetricFamily messages: unknown, repeated or
//! wrongly typed fields, invalid UTF-8 and leftover bytes are errors.
#[derive(Clone, Debug)]
pub enum Val {
    Counter(f64),
    Gauge(f64),
}
/// the same number, bit for bit; any NaN equals any NaN
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan();
        match (self, o) {
            (Val::Counter(a), Val::Counter(b)) | (Val::Gauge(a), Val::Gauge(b)) => same(*a, *b),
            _ => false,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Metric {
    pub labels: Vec<(String, String)>,
    pub val: Val,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fam {
    pub name: Option<String>,
    pub help: Option<String>,
    pub typ: Option<u64>,
    pub metrics: Vec<Metric>,
}
fn varint(b: &mut &[u8]) -> Result<u64, String> {
    let mut v = 0u64;
    for i in 0..10 {
        let (&x, r) = b.split_first().ok_or("truncated varint")?;
        *b = r;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x < 0x80 {
            return Ok(v);
        }
    }
    Err("varint too long".into())
}
fn bytes<'a>(b: &mut &'a [u8]) -> Result<&'a [u8], String> {
    let n = varint(b)? as usize;
    if n > b.len() {
        return Err(format!("length {} but {} bytes left", n, b.len()));
    }
    let (x, r) = b.split_at(n);
    *b = r;
    Ok(x)
}
fn string(b: &mut &[u8]) -> Result<String, String> {
    String::from_utf8(bytes(b)?.to_vec()).map_err(|_| "string is not UTF-8".into())
}
fn double(mut m: &[u8]) -> Result<f64, String> {
    if m.len() != 9 || m[0] != (1 << 3 | 1) {
        return Err(format!("value message {:?}", m));
    }
    m = &m[1..];
    Ok(f64::from_le_bytes(m.try_into().unwrap()))
}
fn once<T>(o: &mut Option<T>, v: T, what: &str) -> Result<(), String> {
    match o.replace(v) {
        None => Ok(()),
        Some(_) => Err(format!("field {what} twice")),
    }
}
fn metric(mut m: &[u8]) -> Result<Metric, String> {
    let mut labels = vec![];
    let mut val = None;
    while !m.is_empty() {
        match varint(&mut m)? {
            0x0a => {
                let mut l = bytes(&mut m)?;
                let (mut n, mut v) = (None, None);
                while !l.is_empty() {
                    match varint(&mut l)? {
                        0x0a => once(&mut n, string(&mut l)?, "label name")?,
                        0x12 => once(&mut v, string(&mut l)?, "label value")?,
                        k => return Err(format!("field key {k:#x} in a label pair")),
                    }
                }
                labels.push((n.ok_or("label without name")?, v.ok_or("label without value")?));
            }
            0x12 => once(&mut val, Val::Gauge(double(bytes(&mut m)?)?), "value")?,
            0x1a => once(&mut val, Val::Counter(double(bytes(&mut m)?)?), "value")?,
            k => return Err(format!("field key {k:#x} in a metric")),
        }
    }
    Ok(Metric { labels, val: val.ok_or("metric without value")? })
}
pub fn family(mut m: &[u8]) -> Result<Fam, String> {
    let mut f = Fam { name: None, help: None, typ: None, metrics: vec![] };
    while !m.is_empty() {
        match varint(&mut m)? {
            0x0a => once(&mut f.name, string(&mut m)?, "name")?,
            0x12 => once(&mut f.help, string(&mut m)?, "help")?,
            0x18 => once(&mut f.typ, varint(&mut m)?, "type")?,
            0x22 => f.metrics.push(metric(bytes(&mut m)?)?),
            k => return Err(format!("field key {k:#x} in a metric family")),
        }
    }
    Ok(f)
}
pub fn stream(mut b: &[u8]) -> Result<Vec<Fam>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        out.push(family(bytes(&mut b)?)?);
    }
    Ok(out)
}
