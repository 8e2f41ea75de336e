//! Visitors and text output shared by the generated programs.
#![allow(dead_code)]
use measured::label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};

/// what a label value presents itself as
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i64),
    F(f64),
    S(String),
}
impl Val {
    /// as it reads in an exposition
    pub fn text(&self) -> String {
        match self {
            Val::I(i) => i.to_string(),
            Val::F(f) => format!("{f:?}"),
            Val::S(s) => s.clone(),
        }
    }
}
pub struct V;
impl LabelVisitor for V {
    type Output = Val;
    fn write_int(self, x: i64) -> Val {
        Val::I(x)
    }
    fn write_float(self, x: f64) -> Val {
        Val::F(x)
    }
    fn write_str(self, x: &str) -> Val {
        Val::S(x.to_string())
    }
}
#[derive(Default)]
pub struct GV(pub Vec<(String, Val)>);
impl LabelGroupVisitor for GV {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        self.0.push((name.as_str().to_string(), x.visit(V)));
    }
}
pub fn labels(g: &impl LabelGroup) -> Vec<(String, Val)> {
    let mut v = GV::default();
    g.visit_values(&mut v);
    v.0
}
