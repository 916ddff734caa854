#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[allow(dead_code)]
pub enum Op {
    Pipeline, Coalesce, RangeEx, RangeIn, Or, And, Eq, Ne, Gt, Ge, Lt, Le, Add, Sub, Mul, Div, Rem,
}

#[derive(Debug)]
pub struct Item {
    pub depth: usize,
    pub label: String,
    pub span: Option<(usize, usize)>,
}

pub fn float_label(v: f64) -> String {
    format!("{:?}", v)
}
