//! The harness's own syntax tree, its canonical dump, and the printer that writes it as tokens and text.

use crate::lex::{can_touch, lex, Tok, TK};
use crate::tape::Tape;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Pipeline,
    Coalesce,
    RangeEx,
    RangeIn,
    Or,
    And,
    Eq,
    Ne,
    Gt,
    Ge,
    Lt,
    Le,
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

pub const ALL_OPS: &[Op] = &[
    Op::Add,
    Op::Sub,
    Op::Mul,
    Op::Div,
    Op::Rem,
    Op::Lt,
    Op::Le,
    Op::Gt,
    Op::Ge,
    Op::Eq,
    Op::Ne,
    Op::And,
    Op::Or,
    Op::RangeEx,
    Op::RangeIn,
    Op::Coalesce,
    Op::Pipeline,
];

impl Op {
    pub fn sym(self) -> &'static str {
        match self {
            Op::Pipeline => "|>",
            Op::Coalesce => "??",
            Op::RangeEx => "..",
            Op::RangeIn => "..=",
            Op::Or => "||",
            Op::And => "&&",
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Rem => "%",
        }
    }
    pub fn level(self) -> u8 {
        match self {
            Op::Pipeline => 2,
            Op::Coalesce => 3,
            Op::RangeEx | Op::RangeIn => 4,
            Op::Or => 5,
            Op::And => 6,
            Op::Eq | Op::Ne | Op::Gt | Op::Ge | Op::Lt | Op::Le => 7,
            Op::Add | Op::Sub => 8,
            Op::Mul | Op::Div | Op::Rem => 9,
        }
    }
}

pub const OVERLOADABLE: &[Op] = &[
    Op::Add,
    Op::Sub,
    Op::Mul,
    Op::Div,
    Op::Rem,
    Op::Gt,
    Op::Ge,
    Op::Lt,
    Op::Le,
    Op::Eq,
    Op::Ne,
    Op::RangeEx,
    Op::RangeIn,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AOp {
    Set,
    Mul,
    Div,
    Add,
    Sub,
}

impl AOp {
    pub fn sym(self) -> &'static str {
        match self {
            AOp::Set => "=",
            AOp::Mul => "*=",
            AOp::Div => "/=",
            AOp::Add => "+=",
            AOp::Sub => "-=",
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Ty {
    pub name: String,
    pub nullable: bool,
    pub first: usize,
    pub name_tok: usize,
    pub last: usize,
}

impl Ty {
    pub fn new(name: &str, nullable: bool) -> Ty {
        Ty {
            name: name.to_string(),
            nullable,
            ..Ty::default()
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Param {
    pub name: String,
    pub ty: Option<Ty>,
    pub first: usize,
    pub last: usize,
}

impl Param {
    pub fn new(name: &str) -> Param {
        Param {
            name: name.to_string(),
            ..Param::default()
        }
    }
}

#[derive(Clone, Debug)]
pub struct FnD {
    pub name: String,
    pub name_tok: usize,
    pub params: Vec<Param>,
    pub ret: Option<Ty>,
    pub body: Box<N>,
}

#[derive(Clone, Debug)]
pub enum K {
    Null,
    Unit,
    Bool(bool),
    Int(String, i64),
    Float(String, f64),
    /// Spelled with its quotes, and its value.
    Str(String, String),
    Raw(String),
    Ident(String),
    List(Vec<N>),
    /// Spelled key, key, value.
    Object(Vec<(String, String, N)>),
    Lambda(Vec<Param>, Box<N>),
    Field(Box<N>, String),
    SuperField(Option<String>, String),
    Index(Box<N>, Box<N>),
    Neg(Box<N>),
    Not(Box<N>),
    Bin(Op, Box<N>, Box<N>),
    Is(Box<N>, Ty),
    NullProp(Box<N>),
    ErrProp(Box<N>),
    ErrOr(Box<N>, String, Box<N>),
    Assign(AOp, Box<N>, Box<N>),
    Call(Box<N>, Vec<N>),
    SuperCall(Vec<N>),
    If(Box<N>, Box<N>, Option<Box<N>>),
    Block(Vec<N>),
    Loop(Box<N>),
    While(Box<N>, Box<N>),
    For(String, Box<N>, Box<N>),
    /// names, destructured, mutable, value
    Let(Vec<String>, bool, bool, Box<N>),
    Fn(FnD),
    OpDecl(Op, Vec<Param>, Option<Ty>, Box<N>),
    Class(String, usize, Option<Box<N>>, Vec<N>),
    /// module name, items, path as spelled with quotes
    Import(Option<String>, Vec<String>, String),
    Export(Box<N>),
    Return(Option<Box<N>>),
    Break,
    Continue,
}

#[derive(Clone, Debug)]
pub struct N {
    pub k: K,
    pub first: usize,
    pub last: usize,
}

pub fn n(k: K) -> N {
    N { k, first: 0, last: 0 }
}
pub fn bx(k: K) -> Box<N> {
    Box::new(n(k))
}
pub fn id(s: &str) -> N {
    n(K::Ident(s.to_string()))
}
pub fn int(v: i64) -> N {
    if v < 0 {
        return n(K::Neg(Box::new(int(-v))));
    }
    n(K::Int(v.to_string(), v))
}
pub fn spell(v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            '\t' => s.push_str("\\t"),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}
pub fn str_lit(v: &str) -> N {
    n(K::Str(spell(v), v.to_string()))
}
pub fn call(f: N, args: Vec<N>) -> N {
    n(K::Call(Box::new(f), args))
}
pub fn field(o: N, f: &str) -> N {
    n(K::Field(Box::new(o), f.to_string()))
}
pub fn block(items: Vec<N>) -> N {
    n(K::Block(items))
}
pub fn bin(op: Op, a: N, b: N) -> N {
    n(K::Bin(op, Box::new(a), Box::new(b)))
}
pub fn let_(name: &str, mutable: bool, v: N) -> N {
    n(K::Let(vec![name.to_string()], false, mutable, Box::new(v)))
}
pub fn set(name: &str, v: N) -> N {
    n(K::Assign(AOp::Set, Box::new(id(name)), Box::new(v)))
}

impl N {
    /// Calls `f` on every direct child.
    pub fn children_mut(&mut self, f: &mut dyn FnMut(&mut N)) {
        match &mut self.k {
            K::List(v) | K::Block(v) | K::SuperCall(v) => v.iter_mut().for_each(f),
            K::Object(v) => v.iter_mut().for_each(|x| f(&mut x.2)),
            K::Lambda(_, b)
            | K::Field(b, _)
            | K::Neg(b)
            | K::Not(b)
            | K::Is(b, _)
            | K::NullProp(b)
            | K::ErrProp(b)
            | K::Loop(b)
            | K::Let(_, _, _, b)
            | K::OpDecl(_, _, _, b)
            | K::Export(b)
            | K::Return(Some(b)) => f(b),
            K::Fn(d) => f(&mut d.body),
            K::Index(a, b) | K::Bin(_, a, b) | K::ErrOr(a, _, b) | K::Assign(_, a, b) | K::While(a, b) => {
                f(a);
                f(b)
            }
            K::For(_, a, b) => {
                f(a);
                f(b)
            }
            K::Call(t, v) => {
                f(t);
                v.iter_mut().for_each(f)
            }
            K::If(a, b, c) => {
                f(a);
                f(b);
                if let Some(c) = c {
                    f(c)
                }
            }
            K::Class(_, _, b, v) => {
                if let Some(b) = b {
                    f(b)
                }
                v.iter_mut().for_each(f)
            }
            _ => {}
        }
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut N)) {
        f(self);
        self.children_mut(&mut |c| c.walk_mut(f));
    }
    pub fn count(&mut self) -> usize {
        let mut c = 0;
        self.walk_mut(&mut |_| c += 1);
        c
    }
}

// ---------------------------------------------------------------------------------------------
// Dump

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub depth: usize,
    pub label: String,
    /// Bytes, where the construct's extent is determined by what was written.
    pub span: Option<(usize, usize)>,
}

pub struct Dumper<'s> {
    pub spans: &'s [(usize, usize)],
    pub out: Vec<Item>,
}

pub fn float_label(v: f64) -> String {
    format!("Float {:016x}", v.to_bits())
}

impl Dumper<'_> {
    fn push(&mut self, depth: usize, label: String, first: usize, last: usize) {
        let span = Some((self.spans[first].0, self.spans[last].1));
        self.out.push(Item { depth, label, span });
    }
    fn synth(&mut self, depth: usize, label: &str) {
        self.out.push(Item {
            depth,
            label: label.to_string(),
            span: None,
        });
    }
    fn params(&mut self, d: usize, ps: &[Param]) {
        for p in ps {
            self.push(d, format!("param {}", p.name), p.first, p.last);
            if let Some(t) = &p.ty {
                self.ty(d + 1, t);
            }
        }
    }
    fn ty(&mut self, d: usize, t: &Ty) {
        self.push(d, format!("type nullable={}", t.nullable), t.first, t.last);
        self.push(d + 1, format!("name {}", t.name), t.name_tok, t.name_tok);
    }
    fn ret(&mut self, d: usize, t: &Option<Ty>) {
        if let Some(t) = t {
            self.synth(d, "returns");
            self.ty(d + 1, t);
        }
    }
    fn block(&mut self, d: usize, items: &[N], first: usize, last: usize, whole: bool) {
        if whole && self.spans.is_empty() {
            self.synth(d, "Block");
        } else {
            self.push(d, "Block".into(), first, last);
        }
        for (i, item) in items.iter().enumerate() {
            self.synth(d + 1, if i + 1 == items.len() { "trailing" } else { "item" });
            self.node(d + 2, item);
        }
    }
    /// The whole program.
    pub fn root(&mut self, items: &[N]) {
        self.block(0, items, 0, self.spans.len().max(1) - 1, true);
    }
    pub fn node(&mut self, d: usize, x: &N) {
        let (f, l) = (x.first, x.last);
        macro_rules! p {
            ($($a:tt)*) => { self.push(d, format!($($a)*), f, l) };
        }
        match &x.k {
            K::Null => p!("Null"),
            K::Unit => p!("Unit"),
            K::Bool(b) => p!("Bool {}", b),
            K::Int(_, v) => p!("Int {}", v),
            K::Float(_, v) => self.push(d, float_label(*v), f, l),
            K::Str(_, v) => p!("String {:?}", v),
            K::Raw(v) => p!("String {:?}", v),
            K::Ident(v) => p!("Ident {}", v),
            K::List(v) => {
                p!("List {}", v.len());
                v.iter().for_each(|c| self.node(d + 1, c));
            }
            K::Object(v) => {
                p!("Object {}", v.len());
                for (_, key, c) in v {
                    self.synth(d + 1, &format!("key {:?}", key));
                    self.node(d + 2, c);
                }
            }
            K::Lambda(ps, b) => {
                p!("Lambda");
                self.params(d + 1, ps);
                self.node(d + 1, b);
            }
            K::Field(b, name) => {
                p!("Field {}", name);
                self.node(d + 1, b);
            }
            K::SuperField(c, name) => p!("SuperField {:?} {}", c, name),
            K::Index(a, b) => {
                p!("Index");
                self.node(d + 1, a);
                self.node(d + 1, b);
            }
            K::Neg(b) => {
                p!("Prefix Negate");
                self.node(d + 1, b);
            }
            K::Not(b) => {
                p!("Prefix Not");
                self.node(d + 1, b);
            }
            K::Bin(op, a, b) => {
                p!("Binary {}", op.sym());
                self.node(d + 1, a);
                self.node(d + 1, b);
            }
            K::Is(a, t) => {
                p!("Is");
                self.node(d + 1, a);
                self.ty(d + 1, t);
            }
            K::NullProp(b) => {
                p!("NullPropagate");
                self.node(d + 1, b);
            }
            K::ErrProp(b) => {
                p!("ErrorPropagate");
                self.node(d + 1, b);
            }
            K::ErrOr(a, v, b) => {
                p!("Block");
                self.synth(d + 1, "item");
                self.synth(d + 2, "Let [\"#result\"] destructured=false mutable=false");
                self.synth(d + 3, "type nullable=false");
                self.synth(d + 4, "name Result");
                self.node(d + 3, a);
                self.synth(d + 1, "trailing");
                self.synth(d + 2, "If");
                self.synth(d + 3, "Field is_ok");
                self.synth(d + 4, "Ident #result");
                self.synth(d + 3, "Field result");
                self.synth(d + 4, "Ident #result");
                self.synth(d + 3, "else");
                self.synth(d + 4, "Block");
                self.synth(d + 5, "item");
                self.synth(d + 6, &format!("Let {:?} destructured=false mutable=false", vec![v]));
                self.synth(d + 7, "Field result");
                self.synth(d + 8, "Ident #result");
                self.synth(d + 5, "trailing");
                self.node(d + 6, b);
            }
            K::Assign(op, a, b) => {
                p!("Assign {}", op.sym());
                self.node(d + 1, a);
                self.node(d + 1, b);
            }
            K::Call(t, args) => {
                p!("Call {}", args.len());
                self.node(d + 1, t);
                args.iter().for_each(|c| self.node(d + 1, c));
            }
            K::SuperCall(args) => {
                p!("SuperCall {}", args.len());
                args.iter().for_each(|c| self.node(d + 1, c));
            }
            K::If(a, b, c) => {
                p!("If");
                self.node(d + 1, a);
                self.node(d + 1, b);
                if let Some(c) = c {
                    self.synth(d + 1, "else");
                    self.node(d + 2, c);
                }
            }
            K::Block(v) => self.block(d, v, f, l, false),
            K::Loop(b) => {
                p!("Loop");
                self.node(d + 1, b);
            }
            K::While(a, b) => {
                p!("While");
                self.node(d + 1, a);
                self.node(d + 1, b);
            }
            K::For(v, a, b) => {
                p!("For {}", v);
                self.node(d + 1, a);
                self.node(d + 1, b);
            }
            K::Let(names, de, mu, b) => {
                p!("Let {:?} destructured={} mutable={}", names, de, mu);
                self.node(d + 1, b);
            }
            K::Fn(g) => {
                p!("Fn");
                self.push(d + 1, format!("name {}", g.name), g.name_tok, g.name_tok);
                self.params(d + 1, &g.params);
                self.ret(d + 1, &g.ret);
                self.node(d + 1, &g.body);
            }
            K::OpDecl(op, ps, ret, b) => {
                p!("Op {}", op.sym());
                self.params(d + 1, ps);
                self.ret(d + 1, ret);
                self.node(d + 1, b);
            }
            K::Class(name, tok, base, items) => {
                p!("Class");
                self.push(d + 1, format!("name {}", name), *tok, *tok);
                if let Some(b) = base {
                    self.synth(d + 1, "base");
                    self.node(d + 2, b);
                }
                items.iter().for_each(|c| self.node(d + 1, c));
            }
            K::Import(m, items, path) => p!("Import {:?} {:?} {:?}", m, items, &path[1..path.len() - 1]),
            K::Export(b) => {
                p!("Export");
                self.node(d + 1, b);
            }
            K::Return(r) => {
                p!("Return");
                if let Some(r) = r {
                    self.node(d + 1, r);
                }
            }
            K::Break => p!("Break"),
            K::Continue => p!("Continue"),
        }
    }
}

pub fn dump_root(items: &[N], spans: &[(usize, usize)]) -> Vec<Item> {
    let mut d = Dumper { spans, out: vec![] };
    d.root(items);
    d.out
}

pub fn show_dump(items: &[Item]) -> String {
    let mut s = String::new();
    for i in items {
        s.push_str(&"  ".repeat(i.depth));
        s.push_str(&i.label);
        if let Some((a, b)) = i.span {
            s.push_str(&format!("  @{}..{}", a, b));
        }
        s.push('\n');
    }
    s
}

/// Describes the first difference; spans are compared when `spans` and both sides know them.
pub fn diff_dump(expected: &[Item], actual: &[Item], spans: bool) -> Option<String> {
    for i in 0..expected.len().max(actual.len()) {
        match (expected.get(i), actual.get(i)) {
            (Some(e), Some(a)) => {
                if e.label != a.label || e.depth != a.depth {
                    return Some(format!(
                        "structure: item {}: expected depth {} {:?}, got depth {} {:?}",
                        i, e.depth, e.label, a.depth, a.label
                    ));
                }
                if spans {
                    if let (Some(x), Some(y)) = (e.span, a.span) {
                        if x != y {
                            return Some(format!(
                                "span: item {} {:?}: expected {}..{}, got {}..{}",
                                i, e.label, x.0, x.1, y.0, y.1
                            ));
                        }
                    }
                }
            }
            (Some(e), None) => return Some(format!("structure: missing {:?}", e.label)),
            (None, Some(a)) => return Some(format!("structure: unexpected {:?}", a.label)),
            _ => {}
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------
// Printer

/// Where a node is written.
#[derive(Clone, Copy)]
struct Pos {
    /// The lowest operator level that may appear unparenthesised (1 = full expression).
    level: u8,
    /// Nothing follows that a greedy right end could absorb.
    tail: bool,
    /// An opening parenthesis may be written here (not at the start of an item that follows an
    /// expression, where it would read as a call).
    open: bool,
}

pub struct Printer<'t> {
    pub toks: Vec<Tok>,
    /// Percentage of redundant parentheses and optional commas, drawn from the tape.
    style: usize,
    tape: Option<&'t mut Tape>,
}

fn level_of(k: &K) -> u8 {
    match k {
        K::Assign(..) => 1,
        K::Bin(op, ..) => op.level(),
        K::ErrOr(..) => 3,
        K::Is(..) => 7,
        K::Neg(_) | K::Not(_) => 10,
        K::NullProp(_) | K::ErrProp(_) => 11,
        K::Call(..) | K::Field(..) | K::Index(..) => 12,
        _ => 14,
    }
}

pub fn is_statement(k: &K) -> bool {
    matches!(
        k,
        K::Loop(_)
            | K::While(..)
            | K::For(..)
            | K::Let(..)
            | K::Fn(_)
            | K::OpDecl(..)
            | K::Class(..)
            | K::Import(..)
            | K::Export(_)
            | K::Return(_)
            | K::Break
            | K::Continue
    )
}

/// Whether an item that follows could be read as a continuation of this one.
fn ends_in_expression(k: &K) -> bool {
    match k {
        K::Loop(_) | K::While(..) | K::For(..) | K::Fn(_) | K::OpDecl(..) | K::Class(..) | K::Import(..) => false,
        K::Break | K::Continue => false,
        K::Export(e) => matches!(e.k, K::Let(..)),
        _ => true,
    }
}

impl<'t> Printer<'t> {
    pub fn minimal() -> Printer<'static> {
        Printer {
            toks: vec![],
            style: 0,
            tape: None,
        }
    }
    pub fn styled(tape: &'t mut Tape, style: usize) -> Printer<'t> {
        Printer {
            toks: vec![],
            style,
            tape: Some(tape),
        }
    }
    fn flip(&mut self) -> bool {
        match &mut self.tape {
            Some(t) if self.style > 0 => t.chance(self.style, 100),
            _ => false,
        }
    }
    fn sym(&mut self, s: &'static str) {
        self.toks.push(Tok::sym(s));
    }
    fn ident(&mut self, s: &str) {
        self.toks.push(Tok::ident(s));
    }
    fn here(&self) -> usize {
        self.toks.len()
    }

    pub fn program(&mut self, items: &mut Vec<N>) {
        self.items(items, true);
    }

    fn items(&mut self, items: &mut Vec<N>, root: bool) {
        let count = items.len();
        let mut prev_expr = false;
        for i in 0..count {
            let start = self.here();
            if let K::Return(r) = &mut items[i].k {
                if r.is_none() && (i + 1 < count || root) {
                    *r = Some(bx(K::Unit));
                }
            }
            self.item(&mut items[i], !prev_expr);
            if prev_expr && matches!(self.toks[start].k, TK::Sym("(" | "[" | "-" | "|")) {
                self.toks.truncate(start);
                let inner = std::mem::replace(&mut items[i], n(K::Unit));
                items[i] = block(vec![inner]);
                self.item(&mut items[i], false);
            }
            prev_expr = ends_in_expression(&items[i].k);
        }
    }

    fn braces(&mut self, body: &mut N) {
        let f = self.here();
        self.sym("{");
        match &mut body.k {
            K::Block(items) => self.items(items, false),
            _ => panic!("block expected"),
        }
        self.sym("}");
        body.first = f;
        body.last = self.here() - 1;
    }

    fn full(&mut self, x: &mut N) {
        self.expr(
            x,
            Pos {
                level: 1,
                tail: true,
                open: true,
            },
        );
    }

    fn ty(&mut self, delim: &'static str, t: &mut Ty) {
        t.first = self.here();
        self.sym(delim);
        t.name_tok = self.here();
        self.ident(&t.name.clone());
        if t.nullable {
            self.sym("?");
        }
        t.last = self.here() - 1;
    }

    fn params(&mut self, open: &'static str, close: &'static str, ps: &mut [Param]) {
        self.sym(open);
        let count = ps.len();
        for (i, p) in ps.iter_mut().enumerate() {
            p.first = self.here();
            self.ident(&p.name.clone());
            if let Some(t) = &mut p.ty {
                self.ty(":", t);
            }
            p.last = self.here() - 1;
            if i + 1 < count || self.flip() {
                self.sym(",");
            }
        }
        self.sym(close);
    }

    fn list(&mut self, open: &'static str, close: &'static str, v: &mut [N]) {
        self.sym(open);
        let count = v.len();
        for (i, x) in v.iter_mut().enumerate() {
            self.full(x);
            if i + 1 < count || self.flip() {
                self.sym(",");
            }
        }
        self.sym(close);
    }

    fn names(&mut self, names: &[String]) {
        self.sym("{");
        for (i, x) in names.iter().enumerate() {
            self.ident(x);
            if i + 1 < names.len() || self.flip() {
                self.sym(",");
            }
        }
        self.sym("}");
    }

    fn item(&mut self, x: &mut N, open: bool) {
        if !is_statement(&x.k) {
            self.expr(
                x,
                Pos {
                    level: 1,
                    tail: true,
                    open,
                },
            );
            return;
        }
        let f = self.here();
        match &mut x.k {
            K::Loop(b) => {
                self.sym("loop");
                self.braces(b);
            }
            K::While(c, b) => {
                self.sym("while");
                self.full(c);
                self.braces(b);
            }
            K::For(v, s, b) => {
                self.sym("for");
                self.ident(v);
                self.sym("in");
                self.full(s);
                self.braces(b);
            }
            K::Let(names, de, mu, v) => {
                self.sym("let");
                if *mu {
                    self.sym("mut");
                }
                if *de {
                    let names = names.clone();
                    self.names(&names);
                } else {
                    self.ident(&names[0].clone());
                }
                self.sym("=");
                self.full(v);
            }
            K::Fn(d) => {
                self.sym("fn");
                d.name_tok = self.here();
                self.ident(&d.name.clone());
                self.params("(", ")", &mut d.params);
                if let Some(t) = &mut d.ret {
                    self.ty("->", t);
                }
                self.braces(&mut d.body);
            }
            K::OpDecl(op, ps, ret, b) => {
                self.sym("op");
                self.sym(op.sym());
                self.params("(", ")", ps);
                if let Some(t) = ret {
                    self.ty("->", t);
                }
                self.braces(b);
            }
            K::Class(name, tok, base, items) => {
                self.sym("class");
                *tok = self.here();
                self.ident(&name.clone());
                if let Some(b) = base {
                    self.sym(":");
                    self.full(b);
                }
                self.sym("{");
                for i in items.iter_mut() {
                    self.item(i, true);
                }
                self.sym("}");
            }
            K::Import(m, items, path) => {
                self.sym("import");
                if let Some(m) = m {
                    self.sym("*");
                    self.sym("as");
                    self.ident(&m.clone());
                    if !items.is_empty() {
                        if !self.flip() {
                            self.sym(",");
                        }
                    } else if self.flip() {
                        self.sym(",");
                    }
                }
                if !items.is_empty() {
                    let items = items.clone();
                    self.names(&items);
                }
                self.sym("from");
                self.toks.push(Tok {
                    k: TK::Str,
                    s: path.clone(),
                });
            }
            K::Export(b) => {
                self.sym("export");
                self.item(b, false);
            }
            K::Return(r) => {
                self.sym("return");
                if let Some(r) = r {
                    self.full(r);
                }
            }
            K::Break => self.sym("break"),
            K::Continue => self.sym("continue"),
            _ => unreachable!(),
        }
        x.first = f;
        x.last = self.here() - 1;
    }

    fn expr(&mut self, x: &mut N, pos: Pos) {
        let level = level_of(&x.k);
        let greedy = matches!(x.k, K::Lambda(..) | K::Assign(..));
        let mut needs = level < pos.level || (greedy && !pos.tail);
        // `a?.b` and `a!!.b` need none: the postfix operators take no right operand.
        if level == 11 && pos.level == 12 {
            needs = false;
        }
        if is_statement(&x.k) {
            // Statements are only allowed in a sequence.
            let inner = std::mem::replace(x, n(K::Unit));
            *x = block(vec![inner]);
            return self.expr(x, pos);
        }
        // Redundant parentheses, except around an assignment target (handled by the caller).
        let extra = if pos.open && !matches!(x.k, K::Raw(_)) && self.flip() {
            if self.flip() {
                2
            } else {
                1
            }
        } else {
            0
        };
        let parens = if needs { extra.max(1) } else { extra };
        if parens > 0 {
            for _ in 0..parens {
                self.sym("(");
            }
            self.inner(
                x,
                Pos {
                    level: 1,
                    tail: true,
                    open: true,
                },
            );
            for _ in 0..parens {
                self.sym(")");
            }
        } else {
            self.inner(x, pos);
        }
    }

    fn inner(&mut self, x: &mut N, pos: Pos) {
        let f = self.here();
        let left = |level: u8| Pos {
            level,
            tail: false,
            open: pos.open,
        };
        let right = |level: u8| Pos {
            level,
            tail: pos.tail,
            open: true,
        };
        match &mut x.k {
            K::Null => self.sym("null"),
            K::Unit => {
                self.sym("(");
                self.sym(")");
            }
            K::Bool(b) => self.sym(if *b { "true" } else { "false" }),
            K::Int(s, _) => {
                let s = s.clone();
                self.toks.push(Tok { k: TK::Int, s })
            }
            K::Float(s, _) => {
                let s = s.clone();
                self.toks.push(Tok { k: TK::Float, s })
            }
            K::Str(s, _) => {
                let s = s.clone();
                self.toks.push(Tok { k: TK::Str, s })
            }
            K::Raw(s) => {
                let s = format!("\\{}\\", s);
                self.toks.push(Tok { k: TK::Raw, s })
            }
            K::Ident(s) => {
                let s = s.clone();
                self.ident(&s)
            }
            K::List(v) => self.list("[", "]", v),
            K::Object(v) => {
                self.sym("#");
                self.sym("{");
                let count = v.len();
                for (i, (sp, _, val)) in v.iter_mut().enumerate() {
                    let k = match sp.as_bytes()[0] {
                        b'"' => TK::Str,
                        b'0'..=b'9' => TK::Int,
                        _ => TK::Ident,
                    };
                    self.toks.push(Tok { k, s: sp.clone() });
                    self.sym(":");
                    self.full(val);
                    if i + 1 < count || self.flip() {
                        self.sym(",");
                    }
                }
                self.sym("}");
            }
            K::Lambda(ps, b) => {
                self.params("|", "|", ps);
                self.expr(
                    b,
                    Pos {
                        level: 1,
                        tail: pos.tail,
                        open: true,
                    },
                );
            }
            K::Field(b, name) => {
                self.expr(b, left(12));
                self.sym(".");
                let name = name.clone();
                self.ident(&name);
            }
            K::SuperField(c, name) => {
                self.sym("super");
                if let Some(c) = c {
                    self.sym("[");
                    let c = c.clone();
                    self.ident(&c);
                    self.sym("]");
                }
                self.sym(".");
                let name = name.clone();
                self.ident(&name);
            }
            K::Index(a, b) => {
                self.expr(a, left(12));
                self.sym("[");
                self.full(b);
                self.sym("]");
            }
            K::Neg(b) => {
                self.sym("-");
                self.expr(b, right(10));
            }
            K::Not(b) => {
                self.sym("!");
                self.expr(b, right(10));
            }
            K::Bin(op, a, b) => {
                let l = op.level();
                self.expr(a, left(l));
                if *op == Op::Or {
                    self.sym("|");
                    self.sym("|");
                } else {
                    self.sym(op.sym());
                }
                self.expr(b, right(l + 1));
            }
            K::Is(a, t) => {
                self.expr(a, left(7));
                self.ty("is", t);
            }
            K::NullProp(b) => {
                self.expr(b, left(11));
                self.sym("?");
            }
            K::ErrProp(b) => {
                self.expr(b, left(11));
                self.sym("!!");
            }
            K::ErrOr(a, v, b) => {
                self.expr(a, left(3));
                self.sym("or");
                let v = v.clone();
                self.ident(&v);
                self.braces(b);
            }
            K::Assign(op, t, v) => {
                // The target itself takes no parentheses.
                match &mut t.k {
                    K::Field(..) | K::Index(..) | K::Ident(_) => self.inner(t, left(12)),
                    _ => self.expr(t, left(12)),
                }
                self.sym(op.sym());
                self.expr(
                    v,
                    Pos {
                        level: 1,
                        tail: pos.tail,
                        open: true,
                    },
                );
            }
            K::Call(t, args) => {
                self.expr(t, left(12));
                if let [N { k: K::Raw(_), .. }] = args.as_slice() {
                    self.inner(&mut args[0], right(14));
                } else {
                    self.list("(", ")", args);
                }
            }
            K::SuperCall(args) => {
                self.sym("super");
                self.list("(", ")", args);
            }
            K::If(c, b, e) => {
                self.sym("if");
                self.full(c);
                self.braces(b);
                if let Some(e) = e {
                    self.sym("else");
                    match &e.k {
                        K::If(..) => self.inner(e, right(14)),
                        _ => self.braces(e),
                    }
                }
            }
            K::Block(_) => {
                self.braces(x);
                return;
            }
            _ => unreachable!("statement {:?}", x.k),
        }
        x.first = f;
        x.last = self.here() - 1;
        // A construct that starts with a parenthesised operand starts at that parenthesis, and one
        // that ends with one ends at it: `f` and the last token already say so.
    }
}

// ---------------------------------------------------------------------------------------------
// Layout

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    /// Only the separators that are needed.
    Tight,
    /// One space everywhere.
    Spaced,
    /// Random white space, line breaks and comments.
    Random,
}

pub struct Text {
    pub text: String,
    pub spans: Vec<(usize, usize)>,
}

fn trivia(tape: &mut Tape, last: bool) -> String {
    let mut s = String::new();
    let k = tape.range(1, 3);
    if tape.chance(1, 400) {
        // A long comment, or a lot of white space.
        let k = crate::gensyn::size(tape, 3000);
        match tape.below(3) {
            0 => {
                let c = *tape.pick(&[" ", "\n", "\t", "\r\n"]);
                s.push_str(&c.repeat(k));
            }
            1 => {
                s.push_str("//");
                s.push_str(&tape.pick(&["x", "/", "é", " ", "//"]).repeat(k));
                s.push('\n');
            }
            _ => s.push_str(&"// x\n".repeat(k.min(300))),
        }
    }
    for _ in 0..k {
        match tape.below(9) {
            0 | 1 => s.push(' '),
            2 => s.push('\n'),
            3 => s.push_str("\r\n"),
            4 => s.push('\t'),
            5 => s.push(*tape.pick(&[' ', '\r', '\u{c}'])),
            6 => s.push_str("//\n"),
            7 => {
                s.push_str("//");
                for _ in 0..tape.below(6) {
                    s.push_str(tape.pick(&[
                        "x", " ", "é", "漢", "😀", "\"", "\\", "}", "/", "let ", "*", "\t", "\u{301}", "´", "/*", "*/", "#", "\u{0}",
                    ]));
                }
                if !(last && tape.bool()) {
                    s.push_str(tape.pick(&["\n", "\r\n", "\n\n", "\r"]));
                } else {
                    return s;
                }
            }
            _ => s.push_str("   "),
        }
    }
    s
}

pub fn lay_out(toks: &[Tok], layout: Layout, tape: &mut Tape) -> Text {
    let mut text = String::new();
    let mut spans = Vec::new();
    if layout == Layout::Random && tape.chance(1, 3) {
        text.push_str(&trivia(tape, false));
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let must = !can_touch(&toks[i - 1], t);
            match layout {
                Layout::Tight => {
                    if must {
                        text.push(' ')
                    }
                }
                Layout::Spaced => text.push(' '),
                Layout::Random => {
                    if must || tape.chance(1, 3) {
                        let t = trivia(tape, false);
                        if text.ends_with('/') && t.starts_with('/') {
                            text.push(' ');
                        }
                        text.push_str(&t);
                    }
                }
            }
        }
        spans.push((text.len(), text.len() + t.s.len()));
        text.push_str(&t.s);
    }
    if layout == Layout::Random && tape.chance(1, 3) {
        if text.ends_with('/') {
            text.push(' ');
        }
        text.push_str(&trivia(tape, true));
    }
    let l = lex(&text);
    let ok = l.len() == toks.len()
        && l.iter().zip(toks).zip(&spans).all(|((a, b), s)| a.k == b.k && (a.start, a.end) == *s);
    assert!(ok, "harness layout does not lex back: {:?}", text);
    Text { text, spans }
}

/// Minimal style, one space between tokens.
pub fn to_text(items: &mut Vec<N>) -> Text {
    let mut p = Printer::minimal();
    p.program(items);
    let toks = p.toks;
    lay_out(&toks, Layout::Spaced, &mut Tape::replay(vec![]))
}

/// Minimal style with line breaks, for reading.
pub fn pretty(items: &mut Vec<N>) -> String {
    let mut p = Printer::minimal();
    p.program(items);
    pretty_toks(&p.toks)
}

pub fn pretty_toks(toks: &[Tok]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let p = &toks[i - 1];
            if matches!(t.s.as_str(), "let" | "fn" | "class" | "for" | "while" | "loop" | "return" | "export" | "import" | "op")
                || (p.s == "{" && t.s != "}")
            {
                s.push('\n');
            } else if !matches!(t.s.as_str(), "." | "," | ")" | "]" | "?" | "(" | "[") && !matches!(p.s.as_str(), "." | "(" | "[")
                || !can_touch(p, t)
            {
                s.push(' ');
            }
        }
        s.push_str(&t.s);
    }
    s
}
