//! Generates syntactically well-formed programs (names need not resolve).

use crate::ast::*;
use crate::tape::Tape;

pub const NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "foo", "_", "_1", "iff", "orx", "doit", "returns", "in1", "super_", "nullish", "Foo",
    "truex", "x_y", "A9", "isnt", "fnn", "letx", "classy", "elsewhere", "opx", "asx", "fromx",
];
pub const TYPES: &[&str] = &["Int", "T", "Any", "String_", "Foo"];

pub const STR_PARTS: &[&str] = &[
    "a", "b c", "\\n", "\\t", "\\r", "\\\\", "\\\"", "é", "漢字", "😀", "//", "{", "}", "'", "\n", "\r\n", "\t", "\u{0}",
    "$x", "\u{301}", "¡", "0", "\u{2028}", "\u{feff}", "¬≠", "\\\\n",
];

pub fn gen_str(t: &mut Tape, max: usize) -> N {
    let k = t.below(max + 1);
    let mut sp = String::from("\"");
    for _ in 0..k {
        sp.push_str(t.pick(STR_PARTS));
    }
    sp.push('"');
    let v = crate::lex::unescape(&sp);
    n(K::Str(sp, v))
}

pub fn gen_int(t: &mut Tape) -> N {
    let v: i64 = match t.below(6) {
        0 | 1 => t.below(10) as i64,
        2 => t.below(100000) as i64,
        3 => *t.pick(&[
            i64::MAX,
            i64::MAX - 1,
            2147483647,
            2147483648,
            4294967295,
            4294967296,
            255,
            256,
            127,
            128,
            32768,
            65536,
            1 << 53,
            (1 << 53) + 1,
            1_000_000_007,
            1_000_000_000_000_000_000,
        ]),
        _ => (t.u64() >> t.range(1, 60)) as i64,
    };
    let mut s = v.to_string();
    if t.chance(1, 8) {
        s = format!("{}{}", "0".repeat(t.range(1, 30)), s);
    }
    n(K::Int(s, v))
}

pub fn gen_float(t: &mut Tape) -> N {
    let mut s = String::new();
    let di = match t.below(8) {
        0..=3 => t.range(1, 3),
        4 | 5 => t.range(1, 18),
        6 => t.range(15, 40),
        _ => t.range(300, 312),
    };
    for _ in 0..di {
        s.push((b'0' + t.below(10) as u8) as char);
    }
    s.push('.');
    let df = match t.below(8) {
        0..=3 => t.range(1, 3),
        4 | 5 => t.range(1, 20),
        6 => t.range(15, 40),
        _ => t.range(300, 345),
    };
    let zeros = t.chance(1, 4);
    for i in 0..df {
        if zeros && i + 3 < df {
            s.push('0');
        } else {
            s.push((b'0' + t.below(10) as u8) as char);
        }
    }
    let s = match t.below(20) {
        0 => "0.1".to_string(),
        1 => "9007199254740993.0".to_string(),
        2 => "0.0".to_string(),
        3 => "2.2250738585072011".to_string(),
        4 => "1.00000000000000011102230246251565404236316680908203125".to_string(),
        5 => "1.00000000000000011102230246251565404236316680908203124".to_string(),
        6 => "5.0".to_string(),
        _ => s,
    };
    let v = s.parse().unwrap();
    n(K::Float(s, v))
}

pub fn raw_text(t: &mut Tape) -> String {
    let mut s = String::new();
    for _ in 0..t.below(5) {
        s.push_str(t.pick(&["a", " ", "\"", "é", "😀", "\n", "{x}", "//", "'", "1+1", "|"]));
    }
    s
}

pub struct GS<'t> {
    pub t: &'t mut Tape,
    pub budget: isize,
    /// Only operator expressions over atoms.
    pub ops_only: bool,
}

impl<'t> GS<'t> {
    pub fn new(t: &'t mut Tape, budget: isize) -> Self {
        GS {
            t,
            budget,
            ops_only: false,
        }
    }
    pub fn name(&mut self) -> String {
        self.t.pick(NAMES).to_string()
    }
    fn ty(&mut self) -> Ty {
        let name = *self.t.pick(TYPES);
        Ty::new(name, self.t.bool())
    }
    fn opt_ty(&mut self) -> Option<Ty> {
        if self.t.chance(1, 3) {
            Some(self.ty())
        } else {
            None
        }
    }
    fn params(&mut self) -> Vec<Param> {
        let k = self.t.count(4);
        (0..k)
            .map(|_| Param {
                name: self.name(),
                ty: self.opt_ty(),
                ..Param::default()
            })
            .collect()
    }
    fn args(&mut self, d: usize) -> Vec<N> {
        if !self.ops_only && self.t.chance(1, 8) {
            return vec![n(K::Raw(raw_text(self.t)))];
        }
        let k = self.t.count(4);
        (0..k).map(|_| self.expr(d)).collect()
    }
    pub fn atom(&mut self) -> N {
        match self.t.below(12) {
            0..=3 => id(&self.name()),
            4 | 5 => gen_int(self.t),
            6 => gen_float(self.t),
            7 => gen_str(self.t, 4),
            8 => n(K::Null),
            9 => n(K::Bool(self.t.bool())),
            10 => n(K::Unit),
            _ => n(K::SuperField(
                if self.t.bool() { Some(self.name()) } else { None },
                self.name(),
            )),
        }
    }
    fn key(&mut self) -> (String, String) {
        match self.t.below(3) {
            0 => {
                let k = self.name();
                (k.clone(), k)
            }
            1 => {
                let K::Str(sp, v) = gen_str(self.t, 3).k else { unreachable!() };
                (sp, v)
            }
            _ => {
                let s = if self.t.chance(1, 4) {
                    "00123456789012345678901234567890".to_string()
                } else {
                    self.t.below(1000).to_string()
                };
                (s.clone(), s)
            }
        }
    }
    pub fn block(&mut self, d: usize) -> N {
        let k = self.t.count(4);
        let items = (0..k).map(|_| self.item(d)).collect();
        block(items)
    }
    /// An assignable expression.
    fn target(&mut self, d: usize) -> N {
        match self.t.below(3) {
            0 => id(&self.name()),
            1 => {
                let b = self.expr(d);
                n(K::Field(Box::new(b), self.name()))
            }
            _ => {
                let a = self.expr(d);
                let b = self.expr(d);
                n(K::Index(Box::new(a), Box::new(b)))
            }
        }
    }
    fn if_(&mut self, d: usize) -> N {
        let c = self.expr(d);
        let b = self.block(d);
        let e = match self.t.below(4) {
            0 | 1 => None,
            2 => Some(Box::new(self.block(d))),
            _ if self.budget > 0 => Some(Box::new(self.if_(d))),
            _ => None,
        };
        n(K::If(Box::new(c), Box::new(b), e))
    }
    pub fn expr(&mut self, d: usize) -> N {
        self.budget -= 1;
        if d == 0 || self.budget <= 0 {
            return self.atom();
        }
        let d = d - 1;
        let w: &[usize] = if self.ops_only {
            //a  bin un is ?  !! . [] () or = |x| if {} [] #{} super()
            &[3, 10, 3, 2, 2, 2, 3, 2, 2, 1, 1, 1, 0, 0, 1, 0, 0]
        } else {
            &[4, 6, 2, 1, 1, 1, 3, 2, 3, 1, 2, 2, 2, 2, 2, 2, 1]
        };
        match self.t.weighted(w) {
            0 => self.atom(),
            1 => {
                let op = *self.t.pick(ALL_OPS);
                let a = self.expr(d);
                let b = self.expr(d);
                bin(op, a, b)
            }
            2 => {
                let neg = self.t.bool();
                let e = Box::new(self.expr(d));
                n(if neg { K::Neg(e) } else { K::Not(e) })
            }
            3 => {
                let e = Box::new(self.expr(d));
                n(K::Is(e, self.ty()))
            }
            4 => n(K::NullProp(Box::new(self.expr(d)))),
            5 => n(K::ErrProp(Box::new(self.expr(d)))),
            6 => {
                let e = Box::new(self.expr(d));
                n(K::Field(e, self.name()))
            }
            7 => {
                let a = self.expr(d);
                let b = self.expr(d);
                n(K::Index(Box::new(a), Box::new(b)))
            }
            8 => {
                let f = self.expr(d);
                let a = self.args(d);
                call(f, a)
            }
            9 => {
                let a = Box::new(self.expr(d));
                let v = self.name();
                let b = if self.ops_only { block(vec![self.atom()]) } else { self.block(d) };
                n(K::ErrOr(a, v, Box::new(b)))
            }
            10 => {
                let op = *self.t.pick(&[AOp::Set, AOp::Mul, AOp::Div, AOp::Add, AOp::Sub]);
                let target = self.target(d);
                let v = self.expr(d);
                n(K::Assign(op, Box::new(target), Box::new(v)))
            }
            11 => {
                let p = self.params();
                n(K::Lambda(p, Box::new(self.expr(d))))
            }
            12 => self.if_(d),
            13 => self.block(d),
            14 => {
                let k = self.t.count(4);
                n(K::List((0..k).map(|_| self.expr(d)).collect()))
            }
            15 => {
                let k = self.t.count(4);
                n(K::Object(
                    (0..k)
                        .map(|_| {
                            let (s, key) = self.key();
                            (s, key, self.expr(d))
                        })
                        .collect(),
                ))
            }
            _ => {
                let k = self.t.count(3);
                n(K::SuperCall((0..k).map(|_| self.expr(d)).collect()))
            }
        }
    }
    fn fn_(&mut self, d: usize) -> N {
        n(K::Fn(FnD {
            name: self.name(),
            name_tok: 0,
            params: self.params(),
            ret: self.opt_ty(),
            body: Box::new(self.block(d)),
        }))
    }
    fn op_(&mut self, d: usize) -> N {
        let op = *self.t.pick(OVERLOADABLE);
        let p = self.params();
        let r = self.opt_ty();
        n(K::OpDecl(op, p, r, Box::new(self.block(d))))
    }
    fn class_(&mut self, d: usize) -> N {
        let name = self.name();
        let base = if self.t.bool() {
            Some(Box::new(self.expr(d.min(2))))
        } else {
            None
        };
        let k = self.t.count(4);
        let items = (0..k)
            .map(|_| if self.t.chance(1, 3) { self.op_(d) } else { self.fn_(d) })
            .collect();
        n(K::Class(name, 0, base, items))
    }
    fn let_(&mut self, d: usize) -> N {
        let de = self.t.chance(1, 4);
        let names = if de {
            let k = self.t.count(4);
            (0..k).map(|_| self.name()).collect()
        } else {
            vec![self.name()]
        };
        let m = self.t.bool();
        n(K::Let(names, de, m, Box::new(self.expr(d))))
    }
    pub fn item(&mut self, d: usize) -> N {
        self.budget -= 1;
        if d == 0 || self.budget <= 0 {
            return self.atom();
        }
        let d = d - 1;
        match self.t.weighted(&[8, 4, 2, 1, 2, 1, 1, 2, 1, 1, 1, 2, 1, 1]) {
            0 => self.expr(d + 1),
            1 => self.let_(d),
            2 => self.fn_(d),
            3 => self.op_(d),
            4 => self.class_(d),
            5 => n(K::Loop(Box::new(self.block(d)))),
            6 => {
                let c = self.expr(d);
                n(K::While(Box::new(c), Box::new(self.block(d))))
            }
            7 => {
                let v = self.name();
                let s = self.expr(d);
                n(K::For(v, Box::new(s), Box::new(self.block(d))))
            }
            8 => n(K::Break),
            9 => n(K::Continue),
            10 => {
                if self.t.bool() {
                    n(K::Return(None))
                } else {
                    n(K::Return(Some(Box::new(self.expr(d)))))
                }
            }
            11 => {
                let m = if self.t.bool() { Some(self.name()) } else { None };
                let k = self.t.count(4);
                let mut items: Vec<String> = (0..k).map(|_| self.name()).collect();
                if m.is_none() && items.is_empty() {
                    items.push(self.name());
                }
                let path = format!("\"{}\"", self.t.pick(&["m.dm", "./a/b.dm", "", "é😀", "x y"]));
                n(K::Import(m, items, path))
            }
            12 => {
                let inner = match self.t.below(4) {
                    0 => id(&self.name()),
                    1 => self.let_(d),
                    2 => self.fn_(d),
                    _ => self.class_(d),
                };
                n(K::Export(Box::new(inner)))
            }
            _ => self.if_(d),
        }
    }
    pub fn program(&mut self, max_items: usize, d: usize) -> Vec<N> {
        let k = self.t.count(max_items + 1);
        (0..k).map(|_| self.item(d)).collect()
    }
}

/// A size up to `max`, every order of magnitude as likely.
pub fn size(t: &mut Tape, max: usize) -> usize {
    let mut bits = 0;
    while (1 << (bits + 1)) <= max {
        bits += 1;
    }
    let b = t.below(bits + 1);
    t.range(1 << b, ((2 << b) - 1).min(max))
}

/// Makes something in the program long: a list of any kind, a name, a string, a chain or a nest.
pub fn stretch(t: &mut Tape, items: &mut [N]) {
    let takes = |x: &N| {
        matches!(
            x.k,
            K::List(_)
                | K::Object(_)
                | K::Lambda(..)
                | K::Fn(_)
                | K::Call(..)
                | K::SuperCall(_)
                | K::Class(..)
                | K::Block(_)
                | K::Import(..)
                | K::Str(..)
                | K::Bool(_)
                | K::Null
                | K::Field(..)
                | K::Let(..)
                | K::Bin(..)
        )
    };
    let mut found = 0;
    for x in items.iter_mut() {
        x.walk_mut(&mut |y| found += takes(y) as usize);
    }
    if found == 0 {
        return;
    }
    let at = t.below(found);
    let mut seen = 0;
    for x in items.iter_mut() {
        x.walk_mut(&mut |y| {
            if takes(y) {
                seen += 1;
                if seen == at + 1 {
                    stretch_node(t, y);
                }
            }
        });
    }
}

fn fill(t: &mut Tape, v: &mut Vec<N>, k: usize) {
    let i = t.below(v.len() + 1);
    let mut w = v.split_off(i);
    for j in 0..k {
        v.push(match t.below(12) {
            0 => n(K::Int(j.to_string(), j as i64)),
            1 => n(K::Str("\"s\"".into(), "s".into())),
            2 => n(K::List(vec![])),
            _ => id(NAMES[j % NAMES.len()]),
        });
    }
    v.append(&mut w);
}

fn stretch_node(t: &mut Tape, x: &mut N) {
    match &mut x.k {
        K::List(v) | K::SuperCall(v) => {
            let k = size(t, 230);
            fill(t, v, k)
        }
        K::Call(_, v) if !matches!(v.as_slice(), [N { k: K::Raw(_), .. }]) => {
            let k = size(t, 230);
            fill(t, v, k)
        }
        K::Object(v) => {
            for j in 0..size(t, 300) {
                let key = format!("k{}", j);
                v.push((key.clone(), key, id(NAMES[j % NAMES.len()])));
            }
        }
        K::Lambda(ps, _) => params(t, ps),
        K::Fn(f) => {
            if t.bool() {
                params(t, &mut f.params)
            } else {
                f.name = long_name(t);
            }
        }
        K::Class(name, _, _, v) => {
            if t.chance(1, 4) {
                *name = long_name(t);
            } else {
                for j in 0..size(t, 100) {
                    v.push(n(K::Fn(FnD {
                        name: format!("m{}", j),
                        name_tok: 0,
                        params: vec![],
                        ret: None,
                        body: Box::new(n(K::Block(vec![]))),
                    })));
                }
            }
        }
        K::Block(v) => {
            let k = size(t, 400);
            *v = (0..k)
                .map(|j| match t.below(4) {
                    0 => let_(&format!("v{}", j), false, id("a")),
                    1 => n(K::Bin(Op::Add, bx(K::Ident("a".into())), bx(K::Int(j.to_string(), j as i64)))),
                    _ => id(&format!("v{}", j)),
                })
                .collect();
        }
        K::Import(_, v, _) => {
            for j in 0..size(t, 200) {
                v.push(format!("i{}", j));
            }
        }
        K::Let(names, destructured, ..) => {
            if *destructured {
                for j in 0..size(t, 200) {
                    names.push(format!("d{}", j));
                }
            } else {
                names[0] = long_name(t);
            }
        }
        K::Field(_, f) => *f = long_name(t),
        K::Str(sp, v) if t.bool() => {
            let k = size(t, 5000);
            let mut s = String::from("\"");
            while s.len() < k {
                if t.chance(1, 8) {
                    s.push_str(t.pick(STR_PARTS));
                } else {
                    s.push((b'a' + (s.len() % 26) as u8) as char);
                }
            }
            s.push('"');
            *v = crate::lex::unescape(&s);
            *sp = s;
        }
        K::Bin(op, _, _) => {
            // A chain of the same operator, to the left or to the right.
            let op = *op;
            let left = t.bool();
            let mixed = t.bool();
            for j in 0..size(t, if left { 120 } else { 40 }) {
                let old = std::mem::replace(x, n(K::Null));
                let y = id(NAMES[j % NAMES.len()]);
                let op = if mixed { *t.pick(ALL_OPS) } else { op };
                // NOTE: The first token stays the first one, since what it is may matter to what stands before.
                if left {
                    *x = n(K::Bin(op, Box::new(old), Box::new(y)));
                } else if let K::Bin(o, a, b) = old.k {
                    *x = n(K::Bin(o, a, Box::new(n(K::Bin(op, Box::new(y), b)))));
                }
            }
        }
        K::Str(..) | K::Bool(_) | K::Null => {
            let k = size(t, 60);
            let kind = t.below(9);
            for j in 0..k {
                let old = std::mem::replace(x, n(K::Null));
                let b = Box::new(old);
                *x = n(match kind {
                    0 => K::Field(b, NAMES[j % NAMES.len()].into()),
                    1 => K::Call(b, vec![id(NAMES[j % NAMES.len()])]),
                    2 => K::Index(b, bx(K::Int(j.to_string(), j as i64))),
                    3 => K::NullProp(b),
                    4 => K::ErrProp(b),
                    5 => K::Call(Box::new(id("f")), vec![*b]),
                    6 => K::Call(Box::new(id("f")), vec![n(K::List(vec![*b]))]),
                    7 => K::Call(Box::new(id("f")), vec![n(K::Neg(Box::new(n(K::Not(b)))))]),
                    _ => K::Call(Box::new(id("f")), vec![n(K::Lambda(vec![Param::new("q")], b))]),
                });
            }
        }
        _ => {}
    }
}

fn params(t: &mut Tape, ps: &mut Vec<Param>) {
    for j in 0..size(t, 200) {
        let mut p = Param::new(&format!("p{}", j));
        if t.chance(1, 4) {
            p.ty = Some(Ty::new(TYPES[j % TYPES.len()], t.bool()));
        }
        ps.push(p);
    }
}

fn long_name(t: &mut Tape) -> String {
    let k = size(t, 2000);
    (0..k).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>() + "_"
}

/// Token-level junk for mutations.
pub fn junk_token(t: &mut Tape) -> crate::lex::Tok {
    use crate::lex::*;
    match t.below(10) {
        0 | 1 => Tok::sym(PUNCT[t.below(PUNCT.len())]),
        2 | 3 => Tok::sym(KEYWORDS[t.below(KEYWORDS.len())]),
        4 => Tok {
            k: TK::Reserved,
            s: t.pick(RESERVED).to_string(),
        },
        5 => Tok {
            k: TK::Error,
            s: t.pick(&["@", "❤", "^", "~", "$", ";", "'", "`", "&", "é", "😀", "\u{0}", "\u{a0}"]).to_string(),
        },
        6 => Tok::ident(t.pick(NAMES)),
        7 => Tok {
            k: TK::Int,
            s: t.pick(&["0", "1", "42", "9223372036854775807"]).to_string(),
        },
        8 => Tok {
            k: TK::Str,
            s: t.pick(&["\"\"", "\"a\"", "\"é\\n\""]).to_string(),
        },
        _ => Tok {
            k: TK::Raw,
            s: t.pick(&["\\\\", "\\x y\\"]).to_string(),
        },
    }
}
