//! Small programs whose expressions combine any constructs with any values, whatever their types:
//! most of them meet a run-time error sooner or later, and what happens before it, and which one
//! it is, is part of what the program means.

use std::collections::BTreeSet;

use crate::ast::*;
use crate::gensem::*;
use crate::gentmpl::*;
use crate::tape::Tape;

#[derive(Clone, Copy, PartialEq)]
pub enum Taste {
    Any,
    /// Short-circuiting, chains, propagation.
    Logic,
    /// Control flow in expressions.
    Exits,
    /// Members, receivers and operators.
    Objects,
}

pub struct Wild<'t> {
    t: &'t mut Tape,
    taste: Taste,
    in_fn: bool,
    in_method: bool,
    in_loop: bool,
    budget: isize,
    marks: i64,
    names: usize,
    locals: Vec<(String, bool)>,
}

/// Predeclared values, and whether they can be assigned.
const POOL: &[(&str, bool)] = &[
    ("i", true),
    ("j", false),
    ("z", false),
    ("d", true),
    ("s", true),
    ("t", false),
    ("w", true),
    ("n", true),
    ("u", false),
    ("l", false),
    ("ll", false),
    ("o", false),
    ("g", false),
    ("h", false),
    ("f", false),
    ("v", false),
    ("x", false),
    ("ok", false),
    ("er", false),
    ("r", false),
    ("V", false),
    ("X", false),
];
const MEMBERS: &[&str] = &["a", "a", "b", "c", "o", "n", "m", "k", "f", "is_ok", "result", "start", "length", "map", "st", "nothing", "new", "iter"];
const TYPES: &[&str] = &[
    "Int", "Int", "Float", "String", "Bool", "Unit", "Array", "Function", "Class", "Any", "V", "V", "X", "Result", "Ok", "Err", "Range", "i", "v", "None_",
];

impl<'t> Wild<'t> {
    pub fn new(t: &'t mut Tape, taste: Taste) -> Wild<'t> {
        Wild {
            t,
            taste,
            in_fn: false,
            in_method: false,
            in_loop: false,
            budget: 60,
            marks: 0,
            names: 0,
            locals: vec![],
        }
    }

    fn mark(&mut self) -> N {
        self.marks += 1;
        emit(int(100 + self.marks))
    }

    fn declarations(&mut self) -> Vec<N> {
        let class_v = class_(
            "V",
            None,
            vec![
                fn_decl("new", ps(&["self", "a"]), None, vec![assign(AOp::Set, field(id("self"), "a"), id("a")), assign(AOp::Set, field(id("self"), "n"), null())]),
                fn_decl("m", ps(&["self", "p"]), None, vec![emit(str_lit("m")), id("p")]),
                fn_decl("k", ps(&["self"]), None, vec![field(id("self"), "a")]),
                fn_decl("st", ps(&["p"]), None, vec![list(vec![str_lit("st"), id("p")])]),
                n(K::OpDecl(Op::Add, ps(&["self", "p"]), None, Box::new(block(vec![emit(str_lit("+")), id("p")])))),
                n(K::OpDecl(Op::Lt, ps(&["self", "p"]), None, Box::new(block(vec![emit(str_lit("<")), boolean(true)])))),
                n(K::OpDecl(Op::Eq, ps(&["self", "p"]), None, Box::new(block(vec![emit(str_lit("==")), int(1)])))),
                n(K::OpDecl(Op::RangeEx, ps(&["self", "p"]), None, Box::new(block(vec![emit(str_lit("..")), list(vec![id("p")])])))),
            ],
        );
        let class_x = class_(
            "X",
            Some(id("V")),
            vec![
                fn_decl("new", ps(&["self", "a", "b"]), None, vec![n(K::SuperCall(vec![id("b")])), assign(AOp::Set, field(id("self"), "b"), id("a"))]),
                fn_decl("m", ps(&["self", "p"]), None, vec![emit(str_lit("xm")), call(n(K::SuperField(None, "m".into())), vec![list(vec![id("p")])])]),
                n(K::OpDecl(Op::Sub, ps(&["self", "p"]), None, Box::new(block(vec![emit(str_lit("-")), id("self")])))),
            ],
        );
        vec![
            class_v,
            class_x,
            let_("i", true, int(3)),
            let_("j", false, int(-2)),
            let_("z", false, int(0)),
            let_("d", true, float(2.5)),
            let_("s", true, str_lit("ab")),
            let_("t", false, boolean(true)),
            let_("w", true, boolean(false)),
            let_("n", true, null()),
            let_("u", false, n(K::Unit)),
            let_("l", false, list(vec![int(1), str_lit("x"), null()])),
            let_("ll", false, list(vec![list(vec![int(5), int(6)]), list(vec![])])),
            fn_decl("g", ps(&["p"]), None, vec![emit(id("p")), id("p")]),
            let_("h", false, lambda(&["p", "q"], list(vec![id("p"), id("q")]))),
            fn_decl("f", vec![], None, vec![emit(str_lit("f")), id("n")]),
            let_(
                "o",
                false,
                object(vec![
                    ("a", int(1)),
                    ("b", str_lit("bb")),
                    ("n", null()),
                    ("o", object(vec![("a", null()), ("c", int(4)), ("f", lambda(&["p"], object(vec![("a", id("p"))])))])),
                    ("f", lambda(&["p", "q"], list(vec![id("q"), id("p")]))),
                ]),
            ),
            let_("v", false, call(id("V"), vec![int(7)])),
            let_("x", false, call(id("X"), vec![int(8), int(9)])),
            let_("ok", false, call(id("Ok"), vec![int(4)])),
            let_("er", false, call(id("Err"), vec![str_lit("no")])),
            let_("r", false, bin(Op::RangeEx, int(1), int(4))),
        ]
    }

    fn name(&mut self, mutable: bool) -> String {
        let locals: Vec<String> = self.locals.iter().filter(|x| x.1 || !mutable).map(|x| x.0.clone()).collect();
        if !locals.is_empty() && self.t.chance(1, 3) {
            return self.t.pick(&locals).clone();
        }
        if mutable {
            let c: Vec<&str> = POOL.iter().filter(|x| x.1).map(|x| x.0).collect();
            return self.t.pick(&c).to_string();
        }
        self.t.pick(POOL).0.to_string()
    }

    fn leaf(&mut self) -> N {
        match self.t.below(12) {
            0..=6 => id(&self.name(false)),
            7 | 8 => int(self.t.below(5) as i64),
            9 => match self.t.below(8) {
                0 => null(),
                1 => n(K::Unit),
                2 => boolean(self.t.bool()),
                3 => float(*self.t.pick(&[0.0, 1.0, 0.5])),
                4 => str_lit(self.t.pick(&["a", "length", "", "b"])),
                5 => list(vec![]),
                6 => object(vec![]),
                _ => id("undeclared"),
            },
            10 => {
                // Logged as it is evaluated.
                let x = id(&self.name(false));
                call(id("g"), vec![x])
            }
            _ => {
                if self.in_method && self.t.bool() {
                    id("self")
                } else {
                    block(vec![self.mark(), id(&self.name(false))])
                }
            }
        }
    }

    fn exprs(&mut self, most: usize, d: usize) -> Vec<N> {
        let k = self.t.count(most + 1);
        (0..k).map(|_| self.expr(d)).collect()
    }

    fn items(&mut self, d: usize) -> Vec<N> {
        let had = self.locals.len();
        let mut v = vec![];
        for _ in 0..self.t.below(3) {
            let s = self.statement(d);
            v.push(s);
        }
        if self.t.chance(1, 6) {
            let x = self.declaration(d);
            v.push(x);
        } else {
            let x = self.expr(d);
            v.push(match v.is_empty() {
                true => x,
                // Starts with a name, so that it doesn't continue what is before.
                false => block(vec![x]),
            });
        }
        self.locals.truncate(had);
        v
    }

    /// A declaration or loop whose value is that of the block it ends.
    fn declaration(&mut self, d: usize) -> N {
        self.names += 1;
        let name = format!("z{}", self.names);
        let (f, m, l) = (self.in_fn, self.in_method, self.in_loop);
        match self.t.below(7) {
            0 => {
                let op = *self.t.pick(&[Op::Rem, Op::Div, Op::Mul, Op::Ne, Op::Gt]);
                (self.in_fn, self.in_method, self.in_loop) = (true, false, false);
                let x = self.expr(d);
                (self.in_fn, self.in_method, self.in_loop) = (f, m, l);
                n(K::OpDecl(op, ps(&["p", "q"]), None, Box::new(block(vec![x]))))
            }
            1 => {
                (self.in_fn, self.in_method, self.in_loop) = (true, false, false);
                let x = self.expr(d);
                (self.in_fn, self.in_method, self.in_loop) = (f, m, l);
                fn_decl(&name, ps(&["p"]), None, vec![x])
            }
            2 => class_(&name, if self.t.bool() { Some(id("V")) } else { None }, vec![fn_decl("k", ps(&["self"]), None, vec![int(7)])]),
            3 | 4 => {
                let x = self.expr(d);
                let m = self.t.bool();
                let_(&name, m, x)
            }
            5 => {
                let x = self.expr(d);
                let b = self.in_loop(|g| g.items(d));
                for_(&name, x, b)
            }
            _ => {
                let b = self.in_loop(|g| g.items(d));
                n(K::Loop(Box::new(block(vec![block(b), brk()]))))
            }
        }
    }

    fn statement(&mut self, d: usize) -> N {
        match self.t.below(10) {
            0 | 1 | 2 => {
                let x = self.expr(d);
                emit(x)
            }
            3 | 4 => {
                let x = self.expr(d);
                if self.t.chance(1, 5) {
                    let mut names: Vec<String> = vec![];
                    for _ in 0..self.t.count(4) {
                        let s = self.t.pick(MEMBERS).to_string();
                        if s != "new" && !names.contains(&s) {
                            names.push(s);
                        }
                    }
                    let m = self.t.bool();
                    self.locals.extend(names.iter().map(|s| (s.clone(), m)));
                    return n(K::Let(names, true, m, Box::new(x)));
                }
                self.names += 1;
                let name = match self.t.chance(1, 4) {
                    true => self.t.pick(POOL).0.to_string(),
                    false => format!("y{}", self.names),
                };
                let m = self.t.bool();
                self.locals.push((name.clone(), m));
                let_(&name, m, x)
            }
            5 | 6 => block(vec![self.assignment(d), n(K::Unit)]),
            7 => {
                let x = self.expr(d);
                iff(x, vec![self.mark()], None)
            }
            8 => {
                let x = self.expr(d);
                let b = self.in_loop(|g| g.items(d));
                self.names += 1;
                for_(&format!("q{}", self.names), x, b)
            }
            _ => block(vec![self.expr(d), n(K::Unit)]),
        }
    }

    fn in_loop<X>(&mut self, f: impl FnOnce(&mut Self) -> X) -> X {
        let saved = std::mem::replace(&mut self.in_loop, true);
        let x = f(self);
        self.in_loop = saved;
        x
    }

    fn assignment(&mut self, d: usize) -> N {
        let op = *self.t.pick(&[AOp::Set, AOp::Set, AOp::Add, AOp::Sub, AOp::Mul, AOp::Div]);
        let target = match self.t.below(4) {
            0 | 1 => {
                let name = self.name(true);
                // A name that was declared again may not be mutable any more.
                if self.locals.iter().rev().find(|x| x.0 == name).map_or(false, |x| !x.1) {
                    return self.mark();
                }
                id(&name)
            }
            2 => {
                let o = self.primary(d.saturating_sub(1));
                field(o, self.t.pick(MEMBERS))
            }
            _ => {
                let o = self.primary(d.saturating_sub(1));
                let i = self.expr(d.saturating_sub(1));
                index(o, i)
            }
        };
        let x = self.expr(d);
        assign(op, target, x)
    }

    /// Something a chain can start with.
    fn primary(&mut self, d: usize) -> N {
        if d > 0 && self.t.chance(1, 3) {
            self.expr(d)
        } else {
            id(&self.name(false))
        }
    }

    fn chain(&mut self, d: usize) -> N {
        let mut x = self.primary(d);
        for _ in 0..self.t.range(1, 4) {
            x = match self.t.below(9) {
                0 | 1 | 2 => field(x, self.t.pick(MEMBERS)),
                3 | 4 => {
                    let a = self.exprs(2, d);
                    call(x, a)
                }
                5 => {
                    let i = match self.t.below(3) {
                        0 => int(self.t.below(3) as i64),
                        1 => str_lit(self.t.pick(MEMBERS)),
                        _ => self.expr(d),
                    };
                    index(x, i)
                }
                6 | 7 => {
                    let y = n(K::NullProp(Box::new(x)));
                    match self.t.below(4) {
                        0 => y,
                        1 => call(y, vec![]),
                        _ => field(y, self.t.pick(MEMBERS)),
                    }
                }
                _ => {
                    if self.in_fn {
                        prop(x)
                    } else {
                        field(x, "a")
                    }
                }
            };
        }
        x
    }

    fn expr(&mut self, d: usize) -> N {
        self.budget -= 1;
        if d == 0 || self.budget < 0 {
            return self.leaf();
        }
        let d = d - 1;
        let w: [usize; 17] = match self.taste {
            //              leaf bin pre chain ty lazy coal pipe or rng if blk list obj lam asg exit
            Taste::Any => [3, 7, 3, 6, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1],
            Taste::Logic => [3, 2, 1, 9, 3, 5, 5, 3, 4, 1, 1, 1, 1, 1, 1, 1, 1],
            Taste::Exits => [3, 3, 1, 5, 1, 2, 2, 2, 2, 1, 2, 3, 3, 3, 1, 3, 7],
            Taste::Objects => [3, 6, 1, 10, 2, 1, 1, 2, 1, 1, 1, 1, 1, 2, 1, 4, 1],
        };
        match self.t.weighted(&w) {
            0 => self.leaf(),
            1 => {
                let op = *self.t.pick(&[
                    Op::Add,
                    Op::Add,
                    Op::Sub,
                    Op::Mul,
                    Op::Div,
                    Op::Rem,
                    Op::Lt,
                    Op::Le,
                    Op::Gt,
                    Op::Ge,
                    Op::Eq,
                    Op::Eq,
                    Op::Ne,
                ]);
                let a = self.expr(d);
                let b = self.expr(d);
                bin(op, a, b)
            }
            2 => {
                let mut x = self.expr(d);
                for _ in 0..self.t.range(1, 3) {
                    x = if self.t.bool() { neg_(x) } else { not_(x) };
                }
                x
            }
            3 => self.chain(d),
            4 => {
                let x = self.expr(d);
                is_(x, self.t.pick(TYPES), self.t.chance(1, 3))
            }
            5 => {
                let op = *self.t.pick(&[Op::And, Op::Or]);
                let a = self.expr(d);
                let b = self.expr(d);
                bin(op, a, b)
            }
            6 => {
                let a = self.expr(d);
                let b = self.expr(d);
                bin(Op::Coalesce, a, b)
            }
            7 => {
                let a = self.expr(d);
                let b = if self.t.bool() {
                    id(self.t.pick(&["g", "h", "f", "V", "Ok", "o"]))
                } else {
                    self.expr(d)
                };
                bin(Op::Pipeline, a, b)
            }
            8 => {
                let a = if self.t.bool() { id(self.t.pick(&["ok", "er"])) } else { self.expr(d) };
                self.names += 1;
                let e = format!("e{}", self.names);
                self.locals.push((e.clone(), false));
                let b = self.items(d);
                self.locals.pop();
                or_(a, &e, b)
            }
            9 => {
                let a = self.expr(d);
                let b = self.expr(d);
                let op = *self.t.pick(&[Op::RangeEx, Op::RangeIn]);
                bin(op, a, b)
            }
            10 => {
                let c = self.expr(d);
                let a = self.items(d);
                let b = match self.t.below(3) {
                    0 => None,
                    _ => Some(self.items(d)),
                };
                iff(c, a, b)
            }
            11 => block(self.items(d)),
            12 => list(self.exprs(3, d)),
            13 => {
                let k = self.t.count(3);
                let mut seen = BTreeSet::new();
                let mut v = vec![];
                for _ in 0..k {
                    let key = *self.t.pick(MEMBERS);
                    if seen.insert(key) {
                        v.push((key, self.expr(d)));
                    }
                }
                object(v)
            }
            14 => {
                let saved = (self.in_fn, self.in_method, self.in_loop, self.locals.len());
                self.in_fn = true;
                self.in_loop = false;
                // `self` stays in reach of the functions inside of a method.
                let mut params = vec![];
                for _ in 0..self.t.below(3) {
                    self.names += 1;
                    let p = format!("p{}", self.names);
                    self.locals.push((p.clone(), false));
                    params.push(p);
                }
                let b = block(self.items(d));
                (self.in_fn, self.in_method, self.in_loop) = (saved.0, saved.1, saved.2);
                self.locals.truncate(saved.3);
                let names: Vec<&str> = params.iter().map(|s| s.as_str()).collect();
                let f = lambda(&names, b);
                if self.t.chance(2, 3) {
                    let a = self.exprs(2, d);
                    call(f, a)
                } else {
                    f
                }
            }
            15 => {
                let a = self.assignment(d);
                let x = self.expr(0);
                block(vec![a, block(vec![x])])
            }
            _ => self.exit(d),
        }
    }

    /// Leaves the expression, now or if something holds.
    fn exit(&mut self, d: usize) -> N {
        let out = match (self.in_loop, self.in_fn) {
            (true, true) => self.t.below(3),
            (true, false) => self.t.below(2),
            (false, true) => 2,
            (false, false) => {
                // A loop to leave.
                self.names += 1;
                let q = format!("q{}", self.names);
                let b = self.in_loop(|g| g.items(d));
                return block(vec![for_(&q, bin(Op::RangeEx, int(0), int(2)), b), self.mark()]);
            }
        };
        let out = match out {
            0 => brk(),
            1 => cont(),
            _ => n(K::Return(Some(Box::new(self.expr(d))))),
        };
        match self.t.below(3) {
            0 => block(vec![out]),
            1 => {
                let c = self.expr(d);
                let x = self.expr(0);
                iff(c, vec![out], Some(vec![x]))
            }
            _ => {
                let c = bin(*self.t.pick(&[Op::Eq, Op::Ne, Op::Lt]), id("i"), int(self.t.below(5) as i64));
                let x = self.expr(d);
                iff(c, vec![out], Some(vec![x]))
            }
        }
    }

    pub fn program(mut self) -> Vec<N> {
        let all = self.declarations();
        let d = self.t.range(1, 4);
        let shell = self.t.below(if self.taste == Taste::Any { 3 } else { 4 });
        let mut v = vec![];
        match shell {
            0 => {
                for _ in 0..self.t.below(4) {
                    let s = self.statement(d);
                    v.push(s);
                }
                let x = self.expr(d);
                v.push(block(vec![x]));
            }
            _ => {
                self.in_fn = true;
                self.in_method = shell == 2;
                let mut body = vec![];
                for _ in 0..self.t.below(4) {
                    let s = self.statement(d);
                    body.push(s);
                }
                let x = self.expr(d);
                body.push(block(vec![x]));
                match shell {
                    2 => {
                        v.push(class_("Q", Some(id("V")), vec![fn_decl("q", ps(&["self"]), None, body)]));
                        v.push(let_("y0", false, call(id("Q"), vec![int(6)])));
                        v.push(emit(call(field(id("y0"), "q"), vec![])));
                    }
                    3 => {
                        // Called with something on the way.
                        v.push(fn_decl("q", vec![], None, body));
                        v.push(emit(list(vec![int(1), call(id("q"), vec![]), call(id("q"), vec![])])));
                    }
                    _ => {
                        v.push(fn_decl("q", vec![], None, body));
                        v.push(emit(call(id("q"), vec![])));
                    }
                }
                let seen = list(["i", "d", "s", "w", "n", "l", "o"].iter().map(|s| id(s)).collect());
                v.push(seen);
                let last = v.pop().unwrap();
                v.push(block(vec![last]));
            }
        }
        // Only the declarations that are used, directly or not.
        let mut used = BTreeSet::new();
        for x in &mut v {
            mentions(x, &mut used);
        }
        let mut kept: Vec<N> = vec![];
        for mut x in all.into_iter().rev() {
            let name = match &x.k {
                K::Let(v, false, ..) => v[0].clone(),
                K::Fn(f) => f.name.clone(),
                K::Class(name, ..) => name.clone(),
                _ => unreachable!(),
            };
            if used.contains(&name) {
                mentions(&mut x, &mut used);
                kept.push(x);
            }
        }
        kept.reverse();
        kept.extend(v);
        kept
    }
}

fn mentions(x: &mut N, used: &mut BTreeSet<String>) {
    x.walk_mut(&mut |y| match &y.k {
        K::Ident(s) => {
            used.insert(s.clone());
        }
        K::Is(_, t) => {
            used.insert(t.name.clone());
        }
        _ => {}
    });
}
