//! Generators of programs about one thing: captured variables, early exits, loops, classes,
//! short-circuiting, annotations, the prelude, modules.

use crate::ast::*;
use crate::gensem::*;
use crate::tape::Tape;

pub struct TG<'t> {
    pub t: &'t mut Tape,
    counter: usize,
    marks: i64,
    vars: Vec<(String, bool)>,
    in_loop: Vec<String>,
    in_fn: usize,
    in_super: bool,
    budget: isize,
}

pub fn while_(c: N, b: Vec<N>) -> N {
    n(K::While(Box::new(c), Box::new(block(b))))
}
pub fn loop_(b: Vec<N>) -> N {
    n(K::Loop(Box::new(block(b))))
}
pub fn for_(v: &str, s: N, b: Vec<N>) -> N {
    n(K::For(v.to_string(), Box::new(s), Box::new(block(b))))
}
pub fn null() -> N {
    n(K::Null)
}
pub fn brk() -> N {
    n(K::Break)
}
pub fn cont() -> N {
    n(K::Continue)
}
pub fn prop(x: N) -> N {
    n(K::ErrProp(Box::new(x)))
}
pub fn or_(x: N, v: &str, b: Vec<N>) -> N {
    n(K::ErrOr(Box::new(x), v.to_string(), Box::new(block(b))))
}
pub fn not_(x: N) -> N {
    n(K::Not(Box::new(x)))
}
pub fn neg_(x: N) -> N {
    n(K::Neg(Box::new(x)))
}
pub fn is_(x: N, t: &str, nullable: bool) -> N {
    n(K::Is(Box::new(x), Ty::new(t, nullable)))
}
pub fn class_(name: &str, base: Option<N>, items: Vec<N>) -> N {
    n(K::Class(name.to_string(), 0, base.map(Box::new), items))
}
pub fn ps(names: &[&str]) -> Vec<Param> {
    names.iter().map(|s| Param::new(s)).collect()
}
pub fn range(op: Op, a: N, b: N) -> N {
    bin(op, a, b)
}
fn method(o: N, m: &str, args: Vec<N>) -> N {
    call(field(o, m), args)
}

impl<'t> TG<'t> {
    pub fn new(t: &'t mut Tape) -> TG<'t> {
        TG {
            t,
            counter: 0,
            marks: 0,
            vars: vec![],
            in_loop: vec![],
            in_fn: 0,
            in_super: false,
            budget: 120,
        }
    }
    fn fresh(&mut self, p: &str) -> String {
        self.counter += 1;
        format!("{}{}", p, self.counter)
    }
    /// A distinct logged integer.
    fn mark(&mut self) -> N {
        self.marks += 1;
        emit(int(100 + self.marks))
    }
    fn k(&mut self, n: usize) -> i64 {
        self.t.below(n) as i64
    }
    fn some_var(&mut self) -> N {
        if self.vars.is_empty() {
            return int(7);
        }
        let i = self.t.below(self.vars.len());
        id(&self.vars[i].0.clone())
    }
    fn mutable(&mut self) -> Option<String> {
        let c: Vec<String> = self.vars.iter().filter(|v| v.1).map(|v| v.0.clone()).collect();
        if c.is_empty() {
            None
        } else {
            Some(self.t.pick(&c).clone())
        }
    }

    // -----------------------------------------------------------------------------------------
    // Captured variables

    pub fn captures(&mut self) -> Vec<N> {
        let mut v = vec![let_("fs", false, list(vec![]))];
        let d = self.t.range(1, 4);
        let items = self.level(d);
        v.extend(items);
        for _ in 0..2 {
            v.push(self.run_all());
        }
        let shown: Vec<N> = self.vars.iter().map(|x| id(&x.0)).collect();
        v.push(list(shown));
        v
    }

    fn run_all(&mut self) -> N {
        let g = self.fresh("g");
        for_(&g, id("fs"), vec![emit(call(id(&g), vec![]))])
    }

    fn var_here(&mut self, out: &mut Vec<N>) {
        let name = if !self.vars.is_empty() && self.t.chance(1, 4) {
            // Shadow one, the new value coming from the old.
            let i = self.t.below(self.vars.len());
            self.vars[i].0.clone()
        } else {
            self.fresh("v")
        };
        let init = match self.t.below(3) {
            0 => int(self.k(9)),
            1 => bin(Op::Add, self.some_var(), int(10)),
            _ => self.some_var(),
        };
        let m = self.t.chance(3, 4);
        match self.t.below(6) {
            0 => {
                let other = self.fresh("w");
                let o = object(vec![(name.as_str(), init), (other.as_str(), int(3))]);
                out.push(n(K::Let(vec![other.clone(), name.clone()], true, m, Box::new(o))));
                self.declare(&other, m);
            }
            _ => out.push(let_(&name, m, init)),
        }
        self.declare(&name, m);
    }
    fn declare(&mut self, name: &str, m: bool) {
        self.vars.retain(|v| v.0 != name);
        self.vars.push((name.to_string(), m));
    }

    /// A closure over some of the variables, which returns what it sees.
    fn closure(&mut self, deep: bool) -> N {
        let mut items = vec![];
        for _ in 0..self.t.below(3) {
            if let Some(v) = self.mutable() {
                let k = 1 + self.k(5);
                let item = match self.t.below(3) {
                    0 => set(&v, int(40 + k)),
                    1 => assign(AOp::Sub, id(&v), int(k)),
                    _ => assign(AOp::Add, id(&v), int(k)),
                };
items.push(item);
            }
        }
        if deep && self.t.chance(1, 3) {
            // Through an intermediate function that does not mention the variable itself.
            let deeper = self.t.bool();
            let inner = self.closure(deeper);
            let r = if self.t.bool() {
                call(inner, vec![])
            } else {
                let h = self.fresh("h");
                items.push(let_(&h, false, inner));
                call(id(&h), vec![])
            };
            items.push(r);
        } else {
            let k = self.t.range(1, 3);
            let shown = (0..k).map(|_| self.some_var()).collect();
            items.push(list(shown));
        }
        if items.len() == 1 && self.t.bool() {
            lambda(&[], items.pop().unwrap())
        } else {
            lambda(&[], block(items))
        }
    }
    fn push_closure(&mut self) -> N {
        let c = self.closure(true);
        method(id("fs"), "push", vec![c])
    }

    fn scope<X>(&mut self, f: impl FnOnce(&mut Self) -> X) -> X {
        let saved = self.vars.clone();
        let r = f(self);
        self.vars = saved;
        r
    }

    fn exit_if(&mut self) -> Option<N> {
        let mut c: Vec<usize> = vec![];
        if !self.in_loop.is_empty() {
            c.extend([0, 1, 0, 1]);
        }
        if self.in_fn > 0 {
            c.extend([2, 3]);
        }
        if c.is_empty() {
            return None;
        }
        let cond = if let Some(v) = self.in_loop.last().cloned() {
            let k = self.k(3);
            bin(*self.t.pick(&[Op::Eq, Op::Ge]), id(&v), int(k))
        } else {
            boolean(self.t.chance(2, 3))
        };
        let x = match *self.t.pick(&c) {
            0 => brk(),
            1 => cont(),
            2 => {
                let e = self.some_var();
                ret(e)
            }
            _ => {
                let e = self.some_var();
                prop(call(id("Err"), vec![e]))
            }
        };
        // Perhaps out of inner scopes with captured variables of their own.
        let mut body = vec![x];
        for _ in 0..self.t.below(3) {
            let items = self.scope(|g| {
                let mut v = vec![];
                // A name of its own: the code inside was made without it.
                let name = g.fresh("x");
                let init = g.some_var();
                v.push(let_(&name, true, init));
                g.declare(&name, true);
                if g.t.chance(2, 3) {
                    let c = g.push_closure();
                    v.push(c);
                }
                v
            });
            let mut v = items;
            v.push(block(body));
            body = v;
        }
        Some(iff(cond, body, None))
    }

    fn level(&mut self, d: usize) -> Vec<N> {
        let mut out = vec![];
        for _ in 0..self.t.range(1, 3) {
            self.var_here(&mut out);
        }
        for _ in 0..self.t.range(2, 5) {
            self.budget -= 3;
            if self.budget < 0 {
                break;
            }
            self.action(d, &mut out);
        }
        out
    }

    fn action(&mut self, d: usize, out: &mut Vec<N>) {
        match self.t.below(14) {
            0 | 1 | 2 => {
                let c = self.push_closure();
                out.push(c);
            }
            3 => {
                if let Some(v) = self.mutable() {
                    let k = 1 + self.k(7);
                    out.push(assign(AOp::Add, id(&v), int(k)));
                }
            }
            4 => {
                let v = self.some_var();
                out.push(emit(v));
            }
            5 => out.push(self.run_all()),
            6 => self.var_here(out),
            7 => {
                if let Some(x) = self.exit_if() {
                    out.push(x);
                }
            }
            8 if d > 0 => {
                let items = self.scope(|g| g.level(d - 1));
                let item = match self.t.below(3) {
                    0 => iff(boolean(true), items, None),
                    1 => iff(boolean(false), vec![int(1)], Some(items)),
                    _ => block(items),
                };
out.push(item);
            }
            9 | 10 if d > 0 => self.capture_loop(d - 1, out),
            11 | 12 if d > 0 => {
                // A function, called once or twice.
                let name = self.fresh("fx");
                let p = self.fresh("p");
                let saved = std::mem::take(&mut self.in_loop);
                self.in_fn += 1;
                let body = self.scope(|g| {
                    g.declare(&p, false);
                    let mut v = g.level(d - 1);
                    let e = if g.t.bool() { g.closure(true) } else { g.some_var() };
                    v.push(e);
                    v
                });
                self.in_fn -= 1;
                self.in_loop = saved;
                let as_let = self.t.bool();
                out.push(if as_let {
                    let_(&name, false, lambda(&[&p], block(body)))
                } else {
                    fn_decl(&name, ps(&[&p]), None, body)
                });
                for i in 0..self.t.range(1, 2) {
                    let r = self.fresh("r");
                    out.push(let_(&r, false, call(id(&name), vec![int(20 + i as i64)])));
                    // What it returned may be a closure: call it if so.
                    out.push(iff(is_(id(&r), "Function", false), vec![emit(call(id(&r), vec![]))], Some(vec![emit(id(&r))])));
                }
            }
            _ => {
                // The variable of an error handler.
                let e = self.fresh("e");
                let k = self.k(9);
                let items = self.scope(|g| {
                    g.declare(&e, false);
                    let mut v = vec![];
                    let c = g.push_closure();
                    v.push(c);
                    if g.t.chance(1, 2) {
                        if let Some(x) = g.exit_if() {
                            v.push(x);
                        }
                    }
                    let x = g.some_var();
                    v.push(x);
                    v
                });
                out.push(emit(or_(call(id("Err"), vec![int(k)]), &e, items)));
            }
        }
    }

    fn capture_loop(&mut self, d: usize, out: &mut Vec<N>) {
        let i = self.fresh("i");
        let k = 1 + self.k(3);
        let kind = self.t.below(6);
        let counted = kind < 2;
        if counted {
            out.push(let_(&i, true, int(-1)));
        }
        let items = self.scope(|g| {
            g.declare(&i, false);
            g.in_loop.push(i.clone());
            let v = g.level(d);
            g.in_loop.pop();
            v
        });
        match kind {
            0 => {
                let mut b = vec![assign(AOp::Add, id(&i), int(1))];
                b.extend(items);
                out.push(while_(bin(Op::Lt, id(&i), int(k - 1)), b));
            }
            1 => {
                let mut b = vec![
                    assign(AOp::Add, id(&i), int(1)),
                    iff(bin(Op::Ge, id(&i), int(k)), vec![brk()], None),
                ];
                b.extend(items);
                out.push(loop_(b));
            }
            2 => out.push(for_(&i, range(Op::RangeEx, int(0), int(k)), items)),
            3 => out.push(for_(&i, range(Op::RangeIn, int(0), int(k - 1)), items)),
            4 => out.push(for_(&i, list((0..k).map(int).collect()), items)),
            _ => out.push(for_(&i, block(vec![range(Op::RangeEx, int(0), int(k))]), items)),
        }
    }

    // -----------------------------------------------------------------------------------------
    // Early exits inside unfinished expressions

    /// The exit and when it happens: `i` is the case's number.
    fn hole(&mut self, exits: &[usize]) -> N {
        let what = *self.t.pick(exits);
        let x = match what {
            0 => brk(),
            1 => cont(),
            2 => {
                let m = self.mark();
                ret(m)
            }
            3 => {
                let m = self.mark();
                prop(call(id("Err"), vec![m]))
            }
            _ => block(vec![n(K::Return(None))]),
        };
        let k = self.k(3);
        let op = *self.t.pick(&[Op::Eq, Op::Eq, Op::Ge, Op::Ne]);
        let cond = bin(op, id("i"), int(k));
        if what == 3 && self.t.bool() {
            let m = self.mark();
            return prop(block(vec![iff(
                cond,
                vec![call(id("Err"), vec![m])],
                Some(vec![call(id("Ok"), vec![int(5)])]),
            )]));
        }
        let v = self.mark();
        match self.t.below(6) {
            0 => block(vec![iff(cond, vec![x], Some(vec![v]))]),
            1 => block(vec![iff(not_(cond), vec![v], Some(vec![x]))]),
            2 => {
                let c = self.fresh("c");
                block(vec![
                    let_(&c, true, int(60 + k)),
                    method(id("fs"), "push", vec![lambda(&[], block(vec![assign(AOp::Add, id(&c), int(1)), id(&c)]))]),
                    iff(cond, vec![x], None),
                    v,
                ])
            }
            3 => {
                // Out of an inner, finished loop's surroundings.
                let j = self.fresh("j");
                block(vec![
                    for_(&j, range(Op::RangeEx, int(0), int(3)), vec![iff(bin(Op::Eq, id(&j), int(1)), vec![brk()], None)]),
                    iff(cond, vec![x], None),
                    v,
                ])
            }
            4 => {
                let c = self.fresh("c");
                block(vec![let_(&c, false, v), iff(cond, vec![let_("u", false, id(&c)), x], None), id(&c)])
            }
            _ => block(vec![iff(cond, vec![x], None), v]),
        }
    }

    /// An integer expression around `x`, which is reached after other operands were evaluated.
    fn around(&mut self, x: N, in_fn: bool) -> N {
        let m = self.mark();
        let m2 = self.mark();
        if self.in_super && self.t.chance(1, 3) {
            // Arguments of calls on the base class.
            return match self.t.below(5) {
                0 => block(vec![n(K::SuperCall(vec![m, x])), m2]),
                1 => block(vec![n(K::SuperCall(vec![x, m])), m2]),
                2 => call(n(K::SuperField(None, "h".into())), vec![m, x]),
                3 => call(n(K::SuperField(Some("C".into()), "h".into())), vec![x, m]),
                _ => bin(Op::Add, m, call(n(K::SuperField(None, "h".into())), vec![m2, x])),
            };
        }
        let which = self.t.below(if in_fn { 44 } else { 42 });
        match which {
            0 => call(id("f3"), vec![m, x, m2]),
            1 => call(id("f3"), vec![x, m, m2]),
            2 => call(id("f3"), vec![m, m2, x]),
            3 => call(block(vec![x, id("f3")]), vec![m, m2, int(1)]),
            4 => method(block(vec![x, id("o")]), "f", vec![m]),
            5 => method(id("o"), "f", vec![x]),
            6 => bin(Op::Add, m, x),
            7 => bin(Op::Sub, x, m),
            8 => bin(Op::Sub, bin(Op::Add, m, m2), x),
            9 => index(list(vec![m, x, m2]), int(1)),
            10 => index(list(vec![m, m2, x]), int(0)),
            11 => field(object(vec![("a", m), ("b", x), ("c", m2)]), "b"),
            12 => index(block(vec![x, list(vec![m, m2])]), int(1)),
            13 => index(list(vec![m, m2]), bin(Op::Mul, x, int(0))),
            14 => neg_(x),
            15 => block(vec![iff(bin(Op::Lt, m, x), vec![m2], Some(vec![int(3)]))]),
            16 => block(vec![iff(bin(Op::And, bin(Op::Gt, m, int(0)), bin(Op::Gt, x, int(0))), vec![m2], Some(vec![int(4)]))]),
            17 => block(vec![iff(bin(Op::Or, bin(Op::Lt, m, int(0)), bin(Op::Lt, x, int(0))), vec![m2], Some(vec![int(4)]))]),
            18 => bin(Op::Coalesce, emit(null()), x),
            19 => bin(Op::Coalesce, x, m),
            20 => or_(call(id("Err"), vec![x]), "e", vec![m, id("e")]),
            21 => or_(call(id("Err"), vec![m]), "e", vec![x, id("e")]),
            22 => bin(Op::Pipeline, x, lambda(&["q"], id("q"))),
            23 => bin(Op::Pipeline, m, block(vec![x, lambda(&["q"], id("q"))])),
            24 => block(vec![let_("y", false, x), bin(Op::Add, id("y"), m)]),
            25 => block(vec![set("acc", x), m]),
            26 => block(vec![assign(AOp::Add, id("acc"), x), m]),
            27 => block(vec![assign(AOp::Set, field(block(vec![m, id("o")]), "a"), x), field(id("o"), "a")]),
            28 => block(vec![assign(AOp::Add, field(block(vec![m, id("o")]), "a"), x), field(id("o"), "a")]),
            29 => block(vec![assign(AOp::Set, index(id("arr"), block(vec![m, int(0)])), x), index(id("arr"), int(0))]),
            30 => block(vec![assign(AOp::Sub, index(id("arr"), block(vec![m, int(1)])), x), index(id("arr"), int(1))]),
            31 => block(vec![
                assign(AOp::Add, index(id("arr"), bin(Op::Mul, x, int(0))), m),
                index(id("arr"), int(0)),
            ]),
            32 => bin(Op::Coalesce, method(ifn(id("o")), "f", vec![x]), m),
            33 => bin(Op::Coalesce, field(ifn(block(vec![x, id("o")])), "b"), m),
            34 => block(vec![iff(is_(x, "Int", false), vec![m], Some(vec![m2]))]),
            35 => emit(x),
            36 => field(call(id("C"), vec![m, x]), "x"),
            37 => bin(Op::Mul, call(id("C"), vec![m, m2]), x),
            38 => block(vec![n(K::Let(vec!["b".into()], true, false, Box::new(object(vec![("b", x), ("d", m)])))), id("b")]),
            39 => field(block(vec![range(Op::RangeEx, m, x)]), "end"),
            40 => call(lambda(&["q", "w"], bin(Op::Add, id("q"), id("w"))), vec![m, x]),
            41 => bin(Op::Add, m, block(vec![int(1), x])),
            42 => prop(call(id("Ok"), vec![x])),
            _ => bin(Op::Add, prop(call(id("Ok"), vec![m])), x),
        }
    }

    /// The expression in a loop header; an exit there acts on the loop outside.
    fn header(&mut self, x: N) -> N {
        let m = self.mark();
        let j = self.fresh("j");
        let l = match self.t.below(4) {
            0 => for_(&j, range(Op::RangeEx, x, bin(Op::Add, int(102), m)), vec![iff(bin(Op::Gt, id(&j), int(0)), vec![brk()], None)]),
            1 => for_(&j, range(Op::RangeIn, m, x), vec![iff(boolean(true), vec![brk()], None)]),
            2 => for_(&j, list(vec![m, x]), vec![emit(id(&j))]),
            _ => for_(&j, block(vec![x, list(vec![m])]), vec![emit(id(&j))]),
        };
        let v = self.mark();
        block(vec![l, v])
    }

    pub fn early_exits(&mut self) -> Vec<N> {
        let mut v = vec![
            let_("fs", false, list(vec![])),
            let_("acc", true, int(0)),
            let_("arr", false, list(vec![int(1), int(2), int(3)])),
            fn_decl("f3", ps(&["a", "b", "c"]), None, vec![bin(Op::Sub, bin(Op::Add, id("a"), id("b")), id("c"))]),
            let_("o", true, object(vec![("a", int(1)), ("b", int(2)), ("f", lambda(&["q"], bin(Op::Add, id("q"), int(1))))])),
            class_(
                "C",
                None,
                vec![
                    fn_decl(
                        "new",
                        ps(&["self", "x", "y"]),
                        None,
                        vec![assign(AOp::Set, field(id("self"), "x"), id("x")), assign(AOp::Set, field(id("self"), "y"), id("y"))],
                    ),
                    n(K::OpDecl(Op::Mul, ps(&["self", "r"]), None, Box::new(block(vec![bin(Op::Add, field(id("self"), "x"), id("r"))])))),
                    fn_decl("h", ps(&["self", "a", "b"]), None, vec![bin(Op::Sub, bin(Op::Mul, id("a"), int(3)), id("b"))]),
                ],
            ),
        ];
        for _ in 0..self.t.range(1, 3) {
            self.exit_case(&mut v);
        }
        let g = self.fresh("g");
        v.push(for_(&g, id("fs"), vec![emit(call(id(&g), vec![]))]));
        v.push(list(vec![id("acc"), id("arr"), field(id("o"), "a")]));
        v
    }

    fn nest(&mut self, exits: &[usize], in_fn: bool) -> N {
        let mut x = self.hole(exits);
        for _ in 0..self.t.range(1, 4) {
            x = if self.t.chance(1, 8) { self.header(x) } else { self.around(x, in_fn) };
        }
        if self.t.chance(1, 4) {
            // A second exit in a later operand.
            let y = self.hole(exits);
            let y = if self.t.bool() { self.around(y, in_fn) } else { y };
            x = match self.t.below(3) {
                0 => bin(Op::Add, x, y),
                1 => call(id("f3"), vec![x, y, int(1)]),
                _ => index(list(vec![x, y]), int(1)),
            };
        }
        x
    }

    fn exit_case(&mut self, out: &mut Vec<N>) {
        let shell = self.t.below(9);
        let in_loop = |g: &mut Self, exits: &[usize], in_fn: bool| -> N {
            let x = g.nest(exits, in_fn);
            let stmt = match g.t.below(4) {
                0 => let_("z", false, x),
                1 => emit(x),
                2 => set("acc", x),
                _ => x,
            };
            let after = g.mark();
            let mut items = vec![stmt];
            if g.t.bool() {
                items.push(after);
            }
            let k = 3;
            let l = match g.t.below(6) {
                0 => vec![
                    let_("i", true, int(-1)),
                    while_(bin(Op::Lt, id("i"), int(k)), [vec![assign(AOp::Add, id("i"), int(1))], items].concat()),
                ],
                1 => vec![
                    let_("i", true, int(-1)),
                    loop_([vec![assign(AOp::Add, id("i"), int(1)), iff(bin(Op::Gt, id("i"), int(k)), vec![brk()], None)], items].concat()),
                ],
                2 => vec![for_("i", range(Op::RangeEx, int(0), int(k)), items)],
                3 => vec![for_("i", range(Op::RangeIn, int(0), int(k)), items)],
                4 => vec![for_("i", list(vec![int(0), int(1), int(2)]), items)],
                _ => vec![for_("i", block(vec![range(Op::RangeIn, int(0), int(2))]), items)],
            };
            let mut b = l;
            let m = g.mark();
            b.push(m);
            let inner = block(b);
            // The loop itself inside an unfinished expression.
            match g.t.below(5) {
                0 => emit(list(vec![int(1), inner, int(2)])),
                1 => {
                    let m = g.mark();
                    emit(bin(Op::Add, m, inner))
                }
                2 => {
                    let m = g.mark();
                    emit(call(id("f3"), vec![m, inner, int(1)]))
                }
                _ => inner,
            }
        };
        match shell {
            0 | 1 => {
                let l = in_loop(self, &[0, 1], false);
                out.push(l);
            }
            2 => {
                // In a function, out of a loop or the function.
                let name = self.fresh("fx");
                let l = in_loop(self, &[0, 1, 2, 3], true);
                let m = self.mark();
                out.push(fn_decl(&name, ps(&["p"]), None, vec![l, m]));
                out.push(emit(list(vec![int(5), call(id(&name), vec![int(1)]), int(6)])));
            }
            3 | 4 => {
                // Out of a function, called in the middle of an expression.
                let name = self.fresh("fx");
                let x = self.nest(&[2, 3], true);
                let m = self.mark();
                let ret_ty = if self.t.chance(1, 4) { Some(Ty::new(self.t.pick(&["Any", "Int", "Result"]), self.t.bool())) } else { None };
                let body = match self.t.below(3) {
                    0 => vec![let_("z", false, x), m, bin(Op::Add, id("z"), int(1))],
                    1 => vec![x],
                    _ => vec![emit(x), m],
                };
                let lam = ret_ty.is_none() && self.t.bool();
                out.push(if lam {
                    let_(&name, false, lambda(&["i"], block(body)))
                } else {
                    fn_decl(&name, ps(&["i"]), ret_ty, body)
                });
                for i in 0..3 {
                    let c = call(id(&name), vec![int(i)]);
                    out.push(emit(match self.t.below(3) {
                        0 => list(vec![int(8), c, int(9)]),
                        1 => call(id("f3"), vec![int(8), int(9), block(vec![c, int(1)])]),
                        _ => c,
                    }));
                }
            }
            5 => {
                // A method and an operator.
                let name = self.fresh("D");
                let x = self.nest(&[2, 3], true);
                let y = self.nest(&[2, 3], true);
                out.push(class_(
                    &name,
                    None,
                    vec![
                        fn_decl("m", ps(&["self", "i"]), None, vec![let_("z", false, x), id("z")]),
                        n(K::OpDecl(Op::Add, ps(&["self", "i"]), None, Box::new(block(vec![y])))),
                    ],
                ));
                let d = self.fresh("d");
                out.push(let_(&d, false, call(id(&name), vec![])));
                for i in 0..3 {
                    out.push(emit(list(vec![int(1), method(id(&d), "m", vec![int(i)]), bin(Op::Add, id(&d), int(i))])));
                }
            }
            7 => {
                // A method of a derived class, calling into its base class.
                let name = self.fresh("D");
                self.in_super = true;
                let x = self.nest(&[2, 3], true);
                let l = in_loop(self, &[0, 1, 2, 3], true);
                self.in_super = false;
                let m = self.mark();
                let arg = self.mark();
                out.push(class_(
                    &name,
                    Some(id("C")),
                    vec![
                        fn_decl("new", ps(&["self"]), None, vec![n(K::SuperCall(vec![arg, int(4)]))]),
                        fn_decl("m", ps(&["self", "i"]), None, vec![let_("z", false, x), id("z")]),
                        fn_decl("l", ps(&["self", "p"]), None, vec![l, m]),
                    ],
                ));
                let d = self.fresh("d");
                out.push(let_(&d, false, call(id(&name), vec![])));
                for i in 0..3 {
                    out.push(emit(list(vec![int(1), method(id(&d), "m", vec![int(i)]), field(id(&d), "x")])));
                }
                out.push(emit(list(vec![int(1), method(id(&d), "l", vec![int(1)]), field(id(&d), "y")])));
            }
            8 => {
                // A derived constructor left while the base class is being called.
                let name = self.fresh("E");
                self.in_super = true;
                let whole = self.t.bool();
                let x = if whole { self.nest(&[4], false) } else { in_loop(self, &[0, 1, 4], false) };
                self.in_super = false;
                let m = self.mark();
                let args = if self.t.bool() { vec![m, x] } else { vec![x, m] };
                let after = self.mark();
                out.push(class_(
                    &name,
                    Some(id("C")),
                    vec![fn_decl(
                        "new",
                        ps(&["self", if whole { "i" } else { "p" }]),
                        None,
                        vec![n(K::SuperCall(args)), assign(AOp::Set, field(id("self"), "c"), after)],
                    )],
                ));
                for i in 0..3 {
                    out.push(emit(list(vec![int(1), call(id(&name), vec![int(i)]), int(2)])));
                }
            }
            _ => {
                // A constructor left early yields the object.
                let name = self.fresh("E");
                let x = self.nest(&[4], false);
                out.push(class_(
                    &name,
                    None,
                    vec![fn_decl(
                        "new",
                        ps(&["self", "i"]),
                        None,
                        vec![
                            assign(AOp::Set, field(id("self"), "a"), int(1)),
                            assign(AOp::Set, field(id("self"), "b"), x),
                            assign(AOp::Set, field(id("self"), "c"), int(3)),
                        ],
                    )],
                ));
                for i in 0..3 {
                    out.push(emit(list(vec![int(1), call(id(&name), vec![int(i)]), int(2)])));
                }
            }
        }
    }

    // -----------------------------------------------------------------------------------------
    // Loops

    pub fn loops(&mut self) -> Vec<N> {
        let mut v = vec![
            let_("total", true, int(0)),
            let_("fs", false, list(vec![])),
            // An iterable counting its calls.
            fn_decl(
                "count",
                ps(&["k"]),
                None,
                vec![
                    emit(str_lit("source")),
                    object(vec![(
                        "iter",
                        lambda(
                            &[],
                            block(vec![
                                emit(str_lit("iter")),
                                let_("at", true, int(0)),
                                object(vec![(
                                    "next",
                                    lambda(
                                        &[],
                                        block(vec![
                                            assign(AOp::Add, id("at"), int(1)),
                                            emit(str_lit("next")),
                                            iff(
                                                bin(Op::Gt, id("at"), id("k")),
                                                vec![object(vec![("is_done", boolean(true)), ("value", int(99))])],
                                                Some(vec![object(vec![("is_done", boolean(false)), ("value", bin(Op::Mul, id("at"), int(10)))])]),
                                            ),
                                        ]),
                                    ),
                                )]),
                            ]),
                        ),
                    )]),
                ],
            ),
        ];
        for _ in 0..self.t.range(1, 2) {
            let d = self.t.range(1, 3);
            if self.t.chance(1, 3) {
                let name = self.fresh("fx");
                self.in_fn = 1;
                let mut b = vec![];
                self.one_loop(d, &mut b);
                self.in_fn = 0;
                let m = self.mark();
                b.push(m);
                v.push(fn_decl(&name, vec![], None, b));
                v.push(emit(call(id(&name), vec![])));
            } else {
                self.one_loop(d, &mut v);
            }
        }
        v.push(for_("g", id("fs"), vec![emit(call(id("g"), vec![]))]));
        v.push(id("total"));
        v
    }

    fn loop_body(&mut self, d: usize, var: &str) -> Vec<N> {
        self.in_loop.push(var.to_string());
        let mut b = vec![emit(id(var))];
        for _ in 0..self.t.range(1, 4) {
            self.budget -= 4;
            if self.budget < 0 {
                break;
            }
            match self.t.below(11) {
                0 | 1 | 2 => {
                    let v = self.t.pick(&self.in_loop.clone()).clone();
                    let k = self.k(4);
                    let op = *self.t.pick(&[Op::Eq, Op::Eq, Op::Gt]);
                    let c = if self.t.chance(1, 4) {
                        bin(Op::Eq, bin(Op::Rem, id("total"), int(3)), int(k % 3))
                    } else {
                        bin(op, id(&v), int(if self.t.chance(1, 4) { k * 10 } else { k }))
                    };
                    let x = if self.in_fn > 0 && self.t.chance(1, 8) {
                        let m = self.mark();
                        ret(m)
                    } else if self.t.bool() {
                        brk()
                    } else {
                        cont()
                    };
                    let m = self.mark();
                    let item = match self.t.below(5) {
                        0 => iff(c, vec![m, x], None),
                        1 => iff(not_(c), vec![m], Some(vec![x])),
                        2 => block(vec![iff(c, vec![block(vec![let_("q", false, m), x])], None)]),
                        3 => {
                            let c2 = boolean(self.t.bool());
                            n(K::If(
                                Box::new(c2),
                                Box::new(block(vec![m])),
                                Some(Box::new(iff(c, vec![x], None))),
                            ))
                        }
                        _ => iff(c, vec![x], None),
                    };
b.push(item);
                }
                3 | 4 if d > 1 => self.one_loop(d - 1, &mut b),
                5 => b.push(assign(AOp::Add, id("total"), id(var))),
                6 => {
                    let c = lambda(&[], list(vec![id(var), id("total")]));
                    b.push(method(id("fs"), "push", vec![c]));
                }
                7 if d > 1 => {
                    // A loop as the value of something.
                    let mut i = vec![];
                    self.one_loop(d - 1, &mut i);
                    b.push(emit(block(i)));
                }
                8 if d > 1 => {
                    // A loop inside a function inside the loop.
                    let f = self.fresh("fx");
                    let saved = std::mem::take(&mut self.in_loop);
                    self.in_fn += 1;
                    let mut i = vec![];
                    self.one_loop(d - 1, &mut i);
                    self.in_fn -= 1;
                    self.in_loop = saved;
                    let m = self.mark();
                    i.push(m);
                    b.push(let_(&f, false, lambda(&[], block(i))));
                    b.push(emit(call(id(&f), vec![])));
                }
                9 => {
                    let q = self.fresh("q");
                    b.push(let_(&q, true, int(0)));
                    b.push(assign(AOp::Add, id(&q), int(1)));
                    b.push(emit(id(&q)));
                }
                _ => {
                    let m = self.mark();
                    b.push(m);
                }
            }
        }
        self.in_loop.pop();
        b
    }

    fn bound(&mut self, v: i64) -> N {
        match self.t.below(5) {
            0 => emit(int(v)),
            1 => bin(Op::Sub, emit(int(v + 2)), int(2)),
            2 => block(vec![let_("b", false, int(v)), id("b")]),
            _ => {
                if v < 0 {
                    neg_(int(-v))
                } else {
                    int(v)
                }
            }
        }
    }

    fn one_loop(&mut self, d: usize, out: &mut Vec<N>) {
        let v = if self.in_loop.is_empty() || self.t.chance(3, 4) {
            self.fresh("i")
        } else {
            self.in_loop.last().unwrap().clone() // the inner variable hides the outer one
        };
        let k = self.k(5);
        let kind = self.t.below(9);
        match kind {
            0 => {
                let v = self.fresh("w");
                out.push(let_(&v, true, int(0)));
                let mut b = vec![assign(AOp::Add, id(&v), int(1))];
                b.extend(self.loop_body(d, &v));
                let c = bin(Op::Lt, id(&v), int(k));
                let c = if self.t.bool() { emit(c) } else { c };
                out.push(while_(c, b));
            }
            1 => {
                let v = self.fresh("w");
                out.push(let_(&v, true, int(0)));
                let mut b = vec![
                    assign(AOp::Add, id(&v), int(1)),
                    iff(bin(Op::Gt, id(&v), int(k)), vec![brk()], None),
                ];
                b.extend(self.loop_body(d, &v));
                out.push(loop_(b));
            }
            2 | 3 | 4 => {
                let lo = self.k(6) - 3;
                let hi = lo + self.k(6) - 1;
                let op = *self.t.pick(&[Op::RangeEx, Op::RangeIn]);
                if self.t.chance(1, 3) {
                    // A bound that the body changes: it was evaluated once.
                    let e = self.fresh("e");
                    out.push(let_(&e, true, int(hi)));
                    let mut b = vec![assign(AOp::Add, id(&e), int(1))];
                    b.extend(self.loop_body(d, &v));
                    let a = self.bound(lo);
                    out.push(for_(&v, range(op, a, id(&e)), b));
                } else {
                    let a = self.bound(lo);
                    let e = self.bound(hi);
                    let b = self.loop_body(d, &v);
                    out.push(for_(&v, range(op, a, e), b));
                }
            }
            5 => {
                let items = (0..k).map(|x| int(x)).collect();
                let b = self.loop_body(d, &v);
                out.push(for_(&v, list(items), b));
            }
            6 | 7 => {
                let b = self.loop_body(d, &v);
                out.push(for_(&v, call(id("count"), vec![int(k)]), b));
            }
            _ => {
                let r = self.fresh("r");
                let op = *self.t.pick(&[Op::RangeEx, Op::RangeIn]);
                out.push(let_(&r, false, range(op, int(1), int(k))));
                let b = self.loop_body(d, &v);
                out.push(for_(&v, id(&r), b));
            }
        }
    }
}

const ALL_OPS: &[Op] =
    &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne, Op::RangeEx, Op::RangeIn];

struct Cls {
    name: String,
    base: Option<usize>,
    /// Parameters of the constructor it declares.
    new: Option<usize>,
    methods: Vec<usize>,
    ops: Vec<Op>,
    statics: Vec<String>,
}

impl<'t> TG<'t> {
    // -----------------------------------------------------------------------------------------
    // Classes

    fn chain_of(cs: &[Cls], c: usize) -> Vec<usize> {
        let mut out = vec![c];
        let mut x = cs[c].base;
        while let Some(b) = x {
            out.push(b);
            x = cs[b].base;
        }
        out
    }
    fn has_method(cs: &[Cls], c: usize, m: usize) -> bool {
        Self::chain_of(cs, c).iter().any(|x| cs[*x].methods.contains(&m))
    }

    fn m_args(&mut self, m: usize) -> Vec<N> {
        // Method number m has m % 3 parameters.
        (0..m % 3).map(|_| self.mark()).collect()
    }

    /// Body of method number `m` of class `c`; calls only go to lower numbers or upwards.
    fn method_body(&mut self, cs: &[Cls], c: usize, m: usize) -> Vec<N> {
        let mut v = vec![emit(str_lit(&format!("{}.m{}", cs[c].name, m)))];
        let up: Vec<usize> = Self::chain_of(cs, c)[1..].to_vec();
        for _ in 0..self.t.below(4) {
            match self.t.below(9) {
                0 | 1 | 2 if !up.is_empty() => {
                    let j = self.t.below(m + 1);
                    let a = *self.t.pick(&up);
                    let named = self.t.bool();
                    let from = if named { a } else { up[0] };
                    if Self::has_method(cs, from, j) {
                        let which = if named { Some(cs[from].name.clone()) } else { None };
                        let args = self.m_args(j);
                        let s = n(K::SuperField(which, format!("m{}", j)));
                        let item = match self.t.below(4) {
                            0 => {
                                let b = self.fresh("b");
                                v.push(let_(&b, false, s));
                                emit(call(id(&b), args))
                            }
                            1 => emit(list(vec![int(1), call(s, args), int(2)])),
                            _ => emit(call(s, args)),
                        };
v.push(item);
                    } else if self.t.chance(1, 3) {
                        let which = if named { Some(cs[from].name.clone()) } else { None };
                        v.push(emit(n(K::SuperField(which, format!("m{}", j)))));
                    }
                }
                3 if m > 0 => {
                    let j = self.t.below(m);
                    if Self::has_method(cs, c, j) {
                        let args = self.m_args(j);
                        v.push(emit(method(id("self"), &format!("m{}", j), args)));
                    }
                }
                4 => {
                    let f = *self.t.pick(&["x", "y"]);
                    let mk = self.mark();
                    v.push(assign(*self.t.pick(&[AOp::Set, AOp::Add]), field(id("self"), f), mk));
                }
                5 => {
                    // A closure over the receiver.
                    let h = self.fresh("h");
                    v.push(let_(&h, false, lambda(&[], block(vec![
                        assign(AOp::Add, field(id("self"), "x"), int(1)),
                        field(id("self"), "x"),
                    ]))));
                    v.push(emit(call(id(&h), vec![])));
                }
                6 => {
                    let x = field(id("self"), "x");
                    let mk = self.mark();
                    v.push(iff(bin(Op::Gt, x, int(self.marks)), vec![ret(mk)], None));
                }
                7 => {
                    let b = cs[self.t.below(c + 1)].name.clone();
                    v.push(emit(is_(id("self"), &b, false)));
                }
                _ => v.push(emit(field(id("self"), *self.t.pick(&["x", "y", "zz"])))),
            }
        }
        for i in 0..m % 3 {
            if self.t.bool() {
                v.push(emit(id(&format!("p{}", i))));
            }
        }
        let item = match self.t.below(4) {
            0 => field(id("self"), "y"),
            1 if m % 3 > 0 => bin(Op::Add, id("p0"), int(1)),
            2 => list(vec![field(id("self"), "x"), field(id("self"), "y")]),
            _ => self.mark(),
        };
v.push(item);
        v
    }

    pub fn classes(&mut self) -> Vec<N> {
        let mut out = vec![];
        let count = self.t.range(1, 5);
        let mut cs: Vec<Cls> = vec![];
        let mut two: Vec<String> = vec![];
        let in_function = self.t.chance(1, 4);
        let mut global_ops: Vec<Op> = vec![];
        if self.t.chance(1, 4) {
            let op = *self.t.pick(&ALL_OPS[..11]);
            global_ops.push(op);
            out.push(n(K::OpDecl(
                op,
                ps(&["l", "r"]),
                None,
                Box::new(block(vec![emit(str_lit("global")), emit(id("r")), int(77)])),
            )));
        }
        if self.t.chance(1, 3) {
            out.push(let_("shared", true, int(500)));
        } else {
            out.push(let_("shared", false, int(501)));
        }
        for i in 0..count {
            let base = if i > 0 && self.t.chance(3, 4) { Some(self.t.below(i).max(self.t.below(i))) } else { None };
            let base_new = base.and_then(|b| cs[b].new);
            let new = match base {
                None => {
                    if self.t.chance(3, 4) {
                        Some(self.t.below(3))
                    } else {
                        None
                    }
                }
                Some(b) => {
                    // Without one of its own, a class with a base constructor cannot be constructed.
                    let inherited = Self::chain_of(&cs, b).iter().any(|x| cs[*x].new.is_some());
                    if inherited && !self.t.chance(1, 30) || self.t.bool() {
                        Some(self.t.below(3))
                    } else {
                        None
                    }
                }
            };
            let mut methods: Vec<usize> = vec![];
            for m in 0..5 {
                if self.t.chance(2, 5) {
                    methods.push(m);
                }
            }
            let mut ops = vec![];
            if self.t.chance(1, 3) {
                for _ in 0..self.t.range(1, 3) {
                    let op = *self.t.pick(ALL_OPS);
                    if !ops.contains(&op) {
                        ops.push(op);
                    }
                }
            }
            let statics = if self.t.chance(1, 3) { vec![format!("s{}", 2 * i), format!("s{}", 2 * i + 1)] } else { vec![] };
            cs.push(Cls {
                name: format!("C{}", i),
                base,
                new,
                methods: methods.clone(),
                ops: ops.clone(),
                statics: statics.clone(),
            });
            let mut items = vec![];
            if let Some(k) = new {
                let params: Vec<String> = (0..k).map(|i| format!("p{}", i)).collect();
                let mut names: Vec<&str> = vec!["self"];
                names.extend(params.iter().map(|s| s.as_str()));
                let mut b = vec![];
                if base.is_some() {
                    let a: Vec<N> = (0..base_new.unwrap_or(0))
                        .map(|j| if j < k && self.t.bool() { id(&params[j]) } else { self.mark() })
                        .collect();
                    b.push(n(K::SuperCall(a)));
                }
                b.push(emit(str_lit(&format!("new C{}", i))));
                for f in ["x", "y"] {
                    if base.is_none() || self.t.bool() {
                        let e = if k > 0 && self.t.bool() { id(&params[0]) } else { self.mark() };
                        b.push(assign(AOp::Set, field(id("self"), f), e));
                    }
                }
                match self.t.below(6) {
                    0 => {
                        // Virtual dispatch before a derived constructor is done.
                        let c: Vec<usize> = (0..3).filter(|m| Self::has_method(&cs, i, *m)).collect();
                        if !c.is_empty() {
                            let m = *self.t.pick(&c);
                            let a = self.m_args(m);
                            b.push(emit(method(id("self"), &format!("m{}", m), a)));
                        }
                    }
                    1 => {
                        let e = self.mark();
                        b.push(iff(bin(Op::Gt, e, int(100)), vec![n(K::Return(None))], None));
                        b.push(assign(AOp::Set, field(id("self"), "x"), int(-1)));
                    }
                    2 => b.push(block(vec![let_("self_", false, id("self")), assign(AOp::Set, field(id("self_"), "y"), int(8))])),
                    3 => b.push(assign(AOp::Set, field(id("self"), "f"), lambda(&["q"], list(vec![id("q"), field(id("self"), "x")])))),
                    _ => {}
                }
                items.push(fn_decl("new", ps(&names), None, b));
            }
            for m in methods {
                let params: Vec<String> = (0..m % 3).map(|i| format!("p{}", i)).collect();
                let mut names: Vec<&str> = vec!["self"];
                names.extend(params.iter().map(|s| s.as_str()));
                let b = self.method_body(&cs, i, m);
                items.push(fn_decl(&format!("m{}", m), ps(&names), None, b));
            }
            for op in ops {
                let mut b = vec![emit(str_lit(&format!("C{} {}", i, op.sym()))), emit(id("r"))];
                if self.t.chance(1, 3) {
                    b.push(emit(field(id("self"), "x")));
                }
                let mk = self.mark();
                let item = match op {
                    Op::Lt | Op::Le | Op::Gt | Op::Ge | Op::Eq | Op::Ne => bin(Op::Gt, mk, int(0)),
                    _ => mk,
                };
b.push(item);
                items.push(n(K::OpDecl(op, ps(&["self", "r"]), None, Box::new(block(b)))));
            }
            for s in &statics {
                // One of the parameters may have the receiver's name, but only the first makes it a method.
                if s.ends_with(|c| "13579".contains(c)) && self.t.chance(1, 3) {
                    let b = vec![emit(str_lit(s)), list(vec![id("a"), id("self")])];
                    items.push(fn_decl(s, ps(&["a", "self"]), None, b));
                    continue;
                }
                let b = vec![emit(str_lit(s)), assign_shared(&out), list(vec![id("a"), id("shared")])];
                items.push(fn_decl(s, ps(&["a"]), None, b));
            }
            for s in &statics {
                if items.iter().any(|x| matches!(&x.k, K::Fn(d) if d.name == *s && d.params.len() == 2)) {
                    two.push(s.clone());
                }
            }
            if items.len() > 1 && self.t.chance(1, 3) {
                let k = self.t.below(items.len());
                items.rotate_left(k);
            }
            let b = base.map(|b| {
                let b = id(&cs[b].name.clone());
                match self.t.below(8) {
                    0 => block(vec![emit(str_lit("base")), b]),
                    1 => call(lambda(&[], b), vec![]),
                    _ => b,
                }
            });
            // A base that is more than a name would read the class body as part of it.
            let b = b.map(|b| if matches!(b.k, K::Ident(_)) { b } else { b });
            out.push(class_(&format!("C{}", i), b, items));
        }
        self.use_classes(&cs, &two, &mut out);
        if in_function {
            let mut body = out;
            let ops: Vec<N> = {
                let mut ops = vec![];
                let mut rest = vec![];
                for x in body {
                    if matches!(x.k, K::OpDecl(..)) {
                        ops.push(x)
                    } else {
                        rest.push(x)
                    }
                }
                body = rest;
                ops
            };
            let mut v = ops;
            v.push(fn_decl("main", vec![], None, body));
            v.push(call(id("main"), vec![]));
            if self.t.bool() {
                v.push(call(id("main"), vec![]));
            }
            return v;
        }
        out
    }

    fn use_classes(&mut self, cs: &[Cls], two: &[String], out: &mut Vec<N>) {
        let mut objs: Vec<(String, usize)> = vec![];
        for (i, c) in cs.iter().enumerate() {
            for _ in 0..self.t.range(1, 2) {
                let o = self.fresh("o");
                let mut a: Vec<N> = (0..c.new.unwrap_or(0)).map(|_| self.mark()).collect();
                if self.t.chance(1, 20) && !a.is_empty() {
                    a.pop();
                }
                let f = if self.t.chance(1, 5) { block(vec![emit(int(0)), id(&c.name)]) } else { id(&c.name) };
                out.push(let_(&o, false, call(f, a)));
                let root = *Self::chain_of(cs, i).last().unwrap();
                if cs[root].new.is_none() {
                    for f in ["x", "y"] {
                        let m = self.mark();
                        out.push(assign(AOp::Set, field(id(&o), f), m));
                    }
                }
                out.push(emit(id(&o)));
                objs.push((o, i));
            }
        }
        for _ in 0..self.t.range(2, 8) {
            let (o, c) = self.t.pick(&objs).clone();
            match self.t.below(12) {
                0..=4 => {
                    let ms: Vec<usize> = (0..5).filter(|m| Self::has_method(cs, c, *m)).collect();
                    if ms.is_empty() {
                        continue;
                    }
                    let m = *self.t.pick(&ms);
                    let a = self.m_args(m);
                    let name = format!("m{}", m);
                    let item = match self.t.below(6) {
                        0 => {
                            let b = self.fresh("b");
                            out.push(let_(&b, false, field(id(&o), &name)));
                            emit(call(id(&b), a))
                        }
                        1 => emit(call(index(id(&o), str_lit(&name)), a)),
                        2 => emit(call(field(ifn(id(&o)), &name), a)),
                        3 => emit(list(vec![int(1), method(id(&o), &name, a), int(2)])),
                        _ => emit(method(id(&o), &name, a)),
                    };
out.push(item);
                }
                5 | 6 => {
                    let mut ops: Vec<Op> = Self::chain_of(cs, c).iter().flat_map(|x| cs[*x].ops.clone()).collect();
                    if ops.is_empty() {
                        if !self.t.chance(1, 6) {
                            continue;
                        }
                        ops = vec![Op::Add, Op::Lt];
                    }
                    let op = *self.t.pick(&ops);
                    let (o2, _) = self.t.pick(&objs).clone();
                    let r = if self.t.bool() { self.mark() } else { id(&o2) };
                    let l = if self.t.chance(1, 4) { emit(id(&o)) } else { id(&o) };
                    let item = match self.t.below(5) {
                        0 if matches!(op, Op::Add | Op::Sub | Op::Mul | Op::Div) => {
                            let a = match op {
                                Op::Add => AOp::Add,
                                Op::Sub => AOp::Sub,
                                Op::Mul => AOp::Mul,
                                _ => AOp::Div,
                            };
                            let v = self.fresh("t");
                            out.push(let_(&v, true, l));
                            out.push(assign(a, id(&v), r));
                            emit(id(&v))
                        }
                        1 => block(vec![iff(is_(bin(op, l, r), "Int", false), vec![emit(int(1))], Some(vec![emit(int(2))]))]),
                        _ => emit(bin(op, l, r)),
                    };
out.push(item);
                }
                7 => {
                    for c in cs {
                        out.push(emit(is_(id(&o), &c.name, self.t.bool())));
                    }
                }
                8 => {
                    let s: Vec<&Cls> = cs.iter().filter(|c| !c.statics.is_empty()).collect();
                    if !s.is_empty() {
                        let c = *self.t.pick(&s);
                        let s = c.statics[self.t.below(2)].clone();
                        let a = (0..if two.contains(&s) { 2 } else { 1 }).map(|_| self.mark()).collect();
                        out.push(emit(method(id(&c.name), &s, a)));
                    }
                }
                9 => out.push(emit(field(id(&o), *self.t.pick(&["x", "y", "m0", "f", "nothing"])))),
                10 => {
                    let m = self.mark();
                    out.push(assign(*self.t.pick(&[AOp::Set, AOp::Add]), field(id(&o), "x"), m));
                }
                _ => {
                    // Through a variable holding the class.
                    let k = self.fresh("k");
                    out.push(let_(&k, false, id(&cs[c].name)));
                    let a: Vec<N> = (0..cs[c].new.unwrap_or(0)).map(|_| self.mark()).collect();
                    out.push(emit(call(id(&k), a)));
                }
            }
        }
        let shown = objs.iter().map(|(o, _)| id(o)).collect();
        out.push(list(shown));
    }

    // -----------------------------------------------------------------------------------------
    // Short-circuiting, null and errors

    pub fn logic(&mut self) -> Vec<N> {
        let mut v = vec![
            // Nested, some parts missing.
            let_(
                "o",
                false,
                object(vec![
                    ("a", int(1)),
                    ("b", int(6)),
                    ("n", null()),
                    ("f", lambda(&["q"], block(vec![emit(str_lit("f")), id("q")]))),
                    ("g", lambda(&["q"], block(vec![emit(str_lit("g")), null()]))),
                    (
                        "p",
                        object(vec![
                            ("a", int(2)),
                            ("n", null()),
                            ("f", lambda(&["q"], block(vec![emit(str_lit("pf")), id("q")]))),
                            ("p", object(vec![("a", int(3)), ("n", null())])),
                        ]),
                    ),
                ]),
            ),
            let_("none", false, null()),
            let_("cell", true, int(0)),
            let_(
                "keys",
                false,
                object(vec![
                    ("a", str_lit("a")),
                    ("n", str_lit("n")),
                    ("p", str_lit("p")),
                    ("zz", str_lit("zz")),
                    ("f", str_lit("f")),
                    ("g", str_lit("g")),
                    ("i", int(1)),
                    ("t", boolean(true)),
                    ("u", boolean(false)),
                ]),
            ),
            let_("acc", true, int(0)),
            let_("arr", false, list(vec![int(1), int(2), int(3)])),
            fn_decl("f3", ps(&["a", "b", "c"]), None, vec![bin(Op::Sub, bin(Op::Add, id("a"), id("b")), id("c"))]),
            class_(
                "C",
                None,
                vec![
                    fn_decl(
                        "new",
                        ps(&["self", "x", "y"]),
                        None,
                        vec![assign(AOp::Set, field(id("self"), "x"), id("x")), assign(AOp::Set, field(id("self"), "y"), id("y"))],
                    ),
                    n(K::OpDecl(Op::Mul, ps(&["self", "r"]), None, Box::new(block(vec![bin(Op::Add, field(id("self"), "x"), id("r"))])))),
                    fn_decl("h", ps(&["self", "a", "b"]), None, vec![emit(list(vec![id("a"), id("b")])), int(3)]),
                ],
            ),
        ];
        // The script itself, a function, a method or a constructor of a derived class.
        let shell = *self.t.pick(&[0, 0, 1, 1, 1, 2, 2, 3]);
        let wrapped = shell == 1 || shell == 2;
        self.in_fn = wrapped as usize;
        self.in_super = shell >= 2;
        let mut b = vec![];
        if shell == 3 {
            self.budget = 30;
            let x = self.lopt(3);
            let y = self.lint(2);
            b.push(n(K::SuperCall(if self.t.bool() { vec![x, y] } else { vec![y, x] })));
        }
        for _ in 0..self.t.range(1, 4) {
            let d = self.t.range(1, 4);
            self.budget = 60;
            let x = match self.t.below(6) {
                0 => self.lbool(d),
                1 => self.lopt(d),
                2 => self.lres(d),
                3 => {
                    let e = self.lint(d);
                    let m1 = self.mark();
                    list(vec![m1, e, int(9)])
                }
                4 => {
                    // Deep in an expression.
                    let mut x = self.lint(d);
                    for _ in 0..self.t.range(1, 3) {
                        x = if self.t.chance(1, 8) { self.header(x) } else { self.around(x, wrapped) };
                    }
                    x
                }
                _ => self.lint(d),
            };
            let item = match self.t.below(4) {
                0 => {
                    let y = self.fresh("y");
                    b.push(let_(&y, false, x));
                    emit(id(&y))
                }
                1 => x,
                _ => emit(x),
            };
            b.push(item);
        }
        self.in_super = false;
        if shell == 2 {
            let (m, a) = (self.mark(), self.mark());
            b.push(m);
            v.push(class_(
                "D",
                Some(id("C")),
                vec![
                    fn_decl("new", ps(&["self"]), None, vec![n(K::SuperCall(vec![a, int(4)]))]),
                    fn_decl("m", ps(&["self", "i"]), None, b),
                ],
            ));
            v.push(let_("d", false, call(id("D"), vec![])));
            v.push(emit(list(vec![int(1), method(id("d"), "m", vec![int(0)]), int(2)])));
            v.push(emit(id("d")));
        } else if shell == 3 {
            v.push(class_("D", Some(id("C")), vec![fn_decl("new", ps(&["self", "i"]), None, b)]));
            v.push(emit(list(vec![int(1), call(id("D"), vec![int(0)]), int(2)])));
        } else if wrapped {
            let m = self.mark();
            b.push(m);
            v.push(fn_decl("main", ps(&["i"]), None, b));
            v.push(emit(list(vec![int(1), call(id("main"), vec![int(0)]), int(2)])));
            v.push(emit(call(id("main"), vec![int(1)])));
        } else {
            v.extend(b);
        }
        v.push(id("cell"));
        v
    }

    fn stop(&mut self, d: usize) -> bool {
        self.budget -= 1;
        d == 0 || self.budget < 0
    }

    fn lbool(&mut self, d: usize) -> N {
        if self.stop(d) {
            return match self.t.below(5) {
                3 => field(if self.t.bool() { ifn(id("keys")) } else { id("keys") }, *self.t.pick(&["t", "u"])),
                4 => {
                    let x = field(ifn(id("none")), *self.t.pick(&["t", "u"]));
                    bin(Op::Coalesce, x, boolean(self.t.bool()))
                }
                0 => emit(boolean(self.t.bool())),
                1 => {
                    let m = self.mark();
                    bin(*self.t.pick(&[Op::Lt, Op::Gt]), m, int(50))
                }
                _ => emit(bin(Op::Eq, id("cell"), int(0))),
            };
        }
        let d = d - 1;
        match self.t.below(9) {
            0 | 1 => {
                let a = self.lbool(d);
                let b = self.lbool(d);
                bin(Op::And, a, b)
            }
            2 | 3 => {
                let a = self.lbool(d);
                let b = self.lbool(d);
                bin(Op::Or, a, b)
            }
            4 => not_(self.lbool(d)),
            5 => {
                let x = match self.t.below(4) {
                    0 => self.lopt(d),
                    1 => self.lres(d),
                    2 => self.lint(d),
                    _ => self.lbool(d),
                };
                is_(x, *self.t.pick(&["Int", "Any", "Result", "Ok", "Err", "Bool", "String"]), self.t.bool())
            }
            6 => {
                let a = self.lopt(d);
                bin(*self.t.pick(&[Op::Eq, Op::Ne]), a, null())
            }
            7 => {
                let c = self.lbool(d);
                let a = self.lbool(d);
                let b = self.lbool(d);
                block(vec![iff(c, vec![a], Some(vec![b]))])
            }
            _ => {
                let x = self.lbool(d);
                emit(x)
            }
        }
    }

    fn lint(&mut self, d: usize) -> N {
        if self.stop(d) {
            return match self.t.below(6) {
                0 => block(vec![assign(AOp::Add, id("cell"), int(1)), id("cell")]),
                1 => index(id("arr"), field(ifn(id("keys")), "i")),
                _ => self.mark(),
            };
        }
        let d = d - 1;
        if self.in_super && self.t.chance(1, 4) {
            // A call on the base class.
            let a = self.lopt(d);
            let b = self.lint(d);
            let args = if self.t.bool() { vec![a, b] } else { vec![b, a] };
            let m = self.mark();
            return match self.t.below(4) {
                0 => block(vec![n(K::SuperCall(args)), m]),
                1 => call(n(K::SuperField(Some("C".into()), "h".into())), args),
                _ => call(n(K::SuperField(None, "h".into())), args),
            };
        }
        match self.t.below(14) {
            12 => {
                // What is assigned, or the place, by a chain.
                let a = self.lopt(d);
                let v = match self.t.below(4) {
                    0 => field(id("o"), "a"),
                    1 => index(id("o"), field(ifn(id("keys")), "a")),
                    2 => index(id("arr"), field(ifn(id("keys")), "i")),
                    _ => id("cell"),
                };
                if self.t.bool() {
                    let b = self.lint(d);
                    block(vec![assign(AOp::Set, v.clone(), bin(Op::Coalesce, a, b)), v])
                } else {
                    let b = self.lint(d);
                    block(vec![a, assign(*self.t.pick(&[AOp::Add, AOp::Sub]), v.clone(), b), v])
                }
            }
            13 => {
                let c = self.lbool(d);
                let a = self.lint(d);
                let w = self.fresh("w");
                block(vec![
                    let_(&w, true, int(0)),
                    while_(bin(Op::And, bin(Op::Lt, id(&w), int(2)), c), vec![assign(AOp::Add, id(&w), int(1)), emit(id(&w))]),
                    a,
                ])
            }
            0 | 1 => {
                let a = self.lopt(d);
                let b = self.lint(d);
                bin(Op::Coalesce, a, b)
            }
            2 => {
                let a = self.lopt(d);
                let b = self.lopt(d);
                let c = self.lint(d);
                // The coalescing operator associates to the left.
                bin(Op::Coalesce, bin(Op::Coalesce, a, b), c)
            }
            3 | 4 => {
                let r = self.lres(d);
                let e = self.fresh("e");
                let b = self.lint(d);
                match self.t.below(3) {
                    0 => or_(r, &e, vec![emit(id(&e)), b]),
                    1 => or_(r, &e, vec![id(&e)]),
                    _ => or_(r, &e, vec![bin(Op::Add, id(&e), b)]),
                }
            }
            5 if self.in_fn > 0 => {
                let r = self.lres(d);
                prop(r)
            }
            6 => {
                let a = self.lint(d);
                let f = match self.t.below(4) {
                    0 => block(vec![emit(str_lit("fn")), lambda(&["q"], block(vec![emit(str_lit("in")), id("q")]))]),
                    1 => field(id("o"), "f"),
                    2 => emit(lambda(&["q"], bin(Op::Add, id("q"), int(1)))),
                    _ => lambda(&["q"], id("q")),
                };
                let x = bin(Op::Pipeline, a, f);
                if self.t.chance(1, 3) {
                    bin(Op::Pipeline, x, lambda(&["z"], bin(Op::Sub, id("z"), int(1))))
                } else {
                    x
                }
            }
            7 => {
                let c = self.lbool(d);
                let a = self.lint(d);
                let b = self.lint(d);
                block(vec![iff(c, vec![a], Some(vec![b]))])
            }
            8 => {
                let a = self.lint(d);
                let b = self.lint(d);
                bin(*self.t.pick(&[Op::Add, Op::Sub]), a, b)
            }
            9 => {
                let a = self.lint(d);
                let c = self.lopt(d);
                let m = self.mark();
                index(list(vec![a, m, c]), int(self.k(2)))
            }
            10 => {
                let a = self.lint(d);
                method(id("o"), "f", vec![a])
            }
            _ => {
                let a = self.lint(d);
                let c = self.lopt(d);
                call(lambda(&["q", "w"], block(vec![emit(id("w")), id("q")])), vec![a, c])
            }
        }
    }

    fn lopt(&mut self, d: usize) -> N {
        if self.stop(d) {
            return match self.t.below(3) {
                0 => emit(null()),
                1 => id("none"),
                _ => self.mark(),
            };
        }
        match self.t.below(8) {
            0..=4 => self.lchain(d - 1),
            5 => {
                let c = self.lbool(d - 1);
                let a = self.lint(d - 1);
                block(vec![iff(c, vec![a], Some(vec![null()]))])
            }
            6 => {
                let a = self.lopt(d - 1);
                let b = self.lopt(d - 1);
                bin(Op::Coalesce, a, b)
            }
            _ => {
                let a = self.lopt(d - 1);
                emit(a)
            }
        }
    }

    /// A chain over `o`, of which every step that may meet null is guarded.
    fn lchain(&mut self, d: usize) -> N {
        // The value's shape: an object like `o` of some depth, an integer or null.
        #[derive(Clone, Copy, PartialEq)]
        enum S {
            Obj(u8),
            Int,
            Null,
        }
        let (mut x, mut s) = match self.t.below(8) {
            0 => (id("none"), S::Null),
            1 => (emit(id("o")), S::Obj(0)),
            2 => (block(vec![emit(str_lit("head")), id("o")]), S::Obj(0)),
            3 => (block(vec![emit(str_lit("head")), null()]), S::Null),
            _ => (id("o"), S::Obj(0)),
        };
        let mut unknown = false;
        for _ in 0..self.t.range(1, 5) {
            if s == S::Int {
                if self.t.bool() {
                    x = ifn(x);
                }
                break;
            }
            if s == S::Null || unknown || self.t.bool() {
                x = ifn(x);
                if self.t.chance(1, 10) {
                    x = ifn(x);
                }
            }
            let level = if let S::Obj(l) = s { l } else { 0 };
            let known = s != S::Null;
            let which = self.t.below(10);
            let (name, to) = match which {
                0 => ("a", S::Int),
                1 | 2 => ("n", S::Null),
                3 | 4 | 5 if level < 2 => ("p", S::Obj(level + 1)),
                6 if level < 2 => ("f", S::Int),
                7 if level == 0 => ("g", S::Null),
                8 => ("zz", S::Null),
                _ => ("a", S::Int),
            };
            if name == "f" || name == "g" {
                let a = match self.t.below(3) {
                    0 => self.lopt(d.min(1)),
                    _ => self.lint(d.min(2)),
                };
                unknown |= true;
                let f = if self.t.chance(1, 5) {
                    let k = self.lkey(name);
                    index(x, k)
                } else {
                    field(x, name)
                };
                // The function itself may be guarded too.
                let f = if self.t.chance(1, 4) { ifn(f) } else { f };
                x = call(f, vec![a]);
                s = S::Null;
                if self.t.bool() {
                    break;
                }
                continue;
            }
            x = if self.t.chance(1, 3) {
                let k = self.lkey(name);
                index(x, k)
            } else {
                field(x, name)
            };
            s = if known { to } else { S::Null };
        }
        if self.t.chance(1, 8) {
            x = ifn(x);
        }
        x
    }

    /// The given key, as a constant or found by a chain of its own.
    fn lkey(&mut self, name: &str) -> N {
        match self.t.below(12) {
            0 | 1 => emit(str_lit(name)),
            2 => field(id("keys"), name),
            3 | 4 => field(ifn(id("keys")), name),
            5 => index(ifn(id("keys")), str_lit(name)),
            6 => bin(Op::Coalesce, field(ifn(id("none")), "x"), str_lit(name)),
            7 => {
                let c = self.lchain(0);
                block(vec![c, str_lit(name)])
            }
            // No key at all.
            8 if self.t.chance(1, 8) => field(ifn(id("none")), "x"),
            _ => str_lit(name),
        }
    }

    fn lres(&mut self, d: usize) -> N {
        let which = if self.stop(d) { self.t.below(2) } else { self.t.below(9) };
        let d = d.saturating_sub(1);
        match which {
            0 | 2 => {
                let i = self.lint(d);
                call(id("Ok"), vec![i])
            }
            1 | 3 => {
                let i = self.lint(d);
                call(id("Err"), vec![i])
            }
            4 => {
                let r = self.lres(d);
                method(r, "map", vec![lambda(&["q"], block(vec![emit(str_lit("map")), bin(Op::Add, id("q"), int(1))]))])
            }
            5 => {
                let c = self.lbool(d);
                let a = self.lres(d);
                let b = self.lres(d);
                block(vec![iff(c, vec![a], Some(vec![b]))])
            }
            6 => {
                // A function that propagates.
                let saved = (self.in_fn, self.in_super);
                (self.in_fn, self.in_super) = (1, false);
                let r = self.lres(d);
                (self.in_fn, self.in_super) = saved;
                call(lambda(&[], block(vec![let_("t", false, prop(r)), call(id("Ok"), vec![bin(Op::Add, id("t"), int(1))])])), vec![])
            }
            7 => {
                let r = self.lres(d);
                emit(r)
            }
            _ => {
                let a = self.lopt(d);
                let r = self.lres(d);
                block(vec![a, r])
            }
        }
    }

    // -----------------------------------------------------------------------------------------
    // Type annotations

    fn typed_value(&mut self) -> N {
        match self.t.below(14) {
            0 | 1 => int(self.k(5)),
            2 => str_lit("s"),
            3 => boolean(self.t.bool()),
            4 => float(1.5),
            5 | 6 => null(),
            7 => n(K::Unit),
            8 => list(vec![int(1)]),
            9 => object(vec![("a", int(1))]),
            10 => call(id(*self.t.pick(&["A", "B", "D"])), vec![]),
            11 => call(id(*self.t.pick(&["Ok", "Err"])), vec![int(1)]),
            12 => lambda(&[], int(1)),
            _ => id(*self.t.pick(&["A", "B", "Int"])),
        }
    }
    /// An annotation; mostly one the value satisfies.
    fn ty_for(&mut self, v: &N) -> Ty {
        let own = match &v.k {
            K::Int(..) => "Int",
            K::Str(..) => "String",
            K::Bool(_) => "Bool",
            K::Float(..) => "Float",
            K::Unit => "Unit",
            K::List(_) => "Array",
            K::Object(_) => "Any",
            K::Lambda(..) => "Function",
            K::Ident(_) => "Class",
            K::Call(f, _) => match &f.k {
                K::Ident(s) if s == "A" => "A",
                K::Ident(s) if s == "B" => "B",
                K::Ident(s) if s == "D" => "D",
                K::Ident(s) if s == "Ok" => "Ok",
                K::Ident(s) if s == "Err" => "Err",
                _ => "Any",
            },
            _ => "Int",
        };
        let t = match self.t.below(10) {
            0 => *self.t.pick(&["Int", "String", "Bool", "Float", "Unit", "Array", "Any", "Function", "Class", "A", "B", "D", "Result", "Ok", "Err"]),
            1 if own == "B" || own == "D" => "A",
            2 if own == "Ok" || own == "Err" => "Result",
            3 => "Any",
            _ => own,
        };
        let null = matches!(v.k, K::Null);
        Ty::new(t, if null { !self.t.chance(1, 8) } else { self.t.chance(1, 4) })
    }

    pub fn types(&mut self) -> Vec<N> {
        let mut v = vec![
            class_("A", None, vec![fn_decl("am", ps(&["self"]), None, vec![int(1)])]),
            class_("B", Some(id("A")), vec![fn_decl("bm", ps(&["self"]), None, vec![int(1)])]),
            class_("D", Some(id("B")), vec![fn_decl("dm", ps(&["self"]), None, vec![int(1)])]),
            let_("cell", true, int(0)),
        ];
        for _ in 0..self.t.range(1, 4) {
            self.typed_fn(&mut v);
        }
        v.push(id("cell"));
        v
    }

    fn typed_fn(&mut self, out: &mut Vec<N>) {
        let k = self.t.below(4);
        let values: Vec<N> = (0..k).map(|_| self.typed_value()).collect();
        let mut params = vec![];
        for (i, x) in values.iter().enumerate() {
            let mut p = Param::new(&format!("p{}", i));
            if self.t.chance(2, 3) {
                p.ty = Some(self.ty_for(x));
            }
            params.push(p);
        }
        let result = self.typed_value();
        let rt = if self.t.chance(2, 3) { Some(self.ty_for(&result)) } else { None };
        let kind = self.t.below(12);
        // The ways of returning.
        let mut b = vec![emit(str_lit("entered"))];
        if k > 0 && self.t.chance(1, 3) {
            b.push(set("cell", id("p0")));
        }
        if self.t.chance(1, 3) {
            // What was checked at entry is not checked again.
            b.push(emit(str_lit("body")));
        }
        let ctor = kind == 3 || kind == 8;
        if ctor && self.t.chance(1, 3) {
            b.push(iff(boolean(self.t.bool()), vec![n(K::Return(None))], None));
            b.push(emit(str_lit("rest")));
        }
        if !ctor {
            let other = self.typed_value();
            // Without a value, unit is returned.
            let bare = self.t.chance(1, 4);
            let ret = |x: N| if bare { n(K::Return(None)) } else { ret(x) };
            match self.t.below(10) {
                0 => b.push(ret(result)),
                1 => {
                    b.push(iff(boolean(true), vec![ret(result)], None));
                    b.push(other);
                }
                2 => {
                    b.push(iff(boolean(false), vec![ret(other)], None));
                    b.push(result);
                }
                9 => {
                    // Out of a loop in an unfinished expression, past a captured variable.
                    let l = for_("i", range(Op::RangeEx, int(0), int(2)), vec![
                        let_("w", true, id("i")),
                        let_("h", false, lambda(&[], block(vec![assign(AOp::Add, id("w"), int(1)), id("w")]))),
                        iff(bin(Op::Eq, call(id("h"), vec![]), int(2)), vec![ret(result)], None),
                    ]);
                    b.push(let_("z", false, bin(Op::Add, int(1), call(id("Ok"), vec![block(vec![l])]))));
                    b.push(other);
                }
                3 => b.push(iff(boolean(self.t.bool()), vec![result.clone()], Some(vec![result]))),
                4 => {
                    b.push(for_("i", list(vec![int(1)]), vec![iff(boolean(true), vec![ret(result)], None)]));
                    b.push(other);
                }
                5 => {
                    // Propagation returns the error itself.
                    b.push(prop(call(id(*self.t.pick(&["Err", "Ok"])), vec![int(3)])));
                    b.push(result);
                }
                6 => {
                    b.push(let_("z", false, list(vec![int(1), block(vec![ret(result)])])));
                    b.push(other);
                }
                7 => {
                    b.push(block(vec![let_("z", false, result), id("z")]));
                }
                _ => b.push(result),
            }
            if self.t.chance(1, 12) {
                // A result that is the value of a statement: unit.
                b.push(while_(boolean(false), vec![]));
            }
        }
        let mut args = values.clone();
        match self.t.below(10) {
            0 if k > 0 => {
                args.pop();
            }
            1 => args.push(int(1)),
            2 if k > 0 => {
                let i = self.t.below(k);
                args[i] = self.typed_value();
            }
            _ => {}
        }
        // The test gives the same verdict without failing.
        for (i, a) in args.iter().enumerate() {
            if let Some(Param { ty: Some(t), .. }) = params.get(i) {
                if self.t.chance(1, 2) {
                    out.push(emit(n(K::Is(Box::new(a.clone()), t.clone()))));
                }
            }
        }
        let in_loop = self.t.chance(1, 6);
        let name = self.fresh("fx");
        let with_self = |mut p: Vec<Param>| {
            p.insert(0, Param::new("self"));
            p
        };
        let c = match kind {
            0 | 1 => {
                out.push(fn_decl(&name, params, rt, b));
                call(id(&name), args)
            }
            2 => {
                out.push(let_(&name, false, n(K::Lambda(params, Box::new(block(b))))));
                call(id(&name), args)
            }
            3 => {
                let cname = self.fresh("K");
                out.push(class_(&cname, None, vec![fn_decl("new", with_self(params), None, b)]));
                call(id(&cname), args)
            }
            4 => {
                let cname = self.fresh("K");
                out.push(class_(&cname, None, vec![fn_decl("m", with_self(params), rt, b)]));
                method(call(id(&cname), vec![]), "m", args)
            }
            8 => {
                // A constructor of a derived class; the base class may have a typed one, too.
                let base = self.fresh("K");
                let cname = self.fresh("K");
                let arg = self.typed_value();
                let mut q = Param::new("q");
                if self.t.chance(2, 3) {
                    q.ty = Some(self.ty_for(&arg));
                }
                let own = self.t.bool();
                let mut items = vec![];
                if own {
                    items.push(fn_decl("new", with_self(vec![q]), None, vec![emit(str_lit("base"))]));
                }
                out.push(class_(&base, None, items));
                b.insert(0, n(K::SuperCall(if own { vec![arg] } else { vec![] })));
                out.push(class_(&cname, Some(id(&base)), vec![fn_decl("new", with_self(params), None, b)]));
                call(id(&cname), args)
            }
            9 => {
                // A method of the base class, reached through the derived one.
                let base = self.fresh("K");
                let cname = self.fresh("K");
                out.push(class_(&base, None, vec![fn_decl("m", with_self(params), rt, b)]));
                let mut own = vec![];
                if self.t.bool() {
                    let up = call(n(K::SuperField(None, "m".into())), args.clone());
                    let orig = self.typed_value();
                    let t = if self.t.bool() { Some(self.ty_for(&orig)) } else { None };
                    own.push(fn_decl("m2", ps(&["self"]), t, vec![let_("z", false, list(vec![int(1), up])), id("z")]));
                }
                let through = !own.is_empty();
                out.push(class_(&cname, Some(id(&base)), own));
                if through {
                    method(call(id(&cname), vec![]), "m2", vec![])
                } else {
                    let bound = self.fresh("b");
                    out.push(let_(&bound, false, field(call(id(&cname), vec![]), "m")));
                    call(id(&bound), args)
                }
            }
            10 => {
                // Called through a pipeline or as an element.
                out.push(fn_decl(&name, params, rt, b));
                match self.t.below(3) {
                    0 if args.len() == 1 => bin(Op::Pipeline, args[0].clone(), id(&name)),
                    1 => call(index(list(vec![int(1), id(&name)]), int(1)), args),
                    _ => call(field(object(vec![("f", id(&name))]), "f"), args),
                }
            }
            11 => {
                // An operator outside of a class.
                let free: Vec<Op> = [Op::Mul, Op::Div, Op::Rem, Op::Add, Op::Sub, Op::Lt, Op::Le, Op::Gt, Op::Ge]
                    .into_iter()
                    .filter(|o| !out.iter().any(|x| matches!(&x.k, K::OpDecl(p, ..) if p == o)))
                    .collect();
                let op = *self.t.pick(&free);
                let mut rest = params.into_iter();
                let l = rest.next().unwrap_or(Param::new("p0"));
                let r = rest.next().unwrap_or(Param::new("p1"));
                out.push(n(K::OpDecl(op, vec![l, r], rt, Box::new(block(b)))));
                let mut rest = args.into_iter();
                let first = rest.next().unwrap_or(null());
                let first = if self.t.bool() { call(id(*self.t.pick(&["A", "B", "D"])), vec![]) } else { first };
                bin(op, first, rest.next().unwrap_or(null()))
            }
            5 => {
                let cname = self.fresh("K");
                out.push(class_(&cname, None, vec![fn_decl("s", params, rt, b)]));
                method(id(&cname), "s", args)
            }
            6 => {
                let cname = self.fresh("K");
                let base = self.fresh("K");
                let mut p = vec![Param::new("self")];
                p.push(params.into_iter().next().unwrap_or(Param::new("p0")));
                out.push(class_(&base, None, vec![n(K::OpDecl(Op::Add, p, rt, Box::new(block(b))))]));
                out.push(class_(&cname, Some(id(&base)), vec![]));
                bin(Op::Add, call(id(&cname), vec![]), args.into_iter().next().unwrap_or(null()))
            }
            _ => {
                // Nested in a function, capturing.
                let outer = self.fresh("fx");
                let mut items = vec![let_("loc", true, int(1))];
                b.insert(0, assign(AOp::Add, id("loc"), int(1)));
                items.push(fn_decl(&name, params, rt, b));
                items.push(emit(call(id(&name), args)));
                items.push(id("loc"));
                out.push(fn_decl(&outer, vec![], None, items));
                call(id(&outer), vec![])
            }
        };
        if in_loop {
            let i = self.fresh("i");
            out.push(for_(&i, range(Op::RangeEx, int(0), int(2)), vec![emit(c)]));
        } else {
            out.push(emit(list(vec![int(1), c])));
        }
    }

    // -----------------------------------------------------------------------------------------
    // Prelude

    pub fn prelude(&mut self) -> Vec<N> {
        let mut v = vec![];
        let mut ranges = vec![];
        for _ in 0..self.t.range(1, 2) {
            let r = self.fresh("r");
            let lo = self.k(7) - 3;
            let hi = lo + self.k(7) - 2;
            let op = *self.t.pick(&[Op::RangeEx, Op::RangeIn]);
            let e = if self.t.chance(1, 6) {
                call(id(if op == Op::RangeEx { "Range" } else { "RangeInclusive" }), vec![spell_int(lo), spell_int(hi)])
            } else {
                range(op, spell_int(lo), spell_int(hi))
            };
            v.push(let_(&r, false, e));
            ranges.push(r);
        }
        for _ in 0..self.t.range(2, 5) {
            let r = self.t.pick(&ranges).clone();
            match self.t.below(12) {
                0 | 1 => {
                    let i = self.fresh("i");
                    let mut b = vec![emit(id(&i))];
                    if self.t.bool() {
                        let k = self.k(5) - 2;
                        b.insert(self.t.below(2), iff(bin(Op::Eq, id(&i), spell_int(k)), vec![if self.t.bool() { brk() } else { cont() }], None));
                    }
                    v.push(for_(&i, id(&r), b));
                }
                2 => {
                    let (i, j) = (self.fresh("i"), self.fresh("j"));
                    let r2 = self.t.pick(&ranges).clone();
                    let mut b = vec![emit(list(vec![id(&i), id(&j)]))];
                    if self.t.bool() {
                        b.push(iff(bin(Op::Eq, id(&i), id(&j)), vec![if self.t.bool() { brk() } else { cont() }], None));
                    }
                    v.push(for_(&i, id(&r), vec![for_(&j, id(&r2), b)]));
                }
                3 => {
                    // By hand, past the end, two at once.
                    let (a, b) = (self.fresh("a"), self.fresh("b"));
                    v.push(let_(&a, false, method(id(&r), "iter", vec![])));
                    v.push(let_(&b, false, method(id(&r), "iter", vec![])));
                    for _ in 0..self.t.range(1, 8) {
                        let w = if self.t.chance(2, 3) { &a } else { &b };
                        let x = self.fresh("x");
                        v.push(let_(&x, false, method(id(w), "next", vec![])));
                        v.push(emit(field(id(&x), "is_done")));
                        v.push(iff(not_(field(id(&x), "is_done")), vec![emit(field(id(&x), "value"))], None));
                    }
                }
                4 => {
                    v.push(emit(list(vec![field(id(&r), "start"), field(id(&r), "end")])));
                    v.push(emit(list(vec![is_(id(&r), "Range", false), is_(id(&r), "RangeInclusive", false), is_(id(&r), "Any", false)])));
                }
                5 => {
                    let f = self.fresh("fx");
                    let i = self.fresh("i");
                    let k = self.k(4) - 1;
                    v.push(fn_decl(&f, ps(&["q"]), None, vec![
                        for_(&i, id("q"), vec![iff(bin(Op::Ge, id(&i), spell_int(k)), vec![ret(id(&i))], None), emit(id(&i))]),
                        str_lit("none"),
                    ]));
                    v.push(emit(call(id(&f), vec![id(&r)])));
                    v.push(emit(call(id(&f), vec![id(&r)])));
                }
                6 | 7 => {
                    let x = self.fresh("x");
                    let arg = self.typed_result_value();
                    v.push(let_(&x, false, call(id(*self.t.pick(&["Ok", "Err"])), vec![arg])));
                    v.push(emit(list(vec![
                        field(id(&x), "is_ok"),
                        field(id(&x), "result"),
                        is_(id(&x), "Ok", false),
                        is_(id(&x), "Err", false),
                        is_(id(&x), "Result", false),
                    ])));
                    let y = self.fresh("y");
                    v.push(let_(&y, false, method(id(&x), "map", vec![lambda(&["q"], block(vec![emit(str_lit("map")), list(vec![id("q")])]))])));
                    v.push(emit(list(vec![field(id(&y), "is_ok"), field(id(&y), "result"), is_(id(&y), "Ok", false)])));
                    v.push(emit(or_(id(&y), "e", vec![emit(str_lit("handler")), list(vec![id("e")])])));
                }
                8 | 9 => {
                    // Through several functions.
                    let (f, g) = (self.fresh("fx"), self.fresh("fx"));
                    let k = self.k(3);
                    v.push(fn_decl(&f, ps(&["q"]), None, vec![iff(
                        bin(Op::Eq, id("q"), int(k)),
                        vec![call(id("Err"), vec![id("q")])],
                        Some(vec![call(id("Ok"), vec![bin(Op::Mul, id("q"), int(2))])]),
                    )]));
                    let r2 = self.t.pick(&ranges).clone();
                    v.push(fn_decl(&g, ps(&["w"]), None, vec![
                        let_("s", true, int(0)),
                        for_("i", id(&r2), vec![assign(AOp::Add, id("s"), prop(call(id(&f), vec![bin(Op::Add, id("i"), id("w"))])))]),
                        call(id("Ok"), vec![id("s")]),
                    ]));
                    for w in 0..2 {
                        v.push(emit(or_(call(id(&g), vec![int(w)]), "e", vec![emit(str_lit("failed")), id("e")])));
                    }
                    v.push(emit(method(call(id(&g), vec![int(1)]), "map", vec![lambda(&["q"], bin(Op::Add, id("q"), int(1)))])));
                }
                10 => {
                    // Closures over the variable of each iteration.
                    v.push(let_("fs", false, list(vec![])));
                    v.push(for_("i", id(&r), vec![method(id("fs"), "push", vec![lambda(&[], id("i"))])]));
                    v.push(for_("g", id("fs"), vec![emit(call(id("g"), vec![]))]));
                }
                _ => {
                    // Chained maps, and an error of the mapped function kept inside.
                    let m = self.mark();
                    let c = *self.t.pick(&["Ok", "Err"]);
                    let a = method(call(id(c), vec![m]), "map", vec![lambda(&["q"], call(id("Err"), vec![id("q")]))]);
                    v.push(emit(method(a, "map", vec![lambda(&["q"], field(id("q"), "is_ok"))])));
                }
            }
        }
        if self.t.chance(1, 6) {
            // Neither result nor range: an error.
            let x = match self.t.below(6) {
                0 | 1 => null(),
                2 => n(K::Unit),
                3 => object(vec![("is_ok", boolean(self.t.bool())), ("result", int(5))]),
                4 => lambda(&[], int(1)),
                _ => self.typed_result_value(),
            };
            let item = match self.t.below(4) {
                0 | 1 => emit(or_(x, "e", vec![emit(str_lit("handler")), id("e")])),
                2 => emit(call(lambda(&[], block(vec![let_("z", false, prop(x)), emit(id("z")), id("z")])), vec![])),
                _ => for_("i", x, vec![emit(id("i"))]),
            };
            v.push(item);
        }
        v.push(list(ranges.iter().map(|r| id(r)).collect()));
        v
    }

    fn typed_result_value(&mut self) -> N {
        match self.t.below(6) {
            0 => null(),
            1 => list(vec![int(1)]),
            2 => call(id("Ok"), vec![int(4)]),
            3 => boolean(false),
            _ => self.mark(),
        }
    }
}

fn spell_int(v: i64) -> N {
    if v < 0 {
        neg_(int(-v))
    } else {
        int(v)
    }
}

/// Changes `shared` where it may be changed.
fn assign_shared(out: &[N]) -> N {
    let mutable = out.iter().any(|x| matches!(&x.k, K::Let(names, false, true, _) if names[0] == "shared"));
    if mutable {
        assign(AOp::Add, id("shared"), int(1))
    } else {
        emit(id("shared"))
    }
}

impl<'t> TG<'t> {
    // -----------------------------------------------------------------------------------------
    // Modules

    /// A module of plain exports in every form; returns its items and what it exports.
    fn module(&mut self, imports: &[(String, Vec<(String, u8)>)]) -> (Vec<N>, Vec<(String, u8)>) {
        // 0 integer, 1 function of one parameter, 2 class, 3 anything else
        let mut out = vec![];
        let mut names: Vec<(String, u8)> = vec![];
        out.push(emit(str_lit(&format!("module {}", self.counter))));
        self.vars.clear();
        let mut imported = vec![];
        for (path, items) in imports {
            if self.t.chance(2, 3) {
                self.import(path, items, &mut out, &mut imported);
            }
        }
        for _ in 0..self.t.range(1, 5) {
            match self.t.below(12) {
                0 | 1 => {
                    let name = self.fresh("v");
                    let m = self.t.bool();
                    let e = if self.t.bool() { self.mark() } else { self.some_var() };
                    out.push(n(K::Export(Box::new(let_(&name, m, e)))));
                    self.declare(&name, m);
                    names.push((name, 0));
                }
                2 => {
                    // Exported by its name, then changed: the value is the one it had.
                    let name = self.fresh("v");
                    let e = self.mark();
                    out.push(let_(&name, true, e));
                    if self.t.bool() {
                        out.push(assign(AOp::Add, id(&name), int(1)));
                    }
                    out.push(n(K::Export(Box::new(id(&name)))));
                    if self.t.bool() {
                        out.push(assign(AOp::Add, id(&name), int(50)));
                    }
                    if self.t.chance(1, 4) {
                        out.push(n(K::Export(Box::new(id(&name)))));
                    }
                    self.declare(&name, true);
                    names.push((name, 0));
                }
                3 | 4 => {
                    let name = self.fresh("fx");
                    let v = self.some_var();
                    let w = self.mutable();
                    let mut b = vec![];
                    if let Some(w) = w {
                        b.push(assign(AOp::Add, id(&w), id("q")));
                    }
                    b.push(list(vec![id("q"), v]));
                    let f = fn_decl(&name, ps(&["q"]), None, b);
                    if self.t.bool() {
                        out.push(n(K::Export(Box::new(f))));
                    } else {
                        out.push(f);
                        out.push(n(K::Export(Box::new(id(&name)))));
                    }
                    names.push((name, 1));
                }
                5 | 6 => {
                    let name = self.fresh("C");
                    let x = self.some_var();
                    let c = class_(
                        &name,
                        None,
                        vec![
                            fn_decl("new", ps(&["self", "a"]), None, vec![assign(AOp::Set, field(id("self"), "a"), id("a"))]),
                            fn_decl("get", ps(&["self"]), None, vec![list(vec![field(id("self"), "a"), x])]),
                        ],
                    );
                    if self.t.bool() {
                        out.push(n(K::Export(Box::new(c))));
                    } else {
                        out.push(c);
                        out.push(n(K::Export(Box::new(id(&name)))));
                    }
                    names.push((name, 2));
                }
                7 => {
                    let name = self.fresh("o");
                    out.push(n(K::Export(Box::new(let_(&name, false, object(vec![("a", int(1))]))))));
                    out.push(assign(AOp::Set, field(id(&name), "a"), int(2)));
                    names.push((name, 3));
                }
                8 => {
                    let name = self.fresh("l");
                    let k = self.t.range(1, 3) as i64;
                    out.push(n(K::Export(Box::new(let_(&name, false, lambda(&["q"], bin(Op::Add, id("q"), int(k))))))));
                    names.push((name, 1));
                }
                9 => {
                    if let Some((name, k)) = imported.last().cloned() {
                        // Passed on.
                        out.push(n(K::Export(Box::new(id(&name)))));
                        names.retain(|x| x.0 != name);
                        names.push((name, k));
                    }
                }
                10 => {
                    if let Some(w) = self.mutable() {
                        out.push(assign(AOp::Add, id(&w), int(3)));
                    }
                }
                _ => {
                    let name = self.fresh("hidden");
                    let m = self.mark();
                    out.push(let_(&name, true, m));
                    self.declare(&name, true);
                }
            }
        }
        // An export of a shadowed name exports the inner-most one visible at the top level.
        if self.t.chance(1, 5) && !names.is_empty() {
            let (name, _) = self.t.pick(&names).clone();
            out.push(block(vec![let_(&name, false, int(-1)), emit(id(&name))]));
        }
        (out, names)
    }

    fn import(&mut self, path: &str, items: &[(String, u8)], out: &mut Vec<N>, got: &mut Vec<(String, u8)>) {
        let whole = self.t.bool();
        let mut some: Vec<(String, u8)> = vec![];
        for x in items {
            if self.t.chance(2, 3) && !some.contains(x) {
                some.push(x.clone());
            }
        }
        if self.t.bool() {
            some.reverse();
        }
        let missing = self.t.chance(1, 12);
        let mut list_: Vec<String> = some.iter().map(|x| x.0.clone()).collect();
        if missing {
            list_.push("nothing".into());
        }
        let module = if whole || list_.is_empty() { Some(self.fresh("m")) } else { None };
        out.push(n(K::Import(module.clone(), list_, format!("\"{}\"", path))));
        if let Some(m) = module {
            let kind = got.len();
            let _ = kind;
            out.push(emit(id(&m)));
            for (name, k) in items {
                if self.t.chance(1, 3) {
                    self.use_item(field(id(&m), name), *k, out);
                }
            }
            if self.t.chance(1, 4) {
                out.push(emit(field(id(&m), "hidden")));
            }
        }
        if missing {
            out.push(emit(id("nothing")));
        }
        for x in some {
            got.push(x);
        }
    }

    fn use_item(&mut self, x: N, k: u8, out: &mut Vec<N>) {
        let item = match k {
            1 => {
                let m = self.mark();
                emit(call(x, vec![m]))
            }
            2 => {
                let m = self.mark();
                emit(method(call(x, vec![m]), "get", vec![]))
            }
            _ => emit(x),
        };
        out.push(item);
    }

    /// Modules by path and the program that uses them.
    pub fn modules(&mut self) -> (Vec<(String, Vec<N>)>, Vec<N>) {
        let mut mods: Vec<(String, Vec<N>)> = vec![];
        let mut known: Vec<(String, Vec<(String, u8)>)> = vec![];
        for i in 0..self.t.range(1, 3) {
            let path = match self.t.below(4) {
                0 => format!("m{}", i),
                1 => format!("./lib/m{}.dm", i),
                2 => format!("a b/é{}", i),
                _ => format!("{}/x.dm", i),
            };
            let (items, names) = self.module(&known);
            mods.push((path.clone(), items));
            known.push((path, names));
        }
        let mut out = vec![];
        self.vars.clear();
        let mut got = vec![];
        for _ in 0..self.t.range(1, 3) {
            let (path, items) = self.t.pick(&known).clone();
            let fresh: Vec<(String, u8)> = items.into_iter().collect();
            if self.t.chance(1, 5) {
                // Inside a function or a block.
                let mut b = vec![];
                let mut inner = vec![];
                self.import(&path, &fresh, &mut b, &mut inner);
                for (name, k) in inner {
                    self.use_item(id(&name), k, &mut b);
                }
                if self.t.bool() {
                    out.push(block(b));
                } else {
                    let f = self.fresh("fx");
                    let m = self.mark();
                    b.push(m);
                    out.push(fn_decl(&f, vec![], None, b));
                    out.push(emit(call(id(&f), vec![])));
                }
                continue;
            }
            self.import(&path, &fresh, &mut out, &mut got);
        }
        for (name, k) in got.clone() {
            self.use_item(id(&name), k, &mut out);
        }
        let shown = got.iter().map(|x| id(&x.0)).collect();
        out.push(list(shown));
        (mods, out)
    }
}

// ---------------------------------------------------------------------------------------------
// Operators

const VALUE_OPS: &[Op] = &[
    Op::Add,
    Op::Sub,
    Op::Mul,
    Op::Div,
    Op::Rem,
    Op::Lt,
    Op::Le,
    Op::Gt,
    Op::Ge,
    Op::Eq,
    Op::Ne,
];

/// What the operand generator aims at.
#[derive(Clone, Copy, PartialEq)]
enum Want {
    Int,
    Float,
    Str,
    Bool,
    Any,
}

impl<'t> TG<'t> {
    /// Literals whose spellings or values resemble one another, of every kind.
    fn literal(&mut self, w: Want) -> N {
        match w {
            Want::Int => match self.t.below(8) {
                0 => int(0),
                1 => int(1),
                2 => int(-1),
                3 => int(self.t.below(300) as i64),
                4 => int(1 << self.t.below(40)),
                5 => spell_int(-(self.t.below(1000) as i64)),
                _ => int(self.t.below(6) as i64),
            },
            Want::Float => float(*self.t.pick(&[0.0, 1.0, 2.0, 0.5, 0.25, 3.0, 1e10, 0.0625, 255.0, 256.0, 12345678.5])),
            Want::Str => str_lit(*self.t.pick(&["", "0", "1", "1.0", "true", "null", "a", "b", "é", "漢", "\n", "\\", "\"", "a b"])),
            Want::Bool => boolean(self.t.bool()),
            Want::Any => match self.t.below(8) {
                0 => self.literal(Want::Int),
                1 => self.literal(Want::Float),
                2 => self.literal(Want::Str),
                3 => self.literal(Want::Bool),
                4 => null(),
                5 => n(K::Unit),
                6 => id(*self.t.pick(&["P", "p1", "p2", "lst", "ob", "fun"])),
                _ => self.literal(Want::Int),
            },
        }
    }

    fn operand(&mut self, w: Want, d: usize) -> N {
        if d == 0 || self.t.chance(1, 4) {
            let x = match self.t.below(4) {
                0 => id(match w {
                    Want::Int => *self.t.pick(&["i1", "i2", "im"]),
                    Want::Float => *self.t.pick(&["d1", "d2"]),
                    Want::Str => *self.t.pick(&["s1", "s2"]),
                    Want::Bool => *self.t.pick(&["b1", "b2"]),
                    Want::Any => *self.t.pick(&["i1", "d1", "s1", "b1", "p1", "lst", "ob"]),
                }),
                _ => self.literal(w),
            };
            return if self.t.chance(1, 5) { emit(x) } else { x };
        }
        let d = d - 1;
        match w {
            Want::Int | Want::Float => match self.t.below(12) {
                0 => neg_(self.operand(w, d)),
                1 => {
                    let c = self.operand(Want::Bool, d);
                    let a = self.operand(w, d);
                    let b = self.operand(w, d);
                    block(vec![iff(c, vec![a], Some(vec![b]))])
                }
                2 if w == Want::Int => {
                    // Overloaded.
                    let p = id(*self.t.pick(&["p1", "p2"]));
                    let b = self.operand(Want::Any, d.min(1));
                    bin(*self.t.pick(VALUE_OPS), p, b)
                }
                3 => {
                    let v = id(if w == Want::Int { "im" } else { "dm" });
                    let op = *self.t.pick(&[AOp::Set, AOp::Add, AOp::Sub, AOp::Mul, AOp::Div]);
                    let e = self.operand(w, d);
                    if self.t.chance(1, 15) {
                        assign(op, v, e)
                    } else {
                        block(vec![assign(op, v.clone(), e), v])
                    }
                }
                _ => {
                    let op = *self.t.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Add, Op::Sub]);
                    let a = self.operand(w, d);
                    let b = self.operand(w, d);
                    let b = if w == Want::Int && matches!(op, Op::Div | Op::Rem) {
                        match self.t.below(3) {
                            0 => int(1 + self.t.below(9) as i64),
                            1 => bin(Op::Add, bin(Op::Mul, b.clone(), b), int(1)),
                            _ => emit(int(7)),
                        }
                    } else {
                        b
                    };
                    bin(op, a, b)
                }
            },
            Want::Str => {
                let a = self.operand(w, d);
                let b = self.operand(w, d);
                bin(Op::Add, a, b)
            }
            Want::Bool => match self.t.below(8) {
                0 => not_(self.operand(w, d)),
                1 | 2 => {
                    let a = self.operand(w, d);
                    let b = self.operand(w, d);
                    bin(*self.t.pick(&[Op::And, Op::Or]), a, b)
                }
                3 => {
                    let a = self.operand(Want::Any, d);
                    let b = self.operand(Want::Any, d);
                    bin(*self.t.pick(&[Op::Eq, Op::Ne]), a, b)
                }
                4 => {
                    let a = self.operand(Want::Any, d);
                    is_(a, *self.t.pick(&["Int", "Float", "String", "Bool", "Any", "P"]), self.t.bool())
                }
                _ => {
                    let k = *self.t.pick(&[Want::Int, Want::Int, Want::Float, Want::Bool]);
                    let a = self.operand(k, d);
                    let b = self.operand(k, d);
                    bin(*self.t.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne]), a, b)
                }
            },
            Want::Any => {
                let k = *self.t.pick(&[Want::Int, Want::Float, Want::Str, Want::Bool]);
                self.operand(k, d)
            }
        }
    }

    /// Operators on operands of every kind, built-in and overloaded.
    pub fn operators(&mut self) -> Vec<N> {
        let mut members = vec![fn_decl(
            "new",
            ps(&["self", "tag"]),
            None,
            vec![assign(AOp::Set, field(id("self"), "tag"), id("tag"))],
        )];
        for (i, op) in VALUE_OPS.iter().enumerate() {
            if !self.t.chance(1, 12) {
                members.push(n(K::OpDecl(
                    *op,
                    ps(&["self", "r"]),
                    None,
                    Box::new(block(vec![emit(list(vec![field(id("self"), "tag"), int(i as i64), id("r")])), bin(Op::Add, field(id("self"), "tag"), int(i as i64))])),
                )));
            }
        }
        let mut v = vec![
            class_("P", None, members),
            let_("p1", false, call(id("P"), vec![int(100)])),
            let_("p2", false, call(id("P"), vec![int(200)])),
            let_("lst", false, list(vec![int(1)])),
            let_("ob", false, object(vec![("a", int(1))])),
            let_("fun", false, lambda(&[], int(1))),
        ];
        for (name, w) in [("i1", Want::Int), ("i2", Want::Int), ("d1", Want::Float), ("d2", Want::Float), ("s1", Want::Str), ("s2", Want::Str), ("b1", Want::Bool), ("b2", Want::Bool)] {
            let x = self.literal(w);
            v.push(let_(name, false, x));
        }
        v.push(let_("im", true, int(2)));
        v.push(let_("dm", true, float(2.0)));
        if self.t.chance(1, 6) {
            // For operands the built-in operators reject.
            let op = *self.t.pick(VALUE_OPS);
            v.push(n(K::OpDecl(
                op,
                ps(&["l", "r"]),
                None,
                Box::new(block(vec![emit(list(vec![str_lit("global"), id("l"), id("r")])), int(77)])),
            )));
        }
        for _ in 0..self.t.range(1, 5) {
            let w = *self.t.pick(&[Want::Int, Want::Int, Want::Float, Want::Str, Want::Bool]);
            let d = self.t.range(1, 4);
            let x = self.operand(w, d);
            v.push(if self.t.bool() { emit(x) } else { block(vec![emit(x)]) });
        }
        if self.t.chance(1, 3) {
            // Any operator on any two values.
            let a = self.operand(Want::Any, 1);
            let b = self.operand(Want::Any, 1);
            let x = match self.t.below(12) {
                0 => neg_(a),
                1 => not_(a),
                2 => bin(*self.t.pick(&[Op::And, Op::Or]), a, b),
                3 => bin(Op::Coalesce, a, b),
                4 => block(vec![let_("m", true, a), assign(*self.t.pick(&[AOp::Add, AOp::Sub, AOp::Mul, AOp::Div]), id("m"), b), id("m")]),
                5 => block(vec![iff(a, vec![b], None)]),
                _ => bin(*self.t.pick(VALUE_OPS), a, b),
            };
            v.push(emit(x));
        }
        v.push(list(vec![id("im"), id("dm")]));
        v
    }
}
