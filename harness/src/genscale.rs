//! Generators of programs in which one construct repeats or nests many times: what holds for two
//! of a kind must hold for two hundred.

use crate::ast::*;
use crate::gensem::*;
use crate::gentmpl::*;
use crate::tape::Tape;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Topic {
    Values,
    Captures,
    Classes,
    Logic,
    Loops,
    Exits,
    Types,
    Prelude,
}

pub const TOPICS: &[Topic] = &[
    Topic::Values,
    Topic::Captures,
    Topic::Classes,
    Topic::Logic,
    Topic::Loops,
    Topic::Exits,
    Topic::Types,
    Topic::Prelude,
];

pub struct Scale<'t> {
    pub t: &'t mut Tape,
    marks: i64,
}

fn name(p: &str, i: usize) -> String {
    format!("{}{}", p, i)
}
fn ints(k: usize) -> Vec<N> {
    (0..k).map(|i| int(i as i64)).collect()
}
fn params(p: &str, k: usize) -> Vec<Param> {
    (0..k).map(|i| Param::new(&name(p, i))).collect()
}
fn obj(v: Vec<(String, N)>) -> N {
    n(K::Object(v.into_iter().map(|(k, x)| (k.clone(), k, x)).collect()))
}
fn m_decl(f: &str, mut p: Vec<Param>, body: Vec<N>) -> N {
    p.insert(0, Param::new("self"));
    fn_decl(f, p, None, body)
}
fn op_decl(op: Op, p: &[&str], body: Vec<N>) -> N {
    n(K::OpDecl(op, ps(p), None, Box::new(block(body))))
}
fn decimal(s: String) -> N {
    let v = s.parse().unwrap();
    n(K::Float(s, v))
}
fn fset(o: &str, f: &str, v: N) -> N {
    n(K::Assign(AOp::Set, Box::new(field(id(o), f)), Box::new(v)))
}

impl<'t> Scale<'t> {
    pub fn new(t: &'t mut Tape) -> Scale<'t> {
        Scale { t, marks: 0 }
    }
    /// A size up to `max`, every order of magnitude as likely.
    pub fn size(&mut self, max: usize) -> usize {
        let mut bits = 0;
        while (1 << (bits + 1)) <= max {
            bits += 1;
        }
        let b = self.t.below(bits + 1);
        let lo = 1 << b;
        self.t.range(lo, (2 * lo - 1).min(max))
    }
    fn mark(&mut self) -> N {
        self.marks += 1;
        emit(int(1000 + self.marks))
    }
    /// A value that tells where it stands.
    fn atom(&mut self, i: usize) -> N {
        let v = i as i64;
        match self.t.below(10) {
            0 | 1 | 2 => int(v),
            3 => str_lit(&format!("s{}", i)),
            4 => float(v as f64 + 0.5),
            5 => bin(Op::Add, int(v), int(1)),
            6 => emit(int(v)),
            7 => list(vec![int(v)]),
            8 => boolean(i % 2 == 0),
            _ => call(lambda(&["q"], id("q")), vec![int(v)]),
        }
    }
    fn text(&mut self, k: usize) -> String {
        let mut s = String::new();
        while s.len() < k {
            let i = s.len();
            match self.t.below(8) {
                0 => s.push('é'),
                1 => s.push('漢'),
                2 => s.push('😀'),
                3 => s.push(*self.t.pick(&['"', '\\', '\n', '\t', '\r', '\''])),
                _ => s.push_str(&format!("{:x}", i)),
            }
        }
        s
    }
    /// Puts the items in a place of their own: the top, a function, a method, a lambda, a loop, a block.
    fn place(&mut self, v: Vec<N>) -> Vec<N> {
        match self.t.below(7) {
            0 | 1 | 2 => v,
            3 => vec![fn_decl("place", vec![], None, v), emit(call(id("place"), vec![]))],
            4 => vec![
                class_("Place", None, vec![m_decl("run", vec![], v)]),
                emit(call(field(call(id("Place"), vec![]), "run"), vec![])),
            ],
            5 => vec![let_("place", false, n(K::Lambda(vec![], Box::new(block(v))))), emit(call(id("place"), vec![]))],
            _ => vec![for_("turn", range(Op::RangeEx, int(0), int(2)), v)],
        }
    }

    pub fn program(&mut self, topic: Topic) -> Vec<N> {
        let v = match topic {
            Topic::Values => self.values(),
            Topic::Captures => self.captures(),
            Topic::Classes => self.classes(),
            Topic::Logic => self.logic(),
            Topic::Loops => self.loops(),
            Topic::Exits => self.exits(),
            Topic::Types => self.types(),
            Topic::Prelude => self.prelude(),
        };
        let mut v = self.place(v);
        let m = self.mark();
        v.push(m);
        v
    }

    fn values(&mut self) -> Vec<N> {
        match self.t.below(14) {
            0 => {
                // A long list.
                let k = self.size(250);
                let items: Vec<N> = (0..k).map(|i| self.atom(i % 40)).collect();
                let mut v = vec![let_("xs", false, list(items)), emit(id("xs"))];
                for _ in 0..3 {
                    let i = self.t.below(k);
                    v.push(emit(index(id("xs"), int(i as i64))));
                }
                v.push(for_("x", id("xs"), vec![emit(id("x"))]));
                v
            }
            1 => {
                // A large object.
                let k = self.size(80);
                let items = (0..k).map(|i| (name("k", i), self.atom(i))).collect();
                let mut v = vec![let_("o", false, obj(items)), emit(id("o"))];
                for i in 0..k {
                    v.push(emit(field(id("o"), &name("k", i))));
                }
                v
            }
            2 => {
                // Many parameters and arguments.
                let k = self.size(120);
                let args: Vec<N> = (0..k).map(|i| self.atom(i % 50)).collect();
                let mut body: Vec<N> = (0..k).map(|i| emit(id(&name("p", i)))).collect();
                let last = self.t.below(k);
                body.push(id(&name("p", last)));
                let f = if self.t.bool() {
                    fn_decl("f", params("p", k), None, body)
                } else {
                    let_("f", false, n(K::Lambda(params("p", k), Box::new(block(body)))))
                };
                vec![f, emit(call(id("f"), args))]
            }
            3 => {
                // Many variables.
                let k = self.size(200);
                let m = self.t.below(3);
                let mut v: Vec<N> = (0..k).map(|i| let_(&name("v", i), m > 0, int(i as i64 % 60))).collect();
                for _ in 0..self.t.range(1, 8) {
                    let (i, j) = (self.t.below(k), self.t.below(k));
                    if m > 0 {
                        let op = *self.t.pick(&[AOp::Set, AOp::Add, AOp::Sub, AOp::Mul]);
                        v.push(assign(op, id(&name("v", i)), bin(Op::Add, id(&name("v", j)), int(1))));
                    } else {
                        v.push(emit(bin(Op::Sub, id(&name("v", i)), id(&name("v", j)))));
                    }
                }
                for i in 0..k {
                    v.push(emit(id(&name("v", i))));
                }
                v
            }
            4 => {
                // Many constants, alike and not.
                let k = self.size(100);
                (0..k)
                    .map(|i| {
                        let x = match self.t.below(5) {
                            0 => int(i as i64),
                            1 => float(i as f64),
                            2 => str_lit(&i.to_string()),
                            3 => int((1 << 33) + i as i64),
                            _ => field(obj(vec![(name("x", i), int(i as i64 % 7))]), &name("x", i)),
                        };
                        emit(x)
                    })
                    .collect()
            }
            5 => {
                // A long chain of operators.
                let k = self.size(100);
                let mixed = self.t.bool();
                let op = *self.t.pick(&[Op::Sub, Op::Add, Op::Rem, Op::Div]);
                let mut x = int(1_000_000);
                for i in 0..k {
                    let op = if mixed { *self.t.pick(&[Op::Sub, Op::Add, Op::Rem]) } else { op };
                    let v = if self.t.chance(1, 8) { emit(int(i as i64 % 9 + 1)) } else { int(i as i64 % 9 + 1) };
                    x = bin(op, x, v);
                }
                vec![emit(x)]
            }
            6 => {
                // Operators nested to the right.
                let k = self.size(40);
                let mut x = int(3);
                for i in 0..k {
                    let op = *self.t.pick(&[Op::Sub, Op::Add]);
                    let l = if self.t.chance(1, 4) { emit(int(i as i64)) } else { int(i as i64) };
                    x = bin(op, l, x);
                }
                vec![emit(x)]
            }
            7 => {
                // Many items, some of them with a value that is not used.
                let k = self.size(120);
                let mut v = vec![let_("a", true, int(0))];
                for i in 0..k {
                    let x = match self.t.below(5) {
                        0 => assign(AOp::Add, id("a"), int(i as i64)),
                        1 => emit(id("a")),
                        2 => bin(Op::Add, id("a"), int(1)),
                        3 => block(vec![let_("b", false, id("a")), id("b")]),
                        _ => set("a", int(i as i64)),
                    };
                    v.push(x);
                }
                v.push(emit(id("a")));
                v
            }
            8 => {
                // A long chain of conditions.
                let k = self.size(60);
                let at = self.t.below(k + 1);
                let mut e = if self.t.bool() { Some(Box::new(block(vec![str_lit("none")]))) } else { None };
                for i in (0..k).rev() {
                    let c = bin(Op::Eq, id("at"), int(i as i64));
                    let x = n(K::If(Box::new(c), Box::new(block(vec![str_lit(&name("branch ", i))])), e.take()));
                    // An `else if`, or an `else` with an `if` in it.
                    let x = if i > 0 && self.t.chance(1, 8) { block(vec![x]) } else { x };
                    e = Some(Box::new(x));
                }
                vec![let_("at", false, int(at as i64)), emit(*e.unwrap())]
            }
            9 => {
                // Access, calls and assignments of a long chain.
                let k = self.size(40);
                match self.t.below(4) {
                    0 => {
                        let mut o = int(77);
                        for i in (0..k).rev() {
                            o = obj(vec![(name("f", i % 5), o)]);
                        }
                        let mut x = id("o");
                        for i in 0..k {
                            x = field(x, &name("f", i % 5));
                        }
                        vec![let_("o", false, o), emit(x.clone()), n(K::Assign(AOp::Add, Box::new(x.clone()), Box::new(int(5)))), emit(x), emit(id("o"))]
                    }
                    1 => {
                        let mut o = int(77);
                        for _ in 0..k {
                            o = list(vec![int(5), o]);
                        }
                        let mut x = id("o");
                        for _ in 0..k {
                            x = index(x, int(1));
                        }
                        vec![let_("o", false, o), emit(x)]
                    }
                    2 => {
                        let mut f = bin(Op::Add, id("p0"), id(&name("p", k - 1)));
                        for i in (0..k).rev() {
                            f = lambda(&[&name("p", i)], f);
                        }
                        let mut x = id("f");
                        for i in 0..k {
                            x = call(x, vec![int(i as i64 + 3)]);
                        }
                        vec![let_("f", false, f), emit(x)]
                    }
                    _ => {
                        let mut v: Vec<N> = (0..k).map(|i| let_(&name("v", i), true, int(i as i64))).collect();
                        let mut x = self.mark();
                        for i in 0..k {
                            x = assign(AOp::Set, id(&name("v", i)), x);
                        }
                        v.push(x);
                        for i in 0..k {
                            v.push(emit(id(&name("v", i))));
                        }
                        v
                    }
                }
            }
            10 => {
                // Long strings and long names.
                let k = self.size(3000);
                let a = self.text(k);
                let l = self.size(300);
                let long = "n".repeat(l);
                let (x, y) = (format!("{}a", long), format!("{}b", long));
                vec![
                    let_("s", false, str_lit(&a)),
                    emit(id("s")),
                    emit(bin(Op::Eq, id("s"), str_lit(&a))),
                    emit(bin(Op::Eq, id("s"), str_lit(&format!("{}.", a)))),
                    let_(&x, true, int(1)),
                    let_(&y, true, int(2)),
                    set(&x, bin(Op::Add, id(&x), int(10))),
                    emit(id(&x)),
                    emit(id(&y)),
                    let_("o", false, obj(vec![(x.clone(), int(5)), (y.clone(), int(6))])),
                    emit(field(id("o"), &x)),
                    emit(field(id("o"), &y)),
                    emit(id("o")),
                    fn_decl(&format!("{}c", long), vec![Param::new(&x)], None, vec![id(&x)]),
                    emit(call(id(&format!("{}c", long)), vec![int(9)])),
                    class_(&format!("{}d", long), None, vec![m_decl(&x, vec![], vec![int(1)]), m_decl(&y, vec![], vec![int(2)])]),
                    emit(call(field(call(id(&format!("{}d", long)), vec![]), &y), vec![])),
                    emit(call(id(&format!("{}d", long)), vec![])),
                ]
            }
            11 => {
                // Numbers of every size.
                let k = self.size(30);
                (0..k)
                    .map(|_| {
                        let b = self.t.range(1, 62);
                        let v = (self.t.u64() >> (64 - b)) as i64;
                        let x = match self.t.below(4) {
                            0 => int(-v),
                            1 => decimal(format!("{:.1}", v as f64)),
                            2 => decimal(format!("{:.12}", v as f64 / 1e9)),
                            _ => int(v),
                        };
                        let y = if self.t.chance(1, 3) { bin(Op::Sub, x.clone(), int(1)) } else { x };
                        emit(y)
                    })
                    .collect()
            }
            12 => {
                // Many functions that use each other.
                let k = self.size(80);
                let mut v: Vec<N> = (0..k)
                    .map(|i| {
                        let body = if i + 1 < k && self.t.chance(2, 3) {
                            bin(Op::Add, call(id(&name("f", i + 1)), vec![id("x")]), int(1))
                        } else {
                            bin(Op::Add, id("x"), int(i as i64))
                        };
                        fn_decl(&name("f", i), ps(&["x"]), None, vec![body])
                    })
                    .collect();
                for _ in 0..4 {
                    let i = self.t.below(k);
                    v.push(emit(call(id(&name("f", i)), vec![int(100)])));
                }
                v.push(emit(call(id(&name("f", k - 1)), vec![int(100)])));
                v
            }
            _ => {
                // Scopes within scopes, each with variables.
                let k = self.size(40);
                let mut v = vec![emit(id("v"))];
                for i in 0..k {
                    let mut w = vec![let_(if self.t.bool() { "v" } else { "w" }, true, int(i as i64))];
                    if self.t.bool() {
                        w.push(emit(id("v")));
                    }
                    w.push(block(v));
                    if self.t.bool() {
                        w.push(emit(id("v")));
                    }
                    v = w;
                }
                v.insert(0, let_("v", true, int(-1)));
                v
            }
        }
    }

    fn captures(&mut self) -> Vec<N> {
        match self.t.below(6) {
            0 => {
                // One function, many variables.
                let k = self.size(120);
                let mut v: Vec<N> = (0..k).map(|i| let_(&name("v", i), true, int(i as i64))).collect();
                let mut order: Vec<usize> = (0..k).collect();
                if self.t.bool() {
                    for i in (1..k).rev() {
                        let j = self.t.below(i + 1);
                        order.swap(i, j);
                    }
                }
                let mut body = vec![];
                for i in &order {
                    if self.t.chance(1, 4) {
                        body.push(assign(AOp::Add, id(&name("v", *i)), int(100)));
                    } else {
                        body.push(emit(id(&name("v", *i))));
                    }
                }
                v.push(let_("f", false, n(K::Lambda(vec![], Box::new(block(body))))));
                v.push(call(id("f"), vec![]));
                for i in 0..k {
                    if self.t.chance(1, 3) {
                        v.push(assign(AOp::Add, id(&name("v", i)), int(1000)));
                    }
                }
                v.push(call(id("f"), vec![]));
                for i in 0..k {
                    v.push(emit(id(&name("v", i))));
                }
                v
            }
            1 => {
                // Through many functions, with variables at each.
                let k = self.size(24);
                let mut body = vec![];
                for i in 0..k {
                    let j = self.t.below(i + 1);
                    body.push(assign(AOp::Add, id(&name("v", j)), int(1)));
                    body.push(emit(id(&name("v", i))));
                }
                let mut f = n(K::Lambda(vec![], Box::new(block(body))));
                for i in (0..k).rev() {
                    let mut b = vec![let_(&name("v", i), true, int(10 * i as i64))];
                    b.push(let_("inner", false, f));
                    if self.t.bool() {
                        b.push(call(id("inner"), vec![]));
                        b.push(emit(id(&name("v", i))));
                    }
                    b.push(id("inner"));
                    if i == 0 {
                        b.push(emit(int(0)));
                        let mut x = id("inner");
                        for _ in 0..k {
                            x = call(x, vec![]);
                        }
                        b.insert(2, x);
                        return b;
                    }
                    f = n(K::Lambda(vec![], Box::new(block(b))));
                }
                unreachable!()
            }
            2 => {
                // Many closures over the turns of a loop.
                let k = self.size(60) as i64;
                let m = self.t.range(1, 6);
                let mut body: Vec<N> = (0..m).map(|i| let_(&name("w", i), true, bin(Op::Add, id("i"), int(i as i64 * 100)))).collect();
                let pick = self.t.below(m);
                body.push(set(
                    "fs",
                    list(vec![
                        id("fs"),
                        lambda(&[], block(vec![assign(AOp::Add, id(&name("w", pick)), id("i")), id(&name("w", pick))])),
                    ]),
                ));
                let mut x = id("fs");
                let mut v = vec![let_("fs", true, list(vec![])), for_("i", range(Op::RangeEx, int(0), int(k)), body)];
                for _ in 0..k {
                    v.push(emit(call(index(x.clone(), int(1)), vec![])));
                    v.push(emit(call(index(x.clone(), int(1)), vec![])));
                    x = index(x, int(0));
                    if v.len() > 30 {
                        break;
                    }
                }
                v
            }
            3 => {
                // A captured variable among many that are not.
                let k = self.size(200);
                let at = self.t.below(k);
                let inner = self.t.bool();
                let mut b: Vec<N> = (0..k).map(|i| let_(&name("v", i), true, int(i as i64 % 50))).collect();
                b.push(set("f", lambda(&[], block(vec![assign(AOp::Add, id(&name("v", at)), int(1)), id(&name("v", at))]))));
                b.push(emit(call(id("f"), vec![])));
                b.push(assign(AOp::Mul, id(&name("v", at)), int(3)));
                b.push(emit(call(id("f"), vec![])));
                for i in 0..k {
                    if i % 16 == 0 || i + 1 == k {
                        b.push(emit(id(&name("v", i))));
                    }
                }
                let mut v = vec![let_("f", true, int(0))];
                if inner {
                    v.push(block(b));
                } else {
                    v.extend(b);
                }
                let reuse = (0..k.min(40)).map(|i| let_(&name("u", i), true, int(-1))).collect();
                v.push(block(reuse));
                v.push(emit(call(id("f"), vec![])));
                v
            }
            4 => {
                // Many functions, one variable.
                let k = self.size(60);
                let mut v = vec![let_("x", true, int(0))];
                for i in 0..k {
                    v.push(let_(&name("f", i), false, lambda(&[], assign(AOp::Add, id("x"), int(i as i64)))));
                }
                for i in 0..k {
                    v.push(call(id(&name("f", i)), vec![]));
                    v.push(emit(id("x")));
                }
                v
            }
            _ => {
                // Functions that capture each other.
                let k = self.size(60);
                let mut v: Vec<N> = (0..k)
                    .map(|i| {
                        let next = call(id(&name("f", (i + 1) % k)), vec![bin(Op::Sub, id("x"), int(1))]);
                        fn_decl(&name("f", i), ps(&["x"]), None, vec![iff(bin(Op::Le, id("x"), int(0)), vec![int(i as i64)], Some(vec![next]))])
                    })
                    .collect();
                let d = self.t.range(0, 90) as i64;
                v.push(emit(call(id("f0"), vec![int(d)])));
                vec![fn_decl("outer", vec![], None, v), call(id("outer"), vec![])]
            }
        }
    }

    fn classes(&mut self) -> Vec<N> {
        match self.t.below(6) {
            0 => {
                // Many members.
                let k = self.size(60);
                let mut items = vec![];
                let mut uses = vec![let_("a", false, call(id("A"), vec![]))];
                for i in 0..k {
                    if self.t.chance(1, 3) {
                        items.push(fn_decl(&name("s", i), ps(&["x"]), None, vec![bin(Op::Add, id("x"), int(i as i64))]));
                        uses.push(emit(call(field(id("A"), &name("s", i)), vec![int(1000)])));
                    } else {
                        items.push(m_decl(&name("m", i), ps(&["x"]), vec![bin(Op::Add, id("x"), bin(Op::Add, field(id("self"), "base"), int(i as i64)))]));
                        uses.push(emit(call(field(id("a"), &name("m", i)), vec![int(2000)])));
                    }
                }
                let at = self.t.below(items.len() + 1);
                items.insert(at, m_decl("new", vec![], vec![fset("self", "base", int(50))]));
                let mut v = vec![class_("A", None, items)];
                v.extend(uses);
                v
            }
            1 => {
                // A tall hierarchy.
                let k = self.size(24);
                let mut v = vec![];
                let owner = self.t.below(k);
                for i in 0..k {
                    let mut items = vec![];
                    let base = if i == 0 { None } else { Some(id(&name("C", i - 1))) };
                    if i > 0 {
                        let x = call(n(K::SuperField(None, "who".into())), vec![]);
                        items.push(m_decl("who", vec![], vec![list(vec![int(i as i64), x])]));
                        items.push(m_decl("new", ps(&["x"]), vec![n(K::SuperCall(vec![bin(Op::Add, id("x"), int(1))])), fset("self", &name("f", i), id("x"))]));
                    } else {
                        items.push(m_decl("who", vec![], vec![list(vec![int(0)])]));
                        items.push(m_decl("new", ps(&["x"]), vec![fset("self", "f0", id("x"))]));
                    }
                    if i == owner {
                        items.push(m_decl("only", vec![], vec![int(i as i64)]));
                    }
                    if self.t.bool() {
                        items.push(n(K::OpDecl(Op::Add, ps(&["self", "r"]), None, Box::new(block(vec![list(vec![int(i as i64), id("r")])])))));
                    }
                    if self.t.chance(1, 3) {
                        items.push(m_decl("some", vec![], vec![int(500 + i as i64)]));
                    }
                    v.push(class_(&name("C", i), base, items));
                }
                let at = if self.t.bool() { k - 1 } else { self.t.below(k) };
                v.push(let_("o", false, call(id(&name("C", at)), vec![int(100)])));
                v.push(emit(call(field(id("o"), "who"), vec![])));
                for i in 0..=at {
                    v.push(emit(field(id("o"), &name("f", i))));
                    v.push(emit(is_(id("o"), &name("C", i), false)));
                }
                if at + 1 < k {
                    v.push(emit(is_(id("o"), &name("C", k - 1), false)));
                }
                let last = match self.t.below(3) {
                    0 => call(field(id("o"), "only"), vec![]),
                    1 => bin(Op::Add, id("o"), int(3)),
                    _ => call(field(id("o"), "some"), vec![]),
                };
                v.push(emit(last));
                v
            }
            2 => {
                // Many fields and constructor arguments.
                let k = self.size(60);
                let body = (0..k).map(|i| fset("self", &name("f", i), id(&name("p", i)))).collect();
                let m = m_decl("all", vec![], (0..k).map(|i| emit(field(id("self"), &name("f", i)))).collect());
                let args = (0..k).map(|i| self.atom(i)).collect();
                vec![
                    class_("A", None, vec![m_decl("new", params("p", k), body), m]),
                    let_("a", false, call(id("A"), args)),
                    call(field(id("a"), "all"), vec![]),
                    emit(field(id("a"), &name("f", k - 1))),
                ]
            }
            3 => {
                // Many classes.
                let k = self.size(40);
                let mut v: Vec<N> = (0..k)
                    .map(|i| {
                        let other = call(field(call(id(&name("C", (i + 1) % k)), vec![]), "id"), vec![]);
                        class_(
                            &name("C", i),
                            None,
                            vec![
                                m_decl("id", vec![], vec![int(i as i64)]),
                                m_decl("next", vec![], vec![other]),
                                fn_decl("make", vec![], None, vec![call(id(&name("C", i)), vec![])]),
                            ],
                        )
                    })
                    .collect();
                for i in 0..k {
                    let m = if self.t.bool() { "id" } else { "next" };
                    let o = if self.t.bool() {
                        call(id(&name("C", i)), vec![])
                    } else {
                        call(field(id(&name("C", i)), "make"), vec![])
                    };
                    v.push(emit(call(field(o, m), vec![])));
                }
                v
            }
            4 => {
                // Super calls with many arguments.
                let k = self.size(60);
                let body: Vec<N> = (0..k).map(|i| fset("self", &name("f", i), id(&name("p", i)))).collect();
                let args: Vec<N> = (0..k).map(|i| if i % 3 == 0 { id("x") } else { int(i as i64) }).collect();
                let mut v = vec![
                    class_("A", None, vec![m_decl("new", params("p", k), body), m_decl("m", params("p", k), (0..k).map(|i| emit(id(&name("p", i)))).collect())]),
                    class_(
                        "B",
                        Some(id("A")),
                        vec![
                            m_decl("new", ps(&["x"]), vec![n(K::SuperCall(args.clone()))]),
                            m_decl("m", ps(&["x"]), vec![call(n(K::SuperField(None, "m".into())), args)]),
                        ],
                    ),
                    let_("b", false, call(id("B"), vec![str_lit("x")])),
                    call(field(id("b"), "m"), vec![str_lit("y")]),
                ];
                for i in 0..k {
                    v.push(emit(field(id("b"), &name("f", i))));
                }
                v
            }
            _ => {
                // Long methods with many variables and closures over self.
                let k = self.size(60);
                let mut body: Vec<N> = (0..k).map(|i| let_(&name("v", i), true, bin(Op::Add, field(id("self"), "x"), int(i as i64)))).collect();
                body.push(let_("g", false, lambda(&["q"], list(vec![field(id("self"), "x"), id("q"), id(&name("v", k - 1))]))));
                body.push(id("g"));
                vec![
                    class_("A", None, vec![m_decl("new", ps(&["x"]), vec![fset("self", "x", id("x"))]), m_decl("m", vec![], body)]),
                    let_("a", false, call(id("A"), vec![int(7)])),
                    let_("f", false, call(field(id("a"), "m"), vec![])),
                    fset("a", "x", int(9)),
                    emit(call(id("f"), vec![int(1)])),
                ]
            }
        }
    }

    fn logic(&mut self) -> Vec<N> {
        match self.t.below(7) {
            0 => {
                // A long chain of && or ||.
                let k = self.size(60);
                let at = self.t.below(k + 2);
                let and = self.t.bool();
                let mixed = self.t.chance(1, 3);
                let mut x: Option<N> = None;
                for i in 0..k {
                    let v = boolean((i == at) != and);
                    let v = block(vec![emit(int(i as i64)), v]);
                    let op = if mixed && self.t.chance(1, 5) { !and } else { and };
                    x = Some(match x {
                        None => v,
                        Some(l) => bin(if op { Op::And } else { Op::Or }, l, v),
                    });
                }
                vec![emit(x.unwrap())]
            }
            1 => {
                let k = self.size(60);
                let at = self.t.below(k + 1);
                let mut x: Option<N> = None;
                for i in 0..k {
                    let v = if i == at { int(i as i64) } else { null() };
                    let v = block(vec![emit(int(i as i64)), v]);
                    x = Some(match x {
                        None => v,
                        Some(l) => bin(Op::Coalesce, l, v),
                    });
                }
                vec![emit(x.unwrap())]
            }
            2 | 3 => {
                // A long null chain, ending at some point.
                let k = self.size(40);
                let at = self.t.below(k + 1);
                let mut o = if at == k { int(77) } else { null() };
                for i in (0..at).rev() {
                    o = match i % 4 {
                        1 => lambda(&["q"], block(vec![emit(int(i as i64)), o])),
                        2 => list(vec![int(0), o]),
                        _ => obj(vec![("f".into(), o)]),
                    };
                }
                let every = self.t.bool();
                let mut x = id("o");
                for i in 0..k {
                    if every || self.t.bool() || i == at {
                        x = ifn(x);
                    }
                    x = match i % 4 {
                        1 => {
                            let a = emit(int(500 + i as i64));
                            call(x, vec![a])
                        }
                        2 => {
                            let a = emit(int(1));
                            index(x, a)
                        }
                        _ => field(x, "f"),
                    };
                }
                let m = self.mark();
                vec![let_("o", false, o), emit(list(vec![int(1), x.clone(), int(2)])), emit(bin(Op::Coalesce, x, m))]
            }
            4 => {
                // A long pipeline.
                let k = self.size(60);
                let mut x = int(1);
                for i in 0..k {
                    let f = match self.t.below(3) {
                        0 => id("f"),
                        1 => call(id("g"), vec![int(i as i64)]),
                        _ => id("h"),
                    };
                    x = bin(Op::Pipeline, x, f);
                }
                vec![
                    fn_decl("f", ps(&["x"]), None, vec![emit(bin(Op::Add, id("x"), int(1)))]),
                    fn_decl("g", ps(&["y"]), None, vec![emit(id("y")), lambda(&["x"], bin(Op::Sub, id("x"), id("y")))]),
                    fn_decl("h", ps(&["x"]), None, vec![bin(Op::Sub, id("x"), int(2))]),
                    emit(x),
                ]
            }
            5 => {
                // Handlers in handlers.
                let k = self.size(20);
                let at = self.t.below(k + 1);
                let mut x = int(-1);
                for i in (0..k).rev() {
                    let r = if i == at { call(id("Ok"), vec![int(i as i64)]) } else { call(id("Err"), vec![int(i as i64)]) };
                    let v = name("e", i);
                    x = or_(block(vec![emit(int(i as i64)), r]), &v, vec![emit(id(&v)), x]);
                }
                vec![emit(x)]
            }
            _ => {
                // Many propagations in one function.
                let k = self.size(40);
                let at = self.t.below(k + 1);
                let mut body = vec![let_("s", true, int(0))];
                for i in 0..k {
                    let r = if i == at { call(id("Err"), vec![int(i as i64)]) } else { call(id("Ok"), vec![int(i as i64)]) };
                    body.push(match self.t.below(3) {
                        0 => assign(AOp::Add, id("s"), prop(r)),
                        1 => emit(prop(r)),
                        _ => let_(&name("v", i), false, prop(block(vec![emit(int(900 + i as i64)), r]))),
                    });
                }
                body.push(call(id("Ok"), vec![id("s")]));
                vec![
                    fn_decl("f", vec![], None, body),
                    let_("r", false, call(id("f"), vec![])),
                    emit(field(id("r"), "is_ok")),
                    emit(field(id("r"), "result")),
                ]
            }
        }
    }

    /// A loop with `body`, which may use `i`, that ends after `k` turns.
    fn a_loop(&mut self, k: i64, body: Vec<N>) -> Vec<N> {
        match self.t.below(5) {
            0 | 1 => {
                let (a, b) = match self.t.below(4) {
                    0 => (int(0), int(k)),
                    1 => (int(-3), int(k - 3)),
                    2 => (int(1 << 33), int((1 << 33) + k)),
                    _ => (int(-k), int(0)),
                };
                let incl = self.t.chance(1, 3);
                let v = if incl { vec![for_("i", range(Op::RangeIn, a, bin(Op::Sub, b, int(1))), body)] } else { vec![for_("i", range(Op::RangeEx, a, b), body)] };
                v
            }
            2 => vec![for_("i", list(ints((k as usize).min(200))), body)],
            3 => {
                let mut b = vec![assign(AOp::Add, id("i"), int(1))];
                b.extend(body);
                vec![let_("i", true, int(-1)), while_(bin(Op::Lt, id("i"), int(k - 1)), b)]
            }
            _ => {
                let mut b = vec![assign(AOp::Add, id("i"), int(1)), iff(bin(Op::Ge, id("i"), int(k)), vec![brk()], None)];
                b.extend(body);
                vec![let_("i", true, int(-1)), loop_(b)]
            }
        }
    }

    fn loops(&mut self) -> Vec<N> {
        match self.t.below(6) {
            0 => {
                // Many turns.
                let k = self.size(300) as i64;
                let mut v = vec![let_("s", true, int(0))];
                let body = vec![assign(AOp::Add, id("s"), int(1)), iff(bin(Op::Eq, bin(Op::Rem, id("s"), int(37)), int(0)), vec![emit(id("i"))], None)];
                let l = self.a_loop(k, body);
                v.extend(l);
                v.push(emit(id("s")));
                v
            }
            1 => {
                // Many ways out.
                let k = self.size(40);
                let turns = self.t.range(1, 60) as i64;
                let mut body = vec![let_("j", false, id("c")), assign(AOp::Add, id("c"), int(1))];
                for i in 0..k {
                    let at = if self.t.chance(1, 3) { self.t.range(0, 60) } else { 1000 + i };
                    let exit = if self.t.chance(1, 2) { brk() } else { cont() };
                    let e = self.t.bool();
                    let mut b = vec![];
                    if e {
                        b.push(emit(int(i as i64)));
                    }
                    b.push(exit);
                    body.push(iff(bin(Op::Eq, id("j"), int(at as i64)), b, None));
                }
                body.push(emit(id("j")));
                let mut v = vec![let_("c", true, int(0))];
                let l = self.a_loop(turns, body);
                v.extend(l);
                v.push(emit(id("c")));
                v
            }
            2 => {
                // Loops within loops.
                let k = self.size(9).min(7);
                let mut body = vec![emit(list((0..k).map(|i| id(&name("i", i))).collect()))];
                for d in (0..k).rev() {
                    let lim = self.t.range(1, 2) as i64;
                    let at = self.t.below(3) as i64;
                    let exit = match self.t.below(4) {
                        0 => Some(brk()),
                        1 => Some(cont()),
                        _ => None,
                    };
                    let v = name("i", d);
                    if let Some(e) = exit {
                        let x = iff(bin(Op::Eq, id(&v), int(at)), vec![e], None);
                        if self.t.bool() {
                            body.insert(0, x);
                        } else {
                            body.push(x);
                        }
                    }
                    body = if self.t.bool() {
                        vec![for_(&v, range(Op::RangeEx, int(0), int(lim)), body)]
                    } else {
                        let mut b = vec![assign(AOp::Add, id(&v), int(1))];
                        b.extend(body);
                        vec![let_(&v, true, int(-1)), while_(bin(Op::Lt, id(&v), int(lim - 1)), b)]
                    };
                }
                body
            }
            3 => {
                // A long body: the jumps over it are long.
                let k = self.size(2500);
                let turns = self.t.range(1, 3) as i64;
                let mut body: Vec<N> = (0..k).map(|_| id("s")).collect();
                let at = self.t.below(body.len());
                let e = if self.t.bool() { brk() } else { cont() };
                let last = self.t.below(3) as i64;
                body.insert(at, iff(bin(Op::Eq, id("c"), int(last)), vec![e], None));
                body.insert(0, assign(AOp::Add, id("c"), int(1)));
                body.push(emit(id("c")));
                let mut v = vec![let_("s", true, int(0)), let_("c", true, int(-1))];
                let l = self.a_loop(turns, body);
                v.extend(l);
                v.push(emit(id("c")));
                v
            }
            4 => {
                // One loop after another.
                let k = self.size(50);
                let mut v = vec![let_("s", true, int(0))];
                for i in 0..k {
                    let turns = self.t.below(3) as i64;
                    let l = self.a_loop(turns, vec![assign(AOp::Add, id("s"), int(i as i64 + 1)), iff(bin(Op::Gt, id("s"), int(300)), vec![cont()], None), assign(AOp::Add, id("s"), int(1))]);
                    v.push(block(l));
                    v.push(emit(id("s")));
                }
                v
            }
            _ => {
                // Many variables in the body, some captured.
                let k = self.size(100);
                let turns = self.t.range(1, 4) as i64;
                let mut body: Vec<N> = (0..k).map(|i| let_(&name("v", i), true, bin(Op::Add, id("i"), int(i as i64)))).collect();
                let at = self.t.below(k);
                body.push(set("f", lambda(&[], block(vec![assign(AOp::Add, id(&name("v", at)), int(1)), id(&name("v", at))]))));
                body.push(emit(call(id("f"), vec![])));
                body.push(emit(id(&name("v", k - 1))));
                let mut v = vec![let_("f", true, int(0))];
                let l = self.a_loop(turns, body);
                v.push(block(l));
                v.push(emit(call(id("f"), vec![])));
                v
            }
        }
    }

    fn exits(&mut self) -> Vec<N> {
        // An exit in the middle of a wide or deep expression.
        let kind = self.t.below(4);
        let exit = match kind {
            0 => brk(),
            1 => cont(),
            2 => ret(str_lit("left")),
            _ => prop(call(id("Err"), vec![str_lit("wrong")])),
        };
        let mut x = block(vec![iff(bin(Op::Eq, id("c"), int(1)), vec![exit], None), int(5)]);
        let shapes = self.t.range(1, 3);
        for _ in 0..shapes {
            let k = self.size(60);
            let at = if self.t.bool() { k - 1 } else { self.t.below(k) };
            let fill = |s: &mut Self, i: usize| if s.t.chance(1, 6) { s.atom(i) } else { int(i as i64) };
            x = match self.t.below(7) {
                0 => {
                    let v = (0..k).map(|i| if i == at { x.clone() } else { fill(self, i) }).collect();
                    call(id("wide"), vec![list(v)])
                }
                1 => {
                    let p = params("p", k);
                    let f = n(K::Lambda(p, Box::new(id(&name("p", at)))));
                    let v = (0..k).map(|i| if i == at { x.clone() } else { fill(self, i) }).collect();
                    call(f, v)
                }
                2 => {
                    let v = (0..k).map(|i| (name("f", i), if i == at { x.clone() } else { fill(self, i) })).collect();
                    field(obj(v), &name("f", at))
                }
                3 => {
                    let mut y = bin(Op::Add, int(1), x);
                    for i in 0..k.min(40) {
                        y = bin(Op::Sub, int(i as i64), y);
                    }
                    y
                }
                4 => {
                    let mut y = x;
                    for i in 0..k.min(20) {
                        y = call(id("pass"), vec![int(i as i64), y]);
                    }
                    y
                }
                5 => {
                    let mut y = x;
                    for i in 0..k.min(20) {
                        y = index(list(vec![int(i as i64), y]), int(1));
                    }
                    y
                }
                _ => {
                    let mut y = x;
                    for i in 0..k.min(20) {
                        y = block(vec![let_(&name("b", i), true, int(i as i64)), let_("u", false, y), emit(id(&name("b", i))), id("u")]);
                    }
                    y
                }
            };
        }
        let turns = self.t.range(2, 6) as i64;
        let mut body = vec![assign(AOp::Add, id("c"), int(1)), emit(x)];
        body.push(emit(id("c")));
        let nest = self.t.below(3);
        let looped = kind < 2 || self.t.bool();
        let mut v = if looped {
            let mut l = vec![for_("i", range(Op::RangeEx, int(0), int(turns)), body)];
            for d in 0..nest {
                let lim = self.t.range(1, 2) as i64;
                l.push(emit(int(70 + d as i64)));
                l = vec![for_(&name("o", d), list(ints(lim as usize)), l)];
            }
            l
        } else {
            body
        };
        v.insert(0, let_("c", true, int(if looped { -1 } else { self.t.below(2) as i64 })));
        v.push(emit(id("c")));
        v.push(str_lit("through"));
        vec![
            fn_decl("wide", ps(&["l"]), None, vec![index(id("l"), int(0))]),
            fn_decl("pass", ps(&["a", "b"]), None, vec![id("b")]),
            fn_decl("run", vec![], None, v),
            let_("r", false, call(id("run"), vec![])),
            emit(id("r")),
            emit(is_(id("r"), "Result", false)),
            emit(list(vec![int(1), call(id("run"), vec![]), int(2)])),
        ]
    }

    fn types(&mut self) -> Vec<N> {
        let k = self.size(60);
        let types = ["Int", "String", "Bool", "Float", "List", "Any", "A"];
        let value = |i: usize| match i {
            0 => int(3),
            1 => str_lit("s"),
            2 => boolean(true),
            3 => float(2.5),
            4 => list(vec![]),
            5 => int(1),
            _ => call(id("A"), vec![]),
        };
        let bad = if self.t.chance(1, 3) { None } else { Some(self.t.below(k)) };
        let mut p = vec![];
        let mut args = vec![];
        for i in 0..k {
            let ty = self.t.below(types.len());
            let nullable = self.t.chance(1, 3);
            let mut q = Param::new(&name("p", i));
            if Some(i) == bad || self.t.chance(2, 3) {
                q.ty = Some(Ty::new(types[ty], nullable));
            }
            p.push(q);
            args.push(if Some(i) == bad {
                match self.t.below(3) {
                    0 => null(),
                    1 => value((ty + 1) % 7),
                    _ => value((ty + 3) % 7),
                }
            } else if nullable && self.t.chance(1, 4) {
                null()
            } else {
                value(ty)
            });
        }
        let at = self.t.below(k);
        let ret_ty = if self.t.bool() { Some(Ty::new(types[self.t.below(types.len())], self.t.bool())) } else { None };
        let lambda_ = self.t.chance(1, 4);
        let mut body = vec![emit(str_lit("called")), emit(id(&name("p", at)))];
        body.push(id(&name("p", self.t.below(k))));
        let mut v = vec![class_("A", None, vec![])];
        match (lambda_, self.t.below(3)) {
            (true, _) => {
                v.push(let_("f", false, n(K::Lambda(p, Box::new(block(body))))));
                v.push(emit(call(id("f"), args)));
            }
            (_, 0) => {
                p.insert(0, Param::new("self"));
                v.push(class_("B", None, vec![fn_decl("f", p, ret_ty, body)]));
                v.push(emit(call(field(call(id("B"), vec![]), "f"), args)));
            }
            (_, 1) => {
                v.push(class_("B", None, vec![fn_decl("f", p, ret_ty, body)]));
                v.push(emit(call(field(id("B"), "f"), args)));
            }
            _ => {
                v.push(fn_decl("f", p, ret_ty, body));
                v.push(emit(call(id("f"), args)));
            }
        }
        v
    }

    fn prelude(&mut self) -> Vec<N> {
        match self.t.below(5) {
            0 | 1 => {
                // A range as a value, with many turns.
                let k = self.size(120) as i64;
                let a = match self.t.below(4) {
                    0 => 0,
                    1 => -(k / 2),
                    2 => 1 << 40,
                    _ => -(1i64 << 40),
                };
                let op = if self.t.bool() { Op::RangeEx } else { Op::RangeIn };
                vec![
                    let_("r", false, range(op, int(a), int(a + k))),
                    let_("c", true, int(0)),
                    for_("x", id("r"), vec![assign(AOp::Add, id("c"), int(1)), iff(bin(Op::Eq, bin(Op::Rem, id("c"), int(10)), int(0)), vec![emit(id("x"))], None)]),
                    emit(id("c")),
                    for_("x", id("r"), vec![assign(AOp::Add, id("c"), id("x")), iff(bin(Op::Gt, id("c"), int(1000)), vec![brk()], None)]),
                    emit(id("c")),
                    emit(field(id("r"), "start")),
                    emit(field(id("r"), "end")),
                ]
            }
            2 => {
                // By hand.
                let k = self.size(60) as i64;
                let op = if self.t.bool() { Op::RangeEx } else { Op::RangeIn };
                let mut v = vec![let_("it", false, call(field(range(op, int(3), int(3 + k)), "iter"), vec![]))];
                for _ in 0..(k + 3).min(40) {
                    v.push(let_("s", false, call(field(id("it"), "next"), vec![])));
                    v.push(emit(field(id("s"), "is_done")));
                    v.push(emit(iff(field(id("s"), "is_done"), vec![null()], Some(vec![field(id("s"), "value")]))));
                }
                vec![fn_decl("f", vec![], None, v), call(id("f"), vec![])]
            }
            3 => {
                // Many maps.
                let k = self.size(60);
                let c = if self.t.bool() { "Ok" } else { "Err" };
                let mut x = call(id(c), vec![int(1)]);
                for i in 0..k {
                    x = call(field(x, "map"), vec![lambda(&["v"], emit(bin(Op::Add, id("v"), int(i as i64))))]);
                }
                vec![let_("r", false, x), emit(field(id("r"), "is_ok")), emit(field(id("r"), "result")), emit(is_(id("r"), c, false))]
            }
            _ => {
                // Results in results.
                let k = self.size(20);
                let mut x = int(9);
                for _ in 0..k {
                    let c = if self.t.chance(1, 8) { "Err" } else { "Ok" };
                    x = call(id(c), vec![x]);
                }
                let mut y = id("r");
                for _ in 0..k {
                    y = prop(y);
                }
                vec![fn_decl("f", ps(&["r"]), None, vec![emit(y.clone()), y]), emit(call(id("f"), vec![x]))]
            }
        }
    }

    /// Modules with many exports, and a program that imports many of them.
    pub fn modules(&mut self) -> (Vec<(String, Vec<N>)>, Vec<N>) {
        let count = if self.t.chance(1, 3) { self.size(12) } else { 1 };
        let mut mods: Vec<(String, Vec<N>)> = vec![];
        let mut main = vec![];
        let mut uses = vec![];
        let mut left = 150;
        for m in 0..count {
            let max = if count == 1 { 70 } else { 16 };
            let k = self.size(max);
            let path = if m % 2 == 0 { name("mod", m) } else { format!("./{}/m{}.dm", "d".repeat(m), m) };
            let mut items = vec![emit(str_lit(&path))];
            for i in 0..k {
                let nm = format!("e{}x{}", m, i);
                let v = (m * 1000 + i) as i64;
                let item = match self.t.below(5) {
                    0 => n(K::Export(Box::new(fn_decl(&nm, vec![], None, vec![int(v)])))),
                    1 => n(K::Export(Box::new(class_(&nm, None, vec![m_decl("id", vec![], vec![int(v)])])))),
                    2 => {
                        items.push(let_(&nm, false, int(v)));
                        n(K::Export(Box::new(id(&nm))))
                    }
                    _ => n(K::Export(Box::new(let_(&nm, false, self.atom(i))))),
                };
                items.push(item);
            }
            let whole = if self.t.chance(1, 3) { Some(name("all", m)) } else { None };
            let mut picked = vec![];
            for i in 0..k {
                if left > 0 && (whole.is_none() || self.t.bool()) {
                    left -= 1;
                    picked.push(format!("e{}x{}", m, i));
                }
            }
            if self.t.bool() {
                picked.reverse();
            }
            if whole.is_none() && picked.is_empty() {
                picked.push(format!("e{}x0", m));
            }
            for p in &picked {
                uses.push(emit(id(p)));
            }
            if let Some(w) = &whole {
                for _ in 0..3 {
                    let i = self.t.below(k);
                    uses.push(emit(field(id(w), &format!("e{}x{}", m, i))));
                }
            }
            main.push(n(K::Import(whole, picked, spell(&path))));
            mods.push((path, items));
        }
        main.extend(uses);
        let m = self.mark();
        main.push(m);
        (mods, main)
    }
}
