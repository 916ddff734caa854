//! Generator of well-formed programs with a defined, observable meaning: well-scoped, mostly
//! well-typed, terminating, with their effects logged through `emit`.

use crate::ast::*;
use crate::tape::Tape;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ret {
    Int,
    Opt,
    Res,
    Any,
}

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Int,
    Bool,
    Float,
    Str,
    /// Array of integers.
    Arr,
    /// Array of functions without parameters.
    Fns,
    /// Object with integer fields `a` and `b`, perhaps `n` (another or null) and `f` (function).
    Obj,
    /// Object or null.
    OptObj,
    /// Integer or null.
    Opt,
    /// Ok or Err of an integer.
    Res,
    /// Something a for loop can run over, yielding integers.
    Iter,
    Fn(u8, Ret),
    Inst(usize),
    Any,
}

#[derive(Clone)]
struct Var {
    name: String,
    t: T,
    mutable: bool,
    /// Never assigned by generated code (loop counters).
    guarded: bool,
}

#[derive(Clone)]
struct Method {
    name: String,
    arity: u8,
    class: usize,
}

struct Class {
    name: String,
    base: Option<usize>,
    /// Arity of its own constructor.
    new: Option<u8>,
    methods: Vec<Method>,
    statics: Vec<(String, u8)>,
    ops: Vec<Op>,
    /// Only callable once its declaration is complete.
    done: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Root,
    Fn(Ret),
    Method(usize),
    Ctor(usize),
}

struct FnCx {
    kind: Kind,
    loops: usize,
    /// Whether `super` may be written here, directly inside a method.
    direct: bool,
}

/// Weights, 0 for never.
#[derive(Clone)]
pub struct Cfg {
    pub depth: usize,
    pub stmts: usize,
    pub emit: usize,
    pub exits: usize,
    pub closures: usize,
    pub classes: usize,
    pub nulls: usize,
    pub results: usize,
    pub loops: usize,
    pub types: usize,
    pub logic: usize,
    pub errors: usize,
    pub ops: usize,
    pub objects: usize,
    pub shadow: usize,
    pub exports: bool,
}

impl Cfg {
    pub fn general() -> Cfg {
        Cfg {
            depth: 4,
            stmts: 5,
            emit: 4,
            exits: 2,
            closures: 4,
            classes: 3,
            nulls: 3,
            results: 2,
            loops: 4,
            types: 2,
            logic: 3,
            errors: 1,
            ops: 1,
            objects: 4,
            shadow: 4,
            exports: false,
        }
    }
    pub fn plain() -> Cfg {
        Cfg {
            exits: 0,
            closures: 1,
            classes: 0,
            nulls: 1,
            results: 0,
            loops: 1,
            types: 0,
            logic: 2,
            errors: 1,
            ops: 0,
            objects: 5,
            ..Cfg::general()
        }
    }
}

pub struct Gen<'t> {
    pub tape: &'t mut Tape,
    cfg: Cfg,
    scopes: Vec<Vec<Var>>,
    fns: Vec<FnCx>,
    classes: Vec<Class>,
    /// Classes visible by name: index into `classes`, with the scope depth they were declared at.
    class_scopes: Vec<Vec<usize>>,
    counter: usize,
    budget: isize,
    pub exported: Vec<String>,
    global_ops: Vec<Op>,
    /// Inside a while condition: `continue` there might never end.
    in_condition: usize,
    marks: i64,
}

const VAR_NAMES: &[&str] = &["a", "b", "c", "x", "y", "z", "v", "w"];
const OPS: &[Op] = &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne];

pub fn iff(c: N, a: Vec<N>, b: Option<Vec<N>>) -> N {
    n(K::If(Box::new(c), Box::new(block(a)), b.map(|b| Box::new(block(b)))))
}
pub fn lambda(params: &[&str], body: N) -> N {
    n(K::Lambda(params.iter().map(|p| Param::new(p)).collect(), Box::new(body)))
}
pub fn emit(x: N) -> N {
    call(id("emit"), vec![x])
}
pub fn ret(x: N) -> N {
    n(K::Return(Some(Box::new(x))))
}
pub fn boolean(b: bool) -> N {
    n(K::Bool(b))
}
pub fn index(a: N, b: N) -> N {
    n(K::Index(Box::new(a), Box::new(b)))
}
pub fn list(v: Vec<N>) -> N {
    n(K::List(v))
}
pub fn object(v: Vec<(&str, N)>) -> N {
    n(K::Object(v.into_iter().map(|(k, x)| (k.to_string(), k.to_string(), x)).collect()))
}
pub fn float(v: f64) -> N {
    let s = format!("{:?}", v);
    n(K::Float(s, v))
}
pub fn fn_decl(name: &str, params: Vec<Param>, ret: Option<Ty>, body: Vec<N>) -> N {
    n(K::Fn(FnD {
        name: name.to_string(),
        name_tok: 0,
        params,
        ret,
        body: Box::new(block(body)),
    }))
}
pub fn ifn(x: N) -> N {
    n(K::NullProp(Box::new(x)))
}
pub fn assign(op: AOp, t: N, v: N) -> N {
    n(K::Assign(op, Box::new(t), Box::new(v)))
}

impl<'t> Gen<'t> {
    pub fn new(tape: &'t mut Tape, cfg: Cfg) -> Gen<'t> {
        Gen {
            tape,
            cfg,
            scopes: vec![vec![]],
            fns: vec![FnCx {
                kind: Kind::Root,
                loops: 0,
                direct: false,
            }],
            classes: vec![],
            class_scopes: vec![vec![]],
            counter: 0,
            budget: 260,
            exported: vec![],
            global_ops: vec![],
            in_condition: 0,
            marks: 0,
        }
    }

    // -- names and scopes

    fn fresh(&mut self, p: &str) -> String {
        self.counter += 1;
        format!("{}{}", p, self.counter)
    }
    fn var_name(&mut self) -> String {
        if self.tape.chance(self.cfg.shadow, 10) {
            self.tape.pick(VAR_NAMES).to_string()
        } else {
            self.fresh("v")
        }
    }
    fn declare(&mut self, name: &str, t: T, mutable: bool) {
        self.scopes.last_mut().unwrap().push(Var {
            name: name.to_string(),
            t,
            mutable,
            guarded: false,
        });
    }
    fn visible(&self) -> Vec<Var> {
        let mut out: Vec<Var> = Vec::new();
        for s in self.scopes.iter().rev() {
            for v in s.iter().rev() {
                if !out.iter().any(|o| o.name == v.name) {
                    out.push(v.clone());
                }
            }
        }
        out
    }
    fn var(&mut self, f: impl Fn(&Var) -> bool) -> Option<Var> {
        let c: Vec<Var> = self.visible().into_iter().filter(|v| f(v)).collect();
        if c.is_empty() {
            return None;
        }
        // Prefer recent ones, but reach all of them.
        let i = if self.tape.bool() { self.tape.below(c.len().min(3)) } else { self.tape.below(c.len()) };
        Some(c[i].clone())
    }
    fn of(&mut self, t: &T) -> Option<N> {
        self.var(|v| v.t == *t).map(|v| id(&v.name))
    }
    fn push(&mut self) {
        self.scopes.push(vec![]);
        self.class_scopes.push(vec![]);
    }
    fn pop(&mut self) {
        self.scopes.pop();
        self.class_scopes.pop();
    }
    fn scoped<X>(&mut self, f: impl FnOnce(&mut Self) -> X) -> X {
        self.push();
        let r = f(self);
        self.pop();
        r
    }
    fn cx(&self) -> &FnCx {
        self.fns.last().unwrap()
    }
    fn low(&self) -> bool {
        self.budget <= 0
    }
    fn spend(&mut self, k: isize) {
        self.budget -= k;
    }
    /// A visible class that can be used as a value here, not hidden by a variable.
    fn class_pick(&mut self, f: impl Fn(&Class) -> bool) -> Option<usize> {
        let names: Vec<String> = self.visible().into_iter().map(|v| v.name).collect();
        let c: Vec<usize> = self
            .class_scopes
            .iter()
            .flatten()
            .copied()
            .filter(|c| self.classes[*c].done && f(&self.classes[*c]) && !names.contains(&self.classes[*c].name))
            .collect();
        if c.is_empty() {
            None
        } else {
            Some(*self.tape.pick(&c))
        }
    }
    fn all_methods(&self, class: usize) -> Vec<Method> {
        let mut out: Vec<Method> = Vec::new();
        let mut c = Some(class);
        while let Some(i) = c {
            for m in &self.classes[i].methods {
                if !out.iter().any(|o| o.name == m.name) {
                    out.push(m.clone());
                }
            }
            c = self.classes[i].base;
        }
        out
    }

    // -- expressions

    pub fn small(&mut self) -> N {
        let v = match self.tape.below(8) {
            0..=4 => self.tape.below(5) as i64,
            5 => self.tape.below(40) as i64,
            6 => 100 + self.tape.below(400) as i64,
            _ => self.tape.below(3) as i64,
        };
        int(v)
    }

    fn args(&mut self, k: u8, d: usize) -> Vec<N> {
        (0..k).map(|_| self.int(d)).collect()
    }

    /// Maybe wraps an expression so that evaluating it is logged.
    fn logged(&mut self, x: N) -> N {
        if self.tape.chance(self.cfg.emit, 12) {
            emit(x)
        } else {
            x
        }
    }
    /// A distinct effect.
    fn mark(&mut self) -> N {
        self.marks += 1;
        emit(int(1000 + self.marks))
    }

    pub fn int(&mut self, d: usize) -> N {
        let x = self.int_(d);
        self.logged(x)
    }

    fn int_(&mut self, d: usize) -> N {
        self.spend(1);
        if d == 0 || self.low() {
            return match self.tape.below(4) {
                0 | 1 => self.of(&T::Int).unwrap_or_else(|| int(1)),
                2 => self.small(),
                _ => self.small(),
            };
        }
        let c = self.cfg.clone();
        let errors = if c.errors > 0 && self.tape.chance(c.errors, 60) { 1 } else { 0 };
        let w = [
            3,                      // 0 leaf
            8,                      // 1 arithmetic
            1,                      // 2 negation
            3,                      // 3 if
            3,                      // 4 block
            c.closures,             // 5 call of a function variable
            c.closures,             // 6 call of a function literal
            c.objects,              // 7 index of a list
            c.objects,              // 8 field of an object
            c.logic,                // 9 pipeline
            c.nulls,                // 10 coalesce
            c.results,              // 11 or
            c.classes * 2,          // 12 method, static, field of an instance
            c.results,              // 13 error propagation
            c.exits * 3,            // 14 early exit
            c.objects / 2,          // 15 length
            c.loops / 2,            // 16 block with a loop
            c.logic / 2,            // 17 choice by type test or logic
            errors * 60,            // 18 ill-typed
            c.objects / 2,          // 19 array pop / nested index
        ];
        let d = d - 1;
        match self.tape.weighted(&w) {
            0 => self.int_(0),
            1 => {
                let op = *self.tape.pick(&[Op::Add, Op::Sub, Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem]);
                let a = self.int(d);
                let b = match op {
                    Op::Mul => {
                        let k = self.tape.below(4) as i64;
                        self.logged(int(k))
                    }
                    Op::Div | Op::Rem => {
                        let zero = self.cfg.errors > 0 && self.tape.chance(1, 40);
                        let k = if zero { 0 } else { 1 + self.tape.below(7) as i64 };
                        self.logged(int(k))
                    }
                    _ => self.int(d),
                };
                if op == Op::Mul && self.tape.bool() {
                    bin(op, b, a)
                } else {
                    bin(op, a, b)
                }
            }
            2 => n(K::Neg(Box::new(self.int(d)))),
            3 => {
                let c = self.cond(d);
                let a = self.scoped(|g| g.tail(&T::Int, d));
                let e = if self.tape.chance(1, 4) {
                    let c2 = self.cond(d);
                    let b = self.scoped(|g| g.tail(&T::Int, d));
                    let e = self.scoped(|g| g.tail(&T::Int, d));
                    iff(c2, b, Some(e))
                } else {
                    block(self.scoped(|g| g.tail(&T::Int, d)))
                };
                n(K::If(Box::new(c), Box::new(block(a)), Some(Box::new(e))))
            }
            4 => block(self.scoped(|g| g.tail(&T::Int, d))),
            5 => self.call_var(Ret::Int, d).unwrap_or_else(|| int(2)),
            6 => {
                let k = self.tape.count(3) as u8;
                let f = self.lambda(k, Ret::Int, d);
                let mut a = self.args(k, d);
                if self.tape.chance(1, 10) {
                    a.push(self.small()); // surplus arguments are dropped
                }
                call(f, a)
            }
            7 => {
                let k = 1 + self.tape.below(3);
                let i = self.tape.below(k) as i64;
                let arr = if self.tape.bool() {
                    list((0..k).map(|_| self.int(d)).collect())
                } else {
                    match self.of(&T::Arr) {
                        Some(a) => return index(a, int(self.tape.below(2) as i64)),
                        None => list((0..k).map(|_| self.int(d)).collect()),
                    }
                };
                let i = self.logged(int(i));
                index(arr, i)
            }
            8 => {
                let o = self.obj(d);
                let f = *self.tape.pick(&["a", "b"]);
                if self.tape.chance(1, 4) {
                    index(o, str_lit(f))
                } else {
                    field(o, f)
                }
            }
            9 => {
                let a = self.int(d);
                let f = match self.fn_value(1, Ret::Int, d) {
                    Some(f) => f,
                    None => self.lambda(1, Ret::Int, d),
                };
                bin(Op::Pipeline, a, f)
            }
            10 => {
                let a = self.opt(d);
                let b = self.int(d);
                bin(Op::Coalesce, a, b)
            }
            11 => {
                let r = self.res(d);
                let v = self.var_name();
                let b = self.scoped(|g| {
                    g.declare(&v, T::Int, false);
                    g.tail(&T::Int, d)
                });
                n(K::ErrOr(Box::new(r), v, Box::new(block(b))))
            }
            12 => self.instance_int(d),
            13 => {
                if matches!(self.cx().kind, Kind::Fn(_) | Kind::Method(_)) {
                    let r = if self.tape.chance(2, 3) {
                        let i = self.int(d);
                        call(id("Ok"), vec![i])
                    } else {
                        self.res(d)
                    };
                    n(K::ErrProp(Box::new(r)))
                } else {
                    self.int_(d)
                }
            }
            14 => self.exit_expr(&T::Int, d),
            15 => {
                let a = self.arr(d);
                call(field(a, "length"), vec![])
            }
            16 => {
                let items = self.scoped(|g| {
                    let mut v = vec![];
                    g.loop_stmt(d, &mut v);
                    let t = g.int(d);
                    v.push(t);
                    v
                });
                block(items)
            }
            17 => {
                let c = self.boolean(d);
                let a = self.int(0);
                let b = self.int(0);
                iff(c, vec![a], Some(vec![b]))
            }
            18 => self.wrong(d),
            _ => {
                let a = self.arr(d);
                let i = self.int(0);
                bin(Op::Coalesce, index(a, i), int(3))
            }
        }
    }

    fn wrong(&mut self, d: usize) -> N {
        match self.tape.below(9) {
            0 => bin(Op::Add, self.int(d), boolean(true)),
            1 => n(K::Neg(Box::new(str_lit("s")))),
            2 => call(self.int(0), vec![]),
            3 => field(n(K::Null), "a"),
            4 => call(field(self.int(0), "nothing"), vec![]),
            5 => id("undeclared"),
            6 => iff(self.int(0), vec![int(1)], Some(vec![int(2)])),
            7 => bin(Op::Lt, self.int(d), str_lit("q")),
            _ => n(K::Not(Box::new(self.int(0)))),
        }
    }

    /// Condition of an if or while.
    fn cond(&mut self, d: usize) -> N {
        self.boolean(d)
    }

    pub fn boolean(&mut self, d: usize) -> N {
        self.spend(1);
        let x = if d == 0 || self.low() {
            match self.tape.below(3) {
                0 => self.of(&T::Bool).unwrap_or(boolean(true)),
                1 => boolean(self.tape.bool()),
                _ => {
                    let a = self.int_(0);
                    let b = self.small();
                    bin(*self.tape.pick(&[Op::Lt, Op::Gt, Op::Le, Op::Eq]), a, b)
                }
            }
        } else {
            let c = self.cfg.clone();
            let d = d - 1;
            let w = [6, c.logic * 2, 1, c.types + c.logic / 2, c.nulls, 1, c.exits, 1];
            match self.tape.weighted(&w) {
                0 => {
                    let op = *self.tape.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne]);
                    let a = self.int(d);
                    let b = self.int(d);
                    bin(op, a, b)
                }
                1 => {
                    let op = *self.tape.pick(&[Op::And, Op::Or]);
                    let a = self.boolean(d);
                    let b = self.boolean(d);
                    bin(op, a, b)
                }
                2 => n(K::Not(Box::new(self.boolean(d)))),
                3 => {
                    let v = self.any(d);
                    let t = self.type_name();
                    n(K::Is(Box::new(v), Ty::new(&t, self.tape.chance(1, 3))))
                }
                4 => {
                    let a = self.opt(d);
                    bin(*self.tape.pick(&[Op::Eq, Op::Ne]), a, n(K::Null))
                }
                5 => {
                    let c = self.cond(d);
                    let a = self.boolean(d);
                    let b = self.boolean(d);
                    iff(c, vec![a], Some(vec![b]))
                }
                6 => self.exit_expr(&T::Bool, d),
                _ => {
                    let a = self.float(d);
                    let b = self.float(d);
                    bin(*self.tape.pick(&[Op::Lt, Op::Ge, Op::Eq]), a, b)
                }
            }
        };
        self.logged(x)
    }

    fn float(&mut self, d: usize) -> N {
        self.spend(1);
        if d == 0 || self.low() || self.tape.chance(1, 3) {
            return match self.tape.below(2) {
                0 => self.of(&T::Float).unwrap_or(float(0.5)),
                _ => float(*self.tape.pick(&[0.0, 1.0, 0.5, 2.25, 10.0, 1e10])),
            };
        }
        let op = *self.tape.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem]);
        let a = self.float(d - 1);
        let b = self.float(d - 1);
        let x = bin(op, a, b);
        if self.tape.chance(1, 5) {
            n(K::Neg(Box::new(x)))
        } else {
            self.logged(x)
        }
    }

    fn string(&mut self, d: usize) -> N {
        self.spend(1);
        if d == 0 || self.low() || self.tape.bool() {
            return match self.tape.below(3) {
                0 => self.of(&T::Str).unwrap_or(str_lit("")),
                1 => str_lit(self.tape.pick(&["a", "b", "é", "\n", "x y"])),
                _ => str_lit(self.tape.pick(&["", "q\"", "\\", "漢"])),
            };
        }
        let a = self.string(d - 1);
        let b = self.string(d - 1);
        bin(Op::Add, a, b)
    }

    fn arr(&mut self, d: usize) -> N {
        self.spend(1);
        let x = if d == 0 || self.low() || self.tape.bool() {
            match self.of(&T::Arr) {
                Some(a) => a,
                None => list(vec![int(1), int(2)]),
            }
        } else {
            match self.tape.below(5) {
                0 if self.cfg.exits > 0 => self.exit_expr(&T::Arr, d - 1),
                1 => {
                    let c = self.cond(d - 1);
                    let a = self.arr(d - 1);
                    let b = self.arr(d - 1);
                    iff(c, vec![a], Some(vec![b]))
                }
                _ => {
                    let k = self.tape.range(1, 4);
                    list((0..k).map(|_| self.int(d - 1)).collect())
                }
            }
        };
        self.logged(x)
    }

    fn obj(&mut self, d: usize) -> N {
        self.spend(1);
        if d == 0 || self.low() || self.tape.bool() {
            if let Some(o) = self.of(&T::Obj) {
                return o;
            }
        }
        if d == 0 || self.low() {
            return object(vec![("a", int(1)), ("b", int(2))]);
        }
        let d = d - 1;
        match self.tape.weighted(&[8, 1, self.cfg.exits, 1]) {
            0 => {
                let mut f = vec![("a", self.int(d)), ("b", self.int(d))];
                if self.tape.chance(1, 3) {
                    f.push(("n", self.opt_obj(d)));
                }
                if self.tape.chance(1, 4) {
                    f.push(("f", self.lambda(1, Ret::Int, d)));
                }
                if self.tape.chance(1, 3) {
                    f.reverse();
                }
                object(f)
            }
            1 => {
                let c = self.cond(d);
                let a = self.obj(d);
                let b = self.obj(d);
                iff(c, vec![a], Some(vec![b]))
            }
            2 => self.exit_expr(&T::Obj, d),
            _ => block(self.scoped(|g| g.tail(&T::Obj, d))),
        }
    }

    fn opt_obj(&mut self, d: usize) -> N {
        self.spend(1);
        if d == 0 || self.low() {
            return match self.tape.below(3) {
                0 => n(K::Null),
                1 => self.of(&T::OptObj).unwrap_or_else(|| n(K::Null)),
                _ => self.obj(0),
            };
        }
        match self.tape.below(4) {
            0 => n(K::Null),
            1 => self.of(&T::OptObj).unwrap_or_else(|| n(K::Null)),
            2 => self.obj(d - 1),
            _ => {
                let o = self.opt_obj(d - 1);
                field(ifn(o), "n")
            }
        }
    }

    /// Integer or null.
    fn opt(&mut self, d: usize) -> N {
        self.spend(1);
        let x = if d == 0 || self.low() {
            match self.tape.below(3) {
                0 => n(K::Null),
                1 => self.of(&T::Opt).unwrap_or_else(|| n(K::Null)),
                _ => self.small(),
            }
        } else {
            let d = d - 1;
            let c = self.cfg.clone();
            match self.tape.weighted(&[2, 2, c.nulls * 3, 2, c.closures / 2, c.exits / 2, 1]) {
                0 => n(K::Null),
                1 => self.int(d),
                2 => self.null_chain(d),
                3 => {
                    let c = self.cond(d);
                    let a = self.int(d);
                    iff(c, vec![a], Some(vec![n(K::Null)]))
                }
                4 => self.call_var(Ret::Opt, d).unwrap_or_else(|| n(K::Null)),
                5 => self.exit_expr(&T::Opt, d),
                _ => {
                    let a = self.opt(d);
                    let b = self.opt(d);
                    bin(Op::Coalesce, a, b)
                }
            }
        };
        self.logged(x)
    }

    /// `o?.a`, `o?.f(x)?.b`, `(cond-dependent)?[i]`, with effects in the skipped parts.
    fn null_chain(&mut self, d: usize) -> N {
        let mut x = match self.tape.below(4) {
            0 => n(K::Null),
            1 => self.obj(d),
            _ => self.opt_obj(d),
        };
        let k = self.tape.range(1, 3);
        for i in 0..k {
            if i == 0 || self.tape.chance(2, 3) {
                x = ifn(x);
            }
            x = match self.tape.below(7) {
                0 => field(x, "n"),
                1 => {
                    let a = self.int(d);
                    call(field(x, "f"), vec![a])
                }
                2 => {
                    let s = str_lit(*self.tape.pick(&["a", "b", "n", "zz"]));
                    let s = if self.tape.bool() { emit(s) } else { s };
                    index(x, s)
                }
                3 => field(x, "zz"),
                4 => field(x, "b"),
                5 => ifn(field(x, "n")),
                _ => field(x, "a"),
            };
        }
        x
    }

    fn res(&mut self, d: usize) -> N {
        self.spend(1);
        let x = if d == 0 || self.low() {
            match self.tape.below(3) {
                0 => self.of(&T::Res).unwrap_or_else(|| call(id("Ok"), vec![int(1)])),
                1 => {
                    let i = self.int_(0);
                    call(id("Ok"), vec![i])
                }
                _ => {
                    let i = self.int_(0);
                    call(id("Err"), vec![i])
                }
            }
        } else {
            let d = d - 1;
            match self.tape.weighted(&[2, 2, 2, 2, 2, self.cfg.exits / 2]) {
                0 => {
                    let i = self.int(d);
                    call(id("Ok"), vec![i])
                }
                1 => {
                    let i = self.int(d);
                    call(id("Err"), vec![i])
                }
                2 => {
                    let r = self.res(d);
                    let f = self.lambda(1, Ret::Int, d);
                    call(field(r, "map"), vec![f])
                }
                3 => self.call_var(Ret::Res, d).unwrap_or_else(|| call(id("Err"), vec![int(5)])),
                4 => {
                    let c = self.cond(d);
                    let a = self.res(d);
                    let b = self.res(d);
                    iff(c, vec![a], Some(vec![b]))
                }
                _ => self.exit_expr(&T::Res, d),
            }
        };
        self.logged(x)
    }

    fn iter(&mut self, d: usize) -> N {
        self.spend(1);
        match self.tape.below(5) {
            0 => self.of(&T::Iter).unwrap_or_else(|| list(vec![int(4), int(5)])),
            1 => self.arr(d),
            2 => {
                // A range value: parenthesised or through a block, it is not the literal form.
                let a = int(self.tape.below(3) as i64);
                let b = int(self.tape.below(5) as i64);
                let op = *self.tape.pick(&[Op::RangeEx, Op::RangeIn]);
                block(vec![bin(op, a, b)])
            }
            3 => self.custom_iterable(d),
            _ => list((0..self.tape.count(3)).map(|_| self.small()).collect()),
        }
    }

    /// An object with the iteration protocol, counting its own calls.
    fn custom_iterable(&mut self, _d: usize) -> N {
        let k = self.tape.below(4) as i64;
        let i = self.fresh("i");
        let noisy = self.tape.chance(1, 3);
        let mut step = vec![assign(AOp::Add, id(&i), int(1))];
        if noisy {
            step.push(emit(id(&i)));
        }
        step.push(iff(
            bin(Op::Gt, id(&i), int(k)),
            vec![object(vec![("is_done", boolean(true))])],
            Some(vec![object(vec![("value", bin(Op::Mul, id(&i), int(10))), ("is_done", boolean(false))])]),
        ));
        let next = lambda(&[], block(step));
        let iter = lambda(&[], block(vec![let_(&i, true, int(0)), object(vec![("next", next)])]));
        object(vec![("iter", iter)])
    }

    fn any(&mut self, d: usize) -> N {
        match self.tape.below(12) {
            0 => self.int(d),
            1 => self.boolean(d),
            2 => self.string(d),
            3 => self.float(d),
            4 => self.arr(d),
            5 => self.obj(d),
            6 => self.opt(d),
            7 => n(K::Null),
            8 => n(K::Unit),
            9 => self.res(d),
            10 => {
                if self.cfg.classes > 0 {
                    if let Some(c) = self.class_pick(|_| true) {
                        if self.tape.bool() {
                            return id(&self.classes[c].name.clone());
                        }
                        return self.new_instance(c, d);
                    }
                }
                id(*self.tape.pick(&["Any", "Int", "Result"]))
            }
            _ => match self.var(|_| true) {
                Some(v) => id(&v.name),
                None => n(K::Unit),
            },
        }
    }

    fn value(&mut self, t: &T, d: usize) -> N {
        match t {
            T::Int => self.int(d),
            T::Bool => self.boolean(d),
            T::Float => self.float(d),
            T::Str => self.string(d),
            T::Arr => self.arr(d),
            T::Fns => list(vec![]),
            T::Obj => self.obj(d),
            T::OptObj => self.opt_obj(d),
            T::Opt => self.opt(d),
            T::Res => self.res(d),
            T::Iter => self.iter(d),
            T::Fn(k, r) => self.lambda(*k, *r, d),
            T::Inst(c) => {
                let names: Vec<String> = self.visible().into_iter().map(|v| v.name).collect();
                if names.contains(&self.classes[*c].name) {
                    n(K::Null)
                } else {
                    self.new_instance(*c, d)
                }
            }
            T::Any => self.any(d),
        }
    }

    fn ret_value(&mut self, r: Ret, d: usize) -> N {
        match r {
            Ret::Int => self.int(d),
            Ret::Opt => self.opt(d),
            Ret::Res => self.res(d),
            Ret::Any => self.any(d),
        }
    }

    fn type_name(&mut self) -> String {
        if self.cfg.classes > 0 && self.tape.chance(1, 3) {
            if let Some(c) = self.class_pick(|_| true) {
                return self.classes[c].name.clone();
            }
        }
        self.tape
            .pick(&["Int", "Any", "String", "Bool", "Float", "Array", "Function", "Class", "Unit", "Result", "Ok", "Err", "Range"])
            .to_string()
    }

    // -- functions

    fn fn_value(&mut self, k: u8, r: Ret, _d: usize) -> Option<N> {
        self.of(&T::Fn(k, r))
    }

    fn call_var(&mut self, r: Ret, d: usize) -> Option<N> {
        let v = self.var(|v| matches!(v.t, T::Fn(_, q) if q == r))?;
        let T::Fn(k, _) = v.t else { unreachable!() };
        let mut a = self.args(k, d.min(2));
        if self.cfg.errors > 0 && self.tape.chance(1, 30) {
            a.pop();
        }
        if self.tape.chance(1, 30) {
            a.push(int(9));
        }
        Some(call(id(&v.name), a))
    }

    fn in_fn<X>(&mut self, kind: Kind, direct: bool, f: impl FnOnce(&mut Self) -> X) -> X {
        self.fns.push(FnCx { kind, loops: 0, direct });
        let saved = std::mem::replace(&mut self.in_condition, 0);
        self.push();
        let r = f(self);
        self.pop();
        self.in_condition = saved;
        self.fns.pop();
        r
    }

    fn param_names(&mut self, k: u8) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for _ in 0..k {
            let mut p = if self.tape.bool() { self.tape.pick(VAR_NAMES).to_string() } else { self.fresh("p") };
            if out.contains(&p) {
                p = self.fresh("p");
            }
            out.push(p);
        }
        out
    }

    fn typed(&mut self, p: &str, t: &str) -> Param {
        let mut p = Param::new(p);
        if self.tape.chance(self.cfg.types, 12) {
            let t = if self.tape.chance(1, 6) { "Any" } else { t };
            p.ty = Some(Ty::new(t, self.tape.chance(1, 4)));
        }
        p
    }

    pub fn lambda(&mut self, k: u8, r: Ret, d: usize) -> N {
        self.spend(2);
        let names = self.param_names(k);
        let params: Vec<Param> = names.iter().map(|p| self.typed(p, "Int")).collect();
        let body = self.in_fn(Kind::Fn(r), false, |g| {
            for p in &names {
                g.declare(p, T::Int, false);
            }
            if g.tape.chance(1, 3) || d == 0 || g.low() {
                if r == Ret::Int {
                    // Something that uses what it captured.
                    g.capture_expr(d)
                } else {
                    g.ret_value(r, d.min(1))
                }
            } else {
                block(g.body(r, d - 1))
            }
        });
        n(K::Lambda(params, Box::new(body)))
    }

    /// Reads (and perhaps writes) variables of the enclosing code.
    fn capture_expr(&mut self, d: usize) -> N {
        if self.tape.chance(2, 3) {
            if let Some(v) = self.var(|v| v.t == T::Int && v.mutable && !v.guarded) {
                let e = self.int(d.min(1));
                let op = *self.tape.pick(&[AOp::Add, AOp::Set, AOp::Sub]);
                return block(vec![assign(op, id(&v.name), e), id(&v.name)]);
            }
        }
        self.int(d)
    }

    /// Statements and a result of a function body (its scope is already open).
    fn body(&mut self, r: Ret, d: usize) -> Vec<N> {
        let mut v = self.statements(d, 3);
        if r == Ret::Any && self.tape.chance(1, 3) && !v.is_empty() {
            // Ends in whatever came last, if its value is settled.
            if !matches!(v.last().unwrap().k, K::Assign(..) | K::Let(..) | K::Import(..) | K::If(..) | K::Block(..)) {
                return v;
            }
        }
        let x = self.ret_value(r, d);
        if self.tape.chance(1, 6) {
            v.push(ret(x));
        } else {
            v.push(x);
        }
        v
    }

    fn fn_stmt(&mut self, d: usize, out: &mut Vec<N>) {
        let name = self.fresh("f");
        let r = *self.tape.pick(&[Ret::Int, Ret::Int, Ret::Opt, Ret::Res, Ret::Any]);
        match self.tape.below(5) {
            // Recursive.
            0 => {
                let op = *self.tape.pick(&[Op::Add, Op::Sub]);
                let mut items = vec![iff(bin(Op::Le, id("n"), int(0)), vec![ret(int(1))], None)];
                let more = self.in_fn(Kind::Fn(Ret::Int), false, |g| {
                    g.declare("n", T::Int, false);
                    let mut v = g.statements(d, 2);
                    let e = g.int(d.min(2));
                    let rec = call(id(&name), vec![bin(Op::Sub, id("n"), int(1))]);
                    v.push(if g.tape.bool() { bin(op, e, rec) } else { bin(op, rec, e) });
                    v
                });
                items.extend(more);
                let f = fn_decl(&name, vec![Param::new("n")], None, items);
                let k = self.tape.below(5) as i64;
                out.push(f);
                let v = self.var_name();
                out.push(let_(&v, false, call(id(&name), vec![int(k)])));
                self.declare(&v, T::Int, false);
            }
            // Mutually recursive, the first mentioning the second before its declaration.
            1 => {
                let other = self.fresh("f");
                let step = |to: &str, e: N| {
                    vec![
                        iff(bin(Op::Le, id("n"), int(0)), vec![ret(e)], None),
                        call(id(to), vec![bin(Op::Sub, id("n"), int(1))]),
                    ]
                };
                let e1 = self.small();
                let e2 = self.small();
                out.push(fn_decl(&name, vec![Param::new("n")], None, step(&other, e1)));
                if self.tape.bool() {
                    let x = self.mark();
                    out.push(x);
                }
                out.push(fn_decl(&other, vec![Param::new("n")], None, step(&name, e2)));
                let k = self.tape.below(6) as i64;
                out.push(emit(call(id(&name), vec![int(k)])));
            }
            // A counter factory.
            2 if self.cfg.closures > 0 => {
                let c = self.var_name();
                let g1 = lambda(&[], block(vec![assign(AOp::Add, id(&c), int(1)), id(&c)]));
                let g2 = lambda(&["k"], block(vec![assign(AOp::Sub, id(&c), id("k")), id(&c)]));
                let start = self.small();
                let body = vec![let_(&c, true, start), object(vec![("up", g1), ("down", g2)])];
                out.push(fn_decl(&name, vec![], None, body));
                let o = self.fresh("o");
                out.push(let_(&o, false, call(id(&name), vec![])));
                for _ in 0..self.tape.below(4) {
                    out.push(if self.tape.bool() {
                        emit(call(field(id(&o), "up"), vec![]))
                    } else {
                        let k = self.small();
                        emit(call(field(id(&o), "down"), vec![k]))
                    });
                }
            }
            _ => {
                let k = self.tape.count(4) as u8;
                let names = self.param_names(k);
                let params: Vec<Param> = names.iter().map(|p| self.typed(p, "Int")).collect();
                let rt = match r {
                    Ret::Int => Some("Int"),
                    Ret::Opt => Some("Int"),
                    Ret::Res => Some("Result"),
                    Ret::Any => None,
                };
                let rt = match rt {
                    Some(t) if self.tape.chance(self.cfg.types, 10) => {
                        Some(Ty::new(t, r == Ret::Opt || self.tape.chance(1, 5)))
                    }
                    _ => None,
                };
                let body = self.in_fn(Kind::Fn(r), false, |g| {
                    for p in &names {
                        g.declare(p, T::Int, false);
                    }
                    g.body(r, d)
                });
                out.push(fn_decl(&name, params, rt, body));
                self.declare(&name, T::Fn(k, r), false);
                let a = self.args(k, 1);
                if self.tape.bool() {
                    out.push(emit(call(id(&name), a)));
                }
            }
        }
    }

    // -- classes

    fn ctor_arity(&self, c: usize) -> Option<u8> {
        self.classes[c].new
    }

    pub fn new_instance(&mut self, c: usize, d: usize) -> N {
        let k = self.ctor_arity(c).unwrap_or(0);
        let a = self.args(k, d.min(2));
        call(id(&self.classes[c].name.clone()), a)
    }

    fn instance(&mut self, d: usize) -> Option<(N, usize)> {
        if self.tape.chance(2, 3) {
            if let Some(v) = self.var(|v| matches!(v.t, T::Inst(_))) {
                let T::Inst(c) = v.t else { unreachable!() };
                return Some((id(&v.name), c));
            }
        }
        let c = self.class_pick(|c| c.base.is_none() || c.new.is_some())?;
        Some((self.new_instance(c, d), c))
    }

    fn instance_int(&mut self, d: usize) -> N {
        // super access
        if self.cx().direct && self.tape.chance(1, 3) {
            if let Some(x) = self.super_call(d) {
                return x;
            }
        }
        if self.tape.chance(1, 6) {
            if let Some(c) = self.class_pick(|c| !c.statics.is_empty()) {
                let (name, k) = self.tape.pick(&self.classes[c].statics).clone();
                let a = self.args(k, d.min(2));
                return call(field(id(&self.classes[c].name.clone()), &name), a);
            }
        }
        let Some((o, c)) = self.instance(d) else {
            return self.int_(d.min(1));
        };
        let ms = self.all_methods(c);
        if ms.is_empty() || self.tape.chance(1, 4) {
            return field(o, *self.tape.pick(&["x", "y"]));
        }
        if self.tape.chance(self.cfg.ops, 4) {
            let ops = self.ops_of(c);
            if !ops.is_empty() {
                let op = *self.tape.pick(&ops);
                let r = self.int(d);
                return bin(op, o, r);
            }
        }
        let m = self.tape.pick(&ms).clone();
        // Methods already under construction are not called on the receiver: they might never end.
        if !self.classes[m.class].done {
            return field(o, "x");
        }
        if self.cx().kind != Kind::Root && matches!(o.k, K::Ident(ref s) if s == "self") {
            return field(o, "x");
        }
        let a = self.args(m.arity, d.min(2));
        if self.tape.chance(1, 6) {
            // A bound method as a value.
            let f = self.fresh("m");
            return block(vec![let_(&f, false, field(o, &m.name)), call(id(&f), a)]);
        }
        call(field(o, &m.name), a)
    }

    fn ops_of(&self, c: usize) -> Vec<Op> {
        let mut out = vec![];
        let mut c = Some(c);
        while let Some(i) = c {
            if self.classes[i].done {
                out.extend(self.classes[i].ops.iter().copied());
            }
            c = self.classes[i].base;
        }
        out
    }

    fn super_call(&mut self, d: usize) -> Option<N> {
        let (Kind::Method(c) | Kind::Ctor(c)) = self.cx().kind else { return None };
        let base = self.classes[c].base?;
        let ms = self.all_methods(base);
        if ms.is_empty() {
            return None;
        }
        let m = self.tape.pick(&ms).clone();
        let a = self.args(m.arity, d.min(2));
        let names: Vec<String> = self.visible().into_iter().map(|v| v.name).collect();
        // Which ancestor: any that has the method and can be named here.
        let mut which = None;
        if self.tape.chance(1, 3) {
            let mut x = Some(base);
            let mut named = vec![];
            while let Some(i) = x {
                if self.all_methods(i).iter().any(|q| q.name == m.name) && !names.contains(&self.classes[i].name) {
                    named.push(self.classes[i].name.clone());
                }
                x = self.classes[i].base;
            }
            if !named.is_empty() {
                which = Some(self.tape.pick(&named).clone());
            }
        }
        Some(call(n(K::SuperField(which, m.name.clone())), a))
    }

    fn class_stmt(&mut self, d: usize, out: &mut Vec<N>) {
        let base = if self.tape.bool() { self.class_pick(|_| true) } else { None };
        let name = self.fresh("C");
        let ci = self.classes.len();
        let base_new = base.and_then(|b| self.classes[b].new);
        let has_new = match base {
            Some(b) if self.classes[b].new.is_some() => !(self.cfg.errors > 0 && self.tape.chance(1, 20)),
            Some(_) => self.tape.bool(),
            None => self.tape.chance(3, 4),
        };
        let k = self.tape.count(3) as u8;
        self.classes.push(Class {
            name: name.clone(),
            base,
            new: if has_new { Some(k) } else { None },
            methods: vec![],
            statics: vec![],
            ops: vec![],
            done: false,
        });
        self.class_scopes.last_mut().unwrap().push(ci);
        let mut items: Vec<N> = vec![];
        let self_param = Param::new("self");
        if has_new {
            let names = self.param_names(k);
            let mut params = vec![self_param.clone()];
            for p in &names {
                let p = self.typed(p, "Int");
                params.push(p);
            }
            let body = self.in_fn(Kind::Ctor(ci), true, |g| {
                g.declare("self", T::Inst(ci), false);
                for p in &names {
                    g.declare(p, T::Int, false);
                }
                let mut v = vec![];
                if base.is_some() {
                    let a = g.args(base_new.unwrap_or(0), d.min(2));
                    v.push(n(K::SuperCall(a)));
                }
                if g.tape.chance(1, 3) {
                    let x = g.mark();
                    v.push(x);
                }
                for f in ["x", "y"] {
                    if base.is_none() || g.tape.bool() {
                        let e = g.int(d.min(2));
                        v.push(assign(AOp::Set, field(id("self"), f), e));
                    }
                }
                if g.tape.chance(1, 4) {
                    let more = g.statements(d.min(2), 2);
                    v.extend(more);
                }
                if g.tape.chance(1, 5) {
                    let c = g.cond(1);
                    v.push(iff(c, vec![n(K::Return(None))], None));
                    let e = g.int(1);
                    v.push(assign(AOp::Set, field(id("self"), "x"), e));
                }
                v
            });
            items.push(fn_decl("new", params, None, body));
        }
        for _ in 0..self.tape.range(1, 3) {
            // Sometimes an override.
            let inherited = base.map(|b| self.all_methods(b)).unwrap_or_default();
            let (mname, mk) = if !inherited.is_empty() && self.tape.chance(2, 3) {
                let m = self.tape.pick(&inherited).clone();
                (m.name, m.arity)
            } else {
                let k = self.tape.count(3) as u8;
                (format!("m{}", self.tape.below(4)), k)
            };
            if self.classes[ci].methods.iter().any(|m| m.name == mname) || self.classes[ci].statics.iter().any(|m| m.0 == mname) {
                continue;
            }
            let names = self.param_names(mk);
            let mut params = vec![self_param.clone()];
            for p in &names {
                let p = self.typed(p, "Int");
                params.push(p);
            }
            let rt = if self.tape.chance(self.cfg.types, 15) { Some(Ty::new("Int", false)) } else { None };
            let body = self.in_fn(Kind::Method(ci), true, |g| {
                g.declare("self", T::Inst(ci), false);
                for p in &names {
                    g.declare(p, T::Int, false);
                }
                let mut v = g.statements(d.min(2), 2);
                if g.tape.chance(1, 3) {
                    let e = g.int(1);
                    let op = *g.tape.pick(&[AOp::Set, AOp::Add]);
                    v.push(assign(op, field(id("self"), "x"), e));
                }
                let e = g.int(d.min(2));
                v.push(e);
                v
            });
            items.push(fn_decl(&mname, params, rt, body));
            self.classes[ci].methods.push(Method {
                name: mname,
                arity: mk,
                class: ci,
            });
        }
        if self.tape.chance(1, if base.is_none() { 3 } else { 5 }) {
            let k = self.tape.count(3) as u8;
            let names = self.param_names(k);
            let body = self.in_fn(Kind::Fn(Ret::Int), false, |g| {
                for p in &names {
                    g.declare(p, T::Int, false);
                }
                g.body(Ret::Int, d.min(2))
            });
            let params: Vec<Param> = names.iter().map(|p| Param::new(p)).collect();
            let s = self.fresh("s");
            items.push(fn_decl(&s, params, None, body));
            self.classes[ci].statics.push((s, k));
        }
        for _ in 0..(if self.tape.chance(self.cfg.ops * 2, 10) { self.tape.range(1, 3) } else { 0 }) {
            let op = *self.tape.pick(OPS);
            if self.classes[ci].ops.contains(&op) {
                continue;
            }
            let body = self.in_fn(Kind::Method(ci), true, |g| {
                g.declare("self", T::Inst(ci), false);
                g.declare("o", T::Int, false);
                let mut v = vec![emit(id("o"))];
                let e = g.int(1);
                v.push(e);
                v
            });
            items.push(n(K::OpDecl(op, vec![self_param.clone(), Param::new("o")], None, Box::new(block(body)))));
            self.classes[ci].ops.push(op);
        }
        // The constructor need not come first.
        if items.len() > 1 && self.tape.chance(1, 3) {
            let x = items.remove(0);
            items.push(x);
        }
        out.push(n(K::Class(
            name.clone(),
            0,
            base.map(|b| Box::new(id(&self.classes[b].name.clone()))),
            items,
        )));
        self.classes[ci].done = true;
        if self.tape.chance(2, 3) {
            let v = self.fresh("i");
            let e = self.new_instance(ci, d);
            out.push(let_(&v, false, e));
            self.declare(&v, T::Inst(ci), false);
        }
    }

    fn op_stmt(&mut self, d: usize, out: &mut Vec<N>) {
        let op = *self.tape.pick(OPS);
        if self.global_ops.contains(&op) && !(self.cfg.errors > 0 && self.tape.chance(1, 20)) {
            return;
        }
        self.global_ops.push(op);
        let body = self.in_fn(Kind::Fn(Ret::Int), false, |g| {
            g.declare("l", T::Any, false);
            g.declare("r", T::Any, false);
            let mut v = vec![];
            if g.tape.bool() {
                v.push(emit(list(vec![id("l"), id("r")])));
            }
            let e = g.int(d.min(1));
            v.push(e);
            v
        });
        out.push(n(K::OpDecl(op, vec![Param::new("l"), Param::new("r")], None, Box::new(block(body)))));
        let a = self.any(1);
        let b = self.any(1);
        out.push(emit(bin(op, a, b)));
    }

    // -- early exits

    fn exit(&mut self, d: usize) -> Option<N> {
        let cx = self.cx();
        let loops = cx.loops > 0;
        let kind = cx.kind;
        let w = [
            if loops { 4 } else { 0 },
            if loops && self.in_condition == 0 { 4 } else { 0 },
            if kind == Kind::Root { 0 } else { 3 },
            if matches!(kind, Kind::Fn(_) | Kind::Method(_)) { self.cfg.results } else { 0 },
        ];
        if w.iter().sum::<usize>() == 0 {
            return None;
        }
        Some(match self.tape.weighted(&w) {
            0 => n(K::Break),
            1 => n(K::Continue),
            2 => match kind {
                Kind::Fn(r) => {
                    let e = self.ret_value(r, d.min(1));
                    ret(e)
                }
                Kind::Method(_) => {
                    let e = self.int(d.min(1));
                    ret(e)
                }
                // Only a value-less return that ends a block is written without a value.
                _ => block(vec![n(K::Return(None))]),
            },
            _ => {
                let e = self.res(d.min(1));
                n(K::ErrProp(Box::new(e)))
            }
        })
    }

    /// A value whose evaluation may leave the expression it is part of.
    fn exit_expr(&mut self, t: &T, d: usize) -> N {
        let Some(x) = self.exit(d) else {
            return self.value(t, d);
        };
        match self.tape.below(6) {
            0 => {
                let v = self.value(t, d);
                block(vec![x, v])
            }
            1 => block(vec![x]),
            2 => {
                let c = self.cond(d);
                let v = self.value(t, d);
                iff(c, vec![v], Some(vec![x]))
            }
            _ => {
                let (c, name) = (self.cond(d), self.var_name());
                let items = self.scoped(|g| {
                    let mut items = vec![];
                    if g.tape.chance(1, 3) {
                        let e = g.int(1);
                        items.push(let_(&name, true, e));
                        g.declare(&name, T::Int, true);
                        if g.tape.bool() {
                            if let Some(fs) = g.of(&T::Fns) {
                                let f = g.lambda(0, Ret::Int, 0);
                                items.push(call(field(fs, "push"), vec![f]));
                            }
                        }
                    }
                    items.push(iff(c, vec![x], None));
                    let v = g.value(t, d);
                    items.push(v);
                    items
                });
                block(items)
            }
        }
    }

    // -- statements

    /// Items of a block that ends with a value of the type (its scope is already open).
    fn tail(&mut self, t: &T, d: usize) -> Vec<N> {
        let mut v = if self.tape.chance(1, 2) { self.statements(d, 2) } else { vec![] };
        let x = self.value(t, d);
        v.push(x);
        v
    }

    fn statements(&mut self, d: usize, max: usize) -> Vec<N> {
        let k = self.tape.below(max + 1);
        let mut v = vec![];
        for _ in 0..k {
            if self.low() {
                break;
            }
            self.statement(d, &mut v);
        }
        v
    }

    fn random_type(&mut self) -> T {
        let c = &self.cfg;
        let w = [
            6,
            2,
            1,
            1,
            c.objects / 2 + 1,
            c.closures / 2,
            c.objects,
            c.nulls,
            c.nulls,
            c.results,
            c.loops / 2,
            c.closures,
            c.classes,
        ];
        match self.tape.weighted(&w) {
            0 => T::Int,
            1 => T::Bool,
            2 => T::Float,
            3 => T::Str,
            4 => T::Arr,
            5 => T::Fns,
            6 => T::Obj,
            7 => T::OptObj,
            8 => T::Opt,
            9 => T::Res,
            10 => T::Iter,
            11 => {
                let k = self.tape.count(3) as u8;
                let r = *self.tape.pick(&[Ret::Int, Ret::Int, Ret::Opt, Ret::Res]);
                T::Fn(k, r)
            }
            _ => match self.class_pick(|c| c.base.is_none() || c.new.is_some()) {
                Some(c) => T::Inst(c),
                None => T::Int,
            },
        }
    }

    pub fn statement(&mut self, d: usize, out: &mut Vec<N>) {
        self.spend(2);
        let c = self.cfg.clone();
        let d = d.min(c.depth);
        let at_root = self.fns.len() == 1 && self.scopes.len() == 1;
        let w = [
            6,                                            // 0 let
            5,                                            // 1 assignment
            c.objects,                                    // 2 field or index assignment
            4,                                            // 3 emit
            3,                                            // 4 if
            c.loops * 2,                                  // 5 loop
            c.closures,                                   // 6 fn
            if at_root { c.classes } else { c.classes / 3 }, // 7 class
            if self.fns.len() == 1 && self.cx().loops == 0 { c.ops } else { 0 }, // 8 op
            c.objects / 2,                                // 9 destructuring
            2,                                            // 10 block
            c.exits,                                      // 11 conditional exit
            c.closures,                                   // 12 store or run closures
            1,                                            // 13 bare expression
            if c.exports && at_root { 14 } else { 0 },    // 14 export
        ];
        match self.tape.weighted(&w) {
            0 => {
                let t = self.random_type();
                let e = self.value(&t, d);
                let name = self.var_name();
                let m = self.tape.chance(2, 3);
                out.push(let_(&name, m, e));
                self.declare(&name, t, m);
            }
            1 => {
                let Some(v) = self.var(|v| v.mutable && !v.guarded) else {
                    let name = self.var_name();
                    let e = self.int(d);
                    out.push(let_(&name, true, e));
                    self.declare(&name, T::Int, true);
                    return;
                };
                if v.t == T::Int && self.tape.bool() {
                    let op = *self.tape.pick(&[AOp::Add, AOp::Sub, AOp::Add, AOp::Mul, AOp::Div]);
                    let e = match op {
                        AOp::Mul | AOp::Div => int(1 + self.tape.below(3) as i64),
                        _ => self.int(d),
                    };
                    out.push(assign(op, id(&v.name), e));
                } else {
                    let e = self.value(&v.t.clone(), d);
                    out.push(set(&v.name, e));
                }
            }
            2 => {
                if self.tape.bool() {
                    let o = self.obj(d.min(1));
                    let f = *self.tape.pick(&["a", "b"]);
                    let t = if self.tape.chance(1, 4) { index(o, str_lit(f)) } else { field(o, f) };
                    let op = *self.tape.pick(&[AOp::Set, AOp::Set, AOp::Add, AOp::Sub, AOp::Mul]);
                    let e = if op == AOp::Mul { self.small() } else { self.int(d) };
                    out.push(assign(op, t, e));
                } else {
                    let Some(a) = self.of(&T::Arr) else { return };
                    let i = self.logged(int(0));
                    let op = *self.tape.pick(&[AOp::Set, AOp::Add, AOp::Sub]);
                    let e = self.int(d);
                    out.push(assign(op, index(a, i), e));
                }
            }
            3 => {
                let e = if self.tape.chance(1, 4) { self.any(d) } else { self.int_(d) };
                out.push(emit(e));
            }
            4 => {
                let c = self.cond(d.min(2));
                let a = self.scoped(|g| g.statements(d.saturating_sub(1), 3));
                let b = if self.tape.bool() {
                    Some(self.scoped(|g| g.statements(d.saturating_sub(1), 2)))
                } else {
                    None
                };
                out.push(iff(c, a, b));
            }
            5 => self.loop_stmt(d, out),
            6 => self.fn_stmt(d.saturating_sub(1), out),
            7 => self.class_stmt(d.saturating_sub(1), out),
            8 => self.op_stmt(d, out),
            9 if self.tape.chance(1, 3) => {
                // Any number of fields, in any order.
                let k = self.tape.count(5);
                let had: Vec<String> = (0..k).map(|_| self.fresh("u")).collect();
                let o = object(had.iter().map(|s| (s.as_str(), self.int(d.min(1)))).collect());
                let mut names: Vec<String> = vec![];
                for s in &had {
                    if self.tape.chance(5, 6) {
                        let at = self.tape.below(names.len() + 1);
                        names.insert(at, s.clone());
                    }
                }
                let m = self.tape.bool();
                out.push(n(K::Let(names.clone(), true, m, Box::new(o))));
                for s in &names {
                    self.declare(s, T::Int, m);
                }
            }
            9 => {
                let o = self.obj(d);
                let m = self.tape.bool();
                let names = if self.tape.bool() { vec!["a", "b"] } else { vec!["b"] };
                out.push(n(K::Let(names.iter().map(|s| s.to_string()).collect(), true, m, Box::new(o))));
                for s in names {
                    self.declare(s, T::Int, m);
                }
            }
            10 => {
                let items = self.scoped(|g| g.statements(d.saturating_sub(1), 3));
                out.push(block(items));
            }
            11 => {
                let Some(x) = self.exit(d) else { return };
                let c = self.cond(d.min(2));
                out.push(iff(c, vec![x], None));
            }
            12 => match self.of(&T::Fns) {
                Some(fs) if self.tape.chance(2, 3) => {
                    let f = self.lambda(0, Ret::Int, d.min(2));
                    out.push(call(field(fs, "push"), vec![f]));
                }
                Some(fs) if self.cx().loops < 2 => {
                    let v = self.fresh("g");
                    out.push(n(K::For(v.clone(), Box::new(fs), Box::new(block(vec![emit(call(id(&v), vec![]))])))));
                }
                Some(_) => {}
                None => {
                    let name = self.fresh("fs");
                    out.push(let_(&name, false, list(vec![])));
                    self.declare(&name, T::Fns, false);
                }
            },
            13 => {
                let e = self.int(d);
                out.push(e);
            }
            _ => self.export_stmt(d, out),
        }
    }

    fn export_stmt(&mut self, d: usize, out: &mut Vec<N>) {
        let x = match self.tape.below(4) {
            0 => {
                let t = self.random_type();
                let e = self.value(&t, d);
                let name = self.var_name();
                let m = self.tape.bool();
                self.declare(&name, t, m);
                self.exported.push(name.clone());
                let_(&name, m, e)
            }
            1 => {
                let mut v = vec![];
                self.fn_stmt(d.min(2), &mut v);
                let i = v.iter().position(|x| matches!(x.k, K::Fn(_))).unwrap();
                let f = v.remove(i);
                let K::Fn(fd) = &f.k else { unreachable!() };
                self.exported.push(fd.name.clone());
                out.extend(v.drain(..i));
                out.push(n(K::Export(Box::new(f))));
                out.extend(v);
                return;
            }
            2 if self.cfg.classes > 0 => {
                let mut v = vec![];
                self.class_stmt(d.min(2), &mut v);
                let f = v.remove(0);
                let K::Class(name, ..) = &f.k else { unreachable!() };
                self.exported.push(name.clone());
                out.push(n(K::Export(Box::new(f))));
                out.extend(v);
                return;
            }
            _ => {
                let Some(v) = self.var(|_| true) else { return };
                self.exported.push(v.name.clone());
                id(&v.name)
            }
        };
        out.push(n(K::Export(Box::new(x))));
    }

    fn loop_body(&mut self, d: usize, first: Vec<N>) -> N {
        self.fns.last_mut().unwrap().loops += 1;
        let saved = std::mem::replace(&mut self.in_condition, 0);
        let mut v = first;
        let more = self.scoped(|g| {
            let mut v = g.statements(d.saturating_sub(1), 3);
            if g.tape.chance(g.cfg.closures, 12) {
                if let Some(fs) = g.of(&T::Fns) {
                    let f = g.lambda(0, Ret::Int, d.min(1));
                    v.push(call(field(fs, "push"), vec![f]));
                }
            }
            if g.tape.chance(1, 3) {
                let e = g.any(1);
                v.push(e);
            }
            v
        });
        v.extend(more);
        self.in_condition = saved;
        self.fns.last_mut().unwrap().loops -= 1;
        block(v)
    }

    fn loop_stmt(&mut self, d: usize, out: &mut Vec<N>) {
        let d = d.saturating_sub(1);
        let k = 1 + self.tape.below(4) as i64;
        match self.tape.below(5) {
            0 => {
                let i = self.fresh("k");
                out.push(let_(&i, true, int(0)));
                self.declare(&i, T::Int, true);
                self.scopes.last_mut().unwrap().last_mut().unwrap().guarded = true;
                let mut c = bin(Op::Lt, id(&i), int(k));
                if self.tape.chance(1, 3) {
                    self.fns.last_mut().unwrap().loops += 1;
                    self.in_condition += 1;
                    let b = self.boolean(d.min(2));
                    self.in_condition -= 1;
                    self.fns.last_mut().unwrap().loops -= 1;
                    c = bin(Op::And, c, b);
                }
                let b = self.loop_body(d, vec![assign(AOp::Add, id(&i), int(1))]);
                out.push(n(K::While(Box::new(c), Box::new(b))));
            }
            1 => {
                let i = self.fresh("k");
                out.push(let_(&i, true, int(0)));
                self.declare(&i, T::Int, true);
                self.scopes.last_mut().unwrap().last_mut().unwrap().guarded = true;
                let first = vec![
                    assign(AOp::Add, id(&i), int(1)),
                    iff(bin(Op::Gt, id(&i), int(k)), vec![n(K::Break)], None),
                ];
                let b = self.loop_body(d, first);
                out.push(n(K::Loop(Box::new(b))));
            }
            2 | 3 => {
                let v = self.var_name();
                let op = *self.tape.pick(&[Op::RangeEx, Op::RangeIn]);
                let lo = self.tape.below(3) as i64;
                let a = if self.tape.chance(1, 4) { self.int(d.min(1)) } else { self.logged(int(lo)) };
                let hi = lo + self.tape.below(4) as i64;
                let b = if self.tape.chance(1, 6) {
                    let e = self.int(d.min(1));
                    bin(Op::Rem, e, int(5))
                } else {
                    self.logged(int(hi))
                };
                let body = self.scoped(|g| {
                    g.declare(&v, T::Int, false);
                    g.loop_body(d, vec![])
                });
                out.push(n(K::For(v, Box::new(bin(op, a, b)), Box::new(body))));
            }
            _ => {
                let v = self.var_name();
                let s = self.iter(d.min(2));
                let body = self.scoped(|g| {
                    g.declare(&v, T::Int, false);
                    g.loop_body(d, vec![])
                });
                out.push(n(K::For(v, Box::new(s), Box::new(body))));
            }
        }
    }

    /// A whole program, whose value shows the variables it ends with.
    pub fn program(&mut self) -> Vec<N> {
        let k = self.tape.range(1, self.cfg.stmts);
        let mut v = vec![];
        let d = self.cfg.depth;
        for _ in 0..k {
            if self.low() {
                break;
            }
            self.statement(d, &mut v);
        }
        if self.cfg.exits > 0 || self.cfg.closures > 0 || self.tape.bool() {
            // Much only happens inside functions and loops.
            self.budget = self.budget.max(60);
            let mut w = vec![];
            self.wrapped(d, &mut w);
            v.extend(w);
        }
        let t = self.int(2);
        let mut shown: Vec<N> = self.visible().iter().map(|v| id(&v.name)).take(12).collect();
        shown.push(t);
        v.push(list(shown));
        v
    }

    /// A function called a few times, or a loop.
    fn wrapped(&mut self, d: usize, out: &mut Vec<N>) {
        if self.tape.bool() {
            self.loop_stmt(d, out);
        } else {
            let name = self.fresh("f");
            let r = *self.tape.pick(&[Ret::Int, Ret::Res, Ret::Opt]);
            let body = self.in_fn(Kind::Fn(r), false, |g| {
                g.declare("p", T::Int, false);
                let mut v = vec![];
                for _ in 0..g.tape.range(1, 4) {
                    g.statement(d, &mut v);
                }
                let e = g.ret_value(r, d.min(2));
                v.push(e);
                v
            });
            out.push(fn_decl(&name, vec![Param::new("p")], None, body));
            for i in 0..self.tape.range(1, 3) {
                out.push(emit(call(id(&name), vec![int(i as i64)])));
            }
            self.declare(&name, T::Fn(1, r), false);
        }
    }
}
