//! Reference for the language's static rules: every violation a program contains, with its error
//! code and the tokens of the offending construct.

use crate::ast::*;

#[derive(Clone, Debug)]
pub struct Violation {
    pub codes: &'static [&'static str],
    /// First and last token of the construct.
    pub first: usize,
    pub last: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Script,
    Module,
    Function,
    Method,
    Ctor,
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Var(bool),
    Fn(bool),
    Class(bool),
}

struct Scope {
    is_loop: bool,
    vars: Vec<(String, St)>,
}

struct Frame {
    kind: Kind,
    ret: Option<Ty>,
    scopes: Vec<Scope>,
}

pub struct Statics {
    frames: Vec<Frame>,
    pub found: Vec<Violation>,
}

/// All violations; the program has been printed, so its nodes know their tokens.
pub fn violations(items: &[N], module: bool) -> Vec<Violation> {
    let mut s = Statics {
        frames: vec![Frame {
            kind: if module { Kind::Module } else { Kind::Script },
            ret: None,
            scopes: vec![],
        }],
        found: vec![],
    };
    s.block(items);
    s.found
}

impl Statics {
    fn bad(&mut self, codes: &'static [&'static str], first: usize, last: usize) {
        self.found.push(Violation { codes, first, last });
    }
    fn top(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }
    fn declare(&mut self, name: &str, st: St) {
        self.top().scopes.last_mut().unwrap().vars.push((name.to_string(), st));
    }
    fn local(&mut self, name: &str) -> Option<&mut (String, St)> {
        self.top()
            .scopes
            .iter_mut()
            .rev()
            .flat_map(|s| s.vars.iter_mut().rev())
            .find(|v| v.0 == name)
    }
    /// Whether the name is a variable of an enclosing function, and whether it is mutable.
    fn captured(&self, name: &str) -> Option<bool> {
        let outer = &self.frames[..self.frames.len() - 1];
        outer
            .iter()
            .rev()
            .flat_map(|f| f.scopes.iter().rev().flat_map(|s| s.vars.iter().rev()))
            .find(|v| v.0 == name)
            .map(|v| v.1 == St::Var(true))
    }
    fn push(&mut self, is_loop: bool) {
        self.top().scopes.push(Scope { is_loop, vars: vec![] });
    }
    fn pop(&mut self) {
        self.top().scopes.pop();
    }
    fn read(&mut self, name: &str, tok: usize) {
        self.read_within(name, tok, tok)
    }
    fn read_within(&mut self, name: &str, first: usize, last: usize) {
        if let Some((_, st)) = self.local(name) {
            if matches!(st, St::Fn(false) | St::Class(false)) {
                self.bad(&["E2402"], first, last);
            }
        }
    }
    fn hoist(&mut self, items: &[N]) {
        for x in items {
            let x = match &x.k {
                K::Export(e) => &**e,
                _ => x,
            };
            match &x.k {
                K::Fn(d) => self.declare(&d.name.clone(), St::Fn(false)),
                K::Class(name, ..) => self.declare(&name.clone(), St::Class(false)),
                _ => {}
            }
        }
    }
    fn items(&mut self, items: &[N]) {
        self.hoist(items);
        for x in items {
            self.node(x);
        }
    }
    fn block(&mut self, items: &[N]) {
        self.push(false);
        self.items(items);
        self.pop();
    }
    fn body(&mut self, b: &N) {
        match &b.k {
            K::Block(items) => self.block(items),
            _ => panic!("block expected"),
        }
    }
    fn in_loop(&mut self) -> bool {
        self.top().scopes.iter().any(|s| s.is_loop)
    }
    fn leaving(&mut self) {
        if let Some(t) = self.top().ret.clone() {
            self.read(&t.name, t.name_tok);
        }
    }

    fn function(&mut self, kind: Kind, derived: bool, params: &[Param], ret: &Option<Ty>, body: &N, first: usize, last: usize) {
        let mut names: Vec<&str> = params.iter().map(|p| p.name.as_str()).collect();
        names.sort();
        let all = names.len();
        names.dedup();
        if names.len() < all {
            self.bad(&["E2207"], first, last);
        }
        if kind == Kind::Ctor {
            if let Some(t) = ret {
                self.bad(&["E2200"], t.first, t.last);
            }
            if derived {
                let ok = match &body.k {
                    K::Block(v) => matches!(v.first().map(|x| &x.k), Some(K::SuperCall(_))),
                    _ => false,
                };
                if !ok {
                    self.bad(&["E2203"], body.first, body.last);
                }
            }
        }
        self.frames.push(Frame {
            kind,
            ret: if kind == Kind::Ctor { None } else { ret.clone() },
            scopes: vec![],
        });
        self.push(false);
        for p in params {
            self.declare(&p.name, St::Var(false));
            if let Some(t) = &p.ty {
                self.read(&t.name, t.name_tok);
            }
        }
        match &body.k {
            K::Block(items) => self.items(items),
            _ => self.node(body),
        }
        self.leaving();
        self.frames.pop();
    }

    fn node(&mut self, x: &N) {
        match &x.k {
            K::Ident(name) => self.read(name, x.first),
            K::Block(items) => self.block(items),
            K::Let(names, _, mutable, v) => {
                self.node(v);
                for name in names {
                    self.declare(name, St::Var(*mutable));
                }
            }
            K::Assign(_, target, v) => {
                match &target.k {
                    K::Ident(name) => {
                        let mutable = match self.local(name) {
                            Some((_, st)) => Some(*st == St::Var(true)),
                            None => self.captured(name),
                        };
                        match mutable {
                            None => self.bad(&["E2401"], x.first, x.last),
                            Some(false) => self.bad(&["E2403"], x.first, x.last),
                            Some(true) => {}
                        }
                    }
                    K::Field(o, _) => self.node(o),
                    K::Index(o, i) => {
                        self.node(o);
                        self.node(i);
                    }
                    _ => self.bad(&["E2400"], target.first, target.last),
                }
                self.node(v);
            }
            K::Lambda(ps, b) => self.function(Kind::Function, false, ps, &None, b, x.first, x.last),
            K::Fn(d) => {
                self.function(Kind::Function, false, &d.params, &d.ret, &d.body, x.first, x.last);
                self.declared(&d.name, d.name_tok, St::Fn(true), &["E2301"]);
            }
            K::OpDecl(_, ps, r, b) => self.function(Kind::Function, false, ps, r, b, x.first, x.last),
            K::Class(name, name_tok, base, items) => {
                self.push(false);
                if let Some(b) = base {
                    self.node(b);
                }
                self.declare("super", St::Var(false));
                self.declared(name, *name_tok, St::Class(true), &["E2300"]);
                for m in items {
                    match &m.k {
                        K::Fn(d) => {
                            let me = d.params.first().filter(|p| p.name == "self");
                            let kind = match me {
                                Some(_) if d.name == "new" => Kind::Ctor,
                                Some(_) => Kind::Method,
                                None => Kind::Function,
                            };
                            if let Some(p) = me.filter(|p| p.ty.is_some()) {
                                self.bad(&["E2206"], p.first, p.last);
                            }
                            if me.is_none() && d.name == "new" {
                                self.bad(&["E2201"], d.name_tok, d.name_tok);
                            }
                            self.function(kind, base.is_some(), &d.params, &d.ret, &d.body, m.first, m.last);
                        }
                        K::OpDecl(_, ps, r, b) => {
                            match ps.first().filter(|p| p.name == "self") {
                                Some(p) if p.ty.is_some() => self.bad(&["E2206"], p.first, p.last),
                                Some(_) => {}
                                None => self.bad(&["E2202"], m.first, m.last),
                            }
                            self.function(Kind::Method, false, ps, r, b, m.first, m.last);
                        }
                        _ => panic!("member expected"),
                    }
                }
                self.pop();
            }
            K::Export(e) => {
                let f = self.top();
                let wrong = f.kind != Kind::Module
                    || f.scopes.len() > 1
                    || matches!(&e.k, K::Let(_, true, _, _));
                if wrong {
                    self.bad(&["E2504"], x.first, x.last);
                }
                self.node(e);
            }
            K::Import(module, names, _) => {
                for name in names.iter().chain(module) {
                    self.declare(name, St::Var(false));
                }
            }
            K::Return(r) => {
                match self.top().kind {
                    Kind::Script | Kind::Module => self.bad(&["E2500"], x.first, x.last),
                    Kind::Ctor if r.is_some() => self.bad(&["E2204"], x.first, x.last),
                    _ => {}
                }
                if let Some(r) = r {
                    self.node(r);
                }
                self.leaving();
            }
            K::Break => {
                if !self.in_loop() {
                    self.bad(&["E2501"], x.first, x.last)
                }
            }
            K::Continue => {
                if !self.in_loop() {
                    self.bad(&["E2502"], x.first, x.last)
                }
            }
            K::ErrProp(e) => {
                if !matches!(self.top().kind, Kind::Function | Kind::Method) {
                    self.bad(&["E2503"], x.first, x.last);
                }
                self.node(e);
                self.leaving();
            }
            K::ErrOr(a, name, b) => {
                self.push(false);
                self.node(a);
                self.read("Result", x.first);
                self.push(false);
                self.declare(name, St::Var(false));
                self.body(b);
                self.pop();
                self.pop();
            }
            K::SuperField(class, _) => {
                if !matches!(self.top().kind, Kind::Method | Kind::Ctor) {
                    self.bad(&["E2205"], x.first, x.last);
                }
                if let Some(c) = class {
                    self.read_within(c, x.first, x.last);
                }
            }
            K::SuperCall(args) => {
                if !matches!(self.top().kind, Kind::Method | Kind::Ctor) {
                    self.bad(&["E2205"], x.first, x.last);
                }
                for a in args {
                    self.node(a);
                }
            }
            K::Loop(b) => {
                self.push(true);
                self.body(b);
                self.pop();
            }
            K::While(c, b) => {
                self.push(true);
                self.node(c);
                self.body(b);
                self.pop();
            }
            K::For(v, s, b) => {
                self.node(s);
                self.push(true);
                self.declare(v, St::Var(false));
                self.body(b);
                self.pop();
            }
            K::Is(a, t) => {
                self.node(a);
                self.read(&t.name, t.name_tok);
            }
            K::If(c, a, b) => {
                self.node(c);
                self.node(a);
                if let Some(b) = b {
                    self.node(b);
                }
            }
            K::List(v) => v.iter().for_each(|y| self.node(y)),
            K::Object(v) => v.iter().for_each(|y| self.node(&y.2)),
            K::Field(a, _) | K::Neg(a) | K::Not(a) | K::NullProp(a) => self.node(a),
            K::Index(a, b) | K::Bin(_, a, b) => {
                self.node(a);
                self.node(b);
            }
            K::Call(f, v) => {
                self.node(f);
                v.iter().for_each(|y| self.node(y));
            }
            K::Null | K::Unit | K::Bool(_) | K::Int(..) | K::Float(..) | K::Str(..) | K::Raw(_) => {}
        }
    }

    /// The declaration of a function or class takes the name set aside for it.
    fn declared(&mut self, name: &str, tok: usize, done: St, codes: &'static [&'static str]) {
        let free = |st: St| match done {
            St::Fn(_) => st == St::Fn(false),
            _ => st == St::Class(false),
        };
        match self.local(name) {
            Some((_, st)) if free(*st) => *st = done,
            Some((_, st)) => {
                let same = matches!((*st, done), (St::Fn(_), St::Fn(_)) | (St::Class(_), St::Class(_)));
                self.bad(if same { codes } else { &["E2300", "E2301"] }, tok, tok)
            }
            None => panic!("no slot for {}", name),
        }
    }
}
