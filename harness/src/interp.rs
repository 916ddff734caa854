//! Reference interpreter: the meaning of a program, taken directly from its tree.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use crate::ast::*;
use crate::refparse;
use crate::rt::*;

type Cell = Rc<RefCell<Option<V>>>;

#[derive(Clone, Default)]
pub struct Env(Option<Rc<Node>>);

struct Node {
    name: String,
    cell: Cell,
    next: Env,
}

impl Env {
    fn get(&self, name: &str) -> Option<&Cell> {
        let mut e = &self.0;
        while let Some(n) = e {
            if n.name == name {
                return Some(&n.cell);
            }
            e = &n.next.0;
        }
        None
    }
    fn add(&self, name: &str, cell: Cell) -> Env {
        Env(Some(Rc::new(Node {
            name: name.to_string(),
            cell,
            next: self.clone(),
        })))
    }
    fn with(&self, name: &str, v: V) -> Env {
        self.add(name, Rc::new(RefCell::new(Some(v))))
    }
}

// Long environments would otherwise be dropped recursively.
impl Drop for Env {
    fn drop(&mut self) {
        let mut cur = self.0.take();
        while let Some(rc) = cur {
            match Rc::try_unwrap(rc) {
                Ok(mut n) => cur = n.next.0.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Root,
    Function,
    Constructor,
}

pub struct TreeFn {
    params: &'static [Param],
    ret: &'static Option<Ty>,
    body: &'static N,
    env: Env,
    kind: Kind,
    /// Whether the first parameter is the receiver.
    receiver: bool,
}

enum Ctl {
    Ex(Ex),
    Return(V),
    Break,
    Continue,
    /// A null-propagating chain met null.
    Chain,
}
impl From<Ex> for Ctl {
    fn from(e: Ex) -> Ctl {
        Ctl::Ex(e)
    }
}
type E<T> = Result<T, Ctl>;

struct Fx {
    kind: Kind,
    ret: &'static Option<Ty>,
    export: Option<V>,
}

static NO_TYPE: Option<Ty> = None;

pub struct Tree {
    pub rt: Rt,
    pub modules: HashMap<String, Rc<Vec<N>>>,
}

thread_local! {
    static PRELUDE: Vec<N> = refparse::parse(FROZEN_PRELUDE).unwrap_or_else(|_| panic!("frozen prelude")).items;
}

const FROZEN_PRELUDE: &str = include_str!("prelude.txt");

fn is_chain(x: &N) -> bool {
    matches!(
        x.k,
        K::NullProp(_) | K::ErrProp(_) | K::Field(..) | K::SuperField(..) | K::Call(..) | K::SuperCall(_) | K::Index(..)
    )
}

impl Tree {
    pub fn new(fuel: u64) -> Tree {
        Tree {
            rt: Rt::new(fuel),
            modules: HashMap::new(),
        }
    }

    pub fn load_prelude(&mut self) -> R<()> {
        PRELUDE.with(|p| {
            let export = self.rt.exports();
            let V::Obj(o) = self.run(p, Some(export))? else { unreachable!() };
            for (k, v) in o.fields.borrow().iter() {
                self.rt.globals.entry(k.clone()).or_insert_with(|| v.clone());
            }
            Ok(())
        })
    }

    /// Runs a program (or, with its exports object, a module).  The tree has to outlive every value
    /// made by this interpreter.
    pub fn run(&mut self, items: &[N], export: Option<V>) -> R<V> {
        let items: &'static [N] = unsafe { std::mem::transmute(items) };
        let fx = Fx {
            kind: Kind::Root,
            ret: &NO_TYPE,
            export: export.clone(),
        };
        match self.sequence(items, Env::default(), &fx) {
            Ok(v) => Ok(export.unwrap_or(v)),
            Err(Ctl::Ex(e)) => Err(e),
            Err(_) => Err(Ex::Skip("control leaves the program")),
        }
    }

    fn lookup(&self, name: &str, env: &Env) -> R<V> {
        match env.get(name) {
            Some(c) => match &*c.borrow() {
                Some(v) => Ok(v.clone()),
                None => Err(Ex::Skip("variable read before its initialisation")),
            },
            None => match self.rt.globals.get(name) {
                Some(v) => Ok(v.clone()),
                None => err("E3301"),
            },
        }
    }

    /// The items of one scope.
    fn sequence(&mut self, items: &'static [N], mut env: Env, fx: &Fx) -> E<V> {
        for x in items {
            let x = if let K::Export(b) = &x.k { b } else { x };
            match &x.k {
                K::Fn(d) => env = env.add(&d.name, Rc::new(RefCell::new(None))),
                K::Class(name, ..) => env = env.add(name, Rc::new(RefCell::new(None))),
                _ => {}
            }
        }
        let mut last = V::Unit;
        for x in items {
            last = self.item(x, &mut env, fx)?;
        }
        Ok(last)
    }

    fn item(&mut self, x: &'static N, env: &mut Env, fx: &Fx) -> E<V> {
        self.rt.tick()?;
        match &x.k {
            K::Let(names, false, _, e) => {
                let v = self.eval(e, env, fx)?;
                *env = env.with(&names[0], v.clone());
                Ok(v)
            }
            K::Let(names, true, _, e) => {
                let v = self.eval(e, env, fx)?;
                for name in names {
                    let f = self.rt.get_field(&v, name)?;
                    *env = env.with(name, f);
                }
                Ok(v)
            }
            K::Fn(d) => {
                let f = self.function(&d.params, &d.ret, &d.body, env, Kind::Function, false);
                *env.get(&d.name).unwrap().borrow_mut() = Some(f.clone());
                Ok(f)
            }
            K::OpDecl(op, ps, ret, body) => {
                let f = self.function(ps, ret, body, env, Kind::Function, false);
                let name = hook(*op).to_string();
                if self.rt.globals.contains_key(&name) {
                    return Err(Ex::Err("E3300").into());
                }
                self.rt.globals.insert(name, f);
                Ok(V::Unit)
            }
            K::Class(name, _, base, items) => {
                let b = match base {
                    Some(b) => self.eval(b, env, fx)?,
                    None => self.lookup("Any", env)?,
                };
                let class = self.rt.derive(name, &b)?;
                *env.get(name).unwrap().borrow_mut() = Some(class.clone());
                let inner = env.with("super", b);
                let V::Class(c) = &class else { unreachable!() };
                for m in items {
                    match &m.k {
                        K::Fn(d) => {
                            let receiver = d.params.first().map_or(false, |p| p.name == "self");
                            let kind = if receiver && d.name == "new" { Kind::Constructor } else { Kind::Function };
                            let f = self.function(&d.params, &d.ret, &d.body, &inner, kind, receiver);
                            if receiver {
                                c.methods.borrow_mut().insert(d.name.clone(), f);
                            } else {
                                c.fields.borrow_mut().insert(d.name.clone(), f);
                            }
                        }
                        K::OpDecl(op, ps, ret, body) => {
                            let f = self.function(ps, ret, body, &inner, Kind::Function, true);
                            c.methods.borrow_mut().insert(hook(*op).to_string(), f);
                        }
                        _ => {}
                    }
                }
                Ok(class)
            }
            K::Import(module, items, path) => {
                let path = &path[1..path.len() - 1];
                let m = self.load_module(path)?;
                for i in items {
                    let v = self.rt.get_field(&m, i)?;
                    *env = env.with(i, v);
                }
                if let Some(n) = module {
                    *env = env.with(n, m.clone());
                }
                Ok(m)
            }
            K::Export(b) => {
                let v = self.item(b, env, fx)?;
                let name = match &b.k {
                    K::Let(names, ..) => &names[0],
                    K::Fn(d) => &d.name,
                    K::Class(name, ..) => name,
                    K::Ident(name) => name,
                    _ => return Err(Ex::Skip("export").into()),
                };
                match &fx.export {
                    Some(o) => self.rt.set_field(o, name, v.clone())?,
                    None => return Err(Ex::Skip("export").into()),
                }
                Ok(v)
            }
            K::Return(r) => {
                let v = match r {
                    Some(r) => self.eval(r, env, fx)?,
                    None if fx.kind == Kind::Constructor => self.lookup("self", env)?,
                    None => V::Unit,
                };
                Err(Ctl::Return(self.leave(v, env, fx)?))
            }
            K::Break => Err(Ctl::Break),
            K::Continue => Err(Ctl::Continue),
            K::Loop(b) => {
                loop {
                    self.rt.tick()?;
                    match self.eval(b, env, fx) {
                        Ok(_) | Err(Ctl::Continue) => {}
                        Err(Ctl::Break) => break,
                        Err(e) => return Err(e),
                    }
                }
                Ok(V::Unit)
            }
            K::While(c, b) => {
                loop {
                    self.rt.tick()?;
                    let r = match self.eval(c, env, fx) {
                        Ok(v) => {
                            if !as_bool(&v)? {
                                break;
                            }
                            self.eval(b, env, fx)
                        }
                        e => e,
                    };
                    match r {
                        Ok(_) | Err(Ctl::Continue) => {}
                        Err(Ctl::Break) => break,
                        Err(e) => return Err(e),
                    }
                }
                Ok(V::Unit)
            }
            K::For(var, src, body) => {
                if let K::Bin(op @ (Op::RangeEx | Op::RangeIn), a, b) = &src.k {
                    let end = self.eval(b, env, fx)?;
                    let mut i = self.eval(a, env, fx)?;
                    let cmp = if *op == Op::RangeEx { Op::Lt } else { Op::Le };
                    loop {
                        self.rt.tick()?;
                        let c = self.operate(cmp, i.clone(), end.clone())?;
                        if !as_bool(&c)? {
                            break;
                        }
                        match self.eval(body, &env.with(var, i.clone()), fx) {
                            Ok(_) | Err(Ctl::Continue) => {}
                            Err(Ctl::Break) => break,
                            Err(e) => return Err(e),
                        }
                        i = self.operate(Op::Add, i, V::Int(1))?;
                    }
                    return Ok(V::Unit);
                }
                let s = self.eval(src, env, fx)?;
                let iter = self.rt.get_field(&s, "iter")?;
                let it = self.call(&iter, vec![])?;
                let next = self.rt.get_field(&it, "next")?;
                loop {
                    self.rt.tick()?;
                    let r = self.call(&next, vec![])?;
                    let done = self.rt.get_field(&r, "is_done")?;
                    if as_bool(&done)? {
                        break;
                    }
                    let v = self.rt.get_field(&r, "value")?;
                    match self.eval(body, &env.with(var, v), fx) {
                        Ok(_) | Err(Ctl::Continue) => {}
                        Err(Ctl::Break) => break,
                        Err(e) => return Err(e),
                    }
                }
                Ok(V::Unit)
            }
            _ => self.eval(x, env, fx),
        }
    }

    /// What a value goes through when it is returned.
    fn leave(&mut self, v: V, env: &Env, fx: &Fx) -> E<V> {
        if let (Some(t), Kind::Function) = (fx.ret, fx.kind) {
            let c = self.lookup(&t.name, env)?;
            self.rt.assert_type(&v, &c, t.nullable)?;
        }
        Ok(v)
    }

    fn function(
        &mut self,
        params: &'static [Param],
        ret: &'static Option<Ty>,
        body: &'static N,
        env: &Env,
        kind: Kind,
        receiver: bool,
    ) -> V {
        V::Fn(Rc::new(Func::Tree(TreeFn {
            params,
            ret,
            body,
            env: env.clone(),
            kind,
            receiver,
        })))
    }

    /// A whole expression: a chain that meets null ends here.
    fn eval(&mut self, x: &'static N, env: &Env, fx: &Fx) -> E<V> {
        if is_chain(x) {
            match self.chain(x, env, fx) {
                Err(Ctl::Chain) => Ok(V::Null),
                r => r,
            }
        } else {
            self.simple(x, env, fx)
        }
    }

    /// A part of a chain.
    fn chain(&mut self, x: &'static N, env: &Env, fx: &Fx) -> E<V> {
        if !is_chain(x) {
            return self.simple(x, env, fx);
        }
        self.rt.tick()?;
        match &x.k {
            K::NullProp(b) => match self.chain(b, env, fx)? {
                V::Null => Err(Ctl::Chain),
                v => Ok(v),
            },
            K::ErrProp(b) => {
                let v = self.chain(b, env, fx)?;
                let ok = self.rt.get_field(&v, "is_ok")?;
                if as_bool(&ok)? {
                    Ok(self.rt.get_field(&v, "result")?)
                } else {
                    Err(Ctl::Return(self.leave(v, env, fx)?))
                }
            }
            K::Field(b, name) => {
                let v = self.chain(b, env, fx)?;
                Ok(self.rt.get_field(&v, name)?)
            }
            K::SuperField(c, name) => {
                let class = self.lookup(c.as_deref().unwrap_or("super"), env)?;
                let me = self.lookup("self", env)?;
                let class = as_class(&class)?;
                if !self.rt.is_instance(&me, &class) {
                    return Err(Ex::Err("E3105").into());
                }
                Ok(self.rt.method(Some(&class), name, &me))
            }
            K::Index(a, i) => {
                let a = self.chain(a, env, fx)?;
                let i = self.eval(i, env, fx)?;
                Ok(self.rt.get_index(&a, &i)?)
            }
            K::Call(f, args) => {
                let f = self.chain(f, env, fx)?;
                let mut v = Vec::new();
                for a in args {
                    v.push(self.eval(a, env, fx)?);
                }
                Ok(self.call(&f, v)?)
            }
            K::SuperCall(args) => {
                let me = self.lookup("self", env)?;
                let mut v = Vec::new();
                for a in args {
                    v.push(self.eval(a, env, fx)?);
                }
                let class = as_class(&self.lookup("super", env)?)?;
                Ok(self.construct(&class, me, v)?)
            }
            _ => unreachable!(),
        }
    }

    fn simple(&mut self, x: &'static N, env: &Env, fx: &Fx) -> E<V> {
        self.rt.tick()?;
        Ok(match &x.k {
            K::Null => V::Null,
            K::Unit => V::Unit,
            K::Bool(b) => V::Bool(*b),
            K::Int(_, i) => V::Int(*i),
            K::Float(_, f) => V::Float(*f),
            K::Str(_, s) | K::Raw(s) => str_v(s),
            K::Ident(name) => self.lookup(name, env)?,
            K::List(items) => {
                let mut v = Vec::new();
                for i in items {
                    v.push(self.eval(i, env, fx)?);
                }
                V::Arr(Rc::new(RefCell::new(v)))
            }
            K::Object(items) => {
                let o = self.rt.object();
                for (_, key, e) in items {
                    let v = self.eval(e, env, fx)?;
                    self.rt.set_field(&o, key, v)?;
                }
                o
            }
            K::Lambda(ps, body) => self.function(ps, &NO_TYPE, body, env, Kind::Function, false),
            K::Neg(e) => negate(&self.eval(e, env, fx)?)?,
            K::Not(e) => not(&self.eval(e, env, fx)?)?,
            K::Bin(op, a, b) => match op {
                Op::And | Op::Or => {
                    let l = self.eval(a, env, fx)?;
                    let V::Bool(l) = l else {
                        return Err(Ex::Err("E3102").into());
                    };
                    if l == (*op == Op::Or) {
                        return Ok(V::Bool(l));
                    }
                    match self.eval(b, env, fx)? {
                        V::Bool(r) => V::Bool(r),
                        _ => return Err(Ex::Err("E3102").into()),
                    }
                }
                Op::Coalesce => match self.eval(a, env, fx)? {
                    V::Null => self.eval(b, env, fx)?,
                    v => v,
                },
                Op::Pipeline => {
                    let f = self.eval(b, env, fx)?;
                    let v = self.eval(a, env, fx)?;
                    self.call(&f, vec![v])?
                }
                op => {
                    let l = self.eval(a, env, fx)?;
                    let r = self.eval(b, env, fx)?;
                    self.operate(*op, l, r)?
                }
            },
            K::Is(e, t) => {
                let v = self.eval(e, env, fx)?;
                if t.nullable && matches!(v, V::Null) {
                    return Ok(V::Bool(true));
                }
                let c = as_class(&self.lookup(&t.name, env)?)?;
                V::Bool(self.rt.is_instance(&v, &c))
            }
            K::ErrOr(e, name, body) => {
                let v = self.eval(e, env, fx)?;
                let c = self.lookup("Result", env)?;
                self.rt.assert_type(&v, &c, false)?;
                let ok = self.rt.get_field(&v, "is_ok")?;
                let r = as_bool(&ok)?;
                let result = self.rt.get_field(&v, "result")?;
                if r {
                    result
                } else {
                    self.eval(body, &env.with(name, result), fx)?
                }
            }
            K::Assign(op, t, e) => return self.assign(*op, t, e, env, fx),
            K::If(c, a, b) => {
                let c = self.eval(c, env, fx)?;
                if as_bool(&c)? {
                    self.eval(a, env, fx)?
                } else if let Some(b) = b {
                    self.eval(b, env, fx)?
                } else {
                    V::Unit
                }
            }
            K::Block(items) => self.sequence(items, env.clone(), fx)?,
            _ => {
                // A statement that is the whole of a block-less body.
                let mut e = env.clone();
                return self.item(x, &mut e, fx);
            }
        })
    }

    fn assign(&mut self, op: AOp, t: &'static N, e: &'static N, env: &Env, fx: &Fx) -> E<V> {
        let bin = match op {
            AOp::Set => None,
            AOp::Add => Some(Op::Add),
            AOp::Sub => Some(Op::Sub),
            AOp::Mul => Some(Op::Mul),
            AOp::Div => Some(Op::Div),
        };
        match &t.k {
            K::Ident(name) => {
                let Some(cell) = env.get(name).cloned() else {
                    return Err(Ex::Skip("undeclared target").into());
                };
                let v = match bin {
                    None => self.eval(e, env, fx)?,
                    Some(op) => {
                        let old = self.lookup(name, env)?;
                        let v = self.eval(e, env, fx)?;
                        self.operate(op, old, v)?
                    }
                };
                *cell.borrow_mut() = Some(v);
                Ok(V::Unit)
            }
            K::Field(o, name) => {
                let o = self.eval(o, env, fx)?;
                match bin {
                    None => {
                        let v = self.eval(e, env, fx)?;
                        self.rt.set_field(&o, name, v.clone())?;
                        Ok(v)
                    }
                    Some(op) => {
                        let old = self.rt.get_field(&o, name)?;
                        let v = self.eval(e, env, fx)?;
                        let v = self.operate(op, old, v)?;
                        self.rt.set_field(&o, name, v)?;
                        Ok(V::Unit)
                    }
                }
            }
            K::Index(o, i) => {
                let o = self.eval(o, env, fx)?;
                let i = self.eval(i, env, fx)?;
                let v = match bin {
                    None => self.eval(e, env, fx)?,
                    Some(op) => {
                        let old = self.rt.get_index(&o, &i)?;
                        let v = self.eval(e, env, fx)?;
                        self.operate(op, old, v)?
                    }
                };
                self.rt.set_index(&o, &i, v)?;
                Ok(V::Unit)
            }
            _ => Err(Ex::Skip("invalid target").into()),
        }
    }

    fn load_module(&mut self, path: &str) -> R<V> {
        if let Some(v) = self.rt.modules.get(path) {
            return Ok(v.clone());
        }
        let Some(items) = self.modules.get(path).cloned() else {
            return err("E4001");
        };
        let export = self.rt.exports();
        self.rt.modules.insert(path.to_string(), export.clone());
        self.run(&items, Some(export))
    }
}

impl Machine for Tree {
    fn rt(&mut self) -> &mut Rt {
        &mut self.rt
    }
    fn call_user(&mut self, f: &Rc<Func>, slot0: V, args: Vec<V>) -> R<V> {
        let Func::Tree(g) = &**f else {
            return Err(Ex::Fault("foreign function".into()));
        };
        let mut env = g.env.clone();
        let mut values = args.into_iter();
        let fx = Fx {
            kind: g.kind,
            ret: g.ret,
            export: None,
        };
        for (i, p) in g.params.iter().enumerate() {
            let v = if i == 0 && g.receiver {
                slot0.clone()
            } else {
                values.next().unwrap_or(V::Null)
            };
            env = env.with(&p.name, v.clone());
            if let Some(t) = &p.ty {
                let c = self.lookup(&t.name, &env)?;
                self.rt.assert_type(&v, &c, t.nullable)?;
            }
        }
        let r = match &g.body.k {
            K::Block(items) => self.sequence(items, env.clone(), &fx),
            _ => self.eval(g.body, &env, &fx),
        };
        let r = match r {
            Ok(v) => {
                let v = if g.kind == Kind::Constructor { self.lookup("self", &env)? } else { v };
                self.leave(v, &env, &fx)
            }
            Err(Ctl::Return(v)) => Ok(v),
            e => e,
        };
        match r {
            Ok(v) => Ok(v),
            Err(Ctl::Ex(e)) => Err(e),
            Err(_) => Err(Ex::Skip("control leaves the function")),
        }
    }
}
