//! What both reference machines share: values, classes, built-in operators, field access, calls of
//! anything that is not user code, and the rendering of values.  It follows the documented run-time
//! semantics (the shipped virtual machine's), none of it is code under test.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

use crate::ast::Op;

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    /// A run-time error of the program, by its code.
    Err(&'static str),
    /// Ran longer than the case's budget.
    Fuel,
    /// The machine was driven into a state that well-formed code never reaches.
    Fault(String),
    /// The program does something whose meaning the properties leave open.
    Skip(&'static str),
}
pub type R<T> = Result<T, Ex>;

pub fn err<T>(code: &'static str) -> R<T> {
    Err(Ex::Err(code))
}

#[derive(Clone)]
pub enum V {
    Null,
    Unit,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(Rc<str>),
    Arr(Rc<RefCell<Vec<V>>>),
    Obj(Rc<Obj>),
    Class(Rc<Class>),
    Fn(Rc<Func>),
    Nat(Rc<Nat>),
    Bound(Rc<(V, V)>),
}

pub struct Obj {
    pub class: Rc<Class>,
    pub fields: RefCell<BTreeMap<String, V>>,
}

pub struct Class {
    pub name: String,
    pub id: u32,
    pub ids: Vec<u32>,
    pub methods: RefCell<BTreeMap<String, V>>,
    pub fields: RefCell<BTreeMap<String, V>>,
    pub base: Option<Rc<Class>>,
    pub is_value_class: bool,
}

pub enum Nat {
    Emit,
    ArrPush,
    ArrPop,
    ArrLength,
    ArrIter,
    ArrNext(Rc<RefCell<Vec<V>>>, Cell<usize>),
    StrAdd,
    Panic,
}

pub enum Func {
    Tree(crate::interp::TreeFn),
    Vm(crate::vm::VmFn),
}

pub struct Classes {
    pub any: Rc<Class>,
    pub module: Rc<Class>,
    array: Rc<Class>,
    bool: Rc<Class>,
    class: Rc<Class>,
    float: Rc<Class>,
    func: Rc<Class>,
    int: Rc<Class>,
    string: Rc<Class>,
    unit: Rc<Class>,
}

pub struct Rt {
    pub globals: HashMap<String, V>,
    pub log: Vec<String>,
    pub fuel: u64,
    pub depth: usize,
    pub classes: Classes,
    pub modules: HashMap<String, V>,
    next_id: u32,
}

fn class(name: &str, id: u32, base: Option<Rc<Class>>, value: bool) -> Rc<Class> {
    let mut ids = base.as_ref().map(|b| b.ids.clone()).unwrap_or_default();
    ids.push(id);
    let methods = base
        .as_ref()
        .map(|b| b.methods.borrow().iter().filter(|(k, _)| *k != "new").map(|(k, v)| (k.clone(), v.clone())).collect())
        .unwrap_or_default();
    Rc::new(Class {
        name: name.to_string(),
        id,
        ids,
        methods: RefCell::new(methods),
        fields: RefCell::new(BTreeMap::new()),
        base,
        is_value_class: value,
    })
}

pub const MAX_DEPTH: usize = 150;
pub const VALUE_CLASSES: &[&str] = &["Int", "String", "Bool", "Float", "Array", "Function", "Class", "Unit"];

impl Rt {
    pub fn new(fuel: u64) -> Rt {
        let any = class("Any", 0, None, false);
        let mut id = 0;
        let mut mk = |name: &str, value: bool| {
            id += 1;
            class(name, id, Some(any.clone()), value)
        };
        let classes = Classes {
            module: mk("Module", false),
            array: mk("Array", true),
            bool: mk("Bool", true),
            class: mk("Class", true),
            float: mk("Float", true),
            func: mk("Function", true),
            int: mk("Int", true),
            string: mk("String", true),
            unit: mk("Unit", true),
            any: any.clone(),
        };
        let nat = |x: Nat| V::Nat(Rc::new(x));
        {
            let mut m = classes.array.methods.borrow_mut();
            m.insert("push".into(), nat(Nat::ArrPush));
            m.insert("pop".into(), nat(Nat::ArrPop));
            m.insert("length".into(), nat(Nat::ArrLength));
            m.insert("iter".into(), nat(Nat::ArrIter));
        }
        classes
            .string
            .methods
            .borrow_mut()
            .insert(dice_core::protocol::operator::ADD.to_string(), nat(Nat::StrAdd));
        let mut globals = HashMap::new();
        for c in [
            &classes.any,
            &classes.module,
            &classes.array,
            &classes.bool,
            &classes.class,
            &classes.float,
            &classes.func,
            &classes.int,
            &classes.string,
            &classes.unit,
        ] {
            globals.insert(c.name.clone(), V::Class(c.clone()));
        }
        globals.insert("emit".into(), nat(Nat::Emit));
        globals.insert("panic".into(), nat(Nat::Panic));
        Rt {
            globals,
            log: Vec::new(),
            fuel,
            depth: 0,
            classes,
            modules: HashMap::new(),
            next_id: 100,
        }
    }

    pub fn tick(&mut self) -> R<()> {
        if self.fuel == 0 {
            return Err(Ex::Fuel);
        }
        self.fuel -= 1;
        Ok(())
    }

    pub fn object(&self) -> V {
        V::Obj(Rc::new(Obj {
            class: self.classes.any.clone(),
            fields: RefCell::new(BTreeMap::new()),
        }))
    }

    pub fn exports(&self) -> V {
        V::Obj(Rc::new(Obj {
            class: self.classes.module.clone(),
            fields: RefCell::new(BTreeMap::new()),
        }))
    }

    pub fn derive(&mut self, name: &str, base: &V) -> R<V> {
        let base = as_class(base)?;
        if base.is_value_class {
            return err("E3402");
        }
        self.next_id += 1;
        Ok(V::Class(class(name, self.next_id, Some(base), false)))
    }

    pub fn class_of(&self, v: &V) -> Option<Rc<Class>> {
        let c = &self.classes;
        Some(match v {
            V::Null => return None,
            V::Unit => c.unit.clone(),
            V::Bool(_) => c.bool.clone(),
            V::Int(_) => c.int.clone(),
            V::Float(_) => c.float.clone(),
            V::Str(_) => c.string.clone(),
            V::Arr(_) => c.array.clone(),
            V::Obj(o) => o.class.clone(),
            V::Class(_) => c.class.clone(),
            V::Fn(_) | V::Nat(_) | V::Bound(_) => c.func.clone(),
        })
    }

    pub fn is_instance(&self, v: &V, c: &Class) -> bool {
        self.class_of(v).map_or(false, |k| k.ids.contains(&c.id))
    }

    /// `Ok` when the annotation accepts the value.
    pub fn assert_type(&self, v: &V, c: &V, nullable: bool) -> R<()> {
        let c = as_class(c)?;
        match v {
            V::Null if nullable => Ok(()),
            V::Null => err("E3101"),
            v if self.is_instance(v, &c) => Ok(()),
            _ => err("E3100"),
        }
    }

    pub fn method(&self, class: Option<&Class>, name: &str, receiver: &V) -> V {
        match class.and_then(|c| c.methods.borrow().get(name).cloned()) {
            Some(m) => V::Bound(Rc::new((receiver.clone(), m))),
            None => V::Null,
        }
    }

    pub fn get_field(&self, v: &V, name: &str) -> R<V> {
        let own = match v {
            V::Obj(o) => o.fields.borrow().get(name).cloned(),
            V::Class(c) => c.fields.borrow().get(name).cloned(),
            _ => None,
        };
        if let Some(v) = own {
            return Ok(v);
        }
        if name == "new" {
            return err("E3400");
        }
        let c = self.class_of(v);
        Ok(self.method(c.as_deref(), name, v))
    }

    pub fn set_field(&self, o: &V, name: &str, v: V) -> R<()> {
        match o {
            V::Obj(o) => {
                o.fields.borrow_mut().insert(name.to_string(), v);
                Ok(())
            }
            V::Class(c) => {
                c.fields.borrow_mut().insert(name.to_string(), v);
                Ok(())
            }
            V::Arr(_) => Err(Ex::Skip("field of an array")),
            _ => err("E3006"),
        }
    }

    pub fn get_index(&self, o: &V, i: &V) -> R<V> {
        match (o, i) {
            (V::Arr(a), V::Int(i)) => {
                let a = a.borrow();
                Ok(usize::try_from(*i).ok().and_then(|i| a.get(i).cloned()).unwrap_or(V::Null))
            }
            (o, V::Str(s)) => self.get_field(o, s),
            _ => err("E3005"),
        }
    }

    pub fn set_index(&self, o: &V, i: &V, v: V) -> R<()> {
        match (o, i) {
            (V::Arr(a), V::Int(i)) => {
                let mut a = a.borrow_mut();
                match usize::try_from(*i).ok().and_then(|i| a.get_mut(i)) {
                    Some(p) => *p = v,
                    None => return Err(Ex::Skip("assignment beyond the end of an array")),
                }
                Ok(())
            }
            (V::Obj(_) | V::Class(_), V::Str(s)) => self.set_field(o, s, v),
            (V::Obj(_) | V::Class(_) | V::Arr(_), _) => err("E3005"),
            _ => err("E3006"),
        }
    }
}

pub fn as_class(v: &V) -> R<Rc<Class>> {
    match v {
        V::Class(c) => Ok(c.clone()),
        _ => err("E3007"),
    }
}
pub fn as_bool(v: &V) -> R<bool> {
    match v {
        V::Bool(b) => Ok(*b),
        _ => err("E3000"),
    }
}
pub fn str_v(s: &str) -> V {
    V::Str(Rc::from(s))
}

pub fn negate(v: &V) -> R<V> {
    match v {
        V::Int(i) => i.checked_neg().map(V::Int).ok_or(Ex::Skip("overflow")),
        V::Float(f) => Ok(V::Float(-f)),
        _ => err("E3103"),
    }
}
pub fn not(v: &V) -> R<V> {
    match v {
        V::Bool(b) => Ok(V::Bool(!b)),
        _ => err("E3102"),
    }
}

/// What an operator does with operands that have a built-in meaning for it.
fn built_in(op: Op, a: &V, b: &V) -> R<Option<V>> {
    use V::*;
    let skip = || Ex::Skip("overflow");
    Ok(Some(match (op, a, b) {
        (Op::Add, Int(a), Int(b)) => Int(a.checked_add(*b).ok_or_else(skip)?),
        (Op::Sub, Int(a), Int(b)) => Int(a.checked_sub(*b).ok_or_else(skip)?),
        (Op::Mul, Int(a), Int(b)) => Int(a.checked_mul(*b).ok_or_else(skip)?),
        (Op::Div | Op::Rem, Int(_), Int(0)) => return err("E3200"),
        (Op::Div, Int(a), Int(b)) => Int(a.checked_div(*b).ok_or_else(skip)?),
        (Op::Rem, Int(a), Int(b)) => Int(a.checked_rem(*b).ok_or_else(skip)?),
        (Op::Add, Float(a), Float(b)) => Float(a + b),
        (Op::Sub, Float(a), Float(b)) => Float(a - b),
        (Op::Mul, Float(a), Float(b)) => Float(a * b),
        (Op::Div, Float(a), Float(b)) => Float(a / b),
        (Op::Rem, Float(a), Float(b)) => Float(a % b),
        (Op::Gt, Bool(a), Bool(b)) => Bool(a > b),
        (Op::Gt, Int(a), Int(b)) => Bool(a > b),
        (Op::Gt, Float(a), Float(b)) => Bool(a > b),
        (Op::Ge, Bool(a), Bool(b)) => Bool(a >= b),
        (Op::Ge, Int(a), Int(b)) => Bool(a >= b),
        (Op::Ge, Float(a), Float(b)) => Bool(a >= b),
        (Op::Lt, Bool(a), Bool(b)) => Bool(a < b),
        (Op::Lt, Int(a), Int(b)) => Bool(a < b),
        (Op::Lt, Float(a), Float(b)) => Bool(a < b),
        (Op::Le, Bool(a), Bool(b)) => Bool(a <= b),
        (Op::Le, Int(a), Int(b)) => Bool(a <= b),
        (Op::Le, Float(a), Float(b)) => Bool(a <= b),
        (Op::Eq | Op::Ne, a, b) => {
            let eq = match (a, b) {
                (Null, Null) | (Unit, Unit) => true,
                (Null, _) | (_, Null) | (Unit, _) | (_, Unit) => false,
                (Bool(a), Bool(b)) => a == b,
                (Int(a), Int(b)) => a == b,
                (Float(a), Float(b)) => a == b,
                _ => return Ok(None),
            };
            Bool(eq == (op == Op::Eq))
        }
        _ => return Ok(None),
    }))
}

pub trait Machine {
    fn rt(&mut self) -> &mut Rt;
    fn call_user(&mut self, f: &Rc<Func>, slot0: V, args: Vec<V>) -> R<V>;

    fn call(&mut self, f: &V, args: Vec<V>) -> R<V> {
        let (f, receiver) = match f {
            V::Bound(b) => (b.1.clone(), Some(b.0.clone())),
            f => (f.clone(), None),
        };
        match &f {
            V::Fn(g) => {
                let rt = self.rt();
                rt.depth += 1;
                if rt.depth > MAX_DEPTH {
                    return Err(Ex::Skip("recursion depth"));
                }
                let r = self.call_user(g, receiver.unwrap_or(f.clone()), args);
                self.rt().depth -= 1;
                r
            }
            V::Class(c) => {
                let o = V::Obj(Rc::new(Obj {
                    class: c.clone(),
                    fields: RefCell::new(BTreeMap::new()),
                }));
                self.construct(c, o, args)
            }
            V::Nat(g) => self.native(g, receiver, args),
            _ => err("E3104"),
        }
    }

    fn construct(&mut self, c: &Rc<Class>, o: V, args: Vec<V>) -> R<V> {
        let new = c.methods.borrow().get("new").cloned();
        if let Some(new) = new {
            let b = V::Bound(Rc::new((o, new)));
            self.call(&b, args)
        } else if args.is_empty()
            && c.base.as_ref().map_or(false, |b| b.methods.borrow().contains_key("new"))
        {
            err("E3401")
        } else {
            Ok(o)
        }
    }

    fn native(&mut self, g: &Nat, receiver: Option<V>, args: Vec<V>) -> R<V> {
        let first = args.first().cloned().unwrap_or(V::Null);
        Ok(match (g, receiver) {
            (Nat::Emit, _) => {
                let s = show(&first);
                let rt = self.rt();
                if rt.log.len() > 5000 {
                    return Err(Ex::Fuel);
                }
                rt.log.push(s);
                first
            }
            (Nat::Panic, _) => return err("E4000"),
            (Nat::ArrPush, Some(V::Arr(a))) => {
                if a.borrow().len() > 2000 {
                    return Err(Ex::Fuel);
                }
                a.borrow_mut().push(first);
                V::Unit
            }
            (Nat::ArrPop, Some(V::Arr(a))) => a.borrow_mut().pop().unwrap_or(V::Null),
            (Nat::ArrLength, Some(V::Arr(a))) => V::Int(a.borrow().len() as i64),
            (Nat::ArrIter, Some(V::Arr(a))) => {
                let o = self.rt().object();
                let next = V::Nat(Rc::new(Nat::ArrNext(a, Cell::new(0))));
                self.rt().set_field(&o, "next", next)?;
                o
            }
            (Nat::ArrNext(a, i), _) => {
                let o = self.rt().object();
                let v = a.borrow().get(i.get()).cloned();
                let done = v.is_none();
                i.set(i.get() + 1);
                self.rt().set_field(&o, "is_done", V::Bool(done))?;
                if let Some(v) = v {
                    self.rt().set_field(&o, "value", v)?;
                }
                o
            }
            (Nat::StrAdd, Some(V::Str(a))) => match first {
                V::Str(b) => {
                    if a.len() + b.len() > 20000 {
                        return Err(Ex::Fuel);
                    }
                    str_v(&format!("{}{}", a, b))
                }
                _ => V::Null,
            },
            _ => return Err(Ex::Skip("native called in an unusual way")),
        })
    }

    fn operate(&mut self, op: Op, a: V, b: V) -> R<V> {
        if let Some(v) = built_in(op, &a, &b)? {
            return Ok(v);
        }
        let hook = hook(op);
        let method = self.rt().get_field(&a, hook)?;
        if !matches!(method, V::Null) {
            return self.call(&method, vec![b]);
        }
        match self.rt().globals.get(hook).cloned() {
            Some(f) => self.call(&f, vec![a, b]),
            None => err("E3302"),
        }
    }
}

/// The name under which an overload of the operator is found at run time.
pub fn hook(op: Op) -> &'static str {
    use dice_core::protocol::operator as p;
    match op {
        Op::Add => p::ADD,
        Op::Sub => p::SUB,
        Op::Mul => p::MUL,
        Op::Div => p::DIV,
        Op::Rem => p::REM,
        Op::Gt => p::GT,
        Op::Ge => p::GTE,
        Op::Lt => p::LT,
        Op::Le => p::LTE,
        Op::Eq => p::EQ,
        Op::Ne => p::NEQ,
        Op::RangeEx => p::RANGE_EXCLUSIVE,
        Op::RangeIn => p::RANGE_INCLUSIVE,
        _ => "",
    }
}

pub fn show(v: &V) -> String {
    let mut s = String::new();
    render(v, 0, &mut s);
    s
}

fn render(v: &V, depth: usize, out: &mut String) {
    use std::fmt::Write;
    if out.len() > 2000 {
        out.push('~');
        return;
    }
    match v {
        V::Null => out.push_str("null"),
        V::Unit => out.push_str("unit"),
        V::Bool(b) => {
            let _ = write!(out, "{}", b);
        }
        V::Int(i) => {
            let _ = write!(out, "{}", i);
        }
        V::Float(f) if f.is_nan() => out.push_str("NaNf"),
        V::Float(f) => {
            let _ = write!(out, "{:?}f", f);
        }
        V::Str(s) => {
            let _ = write!(out, "{:?}", s);
        }
        V::Class(c) => {
            let _ = write!(out, "class {}", c.name);
        }
        V::Fn(_) | V::Nat(_) | V::Bound(_) => out.push_str("fn"),
        _ if depth > 5 => out.push('~'),
        V::Arr(a) => {
            out.push('[');
            for (i, x) in a.borrow().iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                render(x, depth + 1, out);
            }
            out.push(']');
        }
        V::Obj(o) => {
            if o.class.name != "Any" {
                out.push_str(&o.class.name);
            }
            out.push('{');
            for (i, (k, x)) in o.fields.borrow().iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                let _ = write!(out, "{}: ", k);
                render(x, depth + 1, out);
            }
            out.push('}');
        }
    }
}

/// How a program ended.
#[derive(Clone, PartialEq, Debug)]
pub struct Outcome {
    pub log: Vec<String>,
    pub end: Result<String, Ex>,
}

pub fn outcome(rt: &mut Rt, r: R<V>) -> Outcome {
    Outcome {
        end: r.map(|v| show(&v)),
        log: std::mem::take(&mut rt.log),
    }
}
