//! Reference virtual machine for compiled programs.  It follows the shipped machine's instruction
//! semantics, with the checks of a strict one: nothing below the frame's own operands is popped, all
//! operands refer to existing entries, and captured variables are closed before their frame ends.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use dice_bytecode::{Bytecode, ConstantValue, FunctionBytecode, Instruction};

use crate::ast::Op;
use crate::rt::*;
use crate::util;

pub struct VmFn {
    pub code: FunctionBytecode,
    pub ups: Vec<Rc<RefCell<Up>>>,
}

pub enum Up {
    Open(Rc<RefCell<Vec<V>>>, usize),
    Closed(V),
    Dangling,
}

pub struct Vm {
    pub rt: Rt,
    pub sources: HashMap<String, String>,
}

fn fault<T>(s: impl Into<String>) -> R<T> {
    Err(Ex::Fault(s.into()))
}

thread_local! {
    static PRELUDE: Result<Bytecode, String> = match util::compile(PRELUDE_SRC, true) {
        Err(p) => Err(format!("panic: {}", p)),
        Ok(Err(e)) => Err(util::debug(&e)),
        Ok(Ok(b)) => Ok(b),
    };
}

/// The shipped prelude.
pub const PRELUDE_SRC: &str = include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/data/scripts/prelude.dm"));

impl Vm {
    pub fn new(fuel: u64) -> Vm {
        Vm {
            rt: Rt::new(fuel),
            sources: HashMap::new(),
        }
    }

    pub fn load_prelude(&mut self) -> R<()> {
        let code = PRELUDE.with(|p| p.clone());
        let code = match code {
            Ok(c) => c,
            Err(e) => return fault(format!("the prelude does not compile: {}", e)),
        };
        let export = self.rt.exports();
        let r = match self.run(&code, Some(export)) {
            Ok(v) => v,
            Err(e) => return fault(format!("the prelude fails: {:?}", e)),
        };
        let V::Obj(o) = &r else {
            return fault("the prelude does not yield its exports");
        };
        for (k, v) in o.fields.borrow().iter() {
            self.rt.globals.entry(k.clone()).or_insert_with(|| v.clone());
        }
        Ok(())
    }

    pub fn run(&mut self, code: &Bytecode, export: Option<V>) -> R<V> {
        let mut slots = vec![V::Null; code.slot_count()];
        if let Some(e) = export {
            if slots.is_empty() {
                return fault("a module without a slot for its exports");
            }
            slots[0] = e;
        }
        self.exec(code, slots, &[])
    }

    fn exec(&mut self, code: &Bytecode, slots: Vec<V>, ups: &[Rc<RefCell<Up>>]) -> R<V> {
        let slots = Rc::new(RefCell::new(slots));
        let mut open: Vec<(usize, Rc<RefCell<Up>>)> = Vec::new();
        let r = self.steps(code, &slots, ups, &mut open);
        for (_, u) in open {
            *u.borrow_mut() = Up::Dangling;
        }
        r
    }

    fn steps(
        &mut self,
        code: &Bytecode,
        slots: &Rc<RefCell<Vec<V>>>,
        ups: &[Rc<RefCell<Up>>],
        open: &mut Vec<(usize, Rc<RefCell<Up>>)>,
    ) -> R<V> {
        use Instruction as I;
        let consts = code.constants();
        let mut cur = code.cursor();
        let mut st: Vec<V> = Vec::new();

        macro_rules! pop {
            () => {
                match st.pop() {
                    Some(v) => v,
                    None => return fault("operand stack underflow"),
                }
            };
        }
        macro_rules! peek {
            ($n:expr) => {{
                let n: usize = $n;
                if st.len() <= n {
                    return fault("operand stack underflow");
                }
                let i = st.len() - 1 - n;
                &st[i]
            }};
        }
        macro_rules! byte {
            () => {{
                if cur.remaining() == 0 {
                    return fault("operand beyond the end of the code");
                }
                cur.read_u8() as usize
            }};
        }
        macro_rules! name {
            () => {
                match consts.get(byte!()) {
                    Some(ConstantValue::Symbol(s)) => s.to_string(),
                    _ => return fault("operand is not a symbol constant"),
                }
            };
        }
        macro_rules! slot {
            () => {{
                let s = byte!();
                if s >= slots.borrow().len() {
                    return fault("slot beyond the frame");
                }
                s
            }};
        }
        macro_rules! jump {
            ($cond:expr) => {{
                if cur.remaining() < 2 {
                    return fault("operand beyond the end of the code");
                }
                let off = cur.read_offset();
                let cond = $cond;
                if cond {
                    let to = cur.position() as i64 + off as i64;
                    if to < 0 || to > cur.position() as i64 + cur.remaining() as i64 {
                        return fault("jump out of the code");
                    }
                    cur.set_position(to as _);
                }
            }};
        }
        macro_rules! bin {
            ($op:expr) => {{
                let b = pop!();
                let a = pop!();
                let v = self.operate($op, a, b)?;
                st.push(v);
            }};
        }

        loop {
            let Some(ins) = cur.read_instruction() else {
                // Only the code of a program itself may run off its end.
                return match st.pop() {
                    Some(v) => Ok(v),
                    None => fault("no result at the end of the code"),
                };
            };
            self.rt.tick()?;
            match ins {
                I::PushNull => st.push(V::Null),
                I::PushUnit => st.push(V::Unit),
                I::PushFalse => st.push(V::Bool(false)),
                I::PushTrue => st.push(V::Bool(true)),
                I::PushI0 => st.push(V::Int(0)),
                I::PushI1 => st.push(V::Int(1)),
                I::PushF0 => st.push(V::Float(0.0)),
                I::PushF1 => st.push(V::Float(1.0)),
                I::PushConst => {
                    let v = match consts.get(byte!()) {
                        Some(ConstantValue::Int(i)) => V::Int(*i),
                        Some(ConstantValue::Float(f)) => V::Float(*f),
                        Some(ConstantValue::String(s)) => str_v(s),
                        Some(ConstantValue::Symbol(s)) => str_v(s),
                        Some(ConstantValue::Function(f)) => V::Fn(Rc::new(Func::Vm(VmFn {
                            code: f.clone(),
                            ups: vec![],
                        }))),
                        None => return fault("no such constant"),
                    };
                    st.push(v)
                }
                I::Pop => {
                    pop!();
                }
                I::Dup => {
                    let n = byte!();
                    let v = peek!(n).clone();
                    st.push(v)
                }
                I::Swap => {
                    let a = pop!();
                    let b = pop!();
                    st.push(a);
                    st.push(b);
                }
                I::CreateArray => {
                    let n = byte!();
                    if st.len() < n {
                        return fault("operand stack underflow");
                    }
                    let items = st.split_off(st.len() - n);
                    st.push(V::Arr(Rc::new(RefCell::new(items))));
                }
                I::CreateObject => st.push(self.rt.object()),
                I::InheritClass => {
                    let n = name!();
                    let base = pop!();
                    st.push(self.rt.derive(&n, &base)?);
                }
                I::CreateClosure => {
                    let f = match consts.get(byte!()) {
                        Some(ConstantValue::Function(f)) => f.clone(),
                        _ => return fault("closure of something that is not a function constant"),
                    };
                    let mut mine = Vec::new();
                    for _ in 0..f.bytecode.upvalue_count() {
                        let local = byte!();
                        let i = byte!();
                        if local == 1 {
                            if i >= slots.borrow().len() {
                                return fault("captured slot beyond the frame");
                            }
                            let found = open.iter().find(|(s, _)| *s == i).map(|(_, u)| u.clone());
                            mine.push(found.unwrap_or_else(|| {
                                let u = Rc::new(RefCell::new(Up::Open(slots.clone(), i)));
                                open.push((i, u.clone()));
                                u
                            }));
                        } else {
                            match ups.get(i) {
                                Some(u) => mine.push(u.clone()),
                                None => return fault("captured variable that does not exist"),
                            }
                        }
                    }
                    st.push(V::Fn(Rc::new(Func::Vm(VmFn { code: f, ups: mine }))));
                }
                I::LoadModule => {
                    let path = name!();
                    let v = self.load_module(&path)?;
                    st.push(v)
                }
                I::LoadGlobal => {
                    let n = name!();
                    match self.rt.globals.get(&n) {
                        Some(v) => st.push(v.clone()),
                        None => return err("E3301"),
                    }
                }
                I::StoreGlobal => {
                    let n = name!();
                    let v = pop!();
                    if self.rt.globals.contains_key(&n) {
                        return err("E3300");
                    }
                    self.rt.globals.insert(n, v);
                }
                I::LoadLocal => {
                    let s = slot!();
                    let v = slots.borrow()[s].clone();
                    st.push(v)
                }
                I::StoreLocal => {
                    let s = slot!();
                    let v = peek!(0).clone();
                    slots.borrow_mut()[s] = v;
                }
                I::AssignLocal => {
                    let s = slot!();
                    let v = pop!();
                    slots.borrow_mut()[s] = v;
                    st.push(V::Unit);
                }
                I::LoadField => {
                    let n = name!();
                    let o = pop!();
                    st.push(self.rt.get_field(&o, &n)?);
                }
                I::StoreField => {
                    let n = name!();
                    let v = pop!();
                    let o = pop!();
                    self.rt.set_field(&o, &n, v.clone())?;
                    st.push(v);
                }
                I::AssignField => {
                    let n = name!();
                    let v = pop!();
                    let o = pop!();
                    self.rt.set_field(&o, &n, v)?;
                    st.push(V::Unit);
                }
                I::LoadIndex => {
                    let i = pop!();
                    let o = pop!();
                    st.push(self.rt.get_index(&o, &i)?);
                }
                I::StoreIndex | I::AssignIndex => {
                    let v = pop!();
                    let i = pop!();
                    let o = pop!();
                    self.rt.set_index(&o, &i, v.clone())?;
                    st.push(if matches!(ins, I::StoreIndex) { v } else { V::Unit });
                }
                I::LoadUpvalue => {
                    let Some(u) = ups.get(byte!()) else {
                        return fault("no such captured variable");
                    };
                    let v = match &*u.borrow() {
                        Up::Open(f, s) => f.borrow()[*s].clone(),
                        Up::Closed(v) => v.clone(),
                        Up::Dangling => return fault("captured variable was not kept alive"),
                    };
                    st.push(v);
                }
                I::StoreUpvalue | I::AssignUpvalue => {
                    let Some(u) = ups.get(byte!()) else {
                        return fault("no such captured variable");
                    };
                    let v = pop!();
                    let keep = if matches!(ins, I::StoreUpvalue) { v.clone() } else { V::Unit };
                    match &mut *u.borrow_mut() {
                        Up::Open(f, s) => f.borrow_mut()[*s] = v,
                        Up::Closed(c) => *c = v,
                        Up::Dangling => return fault("captured variable was not kept alive"),
                    }
                    st.push(keep);
                }
                I::CloseUpvalue => {
                    let s = slot!();
                    let v = std::mem::replace(&mut slots.borrow_mut()[s], V::Null);
                    if let Some(i) = open.iter().position(|(x, _)| *x == s) {
                        let (_, u) = open.remove(i);
                        *u.borrow_mut() = Up::Closed(v);
                    }
                }
                I::LoadFieldToLocal => {
                    let n = name!();
                    let s = slot!();
                    let o = pop!();
                    let v = self.rt.get_field(&o, &n)?;
                    slots.borrow_mut()[s] = v.clone();
                    st.push(v);
                }
                I::LoadMethod => {
                    let n = name!();
                    let receiver = pop!();
                    let class = as_class(&pop!())?;
                    if !self.rt.is_instance(&receiver, &class) {
                        return err("E3105");
                    }
                    st.push(self.rt.method(Some(&class), &n, &receiver));
                }
                I::StoreMethod => {
                    let n = name!();
                    let f = pop!();
                    let class = as_class(&pop!())?;
                    class.methods.borrow_mut().insert(n, f);
                }
                I::Negate => {
                    let v = negate(&pop!())?;
                    st.push(v)
                }
                I::Not => {
                    let v = not(&pop!())?;
                    st.push(v)
                }
                I::Multiply => bin!(Op::Mul),
                I::Divide => bin!(Op::Div),
                I::Remainder => bin!(Op::Rem),
                I::Add => bin!(Op::Add),
                I::Subtract => bin!(Op::Sub),
                I::GreaterThan => bin!(Op::Gt),
                I::GreaterThanOrEqual => bin!(Op::Ge),
                I::LessThan => bin!(Op::Lt),
                I::LessThanOrEqual => bin!(Op::Le),
                I::Equal => bin!(Op::Eq),
                I::NotEqual => bin!(Op::Ne),
                I::RangeInclusive => bin!(Op::RangeIn),
                I::RangeExclusive => bin!(Op::RangeEx),
                I::Is => {
                    let class = as_class(&pop!())?;
                    let v = pop!();
                    st.push(V::Bool(self.rt.is_instance(&v, &class)));
                }
                I::Jump => jump!(true),
                I::JumpIfFalse => jump!(!as_bool(&pop!())?),
                I::JumpIfTrue => jump!(as_bool(&pop!())?),
                I::Call => {
                    let n = byte!();
                    if st.len() <= n {
                        return fault("operand stack underflow");
                    }
                    let args = st.split_off(st.len() - n);
                    let f = pop!();
                    let v = self.call(&f, args)?;
                    st.push(v);
                }
                I::CallSuper => {
                    let n = byte!();
                    let class = as_class(&pop!())?;
                    if st.len() <= n {
                        return fault("operand stack underflow");
                    }
                    let args = st.split_off(st.len() - n);
                    let o = pop!();
                    let v = self.construct(&class, o, args)?;
                    st.push(v);
                }
                I::Return => return Ok(pop!()),
                I::AssertBool => {
                    if !matches!(peek!(0), V::Bool(_)) {
                        return err("E3102");
                    }
                }
                I::AssertTypeForLocal | I::AssertTypeOrNullForLocal => {
                    let s = slot!();
                    let class = pop!();
                    let v = slots.borrow()[s].clone();
                    self.rt.assert_type(&v, &class, matches!(ins, I::AssertTypeOrNullForLocal))?;
                }
                I::AssertTypeAndReturn | I::AssertTypeOrNullAndReturn => {
                    let class = pop!();
                    let v = pop!();
                    self.rt.assert_type(&v, &class, matches!(ins, I::AssertTypeOrNullAndReturn))?;
                    return Ok(v);
                }
            }
        }
    }

    fn load_module(&mut self, path: &str) -> R<V> {
        if let Some(v) = self.rt.modules.get(path) {
            return Ok(v.clone());
        }
        let Some(src) = self.sources.get(path).cloned() else {
            return err("E4001");
        };
        let export = self.rt.exports();
        self.rt.modules.insert(path.to_string(), export.clone());
        match util::compile(&src, true) {
            Err(p) => fault(format!("panic compiling module {:?}: {}", path, p)),
            Ok(Err(e)) => fault(format!("module {:?} does not compile: {}", path, util::debug(&e))),
            Ok(Ok(code)) => self.run(&code, Some(export)),
        }
    }
}

impl Machine for Vm {
    fn rt(&mut self) -> &mut Rt {
        &mut self.rt
    }
    fn call_user(&mut self, f: &Rc<Func>, slot0: V, args: Vec<V>) -> R<V> {
        let Func::Vm(g) = &**f else {
            return fault("foreign function");
        };
        let code = g.code.bytecode.clone();
        let mut slots = vec![V::Null; code.slot_count()];
        for (i, v) in std::iter::once(slot0).chain(args).enumerate() {
            if i < slots.len() {
                slots[i] = v;
            }
        }
        self.exec(&code, slots, &g.ups)
    }
}
