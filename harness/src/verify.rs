//! Static verifier of compiled code: decoding, operands, jumps, and operand-stack depths over all
//! paths.  The instruction table is stated here.

use std::collections::BTreeMap;

use dice_bytecode::{Bytecode, ConstantValue, Instruction};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Arg {
    None,
    /// Depth into the stack.
    Depth,
    Count,
    Slot,
    /// A constant that is a value.
    Value,
    /// A constant that is a name.
    Name,
    /// A function constant, followed by descriptors of what it captures.
    Closure,
    Upvalue,
    Jump,
    /// A name, then a slot.
    NameSlot,
}

/// Number, name in listings, operand, values popped, values pushed.
pub const TABLE: &[(&str, &str, Arg, usize, usize)] = &[
    ("PushNull", "PUSH_NULL", Arg::None, 0, 1),
    ("PushUnit", "PUSH_UNIT", Arg::None, 0, 1),
    ("PushFalse", "PUSH_FALSE", Arg::None, 0, 1),
    ("PushTrue", "PUSH_TRUE", Arg::None, 0, 1),
    ("PushI0", "PUSH_I0", Arg::None, 0, 1),
    ("PushI1", "PUSH_I1", Arg::None, 0, 1),
    ("PushF0", "PUSH_F0", Arg::None, 0, 1),
    ("PushF1", "PUSH_F1", Arg::None, 0, 1),
    ("PushConst", "PUSH_CONST", Arg::Value, 0, 1),
    ("Pop", "POP", Arg::None, 1, 0),
    ("Dup", "DUP", Arg::Depth, 0, 1),
    ("Swap", "SWAP", Arg::None, 2, 2),
    ("CreateArray", "CREATE_ARRAY", Arg::Count, 0, 1),
    ("CreateObject", "CREATE_OBJECT", Arg::None, 0, 1),
    ("CreateClosure", "CREATE_CLOSURE", Arg::Closure, 0, 1),
    ("InheritClass", "INHERIT_CLASS", Arg::Name, 1, 1),
    ("LoadModule", "LOAD_MODULE", Arg::Name, 0, 1),
    ("LoadGlobal", "LOAD_GLOBAL", Arg::Name, 0, 1),
    ("StoreGlobal", "STORE_GLOBAL", Arg::Name, 1, 0),
    ("LoadLocal", "LOAD_LOCAL", Arg::Slot, 0, 1),
    ("StoreLocal", "STORE_LOCAL", Arg::Slot, 1, 1),
    ("AssignLocal", "ASSIGN_LOCAL", Arg::Slot, 1, 1),
    ("LoadField", "LOAD_FIELD", Arg::Name, 1, 1),
    ("StoreField", "STORE_FIELD", Arg::Name, 2, 1),
    ("AssignField", "ASSIGN_FIELD", Arg::Name, 2, 1),
    ("LoadIndex", "LOAD_INDEX", Arg::None, 2, 1),
    ("StoreIndex", "STORE_INDEX", Arg::None, 3, 1),
    ("AssignIndex", "ASSIGN_INDEX", Arg::None, 3, 1),
    ("LoadUpvalue", "LOAD_UPVALUE", Arg::Upvalue, 0, 1),
    ("StoreUpvalue", "STORE_UPVALUE", Arg::Upvalue, 1, 1),
    ("AssignUpvalue", "ASSIGN_UPVALUE", Arg::Upvalue, 1, 1),
    ("CloseUpvalue", "CLOSE_UPVALUE", Arg::Slot, 0, 0),
    ("LoadFieldToLocal", "LOAD_FIELD_TO_LOCAL", Arg::NameSlot, 1, 1),
    ("LoadMethod", "LOAD_METHOD", Arg::Name, 2, 1),
    ("StoreMethod", "STORE_METHOD", Arg::Name, 2, 0),
    ("Negate", "NEG", Arg::None, 1, 1),
    ("Not", "NOT", Arg::None, 1, 1),
    ("Multiply", "MUL", Arg::None, 2, 1),
    ("Divide", "DIV", Arg::None, 2, 1),
    ("Remainder", "REM", Arg::None, 2, 1),
    ("Add", "ADD", Arg::None, 2, 1),
    ("Subtract", "SUB", Arg::None, 2, 1),
    ("GreaterThan", "GT", Arg::None, 2, 1),
    ("GreaterThanOrEqual", "GTE", Arg::None, 2, 1),
    ("LessThan", "LT", Arg::None, 2, 1),
    ("LessThanOrEqual", "LTE", Arg::None, 2, 1),
    ("Equal", "EQ", Arg::None, 2, 1),
    ("NotEqual", "NEQ", Arg::None, 2, 1),
    ("Is", "IS", Arg::None, 2, 1),
    ("RangeInclusive", "RANGE_INCLUSIVE", Arg::None, 2, 1),
    ("RangeExclusive", "RANGE_EXCLUSIVE", Arg::None, 2, 1),
    ("Jump", "JUMP", Arg::Jump, 0, 0),
    ("JumpIfFalse", "JUMP_IF_FALSE", Arg::Jump, 1, 0),
    ("JumpIfTrue", "JUMP_IF_TRUE", Arg::Jump, 1, 0),
    ("Call", "CALL", Arg::Count, 1, 1),
    ("CallSuper", "CALL_SUPER", Arg::Count, 2, 1),
    ("Return", "RETURN", Arg::None, 1, 0),
    ("AssertBool", "ASSERT_BOOL", Arg::None, 1, 1),
    ("AssertTypeForLocal", "ASSERT_TYPE_FOR_LOCAL", Arg::Slot, 1, 0),
    ("AssertTypeOrNullForLocal", "ASSERT_TYPE_OR_NULL_FOR_LOCAL", Arg::Slot, 1, 0),
    ("AssertTypeAndReturn", "ASSERT_TYPE_AND_RETURN", Arg::None, 2, 0),
    ("AssertTypeOrNullAndReturn", "ASSERT_TYPE_OR_NULL_AND_RETURN", Arg::None, 2, 0),
];

#[derive(Clone, Debug)]
pub struct Ins {
    pub at: usize,
    /// Row of the table.
    pub op: usize,
    /// Operands in order; a jump's is its signed offset.
    pub args: Vec<i64>,
    pub end: usize,
}

impl Ins {
    pub fn name(&self) -> &'static str {
        TABLE[self.op].0
    }
}

/// The bytes of the code.
pub fn bytes(code: &Bytecode) -> Vec<u8> {
    let mut c = code.cursor();
    let mut out = Vec::new();
    while c.remaining() > 0 {
        out.push(c.read_u8());
    }
    out
}

fn row(byte: u8) -> Option<usize> {
    // Which instruction the byte stands for, asked of the code under test; a byte beyond the known
    // ones is not even tried.
    if byte as usize >= TABLE.len() {
        return None;
    }
    let i: Instruction = Instruction::from(byte);
    let d = format!("{:?}", i);
    TABLE.iter().position(|r| r.0 == d)
}

pub fn decode(code: &Bytecode) -> Result<Vec<Ins>, String> {
    let b = bytes(code);
    let mut out = Vec::new();
    let mut p = 0;
    while p < b.len() {
        let at = p;
        let Some(op) = row(b[p]) else {
            return Err(format!("decoding: byte {:#04x} at {} is no instruction", b[p], at));
        };
        p += 1;
        let mut args = Vec::new();
        let mut byte = |p: &mut usize| -> Result<i64, String> {
            let v = *b.get(*p).ok_or_else(|| format!("decoding: operand of {} at {} is cut off", TABLE[op].0, at))?;
            *p += 1;
            Ok(v as i64)
        };
        match TABLE[op].2 {
            Arg::None => {}
            Arg::Jump => {
                let hi = byte(&mut p)?;
                let lo = byte(&mut p)?;
                args.push(((hi << 8 | lo) as u16 as i16) as i64);
            }
            Arg::NameSlot => {
                args.push(byte(&mut p)?);
                args.push(byte(&mut p)?);
            }
            Arg::Closure => {
                let c = byte(&mut p)?;
                args.push(c);
                let Some(ConstantValue::Function(f)) = code.constants().get(c as usize) else {
                    return Err(format!("operand: closure at {} of constant {} which is no function", at, c));
                };
                for _ in 0..f.bytecode.upvalue_count() {
                    args.push(byte(&mut p)?);
                    args.push(byte(&mut p)?);
                }
            }
            _ => args.push(byte(&mut p)?),
        }
        out.push(Ins { at, op, args, end: p });
    }
    Ok(out)
}

/// Decoding, operands and jumps.
pub fn well_formed(code: &Bytecode, root: bool, module: bool) -> Result<Vec<Ins>, String> {
    let ins = decode(code)?;
    let size = ins.last().map_or(0, |i| i.end);
    if module && root && code.slot_count() == 0 {
        return Err("operand: a module without a slot for its exports".into());
    }
    let starts: std::collections::HashSet<usize> = ins.iter().map(|i| i.at).collect();
    let consts = code.constants();
    for i in &ins {
        let what = || format!("{} at {}", i.name(), i.at);
        match TABLE[i.op].2 {
            Arg::None | Arg::Depth | Arg::Count => {}
            Arg::Slot => {
                if i.args[0] as usize >= code.slot_count() {
                    return Err(format!("operand: {} uses slot {} of {}", what(), i.args[0], code.slot_count()));
                }
            }
            Arg::Value => match consts.get(i.args[0] as usize) {
                Some(ConstantValue::Int(_) | ConstantValue::Float(_) | ConstantValue::String(_)) => {}
                // A function that captures nothing is a value by itself.
                Some(ConstantValue::Function(f)) if f.bytecode.upvalue_count() == 0 => {}
                c => return Err(format!("operand: {} pushes constant {} ({})", what(), i.args[0], kind(c))),
            },
            Arg::Name | Arg::NameSlot => {
                match consts.get(i.args[0] as usize) {
                    Some(ConstantValue::Symbol(_)) => {}
                    c => return Err(format!("operand: {} names constant {} ({})", what(), i.args[0], kind(c))),
                }
                if TABLE[i.op].2 == Arg::NameSlot && i.args[1] as usize >= code.slot_count() {
                    return Err(format!("operand: {} uses slot {} of {}", what(), i.args[1], code.slot_count()));
                }
            }
            Arg::Closure => {
                for d in i.args[1..].chunks(2) {
                    let limit = match d[0] {
                        1 => code.slot_count(),
                        0 => code.upvalue_count(),
                        _ => return Err(format!("operand: {} has a descriptor of kind {}", what(), d[0])),
                    };
                    if d[1] as usize >= limit {
                        return Err(format!("operand: {} captures {}:{} of {}", what(), d[0], d[1], limit));
                    }
                }
            }
            Arg::Upvalue => {
                if i.args[0] as usize >= code.upvalue_count() {
                    return Err(format!("operand: {} uses captured variable {} of {}", what(), i.args[0], code.upvalue_count()));
                }
            }
            Arg::Jump => {
                let to = i.end as i64 + i.args[0];
                let end_ok = root && to == size as i64;
                if to < 0 || to > size as i64 || !(end_ok || starts.contains(&(to as usize))) {
                    return Err(format!("jump: {} goes to {}, which is no instruction of the code", what(), to));
                }
            }
        }
    }
    Ok(ins)
}

fn kind(c: Option<&ConstantValue>) -> &'static str {
    match c {
        None => "missing",
        Some(ConstantValue::Int(_)) => "integer",
        Some(ConstantValue::Float(_)) => "float",
        Some(ConstantValue::String(_)) => "string",
        Some(ConstantValue::Symbol(_)) => "symbol",
        Some(ConstantValue::Function(_)) => "function",
    }
}

/// Depths on every path; also that control never runs off the end (of a function).
/// Returns how many instructions are reachable and how many points several paths meet at.
pub fn balanced(ins: &[Ins], root: bool) -> Result<(usize, usize), String> {
    let size = ins.last().map_or(0, |i| i.end);
    let at: BTreeMap<usize, usize> = ins.iter().enumerate().map(|(k, i)| (i.at, k)).collect();
    let mut depth: BTreeMap<usize, usize> = BTreeMap::new();
    let mut work = vec![(0usize, 0usize, 0usize)];
    let mut meets = 0;
    while let Some((p, d, from)) = work.pop() {
        if let Some(old) = depth.get(&p) {
            meets += 1;
            if *old != d {
                return Err(format!("stack: depth {} and {} at {} (the latter coming from {})", old, d, p, from));
            }
            continue;
        }
        depth.insert(p, d);
        if p == size {
            if !root {
                return Err(format!("end: control runs off the end of a function from {}", from));
            }
            if d != 1 {
                return Err(format!("stack: {} values at the end of the program", d));
            }
            continue;
        }
        let Some(k) = at.get(&p) else {
            return Err(format!("jump: {} is no instruction", p));
        };
        let i = &ins[*k];
        let (name, _, arg, mut pops, pushes) = TABLE[i.op];
        match arg {
            Arg::Count => pops += i.args[0] as usize,
            Arg::Depth => {
                if i.args[0] as usize >= d {
                    return Err(format!("stack: {} at {} reaches below the {} values of its code", name, p, d));
                }
            }
            _ => {}
        }
        if pops > d {
            return Err(format!("stack: {} at {} takes {} of {} values", name, p, pops, d));
        }
        let after = d - pops + pushes;
        match name {
            "Return" | "AssertTypeAndReturn" | "AssertTypeOrNullAndReturn" => {
                if after != 0 {
                    return Err(format!("stack: {} at {} leaves {} values behind", name, p, after));
                }
            }
            "Jump" => work.push(((i.end as i64 + i.args[0]) as usize, after, p)),
            "JumpIfFalse" | "JumpIfTrue" => {
                work.push(((i.end as i64 + i.args[0]) as usize, after, p));
                work.push((i.end, after, p));
            }
            _ => work.push((i.end, after, p)),
        }
    }
    Ok((depth.len(), meets))
}

pub struct Shape {
    pub functions: usize,
    pub instructions: usize,
    pub jumps: usize,
    pub meets: usize,
    pub captures: usize,
}

/// Both, for the code and every function nested in it.
pub fn verify(code: &Bytecode, module: bool, what: u8) -> Result<Shape, String> {
    let mut shape = Shape {
        functions: 0,
        instructions: 0,
        jumps: 0,
        meets: 0,
        captures: 0,
    };
    inner(code, true, module, what, &mut shape, "program")?;
    Ok(shape)
}

pub const FORM: u8 = 1;
pub const STACK: u8 = 2;

fn inner(code: &Bytecode, root: bool, module: bool, what: u8, shape: &mut Shape, name: &str) -> Result<(), String> {
    let ins = match well_formed(code, root, module) {
        Ok(i) => i,
        // Malformed code is the other property's business.
        Err(_) if what == STACK => return Ok(()),
        Err(m) => return Err(format!("{} (in {})", m, name)),
    };
    shape.functions += 1;
    shape.instructions += ins.len();
    shape.jumps += ins.iter().filter(|i| TABLE[i.op].2 == Arg::Jump).count();
    shape.captures += ins.iter().filter(|i| TABLE[i.op].2 == Arg::Closure && i.args.len() > 1).count();
    match balanced(&ins, root) {
        Ok((_, meets)) => shape.meets += meets,
        Err(m) => {
            let stack = m.starts_with("stack");
            if stack && what & STACK != 0 || !stack && what & FORM != 0 {
                return Err(format!("{} (in {})", m, name));
            }
        }
    }
    for c in code.constants() {
        if let ConstantValue::Function(f) = c {
            inner(&f.bytecode, false, module, what, shape, "a function")?;
        }
    }
    Ok(())
}
