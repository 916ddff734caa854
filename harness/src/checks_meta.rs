//! Checks that relate compilations to each other and to their listings.

use std::collections::{BTreeMap, BTreeSet};

use crate::ast::*;
use crate::checks_code::*;
use crate::checks_sem::{run_both, Program, Ran};
use crate::checks_static::judged;
use crate::checks_syn::*;
use crate::gensem::*;
use crate::gensyn::*;
use crate::runner::{guard, Check, Cx, Res, Suite};
use crate::tape::Tape;
use crate::util::*;
use crate::verify;
use dice_bytecode::{Bytecode, BytecodeCursor, ConstantValue, FunctionBytecode, Instruction};
use dice_core::source::{Source, SourceKind};

const ANON: &str = "__anonymous_fn_";

/// Everything a program consists of, except the identities of its functions; function names mapped.
pub fn normal(code: &Bytecode, name: &dyn Fn(&str) -> String) -> String {
    let mut out = String::new();
    norm(code, name, &mut out, 0);
    out
}

fn norm(code: &Bytecode, name: &dyn Fn(&str) -> String, out: &mut String, d: usize) {
    use std::fmt::Write;
    let pad = "  ".repeat(d);
    let _ = writeln!(out, "{}slots {} upvalues {}", pad, code.slot_count(), code.upvalue_count());
    match verify::decode(code) {
        Ok(ins) => {
            for i in ins {
                let _ = writeln!(out, "{}{} {} {:?}", pad, i.at, i.name(), i.args);
            }
        }
        Err(_) => {
            let _ = writeln!(out, "{}{:?}", pad, verify::bytes(code));
        }
    }
    for c in code.constants() {
        match c {
            ConstantValue::Int(i) => {
                let _ = writeln!(out, "{}int {}", pad, i);
            }
            ConstantValue::Float(x) => {
                let _ = writeln!(out, "{}float {:016x}", pad, x.to_bits());
            }
            ConstantValue::String(s) => {
                let _ = writeln!(out, "{}string {:?}", pad, s);
            }
            ConstantValue::Symbol(s) => {
                let _ = writeln!(out, "{}symbol {:?}", pad, s);
            }
            ConstantValue::Function(f) => {
                let n = if f.name.starts_with(ANON) { ANON.to_string() } else { name(&f.name) };
                let _ = writeln!(out, "{}function {:?}", pad, n);
                norm(&f.bytecode, name, out, d + 1);
            }
        }
    }
}

fn same(s: &str) -> String {
    s.to_string()
}

fn first_difference(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("at line {}: {:?} and {:?}", i, x, y);
        }
    }
    format!("{} and {} lines", a.lines().count(), b.lines().count())
}

/// Both must compile to the same, or be rejected with the same code.
fn alike(what: &str, a: &str, b: &str, module: bool, map: &dyn Fn(&str) -> String, cx: &mut Cx) -> Result<Option<(Bytecode, Bytecode)>, String> {
    match (compile(a, module), compile(b, module)) {
        (Err(p), _) | (_, Err(p)) => Err(format!("panic: {}", p)),
        (Ok(Ok(x)), Ok(Ok(y))) => {
            let (nx, ny) = (normal(&x, map), normal(&y, &same));
            if nx != ny {
                return Err(format!("{} changes the code: {}", what, first_difference(&nx, &ny)));
            }
            cx.label("compiled");
            Ok(Some((x, y)))
        }
        (Ok(Err(x)), Ok(Err(y))) => {
            if x.error_code() != y.error_code() {
                return Err(format!("{} changes the error:\n{}\n{}", what, debug(&x), debug(&y)));
            }
            cx.label("rejected");
            Ok(None)
        }
        (Ok(Ok(_)), Ok(Err(e))) => Err(format!("{} makes it rejected: {}", what, debug(&e))),
        (Ok(Err(e)), Ok(Ok(_))) => Err(format!("{} makes it accepted, otherwise: {}", what, debug(&e))),
    }
}

// ---------------------------------------------------------------------------------------------
// C06

fn literal(t: &mut Tape, d: usize) -> N {
    match t.below(if d == 0 { 7 } else { 9 }) {
        0 | 1 => gen_int(t),
        2 => gen_float(t),
        3 | 4 => gen_str(t, 8),
        5 => n(K::Bool(t.bool())),
        6 => {
            if t.bool() {
                n(K::Null)
            } else {
                n(K::Unit)
            }
        }
        7 => {
            let k = t.below(6);
            n(K::List((0..k).map(|_| literal(t, d - 1)).collect()))
        }
        _ => {
            let k = t.below(5);
            let mut v: Vec<(String, String, N)> = Vec::new();
            for _ in 0..k {
                let (sp, key) = match t.below(3) {
                    0 => {
                        let k = *t.pick(&["a", "b", "is_ok", "x1", "_", "self"]);
                        (k.to_string(), k.to_string())
                    }
                    1 => {
                        let K::Str(sp, v) = gen_str(t, 4).k else { unreachable!() };
                        (sp, v)
                    }
                    _ => {
                        let k = t.below(100).to_string();
                        (k.clone(), k)
                    }
                };
                v.push((sp, key, literal(t, d - 1)));
            }
            n(K::Object(v))
        }
    }
}

fn c06_values(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = t.range(1, 6);
    let mut items = Vec::new();
    let mut shown = Vec::new();
    for i in 0..k {
        let depth = t.below(3);
        let lit = literal(t, depth);
        match t.below(6) {
            0 => items.push(emit(lit)),
            1 => {
                let name = format!("v{}", i);
                items.push(let_(&name, false, lit));
                shown.push(id(&name));
            }
            2 => shown.push(lit),
            3 => shown.push(call(lambda(&["a", "b"], id("b")), vec![int(0), lit])),
            4 => {
                let name = format!("f{}", i);
                items.push(fn_decl(&name, vec![], None, vec![lit]));
                shown.push(call(id(&name), vec![]));
            }
            _ => shown.push(if t.bool() {
                call(lambda(&["a"], id("a")), vec![n(K::Raw(raw_text(t)))])
            } else {
                field(n(K::Object(vec![("k".into(), "k".into(), lit)])), "k")
            }),
        }
    }
    items.push(list(shown));
    match run_both(&Program::new(items), cx) {
        Ran::Skip(_) => Res::Discard,
        Ran::Differ(m) => Res::Fail(m),
        Ran::Same(_) => Res::Ok(true),
    }
}

/// One literal by itself against the constant or instruction the code has for it.
fn c06_single(t: &mut Tape, cx: &mut Cx) -> Res {
    let lit = literal(t, 0);
    let before = *t.pick(&["", "return_ = ", "// c\n", "\n\t"]);
    let before = if before == "return_ = " { "let q = " } else { before };
    let text = format!("{}{}", before, pretty(&mut vec![lit.clone()]));
    cx.text = text.clone();
    let code = match compile(&text, false) {
        Err(p) => fail!("panic: {}", p),
        Ok(Err(e)) => fail!("rejected: {}", debug(&e)),
        Ok(Ok(c)) => c,
    };
    let ins = match verify::decode(&code) {
        Ok(i) => i,
        Err(m) => fail!("{}", m),
    };
    let Some(first) = ins.first() else { fail!("no code for the literal") };
    let c = first.args.first().and_then(|i| code.constants().get(*i as usize));
    let ok = match &lit.k {
        K::Int(_, v) => {
            (*v == 0 && first.name() == "PushI0")
                || (*v == 1 && first.name() == "PushI1")
                || (first.name() == "PushConst" && c == Some(&ConstantValue::Int(*v)))
        }
        K::Float(_, v) => {
            let bits = match (first.name(), c) {
                ("PushF0", _) => 0f64.to_bits(),
                ("PushF1", _) => 1f64.to_bits(),
                ("PushConst", Some(ConstantValue::Float(x))) => x.to_bits(),
                _ => fail!("no float pushed: {:?}", first),
            };
            bits == v.to_bits()
        }
        K::Str(_, v) => first.name() == "PushConst" && c == Some(&ConstantValue::String(v.clone())),
        K::Bool(b) => first.name() == if *b { "PushTrue" } else { "PushFalse" },
        K::Null => first.name() == "PushNull",
        K::Unit => first.name() == "PushUnit",
        _ => true,
    };
    if !ok {
        fail!("the code for {:?} is {} {:?}", lit.k, first.name(), c);
    }
    Res::Ok(true)
}

pub fn c06() -> Check {
    let mut suites = c06_syntax_suites();
    suites.push(Suite {
        name: "values",
        quick: 360_000,
        thorough: 2_000_000,
        f: c06_values,
        rule: "literals in bindings, arguments, results, lists and objects, run and compared with the values they spell; all non-trivial",
    });
    suites.push(Suite {
        name: "single",
        quick: 360_000,
        thorough: 2_000_000,
        f: c06_single,
        rule: "one literal, and the constant the compiled code pushes for it (floats bit by bit); all non-trivial",
    });
    Check {
        id: "C06",
        suites,
        assumptions: vec![],
        probes: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C07

fn c07_code(t: &mut Tape, cx: &mut Cx) -> Res {
    let edits = if t.chance(1, 3) { 1 } else { 0 };
    let (mut items, module) = judged(t, cx, edits);
    let mut p = Printer::minimal();
    p.program(&mut items);
    let mut toks = p.toks;
    if t.chance(1, 5) {
        mutate(t, &mut toks, 1);
    }
    if toks.windows(2).any(|w| lexes_into_neighbour(&w[0], &w[1])) {
        return Res::Discard;
    }
    let plain = lay_out(&toks, Layout::Spaced, &mut Tape::replay(vec![]));
    let layout = if t.chance(1, 4) { Layout::Tight } else { Layout::Random };
    let other = lay_out(&toks, layout, t);
    cx.text = format!("{}\n=== other layout\n{}", plain.text, other.text);
    match alike("layout", &plain.text, &other.text, module, &same, cx) {
        Err(m) => Res::Fail(m),
        Ok(_) => Res::Ok(toks.len() >= 3),
    }
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        suites: vec![
            Suite {
                name: "structure",
                quick: 360_000,
                thorough: 3_000_000,
                f: c07_structure,
                rule: "random syntax, some of it with token edits, in two layouts: same tree or same error; non-trivial with three tokens or more",
            },
            Suite {
                name: "code",
                quick: 360_000,
                thorough: 3_000_000,
                f: c07_code,
                rule: "programs of every generator, some of them breaking rules, in two layouts: same code or same error; non-trivial with three tokens or more",
            },
        ],
        assumptions: vec![],
        probes: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C24

fn ids(code: &Bytecode, out: &mut Vec<uuid::Uuid>) {
    for c in code.constants() {
        if let ConstantValue::Function(f) = c {
            out.push(f.id);
            ids(&f.bytecode, out);
        }
    }
}

fn functions(items: &mut Vec<N>) -> usize {
    let mut k = 0;
    for x in items.iter_mut() {
        x.walk_mut(&mut |y| {
            if matches!(y.k, K::Fn(_) | K::OpDecl(..) | K::Lambda(..)) {
                k += 1
            }
        });
    }
    k
}

fn distinct(codes: &[&Bytecode]) -> Option<String> {
    let mut all = Vec::new();
    for c in codes {
        ids(c, &mut all);
    }
    let set: BTreeSet<_> = all.iter().collect();
    if set.len() != all.len() {
        return Some(format!("{} functions share {} identities", all.len(), set.len()));
    }
    None
}

fn c24_again(t: &mut Tape, cx: &mut Cx) -> Res {
    let edits = if t.chance(1, 4) { 1 } else { 0 };
    let (mut items, module) = judged(t, cx, edits);
    // Doubled functions must still be told apart.
    if t.bool() && !items.is_empty() {
        let k = t.below(items.len());
        let x = block(vec![items[k].clone()]);
        if !matches!(items[k].k, K::Export(_) | K::OpDecl(..)) {
            items.insert(k, x);
        }
    }
    let text = pretty(&mut items);
    cx.text = text.clone();
    let pair = match alike("compiling again", &text, &text, module, &same, cx) {
        Err(m) => return Res::Fail(m),
        Ok(p) => p,
    };
    let Some((a, b)) = pair else { return Res::Ok(false) };
    // The path of a source does not matter.
    let kind = if module { SourceKind::Module } else { SourceKind::Script };
    let c = match compile_src(Source::with_path(text.as_str(), "some/path.dm", kind)) {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => fail!("a path makes it rejected: {}", debug(&e)),
        Err(p) => fail!("panic: {}", p),
    };
    let (x, y) = (normal(&a, &same), normal(&c, &same));
    if x != y {
        fail!("a path changes the code: {}", first_difference(&x, &y));
    }
    if let Some(m) = distinct(&[&a, &b, &c]) {
        fail!("identities: {}", m);
    }
    let mut all = Vec::new();
    ids(&a, &mut all);
    let want = functions(&mut items);
    if all.len() != want {
        fail!("identities: {} functions in the source, {} in the code", want, all.len());
    }
    Res::Ok(want > 0)
}

/// Renames all variables, parameters and free functions.
fn rename(items: &mut Vec<N>, t: &mut Tape, free: BTreeSet<String>) -> BTreeMap<String, String> {
    let mut names = BTreeSet::new();
    let mut fixed = free;
    fixed.insert("self".into());
    let mut spelled = BTreeSet::new();
    {
        let mut root = block(std::mem::take(items));
        collect(&mut root, &mut names, &mut fixed, &mut spelled);
        let K::Block(v) = root.k else { unreachable!() };
        *items = v;
    }
    let mut map = BTreeMap::new();
    let style = t.below(5);
    for (i, s) in names.iter().filter(|s| !fixed.contains(*s)).enumerate() {
        let new = match style {
            0 => format!("r{}_", i),
            1 => format!("_{}", s),
            2 => format!("{}{}", s, s),
            3 => format!("a_rather_long_name_for_number_{}_Z", i),
            _ => format!("Q{}", i),
        };
        if spelled.contains(&new) || crate::lex::KEYWORDS.contains(&new.as_str()) || crate::lex::RESERVED.contains(&new.as_str()) {
            continue;
        }
        map.insert(s.clone(), new);
    }
    let mut root = block(std::mem::take(items));
    apply(&mut root, &map);
    let K::Block(v) = root.k else { unreachable!() };
    *items = v;
    map
}

fn globals(code: &Bytecode, out: &mut BTreeSet<String>) {
    for i in verify::decode(code).unwrap_or_default() {
        if i.name().contains("Global") {
            if let Some(ConstantValue::Symbol(s)) = i.args.first().and_then(|k| code.constants().get(*k as usize)) {
                out.insert(s.to_string());
            }
        }
    }
    for c in code.constants() {
        if let ConstantValue::Function(f) = c {
            globals(&f.bytecode, out);
        }
    }
}

fn collect(x: &mut N, names: &mut BTreeSet<String>, fixed: &mut BTreeSet<String>, spelled: &mut BTreeSet<String>) {
    x.walk_mut(&mut |y| match &y.k {
        K::Ident(s) => {
            spelled.insert(s.clone());
        }
        K::Let(v, false, ..) => names.extend(v.iter().cloned()),
        K::Let(v, true, ..) => fixed.extend(v.iter().cloned()),
        K::Fn(d) => {
            names.insert(d.name.clone());
            names.extend(d.params.iter().map(|p| p.name.clone()));
            spelled.extend(d.ret.iter().map(|t| t.name.clone()));
            spelled.extend(d.params.iter().filter_map(|p| p.ty.as_ref()).map(|t| t.name.clone()));
        }
        K::OpDecl(_, ps, r, _) => {
            names.extend(ps.iter().map(|p| p.name.clone()));
            spelled.extend(r.iter().map(|t| t.name.clone()));
            spelled.extend(ps.iter().filter_map(|p| p.ty.as_ref()).map(|t| t.name.clone()));
        }
        K::Lambda(ps, _) => {
            names.extend(ps.iter().map(|p| p.name.clone()));
            spelled.extend(ps.iter().filter_map(|p| p.ty.as_ref()).map(|t| t.name.clone()));
        }
        K::For(s, ..) | K::ErrOr(_, s, _) => {
            names.insert(s.clone());
        }
        K::Class(s, _, _, items) => {
            fixed.insert(s.clone());
            for i in items {
                if let K::Fn(d) = &i.k {
                    fixed.insert(d.name.clone());
                }
            }
        }
        K::Import(m, v, _) => {
            fixed.extend(m.iter().cloned());
            fixed.extend(v.iter().cloned());
        }
        K::Export(e) => match &e.k {
            K::Ident(s) => {
                fixed.insert(s.clone());
            }
            K::Let(v, ..) => fixed.extend(v.iter().cloned()),
            K::Fn(d) => {
                fixed.insert(d.name.clone());
            }
            _ => {}
        },
        K::Is(_, t) => {
            spelled.insert(t.name.clone());
        }
        K::SuperField(Some(c), _) => {
            spelled.insert(c.clone());
        }
        _ => {}
    });
    spelled.extend(names.iter().cloned());
    spelled.extend(fixed.iter().cloned());
}

fn apply(x: &mut N, map: &BTreeMap<String, String>) {
    let re = |s: &mut String| {
        if let Some(new) = map.get(s) {
            *s = new.clone()
        }
    };
    let ty = |t: &mut Option<Ty>| {
        if let Some(t) = t {
            re(&mut t.name)
        }
    };
    x.walk_mut(&mut |y| match &mut y.k {
        K::Ident(s) | K::For(s, ..) | K::ErrOr(_, s, _) | K::SuperField(Some(s), _) => re(s),
        K::Let(v, ..) => v.iter_mut().for_each(re),
        K::Fn(d) => {
            re(&mut d.name);
            ty(&mut d.ret);
            for p in &mut d.params {
                re(&mut p.name);
                ty(&mut p.ty);
            }
        }
        K::OpDecl(_, ps, r, _) => {
            ty(r);
            for p in ps {
                re(&mut p.name);
                ty(&mut p.ty);
            }
        }
        K::Lambda(ps, _) => {
            for p in ps {
                re(&mut p.name);
                ty(&mut p.ty);
            }
        }
        K::Is(_, t) => re(&mut t.name),
        _ => {}
    });
}

fn c24_rename(t: &mut Tape, cx: &mut Cx) -> Res {
    let edits = if t.chance(1, 3) { 1 } else { 0 };
    let (mut items, module) = judged(t, cx, edits);
    let text = pretty(&mut items);
    // A name that is also used where it is not in scope stands for a global there.
    let mut free = BTreeSet::new();
    if let Ok(Ok(c)) = compile(&text, module) {
        globals(&c, &mut free);
    }
    let map = rename(&mut items, t, free);
    let other = pretty(&mut items);
    cx.text = format!("{}\n=== renamed\n{}", text, other);
    let to = |s: &str| map.get(s).cloned().unwrap_or_else(|| s.to_string());
    match alike("renaming", &text, &other, module, &to, cx) {
        Err(m) => Res::Fail(m),
        Ok(p) => Res::Ok(p.is_some() && map.len() > 1),
    }
}

fn c24_parens(t: &mut Tape, cx: &mut Cx) -> Res {
    let (mut items, module) = judged(t, cx, 0);
    let text = pretty(&mut items);
    let mut p = Printer::styled(t, 30);
    p.program(&mut items);
    let toks = p.toks;
    let other = pretty_toks(&toks);
    cx.text = format!("{}\n=== with parentheses\n{}", text, other);
    match alike("adding parentheses", &text, &other, module, &same, cx) {
        Err(m) => Res::Fail(m),
        Ok(p) => Res::Ok(p.is_some() && text != other),
    }
}

pub fn c24() -> Check {
    Check {
        id: "C24",
        suites: vec![
            Suite {
                name: "again",
                quick: 100_000,
                thorough: 2_000_000,
                f: c24_again,
                rule: "programs of every generator compiled three times, once with a path; same code, and every function of all of them has its own identity; non-trivial when there are functions",
            },
            Suite {
                name: "renamed",
                quick: 120_000,
                thorough: 2_000_000,
                f: c24_rename,
                rule: "all variables, parameters and free functions renamed to fresh names; non-trivial when it compiles and two names changed",
            },
            Suite {
                name: "parentheses",
                quick: 120_000,
                thorough: 2_000_000,
                f: c24_parens,
                rule: "redundant parentheses and trailing commas added in a third of the places; non-trivial when it compiles and the text changed",
            },
        ],
        assumptions: vec!["names of classes, imports, exports and destructured fields are part of a program's meaning and not renamed"],
        probes: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C25

/// Compares one listing (and the ones that follow it) with the code.
fn read_listing(lines: &mut std::iter::Peekable<std::str::Split<'_, char>>, code: &Bytecode) -> Result<usize, String> {
    let head = |lines: &mut std::iter::Peekable<std::str::Split<'_, char>>, want: &str| -> Result<(), String> {
        let got = lines.next();
        if got.map(|l| l.trim_end()) != Some(want) {
            return Err(format!("listing: expected {:?}, got {:?}", want, got));
        }
        Ok(())
    };
    head(lines, "Code")?;
    head(lines, "--------")?;
    let ins = verify::decode(code)?;
    let data = verify::bytes(code);
    let mut shown = 0;
    for i in &ins {
        let Some(l) = lines.next() else { return Err(format!("listing: {} at {} is missing", i.name(), i.at)) };
        let parts: Vec<&str> = l.splitn(4, '|').map(|s| s.trim()).collect();
        if parts.len() < 3 {
            return Err(format!("listing: unreadable line {:?} for {} at {}", l, i.name(), i.at));
        }
        let opcode = format!("{:02X}", data[i.at]);
        if parts[0] != i.at.to_string() || parts[1] != opcode || parts[2] != verify::TABLE[i.op].1 {
            return Err(format!("listing: {:?} for {} ({}) at {}", l, verify::TABLE[i.op].1, opcode, i.at));
        }
        let rest = parts.get(3).copied().unwrap_or("");
        let got = operands(rest)?;
        let mut want: Vec<(Option<bool>, i64)> = Vec::new();
        if verify::TABLE[i.op].2 == verify::Arg::Closure {
            want.push((None, i.args[0]));
            for c in i.args[1..].chunks(2) {
                want.push((Some(c[0] == 1), c[1]));
            }
        } else {
            want.extend(i.args.iter().map(|a| (None, *a)));
        }
        if got != want {
            return Err(format!("listing: operands {:?} shown as {:?}", i.args, l));
        }
        shown += 1;
    }
    head(lines, "")?;
    for c in code.constants() {
        if let ConstantValue::Function(f) = c {
            head(lines, &format!("Function: {:?}", f.name))?;
            head(lines, "--------")?;
            shown += read_listing(lines, &f.bytecode)?;
        }
    }
    Ok(shown)
}

/// The numbers after the equal signs; for captures, whether they are of the parent's locals.
fn operands(s: &str) -> Result<Vec<(Option<bool>, i64)>, String> {
    let mut out = Vec::new();
    let mut rest = s;
    while let Some(i) = rest.find('=') {
        let key: String = rest[..i].chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<Vec<_>>().into_iter().rev().collect();
        let num: String = rest[i + 1..].chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
        let v = num.parse().map_err(|_| format!("listing: unreadable operand in {:?}", s))?;
        out.push((
            match key.as_str() {
                "parent_local" => Some(true),
                "upvalue" => Some(false),
                _ => None,
            },
            v,
        ));
        rest = &rest[i + 1 + num.len()..];
    }
    Ok(out)
}

fn c25_judge(code: &Bytecode) -> Result<usize, String> {
    let text = guard(|| format!("{}", code)).map_err(|p| format!("panic: {}", p))?;
    let mut lines = text.split('\n').peekable();
    let shown = read_listing(&mut lines, code)?;
    match (lines.next(), lines.next()) {
        (Some(""), None) => Ok(shown),
        (a, _) => Err(format!("listing: unexpected {:?} after the end", a)),
    }
}

fn c25_compiled(t: &mut Tape, cx: &mut Cx) -> Res {
    let (text, module) = any_text(t, cx);
    cx.text = text.clone();
    match compile(&text, module) {
        Ok(Ok(code)) => match c25_judge(&code) {
            Ok(k) => Res::Ok(k > 8),
            Err(m) => Res::Fail(m),
        },
        _ => Res::Discard,
    }
}

/// Writes random instructions that need no meaning.
fn random_code(t: &mut Tape, depth: usize, upvalues: usize) -> Bytecode {
    let mut constants: Vec<ConstantValue> = Vec::new();
    for i in 0..t.below(5) {
        constants.push(match t.below(if depth > 0 { 6 } else { 4 }) {
            0 => ConstantValue::Int(i as i64),
            1 => ConstantValue::Float(1.5),
            2 => ConstantValue::String("Function: \"x\"\n--------".into()),
            3 => ConstantValue::Symbol("Code".into()),
            _ => {
                let up = *t.pick(&[0usize, 0, 1, 2, 5, 40]);
                let name = *t.pick(&["f", "", "a \"quoted\"\nname", "é😀", "\\", "#+", "f"]);
                let code = random_code(t, depth - 1, up);
                ConstantValue::Function(FunctionBytecode::new(code, name, uuid::Uuid::from_u128(t.u64() as u128)))
            }
        });
    }
    let fns: Vec<(usize, usize)> = constants
        .iter()
        .enumerate()
        .filter_map(|(i, c)| match c {
            ConstantValue::Function(f) => Some((i, f.bytecode.upvalue_count())),
            _ => None,
        })
        .collect();
    let mut data: Vec<u8> = Vec::new();
    for _ in 0..t.below(14) {
        let row = t.below(verify::TABLE.len());
        let Some(op) = (0..verify::TABLE.len() as u8).find(|b| format!("{:?}", Instruction::from(*b)) == verify::TABLE[row].0) else {
            continue;
        };
        match verify::TABLE[row].2 {
            verify::Arg::None => data.push(op),
            verify::Arg::Jump => {
                data.push(op);
                let off = match t.below(4) {
                    0 => *t.pick(&[0i16, 1, -1, i16::MAX, i16::MIN, 255, 256, -255, -256, 128, -129]),
                    _ => t.u64() as i16,
                };
                data.extend(off.to_be_bytes());
            }
            verify::Arg::NameSlot => {
                data.push(op);
                data.push(byte(t));
                data.push(byte(t));
            }
            verify::Arg::Closure => {
                if fns.is_empty() {
                    continue;
                }
                let (c, ups) = fns[t.below(fns.len())];
                data.push(op);
                data.push(c as u8);
                for _ in 0..ups {
                    data.push(t.below(2) as u8);
                    data.push(byte(t));
                }
            }
            _ => {
                data.push(op);
                data.push(byte(t));
            }
        }
    }
    let slots = t.below(300);
    Bytecode::new(data.into(), slots, upvalues, constants.into())
}

fn byte(t: &mut Tape) -> u8 {
    match t.below(3) {
        0 => *t.pick(&[0u8, 1, 2, 127, 128, 254, 255]),
        _ => t.below(256) as u8,
    }
}

fn c25_synthetic(t: &mut Tape, cx: &mut Cx) -> Res {
    let code = random_code(t, 3, 0);
    cx.text = normal(&code, &same);
    match c25_judge(&code) {
        Ok(k) => Res::Ok(k > 2),
        Err(m) => Res::Fail(m),
    }
}

pub fn c25() -> Check {
    Check {
        id: "C25",
        suites: vec![
            Suite {
                name: "compiled",
                quick: 100_000,
                thorough: 2_000_000,
                f: c25_compiled,
                rule: "programs of every generator; their listing is read back and compared with the code; non-trivial with more than eight instructions",
            },
            Suite {
                name: "synthetic",
                quick: 300_000,
                thorough: 5_000_000,
                f: c25_synthetic,
                rule: "random instructions with extreme operands and nested functions with odd names; non-trivial with more than two instructions",
            },
        ],
        assumptions: vec![],
        probes: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C26

fn c26_bytes(_: &mut Tape, cx: &mut Cx) -> Res {
    let b = (cx.index % 256) as u8;
    cx.text = format!("byte {}", b);
    let i = guard(|| Instruction::from(b));
    if (b as usize) < verify::TABLE.len() {
        let i = match i {
            Ok(i) => i,
            Err(p) => fail!("byte {} is no instruction: {}", b, p),
        };
        let back: u8 = i.into();
        if back != b {
            fail!("byte {} is {:?}, which is byte {}", b, i, back);
        }
        let name = format!("{:?}", i);
        let Some(row) = verify::TABLE.iter().find(|r| r.0 == name) else {
            fail!("byte {} is the unknown instruction {}", b, name)
        };
        // No other byte is the same instruction.
        for o in 0..verify::TABLE.len() as u8 {
            if o != b && format!("{:?}", Instruction::from(o)) == name {
                fail!("bytes {} and {} are both {}", b, o, name);
            }
        }
        let shown = format!("{}", i);
        if shown != format!("{:02X} | {}", b, row.1) {
            fail!("byte {} ({}) is shown as {:?}", b, name, shown);
        }
    } else if let Ok(i) = i {
        fail!("byte {} decodes to {:?}", b, i);
    }
    Res::Ok(true)
}

#[derive(Debug)]
enum Step {
    Ins,
    Byte,
    Offset,
    Move(i16),
    Set(u64),
}

fn c26_cursor(t: &mut Tape, cx: &mut Cx) -> Res {
    let long = t.chance(1, 40);
    let len = if long { t.range(30_000, 70_000) } else { t.range(0, 40) };
    let known = verify::TABLE.len();
    let pattern = t.below(known);
    let data: Vec<u8> = (0..len)
        .map(|i| {
            if long {
                ((i * 7 + pattern) % known) as u8
            } else if t.bool() {
                t.below(known) as u8
            } else {
                byte(t)
            }
        })
        .collect();
    let use_code = t.bool();
    let code = Bytecode::new(data.clone().into(), 0, 0, Box::new([]));
    let mut c = if use_code { code.cursor() } else { BytecodeCursor::new(&data) };
    let mut pos = 0usize;
    let mut last = 0usize;
    let mut steps = Vec::new();
    let mut moves = 0;
    let k = t.range(1, 30);
    for _ in 0..k {
        let s = match t.below(6) {
            0 | 1 => Step::Ins,
            2 => Step::Byte,
            3 => Step::Offset,
            4 => {
                let lo = -(pos.min(32768) as i64);
                let hi = (len - pos).min(32767) as i64;
                let o = match t.below(5) {
                    0 => lo,
                    1 => hi,
                    2 => 0,
                    _ => lo + t.below((hi - lo + 1) as usize) as i64,
                };
                Step::Move(o as i16)
            }
            _ => Step::Set(t.below(len + 1) as u64),
        };
        match &s {
            Step::Ins => {
                if pos < len && data[pos] as usize >= known {
                    continue;
                }
                let got = c.read_instruction();
                if pos == len {
                    if got.is_some() {
                        fail!("an instruction after the end (steps {:?})", steps);
                    }
                } else {
                    let Some(i) = got else { fail!("no instruction at {} of {} (steps {:?})", pos, len, steps) };
                    let b: u8 = i.into();
                    if b != data[pos] {
                        fail!("instruction {} at {} instead of {} (steps {:?})", b, pos, data[pos], steps);
                    }
                    last = pos;
                    pos += 1;
                }
            }
            Step::Byte => {
                if pos == len {
                    continue;
                }
                let b = c.read_u8();
                if b != data[pos] {
                    fail!("byte {} at {} instead of {} (steps {:?})", b, pos, data[pos], steps);
                }
                pos += 1;
            }
            Step::Offset => {
                if pos + 2 > len {
                    continue;
                }
                let want = i16::from_be_bytes([data[pos], data[pos + 1]]);
                let got = c.read_offset();
                if got != want {
                    fail!("offset {} at {} instead of {} (steps {:?})", got, pos, want, steps);
                }
                pos += 2;
            }
            Step::Move(o) => {
                c.offset_position(*o);
                pos = (pos as i64 + *o as i64) as usize;
                moves += 1;
            }
            Step::Set(p) => {
                c.set_position(*p);
                pos = *p as usize;
                moves += 1;
            }
        }
        steps.push(s);
        if c.position() != pos as u64 || c.remaining() != (len - pos) as u64 || c.last_instruction_offset() != last as u64 {
            fail!(
                "position {} remaining {} last {} instead of {}, {}, {} (steps {:?})",
                c.position(),
                c.remaining(),
                c.last_instruction_offset(),
                pos,
                len - pos,
                last,
                steps
            );
        }
    }
    cx.text = format!("{} bytes {:?}, steps {:?}", len, &data[..len.min(40)], steps);
    Res::Ok(moves > 0 && steps.len() > 2)
}

/// Reading whole programs: everything written comes back, and the end is the end.
fn c26_programs(t: &mut Tape, cx: &mut Cx) -> Res {
    let code = if t.bool() {
        random_code(t, 1, 0)
    } else {
        let (text, module) = any_text(t, cx);
        match compile(&text, module) {
            Ok(Ok(c)) => c,
            _ => return Res::Discard,
        }
    };
    cx.text = normal(&code, &same);
    let ins = match verify::decode(&code) {
        Ok(i) => i,
        Err(m) => fail!("{}", m),
    };
    let data = verify::bytes(&code);
    let mut c = code.cursor();
    for i in &ins {
        if c.position() != i.at as u64 || c.remaining() != (data.len() - i.at) as u64 {
            fail!("position {} instead of {}", c.position(), i.at);
        }
        let Some(x) = c.read_instruction() else { fail!("end at {}", i.at) };
        let b: u8 = x.into();
        if b != data[i.at] || c.last_instruction_offset() != i.at as u64 {
            fail!("instruction {} at {}", b, i.at);
        }
        if verify::TABLE[i.op].2 == verify::Arg::Jump {
            let o = c.read_offset();
            if o as i64 != i.args[0] {
                fail!("offset {} instead of {} at {}", o, i.args[0], i.at);
            }
            let target = i.end as i64 + o as i64;
            if (0..=data.len() as i64).contains(&target) {
                c.offset_position(o);
                if c.position() as i64 != target {
                    fail!("jump to {} instead of {}", c.position(), target);
                }
                c.offset_position(o.checked_neg().unwrap_or(0));
                c.set_position(i.end as u64);
            }
        } else {
            for a in &i.args {
                let b = c.read_u8();
                if b as i64 != *a {
                    fail!("operand {} instead of {} at {}", b, a, i.at);
                }
            }
        }
    }
    if c.read_instruction().is_some() || c.remaining() != 0 {
        fail!("more than was written");
    }
    Res::Ok(ins.len() > 3)
}

pub fn c26() -> Check {
    Check {
        id: "C26",
        suites: vec![
            Suite {
                name: "bytes",
                quick: 256,
                thorough: 256,
                f: c26_bytes,
                rule: "every byte; all non-trivial",
            },
            Suite {
                name: "cursor",
                quick: 1_200_000,
                thorough: 8_000_000,
                f: c26_cursor,
                rule: "reads and movements over random bytes, with long code for far movements; non-trivial with a movement and three steps",
            },
            Suite {
                name: "programs",
                quick: 320_000,
                thorough: 2_000_000,
                f: c26_programs,
                rule: "compiled and synthetic programs read instruction by instruction; non-trivial with more than three instructions",
            },
        ],
        assumptions: vec!["moving or reading outside of the code is not asked of the cursor"],
        probes: vec![],
    }
}
