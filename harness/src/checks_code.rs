//! Checks of the compiled code itself.

use crate::ast::*;
use crate::checks_sem::*;
use crate::checks_syn::{fail, join, mutate, mutated_text, random_text, syn_program};
use crate::gensem::*;
use crate::gentmpl::*;
use crate::genwild::{Taste, Wild};
use crate::runner::{Check, Cx, Res, Suite};
use crate::tape::Tape;
use crate::util;
use crate::verify;
use dice_bytecode::Bytecode;

const PRELUDE: &str = include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/data/scripts/prelude.dm"));
const SAMPLE: &str = include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/data/scripts/test.dm"));

/// A program with a meaning, of any of the generators; and whether it is a module.
pub fn meaningful(t: &mut Tape, cx: &mut Cx) -> (Vec<N>, bool) {
    if t.chance(1, 60) {
        cx.label("from scaled");
        let topic = *t.pick(crate::genscale::TOPICS);
        let mut items = crate::genscale::Scale::new(t).program(topic);
        let module = t.chance(1, 6);
        crate::respell::respell(t, &mut [&mut items]);
        return (items, module);
    }
    let which = t.below(13);
    cx.label(&format!(
        "from {}",
        ["general", "general", "general", "module", "plain", "captures", "exits", "loops", "classes", "logic", "types", "prelude", "wild"][which]
    ));
    let mut items = match which {
        0 | 1 | 2 => Gen::new(t, Cfg::general()).program(),
        3 => {
            let cfg = Cfg {
                exports: true,
                ..Cfg::general()
            };
            let mut items = Gen::new(t, cfg).program();
            crate::respell::respell(t, &mut [&mut items]);
            return (items, true);
        }
        4 => Gen::new(t, Cfg::plain()).program(),
        5 => TG::new(t).captures(),
        6 => TG::new(t).early_exits(),
        7 => TG::new(t).loops(),
        8 => TG::new(t).classes(),
        9 => TG::new(t).logic(),
        10 => TG::new(t).types(),
        11 => TG::new(t).prelude(),
        _ => {
            let taste = *t.pick(&[Taste::Any, Taste::Logic, Taste::Exits, Taste::Objects]);
            let items = Wild::new(t, taste).program();
            match crate::statics::violations(&items, false).is_empty() {
                true => items,
                false => vec![n(K::Unit)],
            }
        }
    };
    let module = t.chance(1, 6);
    crate::respell::respell(t, &mut [&mut items]);
    (items, module)
}

/// Source text of any kind, most of it compiling.
pub fn any_text(t: &mut Tape, cx: &mut Cx) -> (String, bool) {
    match t.below(10) {
        0..=5 => {
            let (mut items, module) = meaningful(t, cx);
            (pretty(&mut items), module)
        }
        6 => {
            let (mut mods, main) = TG::new(t).modules();
            let (mut items, module) = if t.bool() { (mods.pop().unwrap().1, true) } else { (main, t.bool()) };
            (pretty(&mut items), module)
        }
        7 => {
            cx.label("from syntax");
            let (_, toks) = syn_program(t, 0);
            (pretty_toks(&toks), t.bool())
        }
        8 => {
            cx.label("from edits");
            let (mut items, module) = meaningful(t, cx);
            let mut p = Printer::minimal();
            p.program(&mut items);
            let mut toks = p.toks;
            let k = t.range(1, 2);
            mutate(t, &mut toks, k);
            (join(t, &toks), module)
        }
        _ => {
            cx.label("from samples");
            let text = if t.bool() { PRELUDE } else { SAMPLE };
            let toks = crate::lex::lex(text);
            let mut toks: Vec<crate::lex::Tok> = toks
                .iter()
                .map(|l| crate::lex::Tok {
                    k: l.k.clone(),
                    s: text[l.start..l.end].to_string(),
                })
                .collect();
            let k = t.below(3);
            mutate(t, &mut toks, k);
            (join(t, &toks), t.bool())
        }
    }
}

fn checked(t: &mut Tape, cx: &mut Cx, what: u8) -> Res {
    let (text, module) = any_text(t, cx);
    verify_text(text, module, cx, what)
}

fn verify_text(text: String, module: bool, cx: &mut Cx, what: u8) -> Res {
    cx.text = format!("{}{}", if module { "// (a module)\n" } else { "" }, text);
    match util::compile(&text, module) {
        // Another property's business.
        Err(_) => Res::Discard,
        Ok(Err(_)) => {
            cx.label("does not compile");
            Res::Ok(false)
        }
        Ok(Ok(code)) => match verify::verify(&code, module, what) {
            Err(m) => fail!("{}", m),
            Ok(s) => {
                cx.label("verified");
                if s.jumps > 0 {
                    cx.label("with jumps");
                }
                if s.functions > 1 {
                    cx.label("with functions");
                }
                if s.captures > 0 {
                    cx.label("with captures");
                }
                if s.meets > 4 {
                    cx.label("paths meet at five points or more");
                }
                Res::Ok(if what == verify::STACK { s.meets > 0 } else { s.jumps > 0 || s.functions > 1 })
            }
        },
    }
}

fn c13_code(t: &mut Tape, cx: &mut Cx) -> Res {
    checked(t, cx, verify::FORM)
}
fn c14_code(t: &mut Tape, cx: &mut Cx) -> Res {
    checked(t, cx, verify::STACK)
}

pub fn c13() -> Check {
    Check {
        id: "C13",
        suites: vec![Suite {
            name: "code",
            quick: 80_000,
            thorough: 2_000_000,
            f: c13_code,
            rule: "programs of every generator, of random syntax, and with token edits; non-trivial when the code has a jump or a nested function",
        }, Suite {
            name: "grafted",
            quick: 160_000,
            thorough: 2_000_000,
            f: c13_grafted,
            rule: "programs with one to five expressions replaced by ones that leave early, end a null chain or open scopes with captured variables; non-trivial as above",
        }],
        assumptions: vec![],
        probes: vec![],
    }
}
pub fn c14() -> Check {
    Check {
        id: "C14",
        suites: vec![Suite {
            name: "code",
            quick: 80_000,
            thorough: 2_000_000,
            f: c14_code,
            rule: "programs of every generator, of random syntax, and with token edits; non-trivial when paths meet",
        }, Suite {
            name: "grafted",
            quick: 160_000,
            thorough: 2_000_000,
            f: c14_grafted,
            rule: "programs with one to five expressions replaced by ones that leave early, end a null chain or open scopes with captured variables; non-trivial as above",
        }],
        assumptions: vec![],
        probes: vec![],
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum In {
    Root,
    Fn,
    Ctor,
}

/// Visits every expression that may be replaced by another one, with the loops and function around.
pub fn expressions(x: &mut N, at: In, loops: usize, fixed: bool, f: &mut dyn FnMut(&mut N, In, usize)) {
    match &mut x.k {
        K::Lambda(_, b) => expressions(b, In::Fn, 0, matches!(b.k, K::Block(_)), f),
        K::Fn(d) => {
            let ctor = d.name == "new" && d.params.first().map_or(false, |p| p.name == "self");
            expressions(&mut d.body, if ctor { In::Ctor } else { In::Fn }, 0, true, f)
        }
        K::OpDecl(_, _, _, b) => expressions(b, In::Fn, 0, true, f),
        K::Loop(b) => expressions(b, at, loops + 1, true, f),
        K::While(c, b) => {
            expressions(c, at, loops + 1, false, f);
            expressions(b, at, loops + 1, true, f);
        }
        K::For(_, s, b) => {
            expressions(s, at, loops, false, f);
            expressions(b, at, loops + 1, true, f);
        }
        K::If(c, a, b) => {
            expressions(c, at, loops, false, f);
            expressions(a, at, loops, true, f);
            if let Some(b) = b {
                expressions(b, at, loops, true, f);
            }
        }
        K::ErrOr(a, _, b) => {
            expressions(a, at, loops, false, f);
            expressions(b, at, loops, true, f);
        }
        K::Assign(_, t, v) => {
            match &mut t.k {
                K::Field(o, _) => expressions(o, at, loops, false, f),
                K::Index(o, i) => {
                    expressions(o, at, loops, false, f);
                    expressions(i, at, loops, false, f);
                }
                _ => {}
            }
            expressions(v, at, loops, false, f);
        }
        K::Export(b) => {
            if !matches!(b.k, K::Ident(_)) {
                expressions(b, at, loops, true, f)
            }
        }
        K::Class(_, _, b, items) => {
            if let Some(b) = b {
                expressions(b, at, loops, true, f)
            }
            for i in items {
                expressions(i, at, loops, true, f)
            }
        }
        _ => x.children_mut(&mut |c| expressions(c, at, loops, false, f)),
    }
    if !fixed && !is_statement(&x.k) && !matches!(x.k, K::Raw(_)) {
        f(x, at, loops);
    }
}

/// Replaces some expressions by ones that may leave in the middle.
pub fn graft(t: &mut Tape, items: &mut Vec<N>, count: usize) {
    for _ in 0..count {
        let mut root = block(std::mem::take(items));
        let mut total = 0;
        expressions(&mut root, In::Root, 0, true, &mut |_, _, _| total += 1);
        if total > 0 {
            let k = t.below(total);
            let mut i = 0;
            expressions(&mut root, In::Root, 0, true, &mut |x, at, loops| {
                if i == k {
                    let old = std::mem::replace(x, n(K::Unit));
                    *x = disturbed(t, old, at, loops);
                }
                i += 1;
            });
        }
        let K::Block(v) = root.k else { unreachable!() };
        *items = v;
    }
}

/// What the expressions put in by `graft` need.
pub fn graft_prelude(t: &mut Tape) -> Vec<N> {
    let k = t.range(1, 6);
    vec![
        let_("it", false, list(vec![int(1), int(2)])),
        let_("gl", false, list((0..k).map(|_| boolean(t.bool())).collect())),
        let_("gs", false, list(vec![])),
    ]
}

/// A result around the value, good or not as the next of the answers says.
fn result_of(t: &mut Tape, x: N, cond: N) -> N {
    match t.below(5) {
        0 => call(id("Ok"), vec![x]),
        1 => call(id("Err"), vec![x]),
        2 => block(vec![iff(cond, vec![call(id("Err"), vec![x.clone()])], Some(vec![call(id("Ok"), vec![x])]))]),
        3 => block(vec![let_("g4", false, x), iff(cond, vec![call(id("Err"), vec![id("g4")])], Some(vec![call(id("Ok"), vec![id("g4")])]))]),
        _ => x,
    }
}

fn disturbed(t: &mut Tape, x: N, at: In, loops: usize) -> N {
    let cond = bin(Op::Coalesce, call(field(id("gl"), "pop"), vec![]), boolean(t.chance(1, 4)));
    let keep = |name: &str| call(field(id("gs"), "push"), vec![lambda(&[], id(name))]);
    let mut c: Vec<usize> = vec![0, 1];
    if loops > 0 {
        c.extend([2, 3, 2, 3]);
    }
    match at {
        In::Fn => c.extend([4, 5, 4, 5]),
        In::Ctor => c.push(6),
        In::Root => {}
    }
    let exit = match *t.pick(&c) {
        0 => {
            return match t.below(4) {
                0 => n(K::NullProp(Box::new(x))),
                1 => n(K::NullProp(Box::new(block(vec![iff(cond, vec![null()], Some(vec![x]))])))),
                2 => bin(Op::Coalesce, field(n(K::NullProp(Box::new(block(vec![iff(cond, vec![null()], Some(vec![id("it")]))])))), "zz"), x),
                _ => index(list(vec![int(1), x]), int(1)),
            }
        }
        1 => {
            let i = t.below(10);
            return match i {
                4 => block(vec![let_("g5", t.bool(), x)]),
                5 => call(block(vec![fn_decl("g6", vec![], None, vec![x])]), vec![]),
                6 => call(lambda(&[], x), vec![]),
                7 => call(lambda(&["g7"], id("g7")), vec![x]),
                8 => call(field(block(vec![class_("G8", None, vec![fn_decl("s", vec![], None, vec![x])])]), "s"), vec![]),
                9 => match t.below(4) {
                    0 => {
                        let op = *t.pick(&[Op::Rem, Op::Div, Op::Mul]);
                        block(vec![n(K::OpDecl(op, ps(&["l", "r"]), None, Box::new(block(vec![x]))))])
                    }
                    1 => block(vec![x, n(K::Unit)]),
                    2 => block(vec![for_("g9", list(vec![x]), vec![keep("g9")])]),
                    _ => n(K::Is(Box::new(x), Ty::new("Int", t.bool()))),
                },
                0 => block(vec![let_("g1", true, int(5)), keep("g1"), x]),
                1 => {
                    let r = result_of(t, x, cond);
                    or_(r, "e", vec![keep("e"), id("e")])
                }
                2 => block(vec![let_("g1", false, x), keep("g1"), id("g1")]),
                _ => block(vec![for_("g2", id("it"), vec![keep("g2"), iff(cond, vec![brk()], None)]), x]),
            };
        }
        2 => brk(),
        3 => cont(),
        4 => ret(x.clone()),
        5 => {
            let r = result_of(t, x, cond);
            return prop(r);
        }
        _ => block(vec![n(K::Return(None))]),
    };
    match t.below(7) {
        0 => block(vec![exit]),
        1 => block(vec![iff(cond, vec![exit], Some(vec![x]))]),
        2 => block(vec![let_("g1", true, int(5)), keep("g1"), iff(cond, vec![exit], None), x]),
        3 => block(vec![iff(cond, vec![x], Some(vec![exit]))]),
        4 => block(vec![exit, x]),
        5 => block(vec![let_("g1", false, x), keep("g1"), iff(cond, vec![let_("g3", false, int(1)), keep("g3"), exit], None), id("g1")]),
        _ => block(vec![for_("g2", id("it"), vec![n(K::Continue)]), iff(cond, vec![let_("g3", false, int(1)), exit], None), x]),
    }
}

fn grafted(t: &mut Tape, cx: &mut Cx, what: u8) -> Res {
    let (mut items, module) = meaningful(t, cx);
    let k = t.range(1, 5);
    if t.chance(1, 3) {
        cx.label("crossed");
        cross(t, &mut items, k);
    } else {
        graft(t, &mut items, k);
    }
    verify_text(pretty(&mut items), module, cx, what)
}
fn c13_grafted(t: &mut Tape, cx: &mut Cx) -> Res {
    grafted(t, cx, verify::FORM)
}
fn c14_grafted(t: &mut Tape, cx: &mut Cx) -> Res {
    grafted(t, cx, verify::STACK)
}

fn blocks(x: &mut N, f: &mut dyn FnMut(&mut Vec<N>)) {
    if let K::Block(v) = &mut x.k {
        f(v);
    }
    x.children_mut(&mut |c| blocks(c, f));
}

/// Puts a copy of an item of some block into another one.
fn cross_item(t: &mut Tape, root: &mut N) {
    let mut found: Vec<N> = Vec::new();
    let mut places = 0;
    blocks(root, &mut |v| {
        found.extend(v.iter().filter(|x| !matches!(x.k, K::Return(None))).cloned());
        places += v.len() + 1;
    });
    if found.is_empty() {
        return;
    }
    let donor = found.swap_remove(t.below(found.len()));
    let k = t.below(places);
    let mut i = 0;
    let mut donor = Some(donor);
    blocks(root, &mut |v| {
        if k >= i && k <= i + v.len() {
            if let Some(d) = donor.take() {
                let mut at = k - i;
                if at == v.len() && matches!(v.last().map(|x| &x.k), Some(K::Return(None))) {
                    at -= 1;
                }
                v.insert(at, d);
            }
        }
        i += v.len() + 1;
    });
}

/// Puts copies of expressions and items of the program at other places of it.
pub fn cross(t: &mut Tape, items: &mut Vec<N>, count: usize) {
    for _ in 0..count {
        if t.chance(1, 4) {
            let mut root = block(std::mem::take(items));
            cross_item(t, &mut root);
            let K::Block(v) = root.k else { unreachable!() };
            *items = v;
            continue;
        }
        let mut root = block(std::mem::take(items));
        let mut found: Vec<N> = Vec::new();
        expressions(&mut root, In::Root, 0, true, &mut |x, _, _| found.push(x.clone()));
        if !found.is_empty() {
            let k = t.below(found.len());
            // Most names are declared before.
            let d = if t.chance(3, 4) { t.below(k + 1) } else { t.below(found.len()) };
            let donor = found.swap_remove(d);
            let mut i = 0;
            expressions(&mut root, In::Root, 0, true, &mut |x, _, _| {
                if i == k {
                    let old = std::mem::replace(x, n(K::Unit));
                    *x = combined(t, old, donor.clone());
                }
                i += 1;
            });
        }
        let K::Block(v) = root.k else { unreachable!() };
        *items = v;
    }
}

fn combined(t: &mut Tape, old: N, donor: N) -> N {
    match t.below(12) {
        0 => index(list(vec![old, donor]), int(t.below(2) as i64)),
        1 => bin(Op::Coalesce, donor, old),
        2 => block(vec![let_("x1", false, donor), old]),
        3 => call(lambda(&["x2"], old), vec![donor]),
        4 => block(vec![iff(bin(*t.pick(&[Op::Eq, Op::Ne]), old.clone(), donor.clone()), vec![donor], Some(vec![old]))]),
        5 => block(vec![assign(AOp::Set, id("xs"), donor), old]),
        _ => donor,
    }
}

/// Whether a name in an annotation of a function is declared more than once: which one is meant is not judged.
pub fn shadows_annotation(items: &[N]) -> bool {
    fn walk(x: &mut N, tys: &mut Vec<String>, names: &mut Vec<String>) {
        let mut take = |ps: &[Param], r: Option<&Ty>| {
            tys.extend(ps.iter().filter_map(|p| p.ty.as_ref()).chain(r).map(|t| t.name.clone()));
        };
        match &x.k {
            K::Lambda(ps, _) => take(ps, None),
            K::OpDecl(_, ps, r, _) => take(ps, r.as_ref()),
            K::Fn(d) => {
                take(&d.params, d.ret.as_ref());
                names.push(d.name.clone());
            }
            K::Let(v, ..) => names.extend(v.iter().cloned()),
            K::Class(name, ..) => names.push(name.clone()),
            K::For(name, ..) => names.push(name.clone()),
            _ => {}
        }
        x.children_mut(&mut |c| walk(c, tys, names));
    }
    let (mut tys, mut names) = (Vec::new(), Vec::new());
    walk(&mut block(items.to_vec()), &mut tys, &mut names);
    tys.iter().any(|t| names.iter().filter(|n| *n == t).count() > 1)
}
