//! Checks of what compiled programs compute: the reference interpreter on the tree against the
//! reference machine on the compiled code.

use std::collections::BTreeSet;
use std::rc::Rc;

use crate::ast::*;
use crate::genscale::{Scale, Topic};
use crate::gensem::*;
use crate::genwild::{Taste, Wild};
use crate::gentmpl::TG;
use crate::interp::Tree;
use crate::respell::respell;
use crate::rt::*;
use crate::runner::{Check, Cx, Res, Suite};
use crate::tape::Tape;
use crate::util;
use crate::vm::Vm;

pub const FUEL: u64 = 20_000;

pub struct Program {
    pub items: Vec<N>,
    pub text: String,
    /// Modules by path.
    pub modules: Vec<(String, Vec<N>, String)>,
    pub module: bool,
}

impl Program {
    pub fn new(mut items: Vec<N>) -> Program {
        let text = pretty(&mut items);
        Program {
            items,
            text,
            modules: vec![],
            module: false,
        }
    }
    pub fn with_module(mut self, path: &str, mut items: Vec<N>) -> Program {
        let text = pretty(&mut items);
        self.modules.push((path.to_string(), items, text));
        self
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (p, _, t) in &self.modules {
            s.push_str(&format!("// ---- module {}\n{}\n", p, t));
        }
        if !self.modules.is_empty() {
            s.push_str("// ---- main\n");
        }
        s.push_str(&self.text);
        s
    }
}

pub enum Ran {
    Skip(&'static str),
    /// The outcome both agree on.
    Same(Outcome),
    Differ(String),
}

fn show_outcome(o: &Outcome) -> String {
    let end = match &o.end {
        Ok(v) => format!("value {}", v),
        Err(Ex::Err(c)) => format!("run-time error {}", c),
        Err(e) => format!("{:?}", e),
    };
    let mut log = o.log.clone();
    if log.len() > 60 {
        log.truncate(60);
        log.push("...".into());
    }
    format!("{}; effects [{}]", end, log.join(", "))
}

/// What the program means, by the reference interpreter.
pub fn expected(p: &Program, fuel: u64) -> Result<(Outcome, u64), &'static str> {
    let mut tree = Tree::new(FUEL);
    if tree.load_prelude().is_err() {
        return Err("frozen prelude");
    }
    tree.rt.fuel = fuel;
    for (path, items, _) in &p.modules {
        tree.modules.insert(path.clone(), Rc::new(items.clone()));
    }
    let export = if p.module { Some(tree.rt.exports()) } else { None };
    let r = tree.run(&p.items, export.clone());
    match r {
        Err(Ex::Fuel) => return Err("too long"),
        Err(Ex::Skip(why)) => return Err(why),
        Err(Ex::Fault(m)) => panic!("reference interpreter fault: {}", m),
        _ => {}
    }
    let used = fuel - tree.rt.fuel;
    let r = match (r, export) {
        (Ok(_), Some(x)) => Ok(x),
        (r, _) => r,
    };
    let o = outcome(&mut tree.rt, r);
    Ok((o, used))
}

/// Compiles and runs the program on the reference machine.
pub fn actual(p: &Program, fuel: u64) -> Result<Outcome, String> {
    let code = match util::compile(&p.text, p.module) {
        Err(m) => return Err(format!("compiler panic: {}", m)),
        Ok(Err(e)) => return Err(format!("valid program rejected with {}:\n{}", e.error_code(), util::debug(&e))),
        Ok(Ok(c)) => c,
    };
    let mut vm = Vm::new(1_000_000);
    if let Err(e) = vm.load_prelude() {
        return Err(format!("the prelude does not run: {:?}", e));
    }
    vm.rt.fuel = fuel;
    for (path, _, text) in &p.modules {
        vm.sources.insert(path.clone(), text.clone());
    }
    let export = if p.module { Some(vm.rt.exports()) } else { None };
    let r = vm.run(&code, export.clone());
    let r = match (r, export) {
        (Ok(_), Some(x)) => Ok(x),
        (r, _) => r,
    };
    Ok(outcome(&mut vm.rt, r))
}

pub fn run_both(p: &Program, cx: &mut Cx) -> Ran {
    run_both_for(p, cx, FUEL)
}

pub fn run_both_for(p: &Program, cx: &mut Cx, fuel: u64) -> Ran {
    cx.text = p.show();
    let (want, used) = match expected(p, fuel) {
        Ok(x) => x,
        Err(why) => {
            cx.label(&format!("skipped: {}", why));
            return Ran::Skip(why);
        }
    };
    let got = match actual(p, 2_000 + used * 60) {
        Ok(g) => g,
        Err(m) => return Ran::Differ(m),
    };
    match &got.end {
        Err(Ex::Fault(m)) => return Ran::Differ(format!("machine fault: {}\nexpected {}", m, show_outcome(&want))),
        Err(Ex::Fuel) => {
            return Ran::Differ(format!("does not end:\nexpected {}\nbut got  {}", show_outcome(&want), show_outcome(&got)))
        }
        Err(Ex::Skip(why)) => {
            cx.label(&format!("skipped: {}", why));
            return Ran::Skip(why);
        }
        _ => {}
    }
    if got != want {
        let what = match (&got.end, &want.end) {
            (Ok(_), Err(_)) | (Err(_), Ok(_)) => "different end",
            (Err(_), Err(_)) if got.end != want.end => "different error",
            _ if got.log == want.log => "different value",
            _ => "different effects",
        };
        return Ran::Differ(format!(
            "{}:\nexpected {}\nbut got  {}",
            what,
            show_outcome(&want),
            show_outcome(&got)
        ));
    }
    cx.label(match &want.end {
        Ok(_) => "ends with a value",
        Err(Ex::Err(c)) => c,
        _ => "other",
    });
    Ran::Same(want)
}

/// Which constructs a program has.
pub fn features(items: &[N]) -> BTreeSet<&'static str> {
    let mut out = BTreeSet::new();
    for x in items.iter() {
        let mut x = x.clone();
        x.walk_mut(&mut |y| {
            out.insert(match &y.k {
                K::Lambda(..) => "lambda",
                K::Fn(f) => {
                    if f.ret.is_some() || f.params.iter().any(|p| p.ty.is_some()) {
                        "typed"
                    } else {
                        "fn"
                    }
                }
                K::Class(_, _, b, _) => {
                    if b.is_some() {
                        "derived"
                    } else {
                        "class"
                    }
                }
                K::SuperField(..) | K::SuperCall(..) => "super",
                K::OpDecl(..) => "op",
                K::While(..) => "while",
                K::Loop(..) => "loop",
                K::For(..) => "for",
                K::Break => "break",
                K::Continue => "continue",
                K::Return(..) => "return",
                K::ErrProp(..) => "propagate",
                K::ErrOr(..) => "or-error",
                K::NullProp(..) => "null chain",
                K::Is(..) => "is",
                K::Assign(..) => "assign",
                K::If(..) => "if",
                K::Export(..) => "export",
                K::Import(..) => "import",
                K::Index(..) => "index",
                K::Bin(Op::And, ..) | K::Bin(Op::Or, ..) => "logic",
                K::Bin(Op::Coalesce, ..) => "coalesce",
                K::Bin(Op::Pipeline, ..) => "pipeline",
                _ => "other",
            });
            if let K::Lambda(ps, _) = &y.k {
                if ps.iter().any(|p| p.ty.is_some()) {
                    out.insert("typed");
                }
            }
        });
    }
    out
}

fn judge(p: Program, cx: &mut Cx, need: &[&str]) -> Res {
    let f = features(&p.items);
    match run_both(&p, cx) {
        Ran::Skip(_) => Res::Discard,
        Ran::Differ(m) => Res::Fail(m),
        Ran::Same(o) => {
            if cx.strict {
                // What is abandoned must be off the stack when a function returns.
                if let Ok(Ok(code)) = util::compile(&p.text, p.module) {
                    if let Err(m) = crate::verify::verify(&code, p.module, crate::verify::STACK) {
                        return Res::Fail(m);
                    }
                }
            }
            for x in &f {
                cx.label(&format!("has {}", x));
            }
            let relevant = need.is_empty() || need.iter().any(|n| f.contains(n));
            Res::Ok(relevant && (o.log.len() >= 2 || o.end.is_err() || f.len() >= 3))
        }
    }
}

fn generated(t: &mut Tape, cx: &mut Cx, cfg: Cfg, need: &[&str]) -> Res {
    let mut items = Gen::new(t, cfg).program();
    respell(t, &mut [&mut items]);
    judge(Program::new(items), cx, need)
}

fn general(t: &mut Tape, cx: &mut Cx) -> Res {
    generated(t, cx, Cfg::general(), &[])
}


macro_rules! template {
    ($name:ident, $method:ident) => {
        fn $name(t: &mut Tape, cx: &mut Cx) -> Res {
            let mut items = TG::new(t).$method();
            respell(t, &mut [&mut items]);
            judge(Program::new(items), cx, &[])
        }
    };
}
template!(c15_operators, operators);
template!(c16_captures, captures);
template!(c17_classes, classes);
template!(c18_logic, logic);
template!(c27_types, types);
template!(c28_prelude, prelude);
template!(c19_loops, loops);
template!(early_exits_case, early_exits);
fn c20_exits(t: &mut Tape, cx: &mut Cx) -> Res {
    cx.strict = true;
    early_exits_case(t, cx)
}

fn c23_modules(t: &mut Tape, cx: &mut Cx) -> Res {
    let (mods, main) = TG::new(t).modules();
    modules(t, cx, mods, main)
}
fn modules(t: &mut Tape, cx: &mut Cx, mut mods: Vec<(String, Vec<N>)>, mut main: Vec<N>) -> Res {
    {
        let mut all: Vec<&mut Vec<N>> = mods.iter_mut().map(|m| &mut m.1).collect();
        all.push(&mut main);
        respell(t, &mut all);
    }
    let p = if t.chance(1, 4) {
        // The last module itself.
        let (_, items) = mods.pop().unwrap();
        let mut p = Program::new(items);
        p.module = true;
        p
    } else {
        let mut p = Program::new(main);
        p.module = t.bool();
        p
    };
    let p = mods.into_iter().fold(p, |p, (path, items)| p.with_module(&path, items));
    judge(p, cx, &[])
}

fn c23_general(t: &mut Tape, cx: &mut Cx) -> Res {
    let cfg = Cfg {
        exports: true,
        ..Cfg::general()
    };
    let mut items = Gen::new(t, cfg).program();
    respell(t, &mut [&mut items]);
    let mut p = Program::new(items);
    p.module = true;
    judge(p, cx, &["export"])
}

/// Exports put anywhere: accepted exactly at the top of a module.
fn c23_places(t: &mut Tape, cx: &mut Cx) -> Res {
    let (mut items, module) = if t.bool() {
        let (mut mods, main) = TG::new(t).modules();
        if t.bool() {
            (mods.pop().unwrap().1, true)
        } else {
            (main, true)
        }
    } else {
        let (items, _) = crate::checks_code::meaningful(t, cx);
        (items, true)
    };
    let module = module && !t.chance(1, 8);
    for _ in 0..t.range(1, 2) {
        let at = crate::perturb::add_export(t, &mut items);
        cx.label(if at == 0 { "put at the top" } else { "put inside" });
    }
    let v = crate::statics::violations(&items, module);
    if v.iter().any(|v| !v.codes.contains(&"E2504")) {
        // Breaks other rules too.
        return Res::Discard;
    }
    crate::checks_static::c21_judge(items, module, cx)
}

fn suite(name: &'static str, quick: usize, thorough: usize, f: crate::runner::CaseFn, rule: &'static str) -> Suite {
    Suite {
        name,
        quick,
        thorough,
        f,
        rule,
    }
}

const GENERAL: &str = "programs of all constructs; non-trivial with two effects, an error or three kinds of construct";
const ASSUME: &[&str] = &["the reference interpreter states the documented meaning of the language; the reference machine that of its instructions"];

fn check(id: &'static str, suites: Vec<Suite>) -> Check {
    Check {
        id,
        suites,
        assumptions: ASSUME.to_vec(),
        probes: vec![],
    }
}

fn focus(t: &mut Tape, cx: &mut Cx, cfg: Cfg, need: &[&str]) -> Res {
    generated(t, cx, cfg, need)
}
fn c15_plain(t: &mut Tape, cx: &mut Cx) -> Res {
    let depth = t.range(3, 6);
    let cfg = Cfg {
        depth,
        objects: 6,
        emit: 6,
        ..Cfg::plain()
    };
    focus(t, cx, cfg, &[])
}
fn c16_general(t: &mut Tape, cx: &mut Cx) -> Res {
    let cfg = Cfg {
        closures: 10,
        shadow: 6,
        classes: 1,
        ..Cfg::general()
    };
    focus(t, cx, cfg, &["lambda", "fn"])
}
fn c17_general(t: &mut Tape, cx: &mut Cx) -> Res {
    let cfg = Cfg {
        classes: 14,
        ops: 2,
        closures: 2,
        loops: 2,
        stmts: 7,
        ..Cfg::general()
    };
    focus(t, cx, cfg, &["class", "derived"])
}
fn c18_general(t: &mut Tape, cx: &mut Cx) -> Res {
    let cfg = Cfg {
        logic: 8,
        nulls: 8,
        results: 6,
        emit: 8,
        ..Cfg::general()
    };
    focus(t, cx, cfg, &["null chain", "logic", "coalesce", "pipeline", "or-error", "propagate"])
}
fn c19_general(t: &mut Tape, cx: &mut Cx) -> Res {
    let cfg = Cfg {
        loops: 10,
        exits: 4,
        depth: 5,
        ..Cfg::general()
    };
    focus(t, cx, cfg, &["for", "while", "loop"])
}
fn c20_grafted(t: &mut Tape, cx: &mut Cx) -> Res {
    cx.strict = true;
    grafted(t, cx)
}
fn c20_general(t: &mut Tape, cx: &mut Cx) -> Res {
    cx.strict = true;
    let cfg = Cfg {
        exits: 8,
        loops: 6,
        results: 4,
        closures: 4,
        ..Cfg::general()
    };
    focus(t, cx, cfg, &["break", "continue", "return", "propagate"])
}
fn c27_general(t: &mut Tape, cx: &mut Cx) -> Res {
    let cfg = Cfg {
        types: 10,
        closures: 8,
        classes: 4,
        errors: 4,
        ..Cfg::general()
    };
    focus(t, cx, cfg, &["typed", "is"])
}
fn c28_general(t: &mut Tape, cx: &mut Cx) -> Res {
    let cfg = Cfg {
        results: 10,
        loops: 8,
        ..Cfg::general()
    };
    focus(t, cx, cfg, &["or-error", "propagate", "for"])
}
/// Programs with exits and closures put into any expression of theirs.
fn grafted(t: &mut Tape, cx: &mut Cx) -> Res {
    let (items, module) = crate::checks_code::meaningful(t, cx);
    grafted_onto(t, cx, items, module)
}
macro_rules! grafted {
    ($name:ident, $template:ident) => {
        fn $name(t: &mut Tape, cx: &mut Cx) -> Res {
            let mut items = TG::new(t).$template();
            respell(t, &mut [&mut items]);
            grafted_onto(t, cx, items, false)
        }
    };
}
grafted!(c17_grafted, classes);
grafted!(c18_grafted, logic);
grafted!(c19_grafted, loops);
grafted!(c27_grafted, types);
grafted!(c28_grafted, prelude);
fn grafted_onto(t: &mut Tape, cx: &mut Cx, mut items: Vec<N>, module: bool) -> Res {
    let k = t.range(1, 3);
    crate::checks_code::graft(t, &mut items, k);
    let mut all = crate::checks_code::graft_prelude(t);
    all.extend(items);
    let g = n(K::For("g9".into(), Box::new(id("gs")), Box::new(block(vec![emit(call(id("g9"), vec![]))]))));
    let last = all.len() - 1;
    all.insert(last, g);
    let items = all;
    if !crate::statics::violations(&items, module).is_empty() {
        return Res::Discard;
    }
    let mut p = Program::new(items);
    p.module = module;
    judge(p, cx, &[])
}

/// Programs with copies of their expressions at other places of them.
fn crossed(t: &mut Tape, cx: &mut Cx) -> Res {
    let (items, module) = crate::checks_code::meaningful(t, cx);
    crossed_onto(t, cx, items, module)
}
macro_rules! crossed {
    ($name:ident, $template:ident) => {
        fn $name(t: &mut Tape, cx: &mut Cx) -> Res {
            let mut items = TG::new(t).$template();
            respell(t, &mut [&mut items]);
            crossed_onto(t, cx, items, false)
        }
    };
}
crossed!(c16_crossed, captures);
crossed!(c17_crossed, classes);
crossed!(c18_crossed, logic);
crossed!(c19_crossed, loops);
crossed!(c20_crossed, early_exits);
crossed!(c27_crossed, types);
crossed!(c28_crossed, prelude);
fn crossed_onto(t: &mut Tape, cx: &mut Cx, mut items: Vec<N>, module: bool) -> Res {
    // A copy that makes the program invalid is put somewhere else.
    let mut done = 0;
    for _ in 0..6 {
        let mut tried = items.clone();
        crate::checks_code::cross(t, &mut tried, 1);
        let mut all = vec![let_("xs", true, n(K::Null))];
        all.extend(tried.iter().cloned());
        if crate::statics::violations(&all, module).is_empty() && !crate::checks_code::shadows_annotation(&all) {
            items = tried;
            done += 1;
            if t.chance(1, 3) {
                break;
            }
        }
    }
    if done == 0 {
        return Res::Discard;
    }
    cx.label(&format!("crossed {}", done));
    items.insert(0, let_("xs", true, n(K::Null)));
    let mut p = Program::new(items);
    p.module = module;
    judge(p, cx, &[])
}

fn wild(t: &mut Tape, cx: &mut Cx, taste: Taste) -> Res {
    let mut items = Wild::new(t, taste).program();
    if !crate::statics::violations(&items, false).is_empty() {
        return Res::Discard;
    }
    respell(t, &mut [&mut items]);
    judge(Program::new(items), cx, &[])
}
fn c15_wild(t: &mut Tape, cx: &mut Cx) -> Res {
    wild(t, cx, Taste::Any)
}
fn c17_wild(t: &mut Tape, cx: &mut Cx) -> Res {
    wild(t, cx, Taste::Objects)
}
fn c18_wild(t: &mut Tape, cx: &mut Cx) -> Res {
    wild(t, cx, Taste::Logic)
}
fn c20_wild(t: &mut Tape, cx: &mut Cx) -> Res {
    cx.strict = true;
    wild(t, cx, Taste::Exits)
}

/// One construct many times over.
fn scaled(t: &mut Tape, cx: &mut Cx, topic: Topic) -> Res {
    let mut items = Scale::new(t).program(topic);
    respell(t, &mut [&mut items]);
    judge(Program::new(items), cx, &[])
}
macro_rules! scaled {
    ($name:ident, $topic:ident) => {
        fn $name(t: &mut Tape, cx: &mut Cx) -> Res {
            scaled(t, cx, Topic::$topic)
        }
    };
}
scaled!(c15_scaled, Values);
scaled!(c16_scaled, Captures);
scaled!(c17_scaled, Classes);
scaled!(c18_scaled, Logic);
scaled!(c19_scaled, Loops);
scaled!(c27_scaled, Types);
scaled!(c28_scaled, Prelude);
fn c20_scaled(t: &mut Tape, cx: &mut Cx) -> Res {
    cx.strict = true;
    scaled(t, cx, Topic::Exits)
}
fn c23_scaled(t: &mut Tape, cx: &mut Cx) -> Res {
    let (mods, main) = Scale::new(t).modules();
    modules(t, cx, mods, main)
}

const SCALED: &str = "one construct repeated or nested up to hundreds of times, every order of magnitude as likely, with everything it computes observed; non-trivial with two effects, an error or three kinds of construct";
const WILD: &str = "small programs that combine any constructs with values of any type, most of them ending in a run-time error; non-trivial with two effects, an error or three kinds of construct";
const CROSSED: &str = "programs with copies of their expressions at other places of them, as operands of any kind; non-trivial as above";
const FOCUS: &str = "programs of all constructs with more of those in question; non-trivial when they have one, with two effects, an error or three kinds of construct";
const GRAFTED: &str = "programs of every generator with exits, closures, loops and declarations put into one to three of their expressions; non-trivial with two effects, an error or three kinds of construct";

pub fn c15() -> Check {
    check(
        "C15",
        vec![
            suite("general", 80_000, 1_000_000, general, GENERAL),
            suite("plain", 80_000, 1_000_000, c15_plain, "deep expressions of values, variables, lists and objects; non-trivial as above"),
            suite("operators", 80_000, 1_000_000, c15_operators, "every operator on operands of every kind, overloaded or not, with like-looking constants; non-trivial with two effects, an error or three kinds of construct"),
            suite("wild", 100_000, 1_000_000, c15_wild, WILD),
            suite("grafted", 60_000, 1_000_000, grafted, GRAFTED),
            suite("crossed", 60_000, 1_000_000, crossed, CROSSED),
            suite("scaled", 16_000, 300_000, c15_scaled, SCALED),
        ],
    )
}
pub fn c16() -> Check {
    check(
        "C16",
        vec![
            suite("captures", 80_000, 1_000_000, c16_captures, "nested scopes, loops and functions with closures over their variables, left in every way; non-trivial with two effects, an error or three kinds of construct"),
            suite("general", 80_000, 1_000_000, c16_general, FOCUS),
            suite("grafted", 80_000, 1_000_000, grafted, GRAFTED),
            suite("crossed", 60_000, 1_000_000, c16_crossed, CROSSED),
            suite("scaled", 16_000, 300_000, c16_scaled, SCALED),
        ],
    )
}
pub fn c17() -> Check {
    check(
        "C17",
        vec![
            suite("classes", 120_000, 1_000_000, c17_classes, "hierarchies of one to four classes with overridden methods, super calls, operators and static members, and calls of them; non-trivial with two effects, an error or three kinds of construct"),
            suite("general", 120_000, 1_000_000, c17_general, FOCUS),
            suite("wild", 100_000, 1_000_000, c17_wild, WILD),
            suite("grafted", 60_000, 1_000_000, c17_grafted, GRAFTED),
            suite("crossed", 60_000, 1_000_000, c17_crossed, CROSSED),
            suite("scaled", 16_000, 300_000, c17_scaled, SCALED),
        ],
    )
}
pub fn c18() -> Check {
    check(
        "C18",
        vec![
            suite("logic", 120_000, 1_000_000, c18_logic, "nested logical operators, null chains, coalescing, pipelines, error propagation and handling, each operand with an effect; non-trivial with two effects, an error or three kinds of construct"),
            suite("general", 80_000, 1_000_000, c18_general, FOCUS),
            suite("wild", 100_000, 1_000_000, c18_wild, WILD),
            suite("grafted", 60_000, 1_000_000, c18_grafted, GRAFTED),
            suite("crossed", 60_000, 1_000_000, c18_crossed, CROSSED),
            suite("scaled", 16_000, 300_000, c18_scaled, SCALED),
        ],
    )
}
pub fn c19() -> Check {
    check(
        "C19",
        vec![
            suite("loops", 120_000, 1_000_000, c19_loops, "nested loops of every kind over ranges, lists and iterators, with break and continue; non-trivial with two effects, an error or three kinds of construct"),
            suite("general", 80_000, 1_000_000, c19_general, FOCUS),
            suite("grafted", 60_000, 1_000_000, c19_grafted, GRAFTED),
            suite("crossed", 60_000, 1_000_000, c19_crossed, CROSSED),
            suite("scaled", 16_000, 300_000, c19_scaled, SCALED),
        ],
    )
}
pub fn c20() -> Check {
    check(
        "C20",
        vec![
            suite("exits", 120_000, 1_000_000, c20_exits, "an exit nested in operand positions of an expression in a loop, function, method or constructor; non-trivial with two effects, an error or three kinds of construct"),
            suite("general", 80_000, 1_000_000, c20_general, FOCUS),
            suite("grafted", 80_000, 1_000_000, c20_grafted, GRAFTED),
            suite("wild", 100_000, 1_000_000, c20_wild, WILD),
            suite("crossed", 60_000, 1_000_000, c20_crossed, CROSSED),
            suite("scaled", 16_000, 300_000, c20_scaled, SCALED),
        ],
    )
}
pub fn c23() -> Check {
    check(
        "C23",
        vec![
            suite("modules", 80_000, 1_000_000, c23_modules, "one to three modules and a program that imports items and whole modules; non-trivial with two effects, an error or three kinds of construct"),
            suite("general", 60_000, 1_000_000, c23_general, "programs of all constructs with exports at their top; the exported values compared; non-trivial with an export"),
            suite("places", 80_000, 1_000_000, c23_places, "an export put at any place of a module or script, or an item turned into one; accepted exactly at the top of a module; non-trivial when valid or with one violation"),
            suite("scaled", 16_000, 300_000, c23_scaled, SCALED),
        ],
    )
}
pub fn c27() -> Check {
    check(
        "C27",
        vec![
            suite("types", 120_000, 1_000_000, c27_types, "functions, lambdas, methods and operators with annotated parameters and results, called with values of every type; non-trivial with two effects, an error or three kinds of construct"),
            suite("general", 80_000, 1_000_000, c27_general, FOCUS),
            suite("grafted", 60_000, 1_000_000, c27_grafted, GRAFTED),
            suite("crossed", 60_000, 1_000_000, c27_crossed, CROSSED),
            suite("scaled", 16_000, 300_000, c27_scaled, SCALED),
        ],
    )
}
pub fn c28() -> Check {
    check(
        "C28",
        vec![
            suite("prelude", 120_000, 1_000_000, c28_prelude, "ranges, iterators and results used in loops, by hand and through their methods; non-trivial with two effects, an error or three kinds of construct"),
            suite("general", 80_000, 1_000_000, c28_general, FOCUS),
            suite("grafted", 60_000, 1_000_000, c28_grafted, GRAFTED),
            suite("crossed", 60_000, 1_000_000, c28_crossed, CROSSED),
            suite("scaled", 16_000, 300_000, c28_scaled, SCALED),
        ],
    )
}
