//! Checks of what the compiler accepts and rejects, and where its errors point.

use crate::ast::*;
use crate::checks_code::*;
use crate::checks_syn::*;
use crate::gensyn::GS;
use crate::perturb::perturb;
use crate::runner::{Check, Cx, Res, Suite};
use crate::statics::{violations, Violation};
use crate::tape::Tape;
use crate::util::*;
use dice_core::source::{Source, SourceKind};

/// A program to judge: one with a meaning or any syntax, usually with some edits.
pub fn judged(t: &mut Tape, cx: &mut Cx, edits: usize) -> (Vec<N>, bool) {
    let (mut items, module) = if t.chance(1, 4) {
        let budget = t.range(3, 60) as isize;
        let depth = t.range(1, 6);
        cx.label("from syntax");
        (GS::new(t, budget).program(6, depth), t.bool())
    } else if t.chance(1, 6) {
        let (mut mods, main) = crate::gentmpl::TG::new(t).modules();
        if t.bool() {
            (mods.pop().unwrap().1, true)
        } else {
            (main, t.bool())
        }
    } else {
        meaningful(t, cx)
    };
    for _ in 0..edits {
        let what = perturb(t, &mut items);
        cx.label(&format!("edited: {}", what));
    }
    (items, if edits > 0 && t.chance(1, 10) { !module } else { module })
}

fn note(cx: &mut Cx, v: &[Violation]) {
    match v.len() {
        0 => cx.label("valid"),
        1 => {
            cx.label("one violation");
            cx.label(&format!("only {}", v[0].codes[0]));
        }
        _ => cx.label("several violations"),
    }
}

pub fn c21_judge(mut items: Vec<N>, module: bool, cx: &mut Cx) -> Res {
    let text = pretty(&mut items);
    cx.text = format!("{}{}", if module { "// (a module)\n" } else { "" }, text);
    let v = violations(&items, module);
    note(cx, &v);
    match compile(&text, module) {
        Err(p) => fail!("panic: {}", p),
        Ok(Ok(_)) if v.is_empty() => {}
        Ok(Ok(_)) => fail!("accepted although it breaks a rule: expected one of {:?}", codes(&v)),
        Ok(Err(e)) => {
            // Limits of the encoding are another property's business.
            if e.error_code().starts_with("E21") {
                return Res::Discard;
            }
            if v.is_empty() {
                fail!("valid program rejected: {}", debug(&e));
            }
            if !codes(&v).contains(&e.error_code()) {
                fail!("wrong code: expected one of {:?}, got {}", codes(&v), debug(&e));
            }
        }
    }
    let mut size = 0;
    for x in items.iter_mut() {
        size += x.count();
    }
    Res::Ok(v.len() == 1 || (v.is_empty() && size > 8))
}

fn codes(v: &[Violation]) -> Vec<&'static str> {
    let mut c: Vec<&str> = v.iter().flat_map(|v| v.codes.iter().copied()).collect();
    c.sort();
    c.dedup();
    c
}

fn c21_valid(t: &mut Tape, cx: &mut Cx) -> Res {
    let (items, module) = judged(t, cx, 0);
    c21_judge(items, module, cx)
}
fn c21_edited(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = t.range(1, 3);
    let (items, module) = judged(t, cx, k);
    c21_judge(items, module, cx)
}

fn c21_crossed(t: &mut Tape, cx: &mut Cx) -> Res {
    let (mut items, module) = meaningful(t, cx);
    let k = t.range(1, 3);
    cross(t, &mut items, k);
    items.insert(0, let_("xs", true, n(K::Null)));
    c21_judge(items, module, cx)
}

pub fn c21() -> Check {
    Check {
        id: "C21",
        suites: vec![
            Suite {
                name: "as generated",
                quick: 120_000,
                thorough: 2_000_000,
                f: c21_valid,
                rule: "programs of every generator (most of them valid) and of random syntax; verdict and code compared with the reference rules; non-trivial when valid with more than eight nodes, or with exactly one violation",
            },
            Suite {
                name: "edited",
                quick: 300_000,
                thorough: 6_000_000,
                f: c21_edited,
                rule: "the same programs with one to three edits of names, mutability, items, parameters, classes or exits; non-trivial as above",
            },
            Suite {
                name: "crossed",
                quick: 100_000,
                thorough: 3_000_000,
                f: c21_crossed,
                rule: "programs with copies of their expressions and items at other places of them; non-trivial as above",
            },
        ],
        assumptions: vec!["when a program breaks several rules, the code of any of them is right"],
        probes: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C09

fn c09_static(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = t.range(1, 2);
    let (items, module) = judged(t, cx, k);
    c09_places(t, cx, items, module)
}
fn c09_crossed(t: &mut Tape, cx: &mut Cx) -> Res {
    let (items, module) = meaningful(t, cx);
    for _ in 0..8 {
        let mut tried = items.clone();
        cross(t, &mut tried, 1);
        tried.insert(0, let_("xs", true, n(K::Null)));
        let v = violations(&tried, module).len();
        if v > 0 && v <= 3 {
            return c09_places(t, cx, tried, module);
        }
    }
    Res::Discard
}
fn c09_places(t: &mut Tape, cx: &mut Cx, mut items: Vec<N>, module: bool) -> Res {
    let mut p = if t.bool() { Printer::minimal() } else { Printer::styled(t, 10) };
    p.program(&mut items);
    let toks = p.toks;
    let text = lay_out(&toks, Layout::Random, t);
    cx.text = format!("{}{}", if module { "// (a module)\n" } else { "" }, text.text);
    let v = violations(&items, module);
    if v.is_empty() || v.len() > 3 {
        return Res::Discard;
    }
    note(cx, &v);
    let path = if t.bool() { Some("dir/é x.dice") } else { None };
    let kind = if module { SourceKind::Module } else { SourceKind::Script };
    let src = match path {
        Some(p) => Source::with_path(text.text.as_str(), p, kind),
        None => Source::new(text.text.as_str(), kind),
    };
    match compile_src(src) {
        Err(p) => fail!("panic: {}", p),
        // Whether it is rejected is another property's business.
        Ok(Ok(_)) => Res::Discard,
        Ok(Err(e)) => {
            if e.error_code().starts_with("E21") {
                return Res::Discard;
            }
            let mut why = String::new();
            for v in &v {
                let mut places = vec![(v.first, v.last)];
                if v.codes.len() > 1 {
                    // A function and a class of one name: either declaration is at fault.
                    for i in 1..toks.len() {
                        if toks[i].s == toks[v.first].s && matches!(toks[i - 1].s.as_str(), "fn" | "class") {
                            places.push((i, i));
                        }
                    }
                }
                for (first, last) in places {
                    let start = text.spans[first].0;
                    let end = text.spans[last].1;
                    match check_where(&e, &text.text, path, v.codes, start, Some(end)) {
                        None => return Res::Ok(start > 0),
                        Some(m) => {
                            why.push_str(&m);
                            why.push('\n');
                        }
                    }
                }
            }
            Res::Fail(why)
        }
    }
}

/// Programs that are within a limit but for one construct, which then is the offending place.
/// A program that is about at one of the compiler's limits, with and without the construct that
/// may go beyond it.
struct AtLimit {
    before: String,
    x: String,
    after: String,
    module: bool,
    codes: &'static [&'static str],
}

fn at_limit(t: &mut Tape) -> AtLimit {
    let mut before = String::new();
    let mut after = String::new();
    let mut module = t.chance(1, 4);
    let line = |t: &mut Tape, s: &mut String| match t.below(6) {
        0 => s.push_str(" // é❤\n"),
        1 => s.push_str("\n  "),
        2 => s.push(' '),
        _ => s.push('\n'),
    };
    if t.bool() {
        before.push_str("// über 😀\n");
    }
    // Where the construct is.
    let nests: &[(&str, &str)] = &[
        ("", ""),
        ("", ""),
        ("fn outer(a) {", "}"),
        ("let o = |a, b| {", "}"),
        ("class O { fn m(self, a) {", "} }"),
        ("class O { fn s(a) {", "} }"),
        ("class O { fn new(self) {", "} }"),
        ("class O { op +(self, b) {", "} }"),
        ("{", "}"),
        ("if true {", "} else { 0 }"),
        ("while true {", "}"),
        ("for i in 0..3 {", "}"),
    ];
    let (open, close) = *t.pick(nests);
    before.push_str(open);
    line(t, &mut before);
    let kind = *t.pick(&[0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5]);
    let top = open.is_empty();
    let codes: &'static [&'static str];
    let x: String;
    match kind {
        0 => {
            codes = &["E2102"];
            let k = 249 + t.below(8);
            let destructured = t.chance(1, 3);
            let mut i = 0;
            while i < k {
                if destructured && k - i > 4 {
                    before.push_str(&format!("let {{v{}, w{}, y{}}} = null", i, i, i));
                    i += 3;
                } else {
                    before.push_str(&format!("let v{} = 0", i));
                    i += 1;
                }
                line(t, &mut before);
            }
            let xs: &[&str] = &[
                "let last = 1",
                "let mut last = [1, 2]",
                "let {last} = null",
                "let {l1, l2, l3} = null",
                "for q in 0..1 { q }",
                "for q in 0..=v0 { let r = 1 }",
                "for q in v0 { }",
                "import {a} from \"m\"",
                "import {a, b, c} from \"m\"",
                "import * as m from \"m\"",
                "v0 or e { 1 }",
                "{ fn g() { 1 } }",
                "{ class K {} }",
                "{ class K : v0 { fn new(self) { super() } } }",
                "{ let p = 1 }",
                "if v0 { let p = 1 }",
                "while v0 { let p = 1 }",
                "{ fn g1() {} fn g2() {} class G3 {} }",
            ];
            x = t.pick(xs).to_string();
        }
        1 => {
            codes = &["E2101"];
            let k = 253 + t.below(4);
            for i in 0..k {
                match t.below(3) {
                    0 => before.push_str(&format!("\"s{}\"", i)),
                    1 => before.push_str(&format!("{}.5", i + 1)),
                    _ => before.push_str(&format!("{}", i + 2)),
                }
                line(t, &mut before);
            }
            let xs: &[&str] = &[
                "\"last\"",
                "99999",
                "0.125",
                "undeclared_last",
                "fn last() { 1 }",
                "class Last {}",
                "let last = || 1",
                "0 is Last",
                "#{last: 1}",
                "true.last",
                "true.last = 1",
                "true.last += 1",
                "import {last} from \"m\"",
                "import * as m from \"last\"",
                "op %(a, b) { 1 }",
                "for q in true { }",
                "let {last} = null",
                "true or e { 1 }",
                "true |> last",
                "[\"last\"]",
            ];
            x = t.pick(xs).to_string();
        }
        2 => {
            codes = &["E2103"];
            let k = 255 + t.below(3);
            let items = vec!["0"; k].join(if t.bool() { ", " } else { ",\n" });
            x = match t.below(3) {
                0 => format!("[{}]", items),
                1 => format!("let x = [{}]", items),
                _ => format!("true.f([{}])", items),
            };
        }
        3 => {
            codes = &["E1005"];
            let k = 254 + t.below(4);
            let join = if t.bool() { ", " } else { ",\n" };
            let args = vec!["0"; k].join(join);
            let params = (0..k).map(|i| format!("p{}", i)).collect::<Vec<_>>().join(join);
            x = match t.below(7) {
                0 => format!("true.f({})", args),
                1 => format!("fn last({}) {{ 1 }}", params),
                2 => format!("let l = |{}| 1", params),
                3 => format!("{{ class L {{ fn m(self, {}) {{ }} }} }}", params),
                4 => format!("{{ class L {{ fn s({}) {{ }} }} }}", params),
                5 => format!("{{ class L {{ op +(self, {}) {{ }} }} }}", params),
                _ => format!("let f = g({})", args),
            };
        }
        5 => {
            codes = &["E2104"];
            let body = format!("if p {{ {} }}", vec!["p"; 10_900 + t.below(60)].join(" "));
            x = match t.below(5) {
                0 => format!("fn last(p) {{ {} }}", body),
                1 => format!("let l = |p| {{ {} }}", body),
                2 => format!("{{ class L {{ fn m(self, p) {{ {} }} }} }}", body),
                3 => format!("op %(p, q) {{ {} }}", body),
                _ => format!("{{ class L {{ fn s(p) {{ {} }} }} }}", body),
            };
        }
        _ => {
            codes = &["E2100"];
            let k = 254 + t.below(4);
            let m = 100 + t.below(120);
            let names: Vec<String> = (0..k).map(|i| format!("v{}", i)).collect();
            for n in &names[..m] {
                before.push_str(&format!("let {} = 0", n));
                line(t, &mut before);
            }
            before.push_str("let inner = || {");
            line(t, &mut before);
            for n in &names[m..] {
                before.push_str(&format!("let {} = 0", n));
                line(t, &mut before);
            }
            let body = names.join(" ");
            x = match t.below(4) {
                0 => format!("let l = || {{ {} }}", body),
                1 => format!("fn l() {{ {} }}", body),
                2 => format!("{{ class L {{ fn m(self) {{ {} }} }} }}", body),
                _ => format!("[|| {{ {} }}]", body),
            };
            after.push_str("\n}");
        }
    }
    for _ in 0..t.below(3) {
        after.push_str("\n0");
    }
    after.push('\n');
    after.push_str(close);
    if x.contains("import") || x.starts_with("op ") || !top {
        // Allowed anywhere.
    } else if t.chance(1, 8) {
        module = true;
    }
    AtLimit { before, x, after, module, codes }
}

fn c02_limits(t: &mut Tape, cx: &mut Cx) -> Res {
    let l = at_limit(t);
    let text = format!("{}{}{}", l.before, l.x, l.after);
    total_compile(&text, l.module, cx)
}

fn c02_scaled(t: &mut Tape, cx: &mut Cx) -> Res {
    let topic = *t.pick(crate::genscale::TOPICS);
    let mut items = crate::genscale::Scale::new(t).program(topic);
    if t.chance(1, 3) {
        let k = t.range(1, 3);
        graft(t, &mut items, k);
    }
    let module = t.bool();
    total_compile(&pretty(&mut items), module, cx)
}

fn c09_limits(t: &mut Tape, cx: &mut Cx) -> Res {
    let AtLimit { before, x, after, module, codes } = at_limit(t);
    let without = format!("{}{}", before, after);
    let text = format!("{}{}{}", before, x, after);
    cx.text = format!("{}{}", if module { "// (a module)\n" } else { "" }, text);
    match compile(&without, module) {
        Ok(Ok(_)) => {}
        _ => return Res::Discard,
    }
    let e = match compile(&text, module) {
        Err(p) => fail!("panic: {}", p),
        Ok(Ok(_)) => return Res::Ok(false),
        Ok(Err(e)) => e,
    };
    if !codes.contains(&e.error_code()) {
        return Res::Discard;
    }
    cx.label(e.error_code());
    let Some((_, line, col)) = shown_position(&e) else {
        fail!("no position: {}", display(&e));
    };
    let range = before.len()..before.len() + x.len();
    if range.clone().any(|o| text.is_char_boundary(o) && position(&text, o) == (line, col)) {
        Res::Ok(true)
    } else {
        Res::Fail(format!(
            "the construct beyond the limit is at {:?} to {:?}, and the error points at {:?}\n{}",
            position(&text, range.start),
            position(&text, range.end),
            (line, col),
            display(&e)
        ))
    }
}

pub fn c09() -> Check {
    let mut suites = c09_syntax_suites();
    suites.push(Suite {
        name: "limits",
        quick: 12_000,
        thorough: 200_000,
        f: c09_limits,
        rule: "programs within a limit (locals, constants, list items, parameters, captures) but for one construct; the error must point inside of that construct; non-trivial when the limit is exceeded",
    });
    suites.push(Suite {
        name: "crossed",
        quick: 50_000,
        thorough: 1_500_000,
        f: c09_crossed,
        rule: "programs with a copy of one of their expressions or items at a place where it breaks one to three static rules, laid out and judged as below",
    });
    suites.push(Suite {
        name: "static rules",
        quick: 160_000,
        thorough: 3_000_000,
        f: c09_static,
        rule: "programs with one or two edits that break one to three static rules, laid out with comments and multi-byte text; code, position and excerpt must be those of a construct that breaks a rule; non-trivial when it is not at the start of the text",
    });
    Check {
        id: "C09",
        suites,
        assumptions: vec![
            "an unexpected end of the text has no offending token and is not judged",
            "when a program breaks several rules, any of them may be reported",
        ],
        probes: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C02

fn total_compile(text: &str, module: bool, cx: &mut Cx) -> Res {
    cx.text = format!("{}{}", if module { "// (a module)\n" } else { "" }, text);
    match compile(text, module) {
        Err(p) => fail!("panic: {}", p),
        Ok(Ok(code)) => {
            cx.label("compiled");
            Res::Ok(code.constants().len() > 0)
        }
        Ok(Err(e)) => {
            cx.label(e.error_code());
            if let Err(m) = check_error(&e) {
                fail!("error: {}", m);
            }
            if e.error_code() == "E2000" {
                fail!("internal compiler error: {}", debug(&e));
            }
            let _ = display(&e);
            Res::Ok(e.error_code().starts_with("E2"))
        }
    }
}

fn c02_text(t: &mut Tape, cx: &mut Cx) -> Res {
    let text = random_text(t, 24);
    total_compile(&text, t.bool(), cx)
}
fn c02_mutated(t: &mut Tape, cx: &mut Cx) -> Res {
    let text = mutated_text(t);
    total_compile(&text, t.bool(), cx)
}
fn c02_pieces(_: &mut Tape, cx: &mut Cx) -> Res {
    let (text, round, _) = fragment_point(cx.index);
    match round % 4 {
        0 => total_compile(&text, true, cx),
        1 => total_compile(&format!("let x = 1 let y = x fn f(z, A, B) {{ {} }}", text), false, cx),
        2 => total_compile(&format!("class B {{ fn new(self) {{ }} fn f(self, x, y, z) {{ {} }} }}", text), false, cx),
        _ => total_compile(&text, false, cx),
    }
}
fn c02_fragments(t: &mut Tape, cx: &mut Cx) -> Res {
    let text = fragment_text(t);
    total_compile(&text, t.bool(), cx)
}
fn c02_programs(t: &mut Tape, cx: &mut Cx) -> Res {
    let (text, module) = any_text(t, cx);
    total_compile(&text, module, cx)
}
fn c02_edited(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = t.range(1, 6);
    let (mut items, module) = judged(t, cx, k);
    if t.chance(1, 3) {
        let k = t.range(1, 3);
        graft(t, &mut items, k);
    }
    total_compile(&pretty(&mut items), module, cx)
}
fn c02_crossed(t: &mut Tape, cx: &mut Cx) -> Res {
    let (mut items, module) = meaningful(t, cx);
    let k = t.range(1, 4);
    cross(t, &mut items, k);
    items.insert(0, let_("xs", true, n(K::Null)));
    total_compile(&pretty(&mut items), module, cx)
}
fn c02_syntax(t: &mut Tape, cx: &mut Cx) -> Res {
    let (_, toks) = syn_program(t, 0);
    total_compile(&pretty_toks(&toks), t.bool(), cx)
}

pub fn c02() -> Check {
    let rule = "non-trivial when it compiles to code with constants or breaks a rule of the compiler";
    let suite = |name, quick, thorough, f| Suite {
        name,
        quick,
        thorough,
        f,
        rule,
    };
    Check {
        id: "C02",
        suites: vec![
            suite("programs", 60_000, 3_000_000, c02_programs),
            suite("edited programs", 100_000, 5_000_000, c02_edited),
            suite("crossed", 60_000, 3_000_000, c02_crossed),
            suite("random syntax", 60_000, 3_000_000, c02_syntax),
            suite("pieces", 340_000, 460_000, c02_pieces),
            suite("fragments", 80_000, 4_000_000, c02_fragments),
            suite("limits", 6_000, 200_000, c02_limits),
            suite("scaled", 6_000, 300_000, c02_scaled),
            suite("token edits", 80_000, 4_000_000, c02_mutated),
            suite("random text", 40_000, 2_000_000, c02_text),
        ],
        assumptions: vec!["nesting is bounded (very deep nesting is a known finding)"],
        probes: vec![("deep-nesting-compile", || deep_probe("compile"))],
    }
}
