//! Runs the cases of a file and prints what they give.
#![allow(dead_code)]
mod ast;
mod interp;
mod rt;
mod tree;
mod util;
mod vm;

use rt::*;

fn show(o: Outcome) -> String {
    let end = match &o.end {
        Ok(v) => format!("value {}", v),
        Err(Ex::Err(c)) => format!("run-time error {}", c),
        Err(e) => format!("{:?}", e),
    };
    format!("{}; effects [{}]", end, o.log.join(", "))
}

fn run(text: &str, module: bool, others: &[(String, String)]) -> String {
    let code = match util::compile(text, module) {
        Err(_) => return "compiler panic".into(),
        Ok(Err(e)) => return format!("rejected: {}", util::debug(&e)),
        Ok(Ok(c)) => c,
    };
    let mut m = vm::Vm::new(100_000);
    if m.load_prelude().is_err() {
        return "prelude fails".into();
    }
    for (p, t) in others {
        m.sources.insert(p.clone(), t.clone());
    }
    let export = if module { Some(m.rt.exports()) } else { None };
    let r = m.run(&code, export.clone());
    let r = match (r, export) {
        (Ok(_), Some(x)) => Ok(x),
        (r, _) => r,
    };
    show(outcome(&mut m.rt, r))
}

/// Nodes of the tree (addresses left out): kinds and spans in source order.
fn spans(text: &str) -> String {
    let s = util::source(text, false);
    let t = match std::panic::catch_unwind(|| dice_syntax::Parser::new(&s).parse()) {
        Err(_) => return "parser panic".into(),
        Ok(Err(e)) => return format!("rejected: {}", util::debug(&e)),
        Ok(Ok(t)) => t,
    };
    let root = t.get(t.root()).span();
    let mut out = format!("root {}..{}", root.start, root.end);
    if let dice_syntax::SyntaxNode::Block(b) = t.get(t.root()) {
        for id in b.expressions.iter().chain(b.trailing_expression.iter()) {
            let sp = t.get(*id).span();
            out.push_str(&format!(", {}..{}", sp.start, sp.end));
        }
    }
    out
}

/// The whole tree, with spans.
fn whole(text: &str) -> String {
    let s = util::source(text, false);
    match std::panic::catch_unwind(|| dice_syntax::Parser::new(&s).parse()) {
        Err(_) => "parser panic".into(),
        Ok(Err(e)) => format!("rejected: {}", util::debug(&e)),
        Ok(Ok(t)) => format!("{:?}", tree::dump(&t)),
    }
}

/// Whether compiling again gives the same.
fn again(text: &str) -> String {
    // Functions have random identifiers.
    let once = || {
        let l = listing(text, false);
        l.lines().filter(|l| !l.contains("CREATE_") && l.contains(" | ")).collect::<Vec<_>>().join("\n")
    };
    let first = once();
    if (0..30).all(|_| once() == first) { "always the same".into() } else { "differs".into() }
}

fn listing(text: &str, module: bool) -> String {
    match util::compile(text, module) {
        Err(_) => "compiler panic".into(),
        Ok(Err(e)) => format!("rejected: {}", util::debug(&e)),
        Ok(Ok(c)) => format!("{}", c),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut others: Vec<(String, String)> = vec![];
    for (i, case) in file.split("=== ").skip(1).enumerate() {
        let (head, text) = case.split_once('\n').unwrap();
        let text = text.strip_suffix('\n').unwrap_or(text);
        let (mode, arg) = head.split_once(' ').unwrap_or((head, ""));
        let out = match mode {
            "source" => {
                others.push((arg.to_string(), text.to_string()));
                continue;
            }
            "run" => run(text, false, &others),
            "module" => run(text, true, &others),
            "spans" => spans(text),
            "tree" => whole(text),
            "again" => again(text),
            "listing" => listing(text, false),
            _ => panic!("mode"),
        };
        println!("{}: {}", i, out);
    }
}
