//! Checks of the lexer, the parser and positions.

use crate::ast::*;
use crate::gensyn::*;
use crate::lex::{lex, Tok, TK};
use crate::refparse;
use crate::runner::{Check, Cx, Res, Suite};
use crate::tape::Tape;
use crate::tree;
use crate::util::*;
use dice_core::source::LineIndex;
use dice_core::span::Span;

macro_rules! fail {
    ($($a:tt)*) => { return Res::Fail(format!($($a)*)) };
}
pub(crate) use fail;

pub fn random_text(t: &mut Tape, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..t.below(max + 1) {
        match t.below(12) {
            0..=2 => s.push_str(&junk_token(t).s),
            3 => s.push_str(t.pick(&[" ", "\n", "\t", "\r\n", "\r", "\u{c}"])),
            4 => s.push_str(t.pick(&["\"", "\\", "//", "/", "'", "\\\"", "\"\\", "\\n", "\\x"])),
            5 => s.push_str(t.pick(&["1.", ".5", "1.2.3", "0x1F", "1e5", "99999999999999999999", "..=", "...", "?.", "||", "|>"])),
            6 => s.push_str(t.pick(&["}", "{", "(", ")", "[", "]", "#{", "|", "let x = ", "fn f(", "class A {", "-> "])),
            7 => s.push(char::from_u32(t.below(0x80) as u32).unwrap()),
            8 => s.push(char::from_u32(t.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
            _ => {
                s.push_str(t.pick(NAMES));
                s.push(' ')
            }
        }
    }
    s
}

/// A well-formed program and its tokens.
pub fn syn_program(t: &mut Tape, style: usize) -> (Vec<N>, Vec<Tok>) {
    let budget = t.range(3, 70) as isize;
    let depth = t.range(1, 6);
    let mut items = GS::new(t, budget).program(6, depth);
    if t.chance(1, 60) {
        stretch(t, &mut items);
    }
    let mut p = Printer::minimal();
    p.program(&mut items);
    if style == 0 {
        return (items, p.toks);
    }
    let mut p = Printer::styled(t, style);
    p.program(&mut items);
    let toks = p.toks;
    (items, toks)
}

pub fn mutate(t: &mut Tape, toks: &mut Vec<Tok>, count: usize) {
    for _ in 0..count {
        let len = toks.len();
        match t.below(9) {
            8 => {
                let i = t.below(len + 1);
                let f = t.pick(FRAGMENTS);
                for (o, x) in crate::lex::lex(f).into_iter().enumerate() {
                    toks.insert(i + o, Tok { k: x.k, s: f[x.start..x.end].to_string() });
                }
            }
            0 if len > 0 => {
                toks.remove(t.below(len));
            }
            1 if len > 0 => {
                let i = t.below(len);
                let x = toks[i].clone();
                toks.insert(i, x);
            }
            2 if len > 1 => {
                let i = t.below(len - 1);
                toks.swap(i, i + 1);
            }
            3 if len > 0 => {
                let i = t.below(len);
                toks[i] = junk_token(t);
            }
            4 if len > 1 => {
                let i = t.below(len);
                let j = t.range(i, len.min(i + 6) - 1);
                toks.drain(i..=j);
            }
            5 if len > 1 => {
                let i = t.below(len);
                let j = t.range(i, len.min(i + 5) - 1);
                let c: Vec<Tok> = toks[i..=j].to_vec();
                let k = t.below(len + 1);
                for (o, x) in c.into_iter().enumerate() {
                    toks.insert(k + o, x);
                }
            }
            6 if len > 0 => {
                let i = t.below(len);
                toks.truncate(i + 1);
            }
            _ => {
                let i = t.below(len + 1);
                let j = junk_token(t);
                toks.insert(i, j);
            }
        }
    }
}

/// Writes tokens with spaces between them (adjacent ones that may touch sometimes do).
pub fn join(t: &mut Tape, toks: &[Tok]) -> String {
    let tight = t.bool();
    let mut s = String::new();
    for (i, x) in toks.iter().enumerate() {
        if i > 0 && !(tight && crate::lex::can_touch(&toks[i - 1], x)) {
            s.push(if t.chance(1, 6) { '\n' } else { ' ' });
        }
        s.push_str(&x.s);
    }
    s
}

// ---------------------------------------------------------------------------------------------
// C01

fn total_parse(text: &str, cx: &mut Cx) -> Res {
    cx.text = text.to_string();
    match parse(text) {
        Err(p) => fail!("panic: {}", p),
        Ok(Ok(tree)) => {
            cx.label("parsed");
            // The tree must be usable.
            let d = tree::dump(&tree);
            Res::Ok(d.len() > 3)
        }
        Ok(Err(e)) => {
            cx.label("rejected");
            cx.label(e.error_code());
            if let Err(m) = check_error(&e) {
                fail!("error: {}", m);
            }
            let _ = display(&e);
            Res::Ok(text.len() > 1)
        }
    }
}

fn c01_text(t: &mut Tape, cx: &mut Cx) -> Res {
    let s = random_text(t, 12);
    total_parse(&s, cx)
}

fn c01_mutated(t: &mut Tape, cx: &mut Cx) -> Res {
    let s = mutated_text(t);
    total_parse(&s, cx)
}

pub fn mutated_text(t: &mut Tape) -> String {
    let (_, mut toks) = syn_program(t, 0);
    let k = t.below(4);
    mutate(t, &mut toks, k);
    let mut s = join(t, &toks);
    // Character-level damage.
    for _ in 0..t.below(3) {
        let at: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
        let i = at[t.below(at.len())];
        match t.below(3) {
            0 => s.truncate(i),
            1 => s.insert_str(i, t.pick(&["\"", "\\", "//", "}", "{", "(", "é", "\u{0}", "|", "?", "!", "'", "await"])),
            _ => {
                if i < s.len() {
                    s.remove(i);
                }
            }
        }
    }
    s
}

/// All texts of up to three tokens from a vocabulary that covers every token kind.
fn vocabulary() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = Vec::new();
    v.extend(crate::lex::PUNCT);
    v.extend(crate::lex::KEYWORDS);
    v.extend(["await", "do", "a", "B", "0", "1.5", "\"s\"", "\\r\\", "@", "❤", "\"", "\\", "\"\\q\"", "99999999999999999999"]);
    v
}

fn c01_enum(_: &mut Tape, cx: &mut Cx) -> Res {
    let v = vocabulary();
    let k = v.len();
    let i = cx.index;
    let text = if i < k {
        v[i].to_string()
    } else if i < k + k * k {
        let j = i - k;
        format!("{} {}", v[j / k], v[j % k])
    } else {
        // Three tokens: spread over the space with a fixed stride.
        let total = k * k * k;
        let j = if cx.thorough { (i - k - k * k) % total } else { ((i - k - k * k) * 7919) % total };
        format!("{} {} {}", v[j / (k * k)], v[j / k % k], v[j % k])
    };
    total_parse(&text, cx)
}

/// Runs the reproduction of the known stack overflow in a process of its own.
pub fn deep_probe(what: &str) -> bool {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(exe)
        .arg("deep")
        .arg(what)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .unwrap();
    st.signal().is_some()
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        suites: vec![
            Suite {
                name: "enumerated",
                quick: 320_000,
                thorough: 700_000,
                f: c01_enum,
                rule: "texts of one, two and three tokens over a vocabulary with every token kind, reserved word, bad literal and junk character; non-trivial when longer than one byte or a tree was built",
            },
            Suite {
                name: "text",
                quick: 960_000,
                thorough: 3_000_000,
                f: c01_text,
                rule: "random concatenations of tokens, fragments, quotes, backslashes and arbitrary characters; non-trivial when longer than one byte",
            },
            Suite {
                name: "mutated",
                quick: 960_000,
                thorough: 3_000_000,
                f: c01_mutated,
                rule: "well-formed programs with token- and character-level damage; non-trivial when longer than one byte",
            },
        ],
        assumptions: vec![
            "nesting of generated texts is bounded; the stack overflow on deeply nested texts is a listed known finding",
            "non-termination is detected as an unbounded number of allocations or as 40 s of processor time for one case",
        ],
        probes: vec![("deep-nesting-parse", || deep_probe("parse"))],
    }
}

pub fn deep(what: &str) -> i32 {
    let text = format!("{}1{}", "(".repeat(60_000), ")".repeat(60_000));
    // As the command line tool would: on the default stack of a thread.
    let module = what == "compile";
    let text = if module {
        // Parses on a large stack, but compiles by recursion.
        format!("1{}", " + 1".repeat(200_000))
    } else {
        text
    };
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        if module {
            let _ = compile(&text, false);
        } else {
            let _ = parse(&text);
        }
    });
    h.unwrap().join().map(|_| 0).unwrap_or(1)
}

// ---------------------------------------------------------------------------------------------
// C03

fn c03_case(text: &str, cx: &mut Cx) -> Res {
    cx.text = text.to_string();
    let r = refparse::parse(text);
    let p = match parse(text) {
        Err(p) => fail!("panic: {}", p),
        Ok(p) => p,
    };
    match (p, r) {
        (Ok(tree), Ok(reference)) => {
            cx.label("both accept");
            let e = dump_root(&reference.items, &reference.spans);
            if let Some(d) = diff_dump(&e, &tree::dump(&tree), false) {
                fail!("tokens lost or moved: {}", d);
            }
            Res::Ok(reference.spans.len() >= 4)
        }
        (Ok(_), Err((e, toks))) => {
            fail!(
                "accepted although a token has no place in the tree: token {:?} {:?}",
                e.tok,
                e.tok.map(|i| text[toks[i].start..toks[i].end].to_string())
            )
        }
        (Err(_), Ok(_)) => {
            cx.label("only the reference accepts");
            Res::Discard
        }
        (Err(_), Err(_)) => {
            cx.label("both reject");
            Res::Ok(false)
        }
    }
}

/// Every construct of the grammar, as small as it gets.
const CONSTRUCTS: &[&str] = &[
    "x", "1", "\"s\"", "null", "( x )", "( )", "[ ]", "[ x ]", "[ x , y ]", "# { }", "# { a : x }", "# { \"a\" : x , b : y }", "{ }", "{ x }",
    "{ x y }", "# { 1 : y }", "f ( )", "f ( x )", "f ( x , y )", "f \\r\\", "x [ y ]", "x ? [ y ]", "x . y", "x ?. y", "x ?. y . z",
    "- x", "! x", "x ?", "x !!", "x + y", "x - y", "x * y", "x / y", "x % y", "x == y", "x != y", "x < y", "x <= y", "x > y", "x >= y",
    "x && y", "x || y", "x ?? y", "x or e { y }", "x |> f", "x .. y", "x ..= y", "x is T", "x is not T", "x is T ?", "x = y", "x += y",
    "x -= y", "x *= y", "x /= y", "x . y = z", "x [ y ] = z", "let x = y", "let mut x = y", "let x = y",
    "let { a } = x", "let mut { a , b } = x", "if x { }", "if x { y } else { z }", "if x { } else if y { }", "if x { } else if y { } else { }",
    "while x { }", "while x { y }", "loop { }", "loop { break }", "for x in y { }",
    "fn f ( ) { }", "fn f ( x ) { y }", "fn f ( x , y : T ) -> U { z }", "fn f ( ) -> T ? { }", "| x | y", "|| x", "| x , y : T | { z }",
    "|| { x }", "class A { }", "class A : B { }", "class A { fn f ( ) { } op == ( self , x ) { y } }", "class A { fn f ( self ) { } }",
    "class A { fn f ( x ) -> T { y } }", "class A : B { fn new ( self ) { super ( ) } }", "class A { op + ( self , x ) { y } }", "op + ( x , y ) { z }",
    "op + ( x , y ) -> T { z }", "class A { op .. ( self , x ) -> T { y } }", "op .. ( x ) { y }", "op ..= ( x ) { y }", "op == ( self , x ) { y }",
    "op - ( x ) { y }", "super . f ( )", "super [ A ] . f", "super ( x )", "export x", "export let x = y", "export fn f ( ) { }",
    "export class A { }", "import { a } from \"m\"", "import { a , b } from \"m\"", "import * as m from \"m\"",
    "import * as m , { a } from \"m\"", "return x", "{ return }", "break x", "loop { continue }", "break", "continue", "return",
];

/// Pieces of constructs, to be put where they do not belong.
const FRAGMENTS: &[&str] = &[
    "else { }", "else", "else if x { }", "{ }", "( )", "[ ]", "# { }", "x", ", x", ",", ": T", ": T ?", "-> T", "-> T ?", "= x", "?", "? ?", "!!", ". x",
    "?. x", "( x )", "[ x ]", "? [ x ]", "\\r\\", "mut", "self", "self ,", "x ,", "x :", "x = ", "let", "fn", "fn f ( ) { }", "class", "class A { }",
    "export", "import", "from \"m\"", "as x", "* as x", "in x", "for", "for x in y", "while x", "if x", "loop", "is T", "is not", "not", "or e { }", "or",
    "|> x", "|>", ".. x", "..= x", "..", "+ x", "+", "- x", "* x", "== x", "< x", "&& x", "|| x", "?? x", "= x = y", "+= x", "| x |", "||", "|",
    "return", "break", "continue", "return x", "break x", "super", "super ( )", "super . x", "super [ A ]", ": B", ": B , C", "{ x = y }", "{ a }", "( x , )",
    "[ x , ]", "# { a : x , }", ";", "=>", "->", ":", ".", "#", "!", "-", "*", "1", "\"s\"", "null", "true", "operator", "operator + ( x , y ) { }", "async", "await",
    "new", "static", "_", "@", "}", "{", ")", "(", "]", "[",
];

/// One construct with one piece put in somewhere, or in place of a token, or with a token gone.
fn c03_fragments(_: &mut Tape, cx: &mut Cx) -> Res {
    let (text, whole, complete) = fragment_point(cx.index);
    if complete {
        cx.label("whole construct");
        if let Ok(Err(_)) = parse(&text) {
            cx.label("whole construct rejected");
        }
    }
    // A second round inside of braces, and a third with an item after it.
    let text = match whole % 3 {
        0 => text,
        1 => format!("{{ {} }}", text),
        _ => format!("{}\nx", text),
    };
    c03_case(&text, cx)
}

/// One construct with one edit by its number, the round, and whether nothing was edited.
pub fn fragment_point(index: usize) -> (String, usize, bool) {
    thread_local!(static POINTS: Vec<(usize, usize, usize, bool)> = {
        let mut v = Vec::new();
        for (c, text) in CONSTRUCTS.iter().enumerate() {
            let n = text.split(' ').count();
            for f in 0..=FRAGMENTS.len() {
                for at in 0..=n {
                    if f < FRAGMENTS.len() || at == n {
                        v.push((c, f, at, false));
                    }
                    if at < n {
                        v.push((c, f, at, true));
                    }
                }
            }
        }
        v
    });
    POINTS.with(|p| {
        let (c, f, at, replace) = p[index % p.len()];
        let mut toks: Vec<&str> = CONSTRUCTS[c].split(' ').collect();
        if replace {
            toks.remove(at);
        }
        if f < FRAGMENTS.len() {
            toks.insert(at, FRAGMENTS[f]);
        }
        (toks.join(" "), index / p.len(), f == FRAGMENTS.len() && !replace)
    })
}

/// The same texts for other checks.
pub fn fragment_text(t: &mut Tape) -> String {
    let mut toks: Vec<&str> = t.pick(CONSTRUCTS).split(' ').collect();
    for _ in 0..t.range(1, 2) {
        let at = t.below(toks.len() + 1);
        if at < toks.len() && t.bool() {
            toks.remove(at);
        }
        if !t.chance(1, 8) {
            for (i, x) in t.pick(FRAGMENTS).split(' ').enumerate() {
                toks.insert(at + i, x);
            }
        }
    }
    let s = toks.join(" ");
    match t.below(4) {
        0 => format!("{{ {} }}", s),
        1 => format!("{}\nx", s),
        2 => format!("fn outer(x, y, z, a, b, self) {{ {} }}", s),
        _ => s,
    }
}

fn c03_mutated(t: &mut Tape, cx: &mut Cx) -> Res {
    let (_, mut toks) = syn_program(t, 20);
    let k = t.below(3);
    mutate(t, &mut toks, k);
    let s = join(t, &toks);
    c03_case(&s, cx)
}

fn c03_soup(t: &mut Tape, cx: &mut Cx) -> Res {
    let k = t.below(9);
    let mut s = String::new();
    for _ in 0..k {
        s.push_str(&junk_token(t).s);
        s.push_str(t.pick(&[" ", " ", "\n", ""]));
    }
    c03_case(&s, cx)
}

fn c03_enum(_: &mut Tape, cx: &mut Cx) -> Res {
    let v = vocabulary();
    let k = v.len();
    let i = cx.index;
    let text = if i < k * k {
        format!("{} {}", v[i / k], v[i % k])
    } else if i < 3 * k * k {
        let j = i - k * k;
        // A complete program before and after two tokens.
        let (a, b) = (v[j % (k * k) / k], v[j % k]);
        if j < k * k {
            format!("x {} {}", a, b)
        } else {
            format!("{{ x {} }} {} y", a, b)
        }
    } else {
        let j = (i - 3 * k * k) * 7919 % (k * k * k);
        format!("{} {} {}", v[j / (k * k)], v[j / k % k], v[j % k])
    };
    c03_case(&text, cx)
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        suites: vec![
            Suite {
                name: "enumerated",
                quick: 400_000,
                thorough: 500_000,
                f: c03_enum,
                rule: "token sequences of length two to four over the vocabulary; non-trivial when both parsers accept at least four tokens",
            },
            Suite {
                name: "fragments",
                quick: 300_000,
                thorough: 400_000,
                f: c03_fragments,
                rule: "every construct with a piece of another put in at every place or in place of every token, then again within braces and before a further item; non-trivial when both parsers accept at least four tokens",
            },
            Suite {
                name: "mutated",
                quick: 960_000,
                thorough: 3_000_000,
                f: c03_mutated,
                rule: "well-formed programs with up to two token edits, compared with the reference parser; non-trivial when both accept at least four tokens",
            },
            Suite {
                name: "soup",
                quick: 960_000,
                thorough: 2_000_000,
                f: c03_soup,
                rule: "random token sequences; non-trivial when both parsers accept at least four tokens",
            },
        ],
        assumptions: vec!["the reference lexer and parser state the grammar"],
        probes: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C04, C05

fn expect_tree(items: &[N], toks: &[Tok], layout: Layout, t: &mut Tape, cx: &mut Cx, spans: bool) -> Option<String> {
    let text = lay_out(toks, layout, t);
    cx.text = text.text.clone();
    let expected = dump_root(items, &text.spans);
    match parse(&text.text) {
        Err(p) => Some(format!("panic: {}", p)),
        Ok(Err(e)) => Some(format!("rejected: {}", debug(&e))),
        Ok(Ok(tree)) => {
            let actual = tree::dump(&tree);
            diff_dump(&expected, &actual, spans).map(|d| {
                format!(
                    "{}\nexpected:\n{}actual:\n{}",
                    d,
                    show_dump(&expected),
                    show_dump(&actual)
                )
            })
        }
    }
}

fn ops_case(items: &mut Vec<N>, t: &mut Tape, cx: &mut Cx) -> Res {
    let mut p = Printer::minimal();
    p.program(items);
    let toks = p.toks;
    let layout = *t.pick(&[Layout::Spaced, Layout::Tight]);
    if let Some(m) = expect_tree(items, &toks, layout, t, cx, false) {
        fail!("minimal parentheses: {}", m);
    }
    let minimal = cx.text.clone();
    // Redundant parentheses change nothing.
    let mut p = Printer::styled(t, 35);
    p.program(items);
    let toks = p.toks;
    if let Some(m) = expect_tree(items, &toks, Layout::Spaced, t, cx, false) {
        fail!("redundant parentheses: {}", m);
    }
    cx.text = minimal;
    let mut ops = 0;
    for i in items.iter_mut() {
        i.walk_mut(&mut |x| {
            if matches!(
                x.k,
                K::Bin(..) | K::Is(..) | K::Neg(_) | K::Not(_) | K::NullProp(_) | K::ErrProp(_) | K::Call(..)
                    | K::Field(..) | K::Index(..) | K::Assign(..) | K::ErrOr(..)
            ) {
                ops += 1
            }
        });
    }
    Res::Ok(ops >= 2)
}

fn c04_random(t: &mut Tape, cx: &mut Cx) -> Res {
    let budget = t.range(2, 24) as isize;
    let depth = t.range(2, 6);
    let mut g = GS::new(t, budget);
    g.ops_only = true;
    let mut items = vec![g.expr(depth)];
    if t.chance(1, 60) {
        stretch(t, &mut items);
    }
    ops_case(&mut items, t, cx)
}

/// Operator sequences that nobody grouped: some of the pairs of parentheses are taken out.
fn c04_flattened(t: &mut Tape, cx: &mut Cx) -> Res {
    let budget = t.range(3, 24) as isize;
    let depth = t.range(2, 6);
    let mut g = GS::new(t, budget);
    g.ops_only = true;
    let mut items = vec![g.expr(depth)];
    if t.chance(1, 60) {
        stretch(t, &mut items);
    }
    if t.chance(1, 4) {
        // An assignment as an operand.
        let target = match t.below(3) {
            0 => id("v"),
            1 => field(id("v"), "f"),
            _ => n(K::Index(Box::new(id("v")), Box::new(int(1)))),
        };
        let op = *t.pick(&[AOp::Set, AOp::Add, AOp::Mul]);
        let x = items.pop().unwrap();
        let a = n(K::Assign(op, Box::new(target), Box::new(x)));
        let mut g = GS::new(t, 8);
        g.ops_only = true;
        let y = g.expr(2);
        let op = *t.pick(&ALL_OPS);
        items.push(match t.below(4) {
            0 => bin(op, y, a),
            1 => bin(op, a, y),
            2 => n(K::Neg(Box::new(a))),
            _ => n(K::Assign(AOp::Set, Box::new(id("w")), Box::new(bin(op, y, a)))),
        });
    }
    let mut p = Printer::minimal();
    p.program(&mut items);
    let toks = p.toks;
    let mut open = vec![];
    let mut pairs = vec![];
    for (i, x) in toks.iter().enumerate() {
        match x.s.as_str() {
            "(" => open.push(i),
            ")" => {
                if let Some(o) = open.pop() {
                    pairs.push((o, i));
                }
            }
            _ => {}
        }
    }
    if pairs.is_empty() {
        return Res::Discard;
    }
    let mut gone = std::collections::BTreeSet::new();
    for _ in 0..t.range(1, 3) {
        let (a, b) = *t.pick(&pairs);
        gone.insert(a);
        gone.insert(b);
    }
    let text = toks.iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|(_, x)| x.s.as_str()).collect::<Vec<_>>().join(" ");
    cx.text = text.clone();
    let p = match parse(&text) {
        Err(p) => fail!("panic: {}", p),
        Ok(p) => p,
    };
    match (p, refparse::parse(&text)) {
        (Ok(tree), Ok(reference)) => {
            cx.label("accepted");
            let e = dump_root(&reference.items, &reference.spans);
            if let Some(d) = diff_dump(&e, &tree::dump(&tree), false) {
                fail!("grouped otherwise: {}", d);
            }
            Res::Ok(reference.spans.len() >= 4)
        }
        (Ok(_), Err(_)) => fail!("accepted although an operand or operator has no place in it"),
        (Err(e), Ok(_)) => fail!("rejected: {}", debug(&e)),
        (Err(_), Err(_)) => {
            cx.label("rejected");
            Res::Ok(true)
        }
    }
}

/// One operator applied to operands: 17 binary, 2 prefix, 2 postfix, is, or, field, index, call,
/// compound assignments.
fn shape(k: usize, a: N, b: N) -> (N, usize) {
    let nb = ALL_OPS.len();
    if k < nb {
        return (bin(ALL_OPS[k], a, b), 2);
    }
    let a_ = Box::new(a);
    match k - nb {
        0 => (n(K::Neg(a_)), 1),
        1 => (n(K::Not(a_)), 1),
        2 => (n(K::NullProp(a_)), 1),
        3 => (n(K::ErrProp(a_)), 1),
        4 => (n(K::Is(a_, Ty::new("T", false))), 1),
        5 => (n(K::Is(a_, Ty::new("T", true))), 1),
        6 => (n(K::ErrOr(a_, "e".into(), Box::new(block(vec![b])))), 2),
        7 => (n(K::Field(a_, "f".into())), 1),
        8 => (n(K::Index(a_, Box::new(b))), 2),
        9 => (n(K::Call(a_, vec![b])), 2),
        10 => (n(K::Call(a_, vec![n(K::Raw("r".into()))])), 1),
        11 => (n(K::Lambda(vec![Param::new("p")], a_)), 1),
        12 => (set("v", *a_), 1),
        13 => (n(K::Assign(AOp::Sub, Box::new(field(*a_, "f")), Box::new(b))), 2),
        14 => (n(K::Assign(AOp::Mul, Box::new(n(K::Index(a_, Box::new(int(0))))), Box::new(b))), 2),
        15 => (n(K::Call(Box::new(field(*a_, "m")), vec![b])), 2),
        16 => (n(K::Field(Box::new(n(K::NullProp(a_))), "g".into())), 1),
        _ => (n(K::If(a_, Box::new(block(vec![b])), None)), 2),
    }
}
const SHAPES: usize = 17 + 18;

fn c04_enum(t: &mut Tape, cx: &mut Cx) -> Res {
    let i = cx.index;
    let (o1, o2, o3) = (i % SHAPES, i / SHAPES % SHAPES, i / SHAPES / SHAPES % SHAPES);
    let place = i / (SHAPES * SHAPES * SHAPES) % 4;
    let (x, _) = shape(o1, id("a"), id("b"));
    let (y, _) = shape(o2, id("c"), id("d"));
    let e = match place {
        0 => {
            let (l, _) = shape(o2, x, id("c"));
            shape(o3, l, id("d")).0
        }
        1 => {
            let (r, _) = shape(o2, id("c"), x);
            shape(o3, id("d"), r).0
        }
        2 => shape(o3, x, y).0,
        _ => {
            let (r, _) = shape(o2, x, id("c"));
            shape(o3, id("d"), r).0
        }
    };
    let mut items = vec![e];
    ops_case(&mut items, t, cx)
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        suites: vec![
            Suite {
                name: "triples",
                quick: SHAPES * SHAPES * SHAPES * 2,
                thorough: SHAPES * SHAPES * SHAPES * 4,
                f: c04_enum,
                rule: "every combination of three of 35 operator shapes in each nesting, printed with minimal and with redundant parentheses; non-trivial with two or more operators",
            },
            Suite {
                name: "random",
                quick: 640_000,
                thorough: 2_000_000,
                f: c04_random,
                rule: "random operator expressions; non-trivial with two or more operators",
            },
            Suite {
                name: "flattened",
                quick: 600_000,
                thorough: 2_000_000,
                f: c04_flattened,
                rule: "random operator expressions without some of the parentheses they need, against the reference parser; non-trivial when rejected or of at least four tokens",
            },
        ],
        assumptions: vec!["the precedence table of the printer states the language's"],
        probes: vec![],
    }
}

fn c05_random(t: &mut Tape, cx: &mut Cx) -> Res {
    let (items, toks) = syn_program(t, 15);
    let layout = *t.pick(&[Layout::Spaced, Layout::Tight]);
    if let Some(m) = expect_tree(&items, &toks, layout, t, cx, false) {
        fail!("{}", m);
    }
    Res::Ok(toks.len() >= 6)
}

/// Every statement form as the only, first or last item of the program, of a block, of a function.
fn c05_forms(t: &mut Tape, cx: &mut Cx) -> Res {
    let mut items = GS::new(t, 60).program(0, 3);
    let d = t.range(1, 4);
    let mut g = GS::new(t, 40);
    let x = g.item(d);
    let y = g.item(d);
    items.push(match g.t.below(6) {
        0 => block(vec![x]),
        1 => block(vec![x, y]),
        2 => n(K::Loop(Box::new(block(vec![x, y])))),
        3 => let_("v", true, block(vec![x, y])),
        4 => n(K::Lambda(vec![], Box::new(block(vec![x])))),
        _ => x,
    });
    if t.bool() {
        items.push(id("z"));
    }
    let mut p = Printer::minimal();
    p.program(&mut items);
    let toks = p.toks;
    if let Some(m) = expect_tree(&items, &toks, Layout::Spaced, t, cx, false) {
        fail!("{}", m);
    }
    Res::Ok(toks.len() >= 4)
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        suites: vec![
            Suite {
                name: "programs",
                quick: 960_000,
                thorough: 3_000_000,
                f: c05_random,
                rule: "random well-formed programs of all constructs, with optional commas and redundant parentheses; non-trivial from six tokens",
            },
            Suite {
                name: "forms",
                quick: 480_000,
                thorough: 1_000_000,
                f: c05_forms,
                rule: "single constructs in every kind of sequence; non-trivial from four tokens",
            },
        ],
        assumptions: vec!["nesting depth of generated programs is bounded"],
        probes: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C06, syntax side

fn c06_literals(t: &mut Tape, cx: &mut Cx) -> Res {
    // Literals in every position of a program.
    let k = t.range(1, 5);
    let mut items = Vec::new();
    for _ in 0..k {
        let lit = match t.below(6) {
            0 => gen_int(t),
            1 => gen_float(t),
            2 | 3 => gen_str(t, 8),
            4 => {
                let mut v = Vec::new();
                for _ in 0..t.below(4) {
                    let K::Str(sp, key) = gen_str(t, 4).k else { unreachable!() };
                    v.push((sp, key, gen_str(t, 3)));
                }
                n(K::Object(v))
            }
            _ => call(id("f"), vec![n(K::Raw(raw_text(t)))]),
        };
        items.push(let_("v", false, lit));
    }
    let mut p = Printer::minimal();
    p.program(&mut items);
    let toks = p.toks;
    if let Some(m) = expect_tree(&items, &toks, Layout::Spaced, t, cx, false) {
        fail!("{}", m);
    }
    Res::Ok(true)
}

/// Literals that must be rejected, wherever they stand.
fn c06_bad(t: &mut Tape, cx: &mut Cx) -> Res {
    let before = *t.pick(&["", "1 ", "let x = ", "f(", "[1, ", "#{a: ", "x + ", "{ ", "// c\n", "fn g() { "]);
    let (lit, codes): (String, Vec<&str>) = match t.below(5) {
        0 => {
            // One past the range, or far past it.
            let s = match t.below(4) {
                0 => "9223372036854775808".to_string(),
                1 => "18446744073709551616".to_string(),
                2 => format!("000{}", (i64::MAX as u128 + 1 + t.below(1000) as u128)),
                _ => {
                    let mut s = String::from("1");
                    for _ in 0..t.range(19, 60) {
                        s.push((b'0' + t.below(10) as u8) as char);
                    }
                    s
                }
            };
            (s, vec!["E1007"])
        }
        1 => {
            let K::Str(sp, _) = gen_str(t, 3).k else { unreachable!() };
            let bad = *t.pick(&["a", "0", "x41", "u{41}", "'", " ", "N", "é", "😀", "\n", "b", "$", "("]);
            (format!("{}\\{}\"", &sp[..sp.len() - 1], bad), vec!["E1001"])
        }
        2 => {
            let K::Str(sp, _) = gen_str(t, 3).k else { unreachable!() };
            (sp[..sp.len() - 1].to_string(), vec!["E1002"])
        }
        3 => {
            let K::Str(sp, _) = gen_str(t, 3).k else { unreachable!() };
            (format!("{}\\\"", &sp[..sp.len() - 1]), vec!["E1002"])
        }
        _ => {
            let r = raw_text(t);
            if before.is_empty() || before.ends_with("\n") || before.ends_with("{ ") {
                (format!("f \\{}", r), vec!["E1009"])
            } else {
                (format!("g \\{}", r), vec!["E1009"])
            }
        }
    };
    let tail = if codes[0] == "E1007" || codes[0] == "E1001" {
        *t.pick(&["", " ", "\n", " x"])
    } else {
        ""
    };
    let text = format!("{}{}{}", before, lit, tail);
    cx.text = text.clone();
    for module in [false, true] {
        match compile(&text, module) {
            Err(p) => fail!("panic: {}", p),
            Ok(Ok(_)) => fail!("accepted: a bad literal was compiled"),
            Ok(Err(e)) => {
                if !codes.contains(&e.error_code()) {
                    fail!("code: expected {:?}, got {}", codes, debug(&e));
                }
            }
        }
    }
    Res::Ok(true)
}

pub fn c06_syntax_suites() -> Vec<Suite> {
    vec![
        Suite {
            name: "literals",
            quick: 320_000,
            thorough: 2_000_000,
            f: c06_literals,
            rule: "literals with boundary values, long digit strings, escapes and multi-byte text, and the value in the tree; all non-trivial",
        },
        Suite {
            name: "bad",
            quick: 160_000,
            thorough: 500_000,
            f: c06_bad,
            rule: "out-of-range integers, unknown escapes and unterminated literals in any position must be rejected with their own code; all non-trivial",
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// C07, syntax side

/// The same tokens in several layouts: same structure or same rejection.
pub fn c07_structure(t: &mut Tape, cx: &mut Cx) -> Res {
    let (_, mut toks) = syn_program(t, 10);
    let k = t.below(8);
    if k < 2 {
        mutate(t, &mut toks, k);
    }
    if toks.windows(2).any(|w| lexes_into_neighbour(&w[0], &w[1])) {
        return Res::Discard;
    }
    let plain = lay_out(&toks, Layout::Spaced, &mut Tape::replay(vec![]));
    let other = if t.chance(1, 4) {
        lay_out(&toks, Layout::Tight, t)
    } else {
        lay_out(&toks, Layout::Random, t)
    };
    cx.text = format!("{}\n=== other layout\n{}", plain.text, other.text);
    match (parse(&plain.text), parse(&other.text)) {
        (Ok(Ok(a)), Ok(Ok(b))) => {
            cx.label("accepted");
            if let Some(d) = diff_dump(&tree::dump(&a), &tree::dump(&b), false) {
                fail!("layout changes the structure: {}", d);
            }
        }
        (Ok(Err(a)), Ok(Err(b))) => {
            cx.label("rejected");
            if a.error_code() != b.error_code() {
                fail!("layout changes the error: {} and {}", a.error_code(), b.error_code());
            }
        }
        (Ok(Ok(_)), Ok(Err(e))) => fail!("layout makes it rejected: {}", debug(&e)),
        (Ok(Err(e)), Ok(Ok(_))) => fail!("layout makes it accepted (otherwise {})", debug(&e)),
        (Err(p), _) | (_, Err(p)) => fail!("panic: {}", p),
    }
    Res::Ok(toks.len() >= 3)
}

/// Even with a space between them (an unterminated literal swallows what follows).
pub fn lexes_into_neighbour(a: &Tok, b: &Tok) -> bool {
    let text = format!("{} {}", a.s, b.s);
    let l = lex(&text);
    !(l.len() == 2 && l[0].k == a.k && l[1].k == b.k)
}

// ---------------------------------------------------------------------------------------------
// C08

fn c08_random(t: &mut Tape, cx: &mut Cx) -> Res {
    let (items, toks) = syn_program(t, 15);
    let layout = *t.pick(&[Layout::Random, Layout::Random, Layout::Tight, Layout::Spaced]);
    if let Some(m) = expect_tree(&items, &toks, layout, t, cx, true) {
        fail!("{}", m);
    }
    // Nesting and boundaries, for every node including synthesised ones.
    let text = cx.text.clone();
    if let Ok(Ok(tree)) = parse(&text) {
        let d = tree::dump(&tree);
        for i in &d {
            if let Some((a, b)) = i.span {
                if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
                    fail!("span: {:?} has {}..{}", i.label, a, b);
                }
            }
        }
    }
    Res::Ok(toks.len() >= 4 && !text.is_ascii())
}

fn c08_exprs(t: &mut Tape, cx: &mut Cx) -> Res {
    let budget = t.range(2, 30) as isize;
    let mut g = GS::new(t, budget);
    let mut items = vec![g.expr(5)];
    if t.chance(1, 60) {
        stretch(t, &mut items);
    }
    let mut p = Printer::minimal();
    p.program(&mut items);
    let mut p = Printer::styled(t, 30);
    p.program(&mut items);
    let toks = p.toks;
    if let Some(m) = expect_tree(&items, &toks, Layout::Random, t, cx, true) {
        fail!("{}", m);
    }
    Res::Ok(toks.len() >= 3)
}

pub fn c08() -> Check {
    Check {
        id: "C08",
        suites: vec![
            Suite {
                name: "programs",
                quick: 960_000,
                thorough: 2_000_000,
                f: c08_random,
                rule: "random programs in random layouts with comments and multi-byte characters; the span of every node is compared with the tokens it was printed as; non-trivial with multi-byte text and four or more tokens",
            },
            Suite {
                name: "expressions",
                quick: 480_000,
                thorough: 1_000_000,
                f: c08_exprs,
                rule: "single expressions with redundant parentheses in random layouts; non-trivial from three tokens",
            },
        ],
        assumptions: vec!["nodes the parser makes up when it lowers the `or` operator have no text of their own"],
        probes: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C09, syntax side

/// Checks what an error says about where it is: code, position, excerpt.
pub fn check_where(
    e: &dice_core::error::Error,
    text: &str,
    path: Option<&str>,
    codes: &[&str],
    start: usize,
    end: Option<usize>,
) -> Option<String> {
    if !codes.contains(&e.error_code()) {
        return Some(format!("code: expected {:?}, got {}", codes, debug(e)));
    }
    let (line, col) = position(text, start);
    let want = (path.unwrap_or("<Script>").to_string(), line, col);
    let got = shown_position(e);
    if got.as_ref() != Some(&want) {
        return Some(format!("position: expected {:?}, got {:?}", want, got));
    }
    // The excerpt.
    let lines = line_ranges(text);
    let shown = excerpt(&display(e));
    let first = lines.iter().position(|l| l.0 <= start && start < l.1);
    let Some(first) = first else { return None };
    // With a construct's end known, exactly its lines; otherwise at least the line it starts on.
    let expect = |r: (usize, usize), no: usize| (no + 1, text[r.0..r.1].trim_end().to_string());
    let n = match end {
        Some(end) => lines.iter().filter(|l| l.0 < end.max(start + 1) && l.1 > start).count(),
        None => shown.len().max(1),
    };
    let want: Vec<(usize, String)> = lines[first..(first + n).min(lines.len())]
        .iter()
        .enumerate()
        .map(|(i, r)| expect(*r, first + i))
        .collect();
    if shown != want {
        return Some(format!("excerpt: expected {:?}, got {:?}\n{}", want, shown, display(e)));
    }
    None
}

/// Lines of the source excerpt: number and text.
pub fn excerpt(d: &str) -> Vec<(usize, String)> {
    let mut out = Vec::new();
    let mut inside = false;
    // Excerpt lines end at line feeds only.
    for l in d.split('\n') {
        if l.trim_end() == "     |" {
            if inside {
                break;
            }
            inside = true;
            continue;
        }
        if inside {
            if let Some((no, rest)) = l.split_once(" | ") {
                if let Ok(no) = no.trim().parse::<usize>() {
                    out.push((no, rest.strip_prefix(' ').unwrap_or(rest).to_string()));
                    continue;
                }
            }
            if let Some(no) = l.trim_end().strip_suffix('|') {
                if let Ok(no) = no.trim().parse::<usize>() {
                    out.push((no, String::new()));
                    continue;
                }
            }
        }
    }
    out
}

fn c09_case(text: &str, cx: &mut Cx, t: &mut Tape) -> Res {
    cx.text = text.to_string();
    let Err((e, toks)) = refparse::parse(text) else {
        return Res::Discard;
    };
    let Some(i) = e.tok else {
        // At the end of the input there is no offending token.
        return Res::Discard;
    };
    let tok = &toks[i];
    let path = if t.bool() { Some("dir/é x.dice") } else { None };
    let module = t.bool();
    let kind = if module {
        dice_core::source::SourceKind::Module
    } else {
        dice_core::source::SourceKind::Script
    };
    let src = match path {
        Some(p) => dice_core::source::Source::with_path(text, p, kind),
        None => dice_core::source::Source::new(text, kind),
    };
    let end = match e.codes[0] {
        "E1005" => None,
        "E1001" | "E1002" | "E1009" => None,
        _ => Some(tok.end),
    };
    match parse_src(&src) {
        Err(p) => fail!("panic: {}", p),
        Ok(Ok(_)) => fail!("accepted although token {} is in error", i),
        Ok(Err(err)) => {
            if let Some(m) = check_where(&err, text, path, &e.codes, tok.start, end) {
                fail!("{}", m);
            }
            cx.label(err.error_code());
        }
    }
    // Compiling reports the same.
    match compile_src(src) {
        Err(p) => fail!("panic: {}", p),
        Ok(Ok(_)) => fail!("compiled although token {} is in error", i),
        Ok(Err(err)) => {
            if let Some(m) = check_where(&err, text, path, &e.codes, tok.start, end) {
                fail!("compile: {}", m);
            }
        }
    }
    Res::Ok(i > 0)
}

fn c09_token(t: &mut Tape, cx: &mut Cx) -> Res {
    let (_, mut toks) = syn_program(t, 0);
    if toks.is_empty() {
        return Res::Discard;
    }
    let i = t.below(toks.len());
    match t.below(4) {
        0 => toks[i] = junk_token(t),
        1 => {
            let j = junk_token(t);
            toks.insert(i, j)
        }
        2 => {
            toks.remove(i);
        }
        _ => {
            let s = t.pick(&["@", "await", "match", "❤", "$", ")", "]", "}", "else", "in", "->", "=>", "mut"]).to_string();
            let k = lex(&s)[0].k;
            toks.insert(i, Tok { k, s });
        }
    }
    if toks.windows(2).any(|w| lexes_into_neighbour(&w[0], &w[1])) {
        return Res::Discard;
    }
    let text = lay_out(&toks, Layout::Random, t);
    c09_case(&text.text, cx, t)
}

fn c09_literal(t: &mut Tape, cx: &mut Cx) -> Res {
    let (_, toks) = syn_program(t, 0);
    let at: Vec<usize> = (0..toks.len())
        .filter(|i| matches!(toks[*i].k, TK::Int | TK::Str | TK::Ident | TK::Float))
        .collect();
    if at.is_empty() {
        return Res::Discard;
    }
    let i = at[t.below(at.len())];
    let text = lay_out(&toks, Layout::Random, t);
    let (a, b) = text.spans[i];
    let bad = *t.pick(&[
        "9223372036854775808",
        "\"abc\\q\"",
        "\"é\\ud\"",
        "\"open",
        "\\open",
        "123456789012345678901234567890",
        "\"\\",
    ]);
    let mut s = text.text.clone();
    s.replace_range(a..b, bad);
    c09_case(&s, cx, t)
}

fn c09_args(t: &mut Tape, cx: &mut Cx) -> Res {
    // Too many parameters or arguments: the construct's start.
    let k = t.range(256, 260);
    let many = |x: &str| vec![x; k].join(", ");
    let names: Vec<String> = (0..k).map(|i| format!("p{}", i)).collect();
    let names = names.join(", ");
    let pre = *t.pick(&["", "é\n", "\"😀\" ", "x = 1\n  ", "// 漢\r\n", "let q = "]);
    let body = match t.below(5) {
        0 => format!("f({})", many("1")),
        1 => format!("|{}| 1", names),
        2 => format!("a.b({})", many("x")),
        3 if !pre.starts_with("let") => format!("fn f({}) {{}}", names),
        4 if !pre.starts_with("let") => format!("op +({}) {{}}", names),
        _ => format!("super({})", many("1")),
    };
    if pre == "\"😀\" " && body.starts_with('|') {
        return Res::Discard;
    }
    let text = format!("{}{}", pre, body);
    c09_case(&text, cx, t)
}

fn c09_pieces(t: &mut Tape, cx: &mut Cx) -> Res {
    let (text, round, _) = fragment_point(cx.index);
    let text = match round % 2 {
        0 => text,
        _ => format!("let x = {{ {} }}", text),
    };
    let toks: Vec<Tok> = lex(&text).into_iter().map(|x| Tok { k: x.k, s: text[x.start..x.end].to_string() }).collect();
    if toks.is_empty() || toks.windows(2).any(|w| lexes_into_neighbour(&w[0], &w[1])) {
        return Res::Discard;
    }
    let text = lay_out(&toks, Layout::Random, t);
    c09_case(&text.text, cx, t)
}

pub fn c09_syntax_suites() -> Vec<Suite> {
    vec![
        Suite {
            name: "token",
            quick: 360_000,
            thorough: 2_000_000,
            f: c09_token,
            rule: "a well-formed program with one token replaced, inserted or removed, laid out with comments and multi-byte text; code, position and excerpt are compared with the reference parser's offending token; non-trivial when that is not the first token",
        },
        Suite {
            name: "pieces",
            quick: 130_000,
            thorough: 1_000_000,
            f: c09_pieces,
            rule: "every construct with a piece of another put in at every place or in place of every token; non-trivial when the offending token is not the first",
        },
        Suite {
            name: "literal",
            quick: 180_000,
            thorough: 1_000_000,
            f: c09_literal,
            rule: "a well-formed program with one literal or name replaced by a bad literal; non-trivial when the offending token is not the first",
        },
        Suite {
            name: "arguments",
            quick: 2_000,
            thorough: 20_000,
            f: c09_args,
            rule: "calls and declarations with more than 255 arguments; non-trivial when the offending token is not the first",
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// C10, C11

pub fn gen_lines(t: &mut Tape, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..t.below(max + 1) {
        match t.below(8) {
            0 => s.push('\n'),
            1 => s.push_str(t.pick(&["\r\n", "\n\n", "\r", "\n\r", "\u{2028}", "\u{85}"])),
            2 => s.push_str(t.pick(&["é", "ß", "\u{7ff}", "\u{80}", "\u{301}"])),
            3 => s.push_str(t.pick(&["漢", "♥", "\u{800}", "\u{ffff}", "\u{feff}", "\u{fffd}"])),
            4 => s.push_str(t.pick(&["😀", "\u{10000}", "\u{10ffff}", "👩‍👩‍👧"])),
            5 => s.push(char::from_u32(t.below(0x11_0000) as u32).unwrap_or('x')),
            6 => {
                for _ in 0..t.below(6) {
                    s.push((b'a' + t.below(26) as u8) as char);
                }
            }
            _ => s.push_str(t.pick(&["a", " ", "\t", "\u{0}", "\u{7f}"])),
        }
    }
    s
}

fn c10_text(text: &str, cx: &mut Cx) -> Res {
    cx.text = format!("{:?}", text);
    let index = LineIndex::new(text);
    let src = source(text, false);
    let with_path = dice_core::source::Source::with_path(text, "p", dice_core::source::SourceKind::Module);
    for (i, _) in text.char_indices().chain([(text.len(), ' ')]) {
        let (l, c) = position(text, i);
        for (who, idx) in [("LineIndex", &index), ("Source", src.line_index()), ("Source::with_path", with_path.line_index())] {
            let p = idx.position_of(i);
            if (p.line + 1, p.column_utf16 + 1) != (l, c) {
                fail!(
                    "position: {} at byte {}: expected line {} column {}, got line {} column {}",
                    who,
                    i,
                    l - 1,
                    c - 1,
                    p.line,
                    p.column_utf16
                );
            }
        }
    }
    // An error there shows the same.
    let offs: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
    for &i in offs.iter().step_by((offs.len() / 6).max(1)) {
        let e = dice_core::error::Error::new("E1002")
            .with_span(Span::new(i..i))
            .with_source(src.clone());
        let (l, c) = position(text, i);
        let got = shown_position(&e);
        if got != Some(("<Script>".to_string(), l, c)) {
            fail!("rendered position: at byte {} expected {}:{}, got {:?}", i, l, c, got);
        }
    }
    Res::Ok(text.contains('\n') && !text.is_ascii())
}

fn c10_random(t: &mut Tape, cx: &mut Cx) -> Res {
    let s = gen_lines(t, 30);
    c10_text(&s, cx)
}

fn c10_enum(_: &mut Tape, cx: &mut Cx) -> Res {
    let alphabet = ["\n", "a", "é", "漢", "😀", "\r"];
    let k = alphabet.len();
    let mut i = cx.index;
    let mut len = 0;
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= k;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alphabet[i % k]);
        i /= k;
    }
    c10_text(&s, cx)
}

pub fn c10() -> Check {
    Check {
        id: "C10",
        suites: vec![
            Suite {
                name: "enumerated",
                quick: 1 + 6 + 36 + 216 + 1296 + 7776,
                thorough: 1 + 6 + 36 + 216 + 1296 + 7776 + 46656 + 279936,
                f: c10_enum,
                rule: "all texts over {line feed, carriage return, 1- to 4-byte characters} up to a length, at every offset; non-trivial with a line feed and a multi-byte character",
            },
            Suite {
                name: "random",
                quick: 1_600_000,
                thorough: 2_000_000,
                f: c10_random,
                rule: "random texts, at every offset, through the index, the source and a rendered error; non-trivial with a line feed and a multi-byte character",
            },
            Suite {
                name: "large",
                quick: 8_000,
                thorough: 100_000,
                f: c10_big,
                rule: "runs of up to 70,000 lines or characters, at offsets around powers of two and at random ones; non-trivial with more than one line and more than 255 bytes",
            },
        ],
        assumptions: vec!["only line feeds end lines"],
        probes: vec![],
    }
}

/// Runs of lines and characters whose lengths lie around powers of two and ten.
fn big_text(t: &mut Tape, most: usize) -> String {
    let mut s = String::new();
    for _ in 0..t.range(1, 5) {
        let unit = t.pick(&["x", "x", "\n", "\n", "é", "漢", "😀", "ab\n", "é\n", "😀x", "\r\n", "xx\n\n", "  // c\n", "\t"]);
        let around = t.pick(&[1usize, 10, 100, 128, 256, 512, 1000, 1024, 4096, 10_000, 32_768, 65_536, 70_000]);
        let n = (around + t.below(4)).saturating_sub(1 + t.below(3)).max(1).min(most);
        s.push_str(&unit.repeat(n));
        if t.bool() {
            s.push_str(t.pick(&["\n", "a", "é", "😀\n"]));
        }
    }
    s
}

fn c10_big(t: &mut Tape, cx: &mut Cx) -> Res {
    let s = big_text(t, 70_000);
    cx.text = format!("{} bytes: {:?}...", s.len(), s.chars().take(40).collect::<String>());
    let index = LineIndex::new(&s);
    let offs: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    // The positions of all offsets, in one pass.
    let mut at = Vec::with_capacity(offs.len());
    let (mut line, mut col) = (0usize, 0usize);
    for c in s.chars() {
        at.push((line, col));
        if c == '\n' {
            line += 1;
            col = 0;
        } else {
            col += c.len_utf16();
        }
    }
    at.push((line, col));
    let mut judged: Vec<usize> = vec![offs.len() - 1];
    for b in [255usize, 256, 257, 4095, 4096, 65_535, 65_536, 65_537] {
        judged.extend([b, offs.len().saturating_sub(b)]);
    }
    for _ in 0..40 {
        judged.push(t.below(offs.len()));
    }
    for i in judged {
        if i < offs.len() {
            let p = index.position_of(offs[i]);
            if (p.line, p.column_utf16) != at[i] {
                fail!("position: at byte {}: expected {:?}, got line {} column {}", offs[i], at[i], p.line, p.column_utf16);
            }
        }
    }
    let i = t.below(offs.len());
    let e = dice_core::error::Error::new("E1002").with_span(Span::new(offs[i]..offs[i])).with_source(source(&s, false));
    let want = Some(("<Script>".to_string(), at[i].0 + 1, at[i].1 + 1));
    if shown_position(&e) != want {
        fail!("rendered position: at byte {} expected {:?}, got {:?}", offs[i], want, shown_position(&e));
    }
    Res::Ok(line > 0 && s.len() > 255)
}

fn c11_big(t: &mut Tape, cx: &mut Cx) -> Res {
    let text = big_text(t, 1100);
    let offs: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
    let mut spans = vec![(0, text.len())];
    for _ in 0..3 {
        let i = t.below(offs.len());
        let j = if t.bool() { t.range(i, offs.len() - 1) } else { (i + t.below(400)).min(offs.len() - 1) };
        spans.push((offs[i], offs[j]));
    }
    let r = c11_text(&text, &spans, cx);
    if let Res::Ok(_) = r {
        return Res::Ok(text.bytes().filter(|b| *b == b'\n').count() > 30);
    }
    r
}

fn c11_text(text: &str, spans: &[(usize, usize)], cx: &mut Cx) -> Res {
    let src = source(text, false);
    let lines = line_ranges(text);
    let mut nt = false;
    for &(a, b) in spans {
        cx.text = format!("{:?} {}..{}", text, a, b);
        let want: Vec<(usize, usize)> = if a == b {
            // The line the offset lies in, or at the end of.
            match lines.iter().find(|l| l.0 <= a && a < l.1).or_else(|| {
                lines.last().filter(|l| a == l.1 && !text[l.0..l.1].ends_with('\n'))
            }) {
                Some(l) => vec![*l],
                None => continue,
            }
        } else {
            lines.iter().copied().filter(|l| l.0 < b && a < l.1).collect()
        };
        let got: Vec<(usize, usize)> = src.line_index().lines(Span::new(a..b)).map(|s| (s.start, s.end)).collect();
        if got != want {
            fail!("lines: expected {:?}, got {:?}", want, got);
        }
        // What a rendered error shows.
        let e = dice_core::error::Error::new("E1002").with_span(Span::new(a..b)).with_source(src.clone());
        let shown = excerpt(&display(&e));
        let expect: Vec<(usize, String)> = want
            .iter()
            .map(|r| (position(text, r.0).0, text[r.0..r.1].trim_end().to_string()))
            .collect();
        if shown != expect && !text.contains('|') {
            fail!("excerpt: expected {:?}, got {:?}", expect, shown);
        }
        nt |= want.len() > 1;
    }
    Res::Ok(nt)
}

fn c11_random(t: &mut Tape, cx: &mut Cx) -> Res {
    let text = gen_lines(t, 20);
    let offs: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
    let mut spans = Vec::new();
    for _ in 0..6 {
        let i = t.below(offs.len());
        let j = t.range(i, offs.len() - 1);
        spans.push((offs[i], offs[j]));
    }
    c11_text(&text, &spans, cx)
}

fn c11_enum(_: &mut Tape, cx: &mut Cx) -> Res {
    let alphabet = ["\n", "a", "😀"];
    let k = alphabet.len();
    let mut i = cx.index;
    let mut len = 0;
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= k;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alphabet[i % k]);
        i /= k;
    }
    let offs: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    let mut spans = Vec::new();
    for a in 0..offs.len() {
        for b in a..offs.len() {
            spans.push((offs[a], offs[b]));
        }
    }
    c11_text(&s, &spans, cx)
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        suites: vec![
            Suite {
                name: "enumerated",
                quick: 1 + 3 + 9 + 27 + 81 + 243 + 729,
                thorough: 1 + 3 + 9 + 27 + 81 + 243 + 729 + 2187 + 6561,
                f: c11_enum,
                rule: "all texts over {line feed, a, 😀} up to a length with every span; non-trivial when a span touches more than one line",
            },
            Suite {
                name: "random",
                quick: 1_600_000,
                thorough: 2_000_000,
                f: c11_random,
                rule: "random texts with random spans; non-trivial when a span touches more than one line",
            },
            Suite {
                name: "large",
                quick: 8_000,
                thorough: 100_000,
                f: c11_big,
                rule: "runs of up to 1,100 lines or characters, with the whole text and random parts of it as spans; non-trivial with more than 30 lines",
            },
        ],
        assumptions: vec!["an empty span after the final line feed touches no line with text and is not judged"],
        probes: vec![],
    }
}
